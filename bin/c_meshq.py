"""Queries on meshes: M03 mesh-mesh collision, M04 mesh-mesh distance."""
import math, random
import vlib
import gen_geo as G
from gen_geo import f, add, sub, mul, dot, cross, norm, unit, mv, rndq, rndv, qmat, SPECIALQ

BVS = ["AABB", "OBB", "RSS", "kIOS", "OBBRSS", "KDOP16", "KDOP18", "KDOP24"]
PAST = [0, 0, 0, 1, 2, 3, 4, 5]
DIST_BVS = ["AABB", "RSS", "kIOS", "OBBRSS"]

def fat(a, b, c):
    u, v = sub(b, a), sub(c, a)
    return norm(cross(u, v)) > 1e-2 * max(norm(u), norm(v), norm(sub(c, b))) ** 2

def soup(r, n, s):
    v, t = [], []
    while len(t) < n:
        o = [r.uniform(-s, s) for _ in range(3)]
        p = [add(o, [r.uniform(-1, 1) * s * 0.6 for _ in range(3)]) for _ in range(3)]
        if fat(*p):
            t.append((len(v), len(v) + 1, len(v) + 2)); v += p
    return v, t
def box(r, s):
    a = [s * r.choice([0.3, 0.5, 1.0, r.uniform(0.2, 1)]) for _ in range(3)]
    v = [[x * a[0], y * a[1], z * a[2]] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)]
    q = [[0, 1, 3, 2], [4, 6, 7, 5], [0, 4, 5, 1], [2, 3, 7, 6], [0, 2, 6, 4], [1, 5, 7, 3]]
    return v, [x for c in q for x in ((c[0], c[1], c[2]), (c[0], c[2], c[3]))]
def grid(r, s):
    n, m = r.choice([(1, 1), (2, 1), (2, 2), (3, 2)])
    z = r.choice([0.0, 0.0, 0.3])
    v = [[s * (2.0 * i / n - 1), s * (2.0 * j / m - 1), z * s * r.uniform(-1, 1)] for i in range(n + 1) for j in range(m + 1)]
    t = []
    for i in range(n):
        for j in range(m):
            a, b, c, d = i * (m + 1) + j, (i + 1) * (m + 1) + j, (i + 1) * (m + 1) + j + 1, i * (m + 1) + j + 1
            t += [(a, b, c), (a, c, d)]
    return v, t
def tet(r, s):
    v = [[s, s, s], [-s, -s, s], [-s, s, -s], [s, -s, -s]]
    return v, [(0, 1, 2), (0, 3, 1), (0, 2, 3), (1, 3, 2)]
def lattice(r, s):
    v, t = [], []
    n = r.choice([1, 2, 4, 6])
    while len(t) < n:
        p = [[s * 0.5 * r.randint(-2, 2) for _ in range(3)] for _ in range(3)]
        if fat(*p):
            t.append((len(v), len(v) + 1, len(v) + 2)); v += p
    return v, t
def mesh(r, s=None):
    if s is None: s = r.choice([0.01, 0.3, 1.0, 1.0, 3.0, 20.0])
    k = r.random()
    if k < 0.35: return soup(r, r.choice([1, 1, 2, 3, 5, 8, 12]), s)
    if k < 0.55: return box(r, s)
    if k < 0.7: return grid(r, s)
    if k < 0.8: return tet(r, s)
    return lattice(r, s)
def meshline(r, slot, bv, m, how=None):
    v, t = m
    if how is None: how = r.randint(0, 5) + 6 * r.choice(PAST)
    return "mesh %d %s %d %d %s %d %s" % (slot, bv, how, len(v), " ".join(f(x) for p in v for x in p), len(t), " ".join("%d %d %d" % x for x in t))
def poseline(slot, q, t):
    return "pose %d %s" % (slot, " ".join(f(x) for x in list(q) + list(t)))

def place(r, A, B, far):
    """poses of two meshes: overlapping at random, or a small gap apart along some direction"""
    qa = r.choice(SPECIALQ) if r.random() < 0.5 else rndq(r)
    ta = [0.0, 0.0, 0.0] if r.random() < 0.35 else [far * r.uniform(-3, 3) for _ in range(3)]
    qb = r.choice([qa, (1, 0, 0, 0), r.choice(SPECIALQ)]) if r.random() < 0.5 else rndq(r)
    Ra, Rb = qmat(qa), qmat(qb)
    sa, sb = max(norm(x) for x in A[0]), max(norm(x) for x in B[0])
    wa = [add(mv(Ra, x), ta) for x in A[0]]
    wb = [mv(Rb, x) for x in B[0]]
    x = r.random()
    if x < 0.15:
        tb = [0.0, 0.0, 0.0]
    elif x < 0.5:         # a corner (or a point of an edge) of B near a point of a triangle of A
        t = r.choice(A[1]); u = sorted([r.random(), r.random()])
        pa = add(add(mul(u[0], wa[t[0]]), mul(u[1] - u[0], wa[t[1]])), mul(1 - u[1], wa[t[2]]))
        if r.random() < 0.3: pa = wa[r.choice(t)]
        t = r.choice(B[1]); k = r.choice([0.0, 0.0, r.random()])
        pb = add(mul(1 - k, wb[t[0]]), mul(k, wb[t[1]]))
        tb = add(sub(pa, pb), mul(r.choice([0, 1e-5, 1e-3, 0.05, 0.3]) * min(sa, sb), rndv(r)))
    elif x < 0.85:
        n = rndv(r) if r.random() < 0.5 else unit(mv(Ra, G.axisdir(r)))
        g = r.choice([1e-4, 1e-2, 0.1, 1.0, -1e-3, -0.05, -0.3]) * min(sa, sb)
        tb = add(mul(max(dot(p, n) for p in wa) - min(dot(p, n) for p in wb) + g, n), [0, 0, 0])
        if r.random() < 0.7:      # centered besides
            c = [sum(p[k] for p in wa) / len(wa) for k in range(3)]
            tb = add(tb, sub(c, mul(dot(c, n), n)))
    else:
        tb = add(ta, mul((sa + sb) * r.uniform(0.1, 1.2), rndv(r)))
    return [poseline(0, qa, ta), poseline(1, qb, tb)]

def scene(r, bv, prop):
    A, B = mesh(r), mesh(r)
    L = [meshline(r, 0, bv, A), meshline(r, 1, bv, B)]
    for _ in range(r.choice([1, 2, 3])):
        L += place(r, A, B, r.choice([1.0, 1.0, 10.0]))
        n = len(A[1]) * len(B[1])
        for _ in range(r.choice([2, 3, 4])):
            a = r.randint(0, 1)
            if prop == "M03": L.append("collide %d %d c %d %d %d" % (a, 1 - a, r.choice([1, 2, 5, n, 2 * n + 1, 1000]), r.randint(0, 1), r.randint(0, 1)))
            else: L.append("distance %d %d c 0 %d %d" % (a, 1 - a, r.choice([0, 1, 1]), r.randint(0, 1)))
    return L

def run(prop, tier):
    c = vlib.Check(prop, tier)
    deep = c.thorough
    r = random.Random(vlib.SEED * 1000 + 500 + int(prop[1:]))
    c.assumptions = ["triangles have area (height over longest side at least 1 percent)", "pairs within 1e-7 of the scene's extent around touching are free"]
    c.model("MCPoly", "MCPoly.cfg" if deep else "MCPolyQ.cfg")
    bvs = BVS if prop == "M03" else DIST_BVS
    H, cmds = [], {}
    for k in range((16000 if deep else 1600)):
        bv = bvs[k % len(bvs)]
        hid = "q%d-%s" % (k, bv)
        H.append(["H " + hid] + scene(r, bv, prop) + scene(r, bv, prop))
        cmds[hid] = H[-1]
    h, = vlib.build_harness("geo")
    outs = c.execute(h, H, "mq", secs=20)
    c.validate("TraceMeshQ", outs, "mq", cmds, stops=False)
    return c.finish()
