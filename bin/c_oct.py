"""Octrees: O01 collision, O02 distance, O03 what an octree says about itself."""
import math, random
import vlib
import gen_geo as G
from gen_geo import f, add, sub, mul, dot, norm, unit, mv, rndq, rndv, qmat, SPECIALQ
from c_meshq import BVS, mesh, meshline, poseline

DBVS = ["RSS", "OBBRSS", "kIOS", "AABB", "OBB", "KDOP16", "KDOP18", "KDOP24"]

def octree(r, s, many=False):
    """(resolution, [(point, hits)], occupied points): hits negative for misses"""
    res = s * r.choice([0.25, 0.5, 1.0, 0.37])
    n = r.choice([1, 1, 2, 3, 5, 8] + ([20, 60] if many else []))
    span = r.choice([1, 2, 3, 3, 6])
    off = [r.choice([0, 0, r.randint(-9, 9)]) for _ in range(3)]
    pts, occ = [], []
    def put(c, hits):
        p = [(c[k] + off[k] + 0.5) * res for k in range(3)]
        pts.append((p, hits))
        if hits > 0: occ.append(p)
    for _ in range(n):
        put([r.randint(-span, span) for _ in range(3)], r.choice([1, 1, 1, 2, 5, -1, -1, -3]))
    if r.random() < 0.35:     # a block that is pruned to one cell, aligned with the tree or not
        a = r.choice([2, 2, 4] if many else [2]); b = [a * r.randint(-1, 1) - off[k] + (off[k] // a) * a * (r.random() < 0.8) for k in range(3)]
        hits = r.choice([1, 3, 3, -1])
        for x in range(a):
            for y in range(a):
                for z in range(a): put([b[0] + x, b[1] + y, b[2] + z], hits)
    if r.random() < 0.04: return res, [], []      # an empty tree
    if not occ and r.random() < 0.9: put([0, 0, 0], 1)
    return res, pts, occ

def octline(slot, o, prune):
    return "octree %d %s %d %s %d" % (slot, f(o[0]), len(o[1]), " ".join("%s %d" % (" ".join(f(x) for x in p), h) for p, h in o[1]), prune)

def pose(r, far):
    q = r.choice([(1, 0, 0, 0), r.choice(SPECIALQ)]) if r.random() < 0.5 else rndq(r)
    t = [0.0, 0.0, 0.0] if r.random() < 0.35 else [far * r.uniform(-3, 3) for _ in range(3)]
    return q, t

def pick(r, o):
    """a point of an occupied cell"""
    p = r.choice(o[2]) if o[2] and r.random() < 0.8 else r.choice(o[1])[0] if o[1] else [0.0, 0.0, 0.0]
    return [x + o[0] * r.choice([0.0, 0.5, -0.5, r.uniform(-0.5, 0.5)]) for x in p]

def place(r, O, kind, X, far, apart):
    q, t = pose(r, far)
    A = qmat(q)
    pa = add(mv(A, pick(r, O)), t)
    s = O[0]
    n = rndv(r) if r.random() < 0.6 else unit(mv(A, G.axisdir(r)))
    away = apart and r.random() < 0.7
    if away:      # in front of all cells
        pa = max((add(mv(A, add(p, [s * a, s * b, s * c])), t) for p in (O[2] or [[0.0, 0.0, 0.0]]) for a in (-0.5, 0.5) for b in (-0.5, 0.5) for c in (-0.5, 0.5)), key=lambda x: dot(n, x))
    g = s * r.choice([0.01, 0.05, 0.3, 1.0, -0.02, -0.2, -0.5, 0.0, 3.0])
    if away: g = abs(g) * r.choice([1.0, 1.0, 5.0])
    if kind == "shape":
        B = X
        B.pose(r.choice([q, (1, 0, 0, 0), r.choice(SPECIALQ)]) if r.random() < 0.5 else rndq(r), [0.0, 0.0, 0.0])
        if B.kind in ("halfspace", "plane"):
            m = unit(mv(B.R, B.p[:3]))
            B.t = mul(dot(pa, m) - B.p[3] / norm(B.p[:3]) + g, m)
        elif r.random() < 0.3: B.t = add(pa, mul(r.random() * s, rndv(r)))
        else: B.t = add(pa, sub(mul(g, n), B.sup(mul(-1.0, n))))
        return [poseline(0, q, t), B.poseline(1)]
    q2 = r.choice([q, (1, 0, 0, 0), r.choice(SPECIALQ)]) if r.random() < 0.5 else rndq(r)
    R2 = qmat(q2)
    if kind == "octree":
        pb = mv(R2, pick(r, X))
        if away: pb = min((mv(R2, add(p, [X[0] * a, X[0] * b, X[0] * c])) for p in (X[2] or [[0.0, 0.0, 0.0]]) for a in (-0.5, 0.5) for b in (-0.5, 0.5) for c in (-0.5, 0.5)), key=lambda x: dot(n, x))
    elif away: pb = min((mv(R2, x) for x in X[0]), key=lambda x: dot(n, x))
    else:
        tri = r.choice(X[1]); u = sorted([r.random(), r.random()])
        v = [X[0][k] for k in tri]
        pb = mv(R2, add(add(mul(u[0], v[0]), mul(u[1] - u[0], v[1])), mul(1 - u[1], v[2])) if r.random() < 0.6 else v[0])
    return [poseline(0, q, t), poseline(1, q2, add(sub(pa, pb), mul(g if away or r.random() < 0.7 else 0.0, n)))]

def thr(r, slot):
    x = r.random()
    if x < 0.2:      # a wide band of uncertain cells
        return ["thr %d %s %s" % (slot, f(r.choice([0.6, 0.75, 0.9])), f(r.choice([0.2, 0.3])))]
    if x < 0.4:
        return ["thr %d %s %s" % (slot, f(r.choice([-1, 0.6, 0.75, 0.9])), f(r.choice([-1, 0.2, 0.45])))]
    return []

def scene(r, other, prop):
    s = r.choice([0.3, 1.0, 1.0, 4.0])
    O = octree(r, s)
    L = [octline(0, O, r.randint(0, 1))] + thr(r, 0)
    if other == "octree":
        X, kind = octree(r, s * r.choice([0.5, 1.0, 1.0])), "octree"
        L += [octline(1, X, r.randint(0, 1))] + thr(r, 1)
    elif other in BVS:
        X, kind = mesh(r, O[0] * r.choice([0.5, 1.0, 2.0])), "mesh"
        L.append(meshline(r, 1, other, X))
    else:
        X, kind = G.mkshape(r, other, O[0] * r.choice([0.3, 0.6, 1.0, 2.0])), "shape"
        L.append(X.line(1))
    for _ in range(2):
        L += place(r, O, kind, X, r.choice([1.0, 1.0, 5.0]), prop == "O02")
        for sv in "ci":
            for _ in range(r.choice([1, 2])):
                a = r.randint(0, 1)
                if prop == "O01": L.append("collide %d %d %s %d %d %d" % (a, 1 - a, sv, r.choice([1, 2, 5, 30, 1000, 1000]), r.randint(0, 1), r.randint(0, 1)))
                else: L.append("distance %d %d %s 0 %d %d" % (a, 1 - a, sv, r.choice([0, 1, 1]), r.randint(0, 1)))
    return L

def inspect(r):
    L = []
    for _ in range(3):
        O = octree(r, r.choice([0.05, 0.3, 1.0, 4.0]), True)
        L += [octline(0, O, r.randint(0, 1)), "inspect 0"]
        for _ in range(4):
            u = [r.choice([0.0, 0.9, -0.9, 1.0, -1.0, r.uniform(-1, 1)]) for _ in range(3)]
            L.append("lookup 0 %d %s" % (r.randint(0, 99), " ".join(f(x) for x in u)))
        L += thr(r, 0) + thr(r, 0) + thr(r, 0) + ["inspect 0"]
    return L

def run(prop, tier):
    c = vlib.Check(prop, tier)
    deep = c.thorough
    r = random.Random(vlib.SEED * 1000 + 700 + int(prop[1:]))
    c.assumptions = ["octomap itself (its leaves, their boxes and occupancies) is the reference", "triangles have area (height over longest side at least 1 percent)",
                     "iterative solvers are judged to 1e-4 (own solver) or 3e-3 (libccd) of the parts' size"]
    H, cmds = [], {}
    if prop == "O03":
        for k in range(4000 if deep else 500):
            hid = "in%d" % k
            H.append(["H " + hid] + inspect(r)); cmds[hid] = H[-1]
    else:
        c.model("MCGeo", "MCGeo.cfg" if deep else "MCGeoQ.cfg")
        c.model("MCPoly", "MCPoly.cfg" if deep else "MCPolyQ.cfg")
        others = (["octree"] * 4 + (BVS if prop == "O01" else DBVS) + G.BOUNDED + (["halfspace", "plane"] if prop == "O01" else []))
        for n, other in enumerate(others):
            for k in range(100 if deep else 12):
                hid = "%s-%d-%d" % (other, n, k)
                H.append(["H " + hid] + scene(r, other, prop) + scene(r, other, prop) + ["tally"]); cmds[hid] = H[-1]
    h, = vlib.build_harness("oct")
    outs = c.execute(h, H, "oc", secs=30)
    c.validate("TraceOct", outs, "oc", cmds, stops=False)
    return c.finish()
