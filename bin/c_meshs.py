"""Queries on a mesh and a shape: M05 collision, M06 distance."""
import random
import vlib
import gen_geo as G
from gen_geo import f, add, sub, mul, dot, norm, unit, mv, rndq, rndv, qmat, SPECIALQ
from c_meshq import BVS, mesh, meshline, poseline

DIST_BVS = ["RSS", "kIOS", "OBBRSS"]

def place(r, M, B, far):
    """a pose of the mesh and of the shape: at random, or a small gap or overlap between a point of a triangle and a point of the shape"""
    q = r.choice(SPECIALQ) if r.random() < 0.5 else rndq(r)
    t = [0.0, 0.0, 0.0] if r.random() < 0.35 else [far * r.uniform(-3, 3) for _ in range(3)]
    A = qmat(q)
    wm = [add(mv(A, x), t) for x in M[0]]
    B.pose(r.choice([q, (1, 0, 0, 0), r.choice(SPECIALQ)]) if r.random() < 0.5 else rndq(r), [0.0, 0.0, 0.0])
    s = min(max(norm(x) for x in M[0]), B.scale())
    tri = r.choice(M[1]); u = sorted([r.random(), r.random()])
    pa = add(add(mul(u[0], wm[tri[0]]), mul(u[1] - u[0], wm[tri[1]])), mul(1 - u[1], wm[tri[2]]))
    if r.random() < 0.3: pa = wm[r.choice(tri)]
    if B.kind in ("halfspace", "plane"):
        n = unit(mv(B.R, B.p[:3]))
        d = B.p[3] / norm(B.p[:3])
        B.t = add(mul(dot(pa, n) - d + r.choice([0.02, -0.02, 0.2, -0.3, 1.0]) * s, n), [0, 0, 0])
        return [poseline(0, q, t), B.poseline(1)]
    x = r.random()
    n = rndv(r) if r.random() < 0.6 else unit(mv(A, G.axisdir(r)))
    if x < 0.35:      # inside the shape, or touching it
        B.t = sub(pa, mul(r.choice([0.0, 0.3, 0.7, 0.95]), B.sup(n)))
    elif x < 0.75:    # a gap in front of that point, or of the whole mesh
        g = r.choice([0.01, 0.05, 0.3, 1.0]) * s
        B.t = add(pa, sub(mul(g, n), B.sup(mul(-1.0, n))))
        if r.random() < 0.5:
            B.t = add(B.t, mul(max(dot(p, n) for p in wm) - dot(pa, n), n))
    else:
        B.t = add(pa, mul((s + B.scale()) * r.uniform(0.1, 1.5), n))
    return [poseline(0, q, t), B.poseline(1)]

def scene(r, bv, kind, prop):
    L = []
    s = r.choice([0.3, 1.0, 1.0, 3.0])
    M, B = mesh(r, s), G.mkshape(r, kind, s * r.choice([0.3, 1.0, 1.0, 2.0]))
    L += [meshline(r, 0, bv, M), B.line(1)]
    for _ in range(2):
        L += place(r, M, B, r.choice([1.0, 1.0, 5.0]))
        n = len(M[1])
        for sv in "ci":
            for _ in range(r.choice([1, 2])):
                a = r.randint(0, 1)
                if prop == "M05": L.append("collide %d %d %s %d %d %d" % (a, 1 - a, sv, r.choice([1, 2, n, 2 * n + 1, 1000]), r.randint(0, 1), r.randint(0, 1)))
                else: L.append("distance %d %d %s 0 %d %d" % (a, 1 - a, sv, r.choice([0, 1, 1]), r.randint(0, 1)))
    return L

def run(prop, tier):
    c = vlib.Check(prop, tier)
    deep = c.thorough
    r = random.Random(vlib.SEED * 1000 + 600 + int(prop[1:]))
    c.assumptions = ["triangles have area (height over longest side at least 1 percent)", "the mesh and the shape differ in size by less than 1:50",
                     "iterative solvers are judged to 1e-4 (own solver) or 3e-3 (libccd) of the bodies' size"]
    c.model("MCGeo", "MCGeo.cfg" if deep else "MCGeoQ.cfg")
    bvs = BVS if prop == "M05" else DIST_BVS
    kinds = G.BOUNDED + (["halfspace", "plane"] if prop == "M05" else [])
    H, cmds = [], {}
    per = (50 if deep else 6) * (1 if prop == "M05" else 3)
    for bv in bvs:
        for kind in kinds:
            for k in range(per):
                hid = "%s-%s-%d" % (bv, kind, k)
                H.append(["H " + hid] + scene(r, bv, kind, prop) + scene(r, bv, kind, prop) + ["tally"])
                cmds[hid] = H[-1]
    h, = vlib.build_harness("geo")
    outs = c.execute(h, H, "ms", secs=30)
    c.validate("TraceMeshS", outs, "ms", cmds, stops=False)
    return c.finish()
