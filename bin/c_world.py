"""Whole queries with the library's callbacks: W01 collision, W02 distance."""
import random
import vlib
import gen_geo as G
from gen_geo import f, add, mul, norm, unit, mv, rndq, rndv, qmat, SPECIALQ
from gen_bp import KINDS
from c_meshq import BVS, mesh, meshline, poseline
from c_oct import octree, octline

DBVS = ["RSS", "kIOS", "OBBRSS"]

def things(r, prop, n, s):
    """slot -> how to say it; one kind of bounding volume for all meshes (others are not supported together)"""
    if s < 0.01: return [("shape", G.mkshape(r, "sphere", s).line(k)) for k in range(n)]
    bv = r.choice(BVS if prop == "W01" else DBVS)
    unb = prop == "W01" and r.random() < 0.35
    convex = r.random() < 0.5
    X = []
    for k in range(n):
        x = r.random()
        if x < 0.25: X.append(("mesh", meshline(r, k, bv, mesh(r, s * r.choice([0.5, 1.0])))))
        elif x < 0.45: X.append(("octree", octline(k, octree(r, s * r.choice([0.5, 1.0])), r.randint(0, 1))))
        else:
            kind = r.choice([q for q in G.BOUNDED if q != "convex" or (convex and not unb)])
            if unb and r.random() < 0.5: kind = r.choice(["plane", "halfspace"])
            X.append(("flat" if kind in ("plane", "halfspace") else "shape", G.mkshape(r, kind, s * r.choice([0.3, 0.6, 1.0, 2.0])).line(k)))
    return X

def pose(r, k, s, spread, flat=False):
    q = (1, 0, 0, 0) if flat and r.random() < 0.6 else r.choice([(1, 0, 0, 0), r.choice(SPECIALQ)]) if r.random() < 0.4 else rndq(r)
    return poseline(k, q, [s * spread * (r.uniform(-1, 1) if r.random() < 0.7 else r.randint(-2, 2) / 2) for _ in range(3)])

def query(r, prop, mem, n, svs="ci", costly=True):
    m = r.choice([0, 0, 1])
    what = r.choice(["self", "obj", "mgr"])
    s = r.randrange(n)
    if what == "obj":       # the object asked about is not one of the manager's own
        out = [k for k in range(n) if k not in mem[m]]
        if out: s = r.choice(out)
        else: what = "self"
    if prop == "W01": return "collide %d %s %d %s %d %d %d" % (m, what, s, r.choice(svs), r.choice([1, 2, 5, 100, 1000, 1000]), r.randint(0, 1), int(costly and r.random() < 0.2))
    return "distance %d %s %d %s %d" % (m, what, s, r.choice(svs), r.randint(0, 1))

def history(r, prop):
    n = r.randint(3, 7)
    s = r.choice([0.3, 1.0, 1.0, 2.0])
    tiny = r.random() < 0.08       # balls smaller than any tolerance of the library, but with exact distances
    if tiny: s = r.choice([1e-4, 3e-4, 1e-3])
    X = things(r, prop, n, s)
    costly = sum(x[0] == "octree" for x in X) < 2
    spread = r.choice([1.5, 2.5, 4.0]) if prop == "W01" else r.choice([2.0, 4.0, 8.0])
    L = [x[1] for x in X] + [pose(r, k, s, spread, X[k][0] == "flat") for k in range(n)]
    if prop == "W01" and r.random() < 0.5: L += ["cost %d %s" % (k, f(r.choice([1, 2, 3]))) for k in range(n) if X[k][0] != "octree"]
    mem = [set(), set()]
    for k in range(n):
        m = r.choice([0, 0, 1, 1, 2])
        if m < 2: L.append("reg %d %d" % (m, k)); mem[m].add(k)
    L += ["setup 0", "setup 1"]
    for _ in range(r.randint(2, 4)):
        L += [query(r, prop, mem, n, "i" if tiny else "ci", costly) for _ in range(r.choice([1, 2, 3]))]
        x = r.random()
        if x < 0.65:
            ks = r.sample(range(n), r.choice([1, 1, 2, 3]))
            for k in ks: L.append(pose(r, k, s, spread, X[k][0] == "flat"))
            for m in (0, 1):
                mine = [k for k in ks if k in mem[m]]
                if len(mine) == 1 and r.random() < 0.5: L.append("update %d %d" % (m, mine[0]))
                elif mine: L.append("update %d" % m)
        elif x < 0.8:
            m = r.randint(0, 1)
            if mem[m]:
                k = r.choice(sorted(mem[m])); mem[m].discard(k); L.append("unreg %d %d" % (m, k))
        else:
            m = r.randint(0, 1)
            new = [k for k in range(n) if k not in mem[0] | mem[1]]
            if new:
                k = r.choice(new); mem[m].add(k); L += ["reg %d %d" % (m, k), "setup %d" % m]
    return L + [query(r, prop, mem, n, "i" if tiny else "ci", costly)]

def flats(r):
    """planes and half spaces along the axes, whose boxes are unbounded on some sides only, moving among small shapes"""
    n = r.randint(3, 5)
    X = []
    for k in range(n):
        if k < r.choice([1, 2]): X.append("shape %d %s %s %s" % (k, r.choice(["plane", "halfspace"]), " ".join(f(x) for x in G.axisdir(r)), f(r.uniform(-1, 1))))
        else: X.append(G.mkshape(r, r.choice(["sphere", "box", "capsule"]), 0.6).line(k))
    there = lambda k: poseline(k, (1, 0, 0, 0), [r.uniform(-4, 4) for _ in range(3)])
    L = X + [there(k) for k in range(n)]
    mem = {k: r.choice([0, 0, 0, 1]) for k in range(n)}
    L += ["reg %d %d" % (mem[k], k) for k in range(n)] + ["setup 0", "setup 1"]
    for _ in range(6):
        for k in r.sample(range(n), r.choice([1, 1, 2])):
            L += [there(k), "update %d %d" % (mem[k], k)]
        L.append("collide %d %s 0 %s 1000 0 0" % (r.choice([0, 0, 1]), r.choice(["self", "mgr"]), r.choice("ci")))
    return L

def run(prop, tier):
    c = vlib.Check(prop, tier)
    deep = c.thorough
    r = random.Random(vlib.SEED * 1000 + 800 + int(prop[1:]))
    c.assumptions = ["all meshes of a scene have the same type of bounding volume", "octomap itself (its leaves, their boxes and occupancies) is the reference",
                     "iterative solvers are judged to 1e-4 (own solver) or 3e-3 (libccd) of the parts' size"]
    H, cmds = [], {}
    c.model("MCGeo", "MCGeo.cfg" if deep else "MCGeoQ.cfg")
    c.model("MCPoly", "MCPoly.cfg" if deep else "MCPolyQ.cfg")
    for name, p in KINDS:
        for k in range(200 if deep else 20):
            hid = "%s-%d" % (name, k)
            H.append(["H %s %d %s" % (hid, r.randint(0, 1), p)] + history(r, prop)); cmds[hid] = H[-1]
    if prop == "W01":
        for name, p in KINDS:
            for k in range(40 if deep else 5):
                hid = "%s-f%d" % (name, k)
                H.append(["H %s 1 %s" % (hid, p)] + flats(r)); cmds[hid] = H[-1]
    h, = vlib.build_harness("world")
    outs = c.execute(h, H, "w", secs=30)
    c.validate("TraceWorld", outs, "w", cmds, stops=False)
    return c.finish()
