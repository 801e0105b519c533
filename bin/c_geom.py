"""G01 bounds of geometry, G02 measures, G03 generated meshes."""
import random
import vlib
import gen_geo as G
from gen_geo import f, add, sub, mul, norm, rndq, rndv, SPECIALQ
from c_mesh import BVS

ALL = G.BOUNDED + ["halfspace", "plane", "triangle"]
CORNERS = [(x, y, z) for x in (-1, 0, 1) for y in (-1, 0, 1) for z in (-1, 0, 1) if (x, y, z) != (0, 0, 0)]

def posel(r, slot, still=0.4):
    q = (1, 0, 0, 0) if r.random() < still else r.choice(SPECIALQ) if r.random() < 0.4 else rndq(r)
    t = [0.0, 0.0, 0.0] if r.random() < 0.25 else [r.choice([1, 1, 20]) * r.uniform(-3, 3) for _ in range(3)]
    return "pose %d %s" % (slot, " ".join(f(x) for x in list(q) + t))

def shape(r, kind):
    b = G.mkshape(r, kind)
    if kind in ("halfspace", "plane") and r.random() < 0.7:
        b = G.Shape(kind, list(r.choice(CORNERS)) + [r.choice([0.0, r.uniform(-3, 3)])])
    if kind == "convex" and r.random() < 0.6:       # away from its origin
        o = [r.choice([1, 3]) * r.uniform(-2, 2) for _ in range(3)]
        b.v = [add(x, o) for x in b.v]
    return b

def closed_mesh(r, slot):
    b = shape(r, "convex")
    ts = [(c[0], c[k], c[k + 1]) for c in b.fc for k in range(1, len(c) - 1)]
    vs = b.v
    if r.random() < 0.4:        # two bodies in one mesh
        b2 = shape(r, "convex"); n = len(vs); o = [3 * r.uniform(-2, 2) for _ in range(3)]
        ts = ts + [(c[0] + n, c[k] + n, c[k + 1] + n) for c in b2.fc for k in range(1, len(c) - 1)]
        vs = vs + [add(x, o) for x in b2.v]
    return "mesh %d %s %d %d %s %d %s" % (slot, r.choice(BVS), r.randint(0, 2), len(vs), " ".join(f(x) for v in vs for x in v), len(ts), " ".join("%d %d %d" % t for t in ts))

def bounds(r, k):
    L = []
    kind = (ALL + ["mesh"])[k % (len(ALL) + 1)]
    for _ in range(2):
        if kind == "mesh": L.append(closed_mesh(r, 0))
        else: L.append(shape(r, kind).line(0))
        L.append("loc 0")
        for _ in range(3):
            L.append(posel(r, 0))
            if kind != "mesh":
                L += ["bv 0 %s %d %s" % (bv, r.randint(0, 2), posel(r, 0)[7:]) for bv in BVS]
                if kind not in ("halfspace", "plane"): L.append("hull 0")
            L.append("world 0 %d" % r.randint(0, 6))
            if kind == "convex": L += ["extreme 0 " + " ".join(f(x) for x in (rndv(r) if r.random() < 0.6 else mul(1.0, r.choice(CORNERS)))) for _ in range(4)]
            if kind in ("halfspace", "plane"): L += ["side 0 " + " ".join(f(5 * x) for x in rndv(r)) for _ in range(3)]
    return L

def masses(r, k):
    kind = (G.BOUNDED + ["mesh", "convex", "mesh"])[k % (len(G.BOUNDED) + 3)]
    L = []
    for _ in range(4):
        L.append(closed_mesh(r, 0) if kind == "mesh" else shape(r, kind).line(0))
        if r.random() < 0.3: L.append(posel(r, 0))
        L.append("mass 0")
    return L

def tesses(r, k):
    kind = ["box", "sphere", "ellipsoid", "cylinder", "cone"][k % 5]
    L = []
    for _ in range(3):
        b = shape(r, kind)
        form = 0 if kind == "box" else r.randint(0, 1)
        n1, n2 = r.randint(6, 10), r.randint(2, 8)
        if form:
            b = G.Shape(kind, [r.choice([0.5, 1.0, 1.0, 2.0, 3.0]) * (1 if kind in ("sphere", "cylinder", "cone") else r.choice([0.7, 1.0, 1.2])) for _ in b.p])
            s = min(b.p) if kind in ("ellipsoid",) else b.p[0]
            n1 = r.randint(24, 60) if kind in ("sphere", "ellipsoid") else r.randint(12, 20)
            if kind in ("sphere", "ellipsoid"): n1 = int(n1 / min(1, s * s)) + 1
            if s > 2: n1 = n1 // 2 if kind not in ("sphere", "ellipsoid") else n1
        L += [b.line(0), posel(r, 0), "tess 0 %s %d %d %d" % (r.choice(["AABB", "OBB", "RSS", "OBBRSS"]), form, n1, n2)]
    return L

def run(prop, tier):
    c = vlib.Check(prop, tier)
    deep = c.thorough
    r = random.Random(vlib.SEED * 1000 + 700 + int(prop[1:]))
    c.assumptions = ["sizes of one body within 1:50", "generated meshes have at least six segments"] if prop == "G03" else ["sizes of one body within 1:50"]
    c.model("MCGeo" if prop == "G01" else "MCMass")
    H, cmds = [], {}
    gen, n = {"G01": (bounds, 400), "G02": (masses, 400), "G03": (tesses, 250)}[prop]
    for k in range(n * (12 if deep else 1)):
        hid = "g%d" % k
        H.append(["H " + hid] + gen(r, k))
        cmds[hid] = H[-1]
    h, = vlib.build_harness("geom")
    outs = c.execute(h, H, "g", secs=20)
    c.validate("TraceGeom", outs, "g", cmds, stops=False)
    return c.finish()
