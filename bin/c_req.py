"""Requests and results: R01 limits, accumulation, warm starts; R02 cost sources."""
import random
import vlib
import gen_geo as G
from gen_geo import f, rndq, rndv, SPECIALQ
from c_meshq import BVS, mesh, meshline, poseline
from c_oct import octree, octline, thr

DBVS = ["RSS", "kIOS", "OBBRSS"]

def pose(r, k, s, spread):
    q = r.choice([(1, 0, 0, 0), r.choice(SPECIALQ)]) if r.random() < 0.5 else rndq(r)
    return poseline(k, q, [s * spread * (r.uniform(-1, 1) if r.random() < 0.7 else r.randint(-2, 2) / 2) for _ in range(3)])

def small_octree(r, s):
    O = octree(r, s)
    while len(O[1]) > 12: O = octree(r, s)
    return O

def history(r, prop):
    s = r.choice([0.3, 1.0, 1.0, 4.0])
    n = 3
    dist = prop == "R01" and r.random() < 0.4
    bv = r.choice(DBVS if dist else BVS)
    L, kinds = [], []
    for k in range(n):
        x = r.random()
        if x < 0.3: kinds.append("mesh"); L.append(meshline(r, k, bv, mesh(r, s)))
        elif x < 0.5: kinds.append("octree"); L.append(octline(k, small_octree(r, s), r.randint(0, 1)))
        else:
            kind = r.choice(G.BOUNDED + ["box", "box"])
            kinds.append(kind); L.append(G.mkshape(r, kind, s * r.choice([0.6, 1.0, 2.0])).line(k))
    spread = r.choice([0.3, 0.8]) if not dist else r.choice([1.0, 3.0])
    L += [pose(r, k, s, spread) for k in range(n)]
    for k in range(n):
        if kinds[k] == "octree":
            L += thr(r, k)
        elif r.random() < (0.5 if prop == "R02" else 0.2):
            # density, occupied from, free up to
            L.append("cost %d %s" % (k, " ".join(f(x) for x in r.choice([(1, 1, 0), (0.5, 1, 0), (0, 1, 0), (2, 1, 0), (0.3, 0.2, 0.1), (0.3, 0.3, 0.1), (0.1, 0.3, 0.1), (0.7, 0.9, 0.1), (3, 4, 1)]))))
    g = False
    for _ in range(r.randint(5, 9)):
        a = r.randrange(n); b = r.choice([k for k in range(n) if k != a])
        x = r.random()
        if x < 0.12: L.append("clear")
        elif x < 0.25: L.append(pose(r, r.randrange(n), s, spread))
        elif dist and x < 0.8:
            L.append("distance %d %d %s %d %d %d" % (a, b, r.choice("ci"), r.randint(0, 1), r.choice([6, 6, 6, 7, 8]), r.choice([0, 0, 1, 2, 2])))
        else:
            cost = 1 if prop == "R02" else int(r.random() < 0.15)
            guess = r.choice([0, 0, 1, 2]) if g else r.choice([0, 0, 1])
            g = g or (guess > 0 and kinds[a] != "mesh" and kinds[b] != "mesh" and kinds[a] != "octree" and kinds[b] != "octree")
            L.append("collide %d %d %s %d %d %d %d %d %d %d %d %s" % (a, b, r.choice("ci"), r.choice([0, 1, 1, 2, 2, 3, 4, 6, 10, 1000, 1000]) if prop == "R01" else r.choice([1, 1, 3, 1000]), r.randint(0, 1),
                     cost, r.randint(0, 1), r.choice([1, 1, 2, 4, 1000, 1000]), guess, r.choice([6, 6, 6, 5, 7, 8]), r.randint(0, 1),
                     " ".join(f(x) for x in rndv(r))))
    return L

def run(prop, tier):
    c = vlib.Check(prop, tier)
    deep = c.thorough
    r = random.Random(vlib.SEED * 1000 + 900 + int(prop[1:]))
    c.assumptions = ["all meshes of a scene have the same type of bounding volume", "octomap itself (its leaves, their boxes and occupancies) is the reference",
                     "iterative solvers are judged to 1e-4 (own solver) or 3e-3 (libccd) of the parts' size"]
    H, cmds = [], {}
    c.model("MCRequest", "MCRequest.cfg" if deep else "MCRequestQ.cfg")
    for k in range(3000 if deep else (300 if prop == "R01" else 200)):
        hid = "r-%d" % k
        H.append(["H " + hid] + history(r, prop)); cmds[hid] = H[-1]
    h, = vlib.build_harness("req")
    outs = c.execute(h, H, "r", secs=30)
    c.validate("TraceReq", outs, "r", cmds, stops=False)
    return c.finish()
