"""V01: bounding volumes as sets of points."""
import random
import vlib
from gen_geo import f, rndq, SPECIALQ
from c_mesh import BVS, Pts

def pose(r, near=None):
    q = r.choice(SPECIALQ) if r.random() < 0.4 else rndq(r)
    t = [r.uniform(-3, 3) for _ in range(3)] if near is None else near
    return " ".join(f(x) for x in list(q) + list(t))

def history(r, bv, n):
    L, live = [], []
    g = Pts(r)
    seen = []
    def pts(k):
        h = g if r.random() < 0.7 else Pts(r, g.style)
        off = [r.choice([0, 0, r.uniform(-6, 6)]) for _ in range(3)]
        out = []
        for _ in range(k):
            if seen and r.random() < 0.15: out.append(r.choice(seen))
            else: out.append([x + o for x, o in zip(h.one(), off)])
        seen.extend(out)
        return out
    def P(ps): return " ".join(f(x) for p in ps for x in p)
    for _ in range(n):
        x = r.random()
        if len(live) < 2 or x < 0.2:
            k = r.choice([1, 2, 3, 3, 4, 5, 6, 6, 8, 12]); d = len(live) if len(live) < 5 else r.choice(live)
            if r.random() < 0.12: L.append("one %d %s" % (d, P(pts(1))))
            else: L.append("fit %d %d %s" % (d, k, P(pts(k))))
            if d not in live: live.append(d)
            continue
        a, b = r.choice(live), r.choice(live)
        if x < 0.32: L.append("addp %d %s" % (a, P(pts(1))))
        elif x < 0.44:
            d = r.choice(live + [5, 6]); L.append("merge %d %d %d %d" % (d, a, b, r.randint(0, 1)))
            if d not in live: live.append(d)
        elif x < 0.48: L.append("trans %d %d %s" % (r.choice(live), a, " ".join(f(r.uniform(-3, 3)) for _ in range(3))))
        elif x < 0.56: L.append("conv %d %s %s" % (a, r.choice(["AABB", "OBB", "RSS"]), pose(r)))
        elif x < 0.66: L.append("over %d %d" % (a, b))
        elif x < 0.74: L.append("overrel %d %d %s" % (a, b, pose(r) if r.random() < 0.8 else "1 0 0 0 " + " ".join(f(r.uniform(-1, 1)) for _ in range(3))))
        elif x < 0.80: L.append("dist %d %d %d" % (a, b, r.randint(0, 1)))
        elif x < 0.86: L.append("distrel %d %d %s" % (a, b, pose(r, [r.uniform(-8, 8) for _ in range(3)])))
        elif x < 0.95:
            p = r.choice(seen) if r.random() < 0.5 else [c + r.gauss(0, 1) for c in r.choice(seen)]
            if r.random() < 0.3: q = r.choice(seen); p = [(u + v) / 2 for u, v in zip(p, q)]
            L.append("cont %d %s" % (a, " ".join(f(c) for c in p)))
        elif x < 0.97 or bv != "AABB": L.append("meas %d" % a)
        else: L.append(r.choice(["part %d %d" % (a, b), "holds %d %d" % (a, b), "axis %d %d %d" % (a, b, r.randint(0, 2)), "grow %d %d %s" % (r.choice(live), a, " ".join(f(r.uniform(0, 1)) for _ in range(3)))]))
    return L

def run(prop, tier):
    c = vlib.Check(prop, tier)
    deep = c.thorough
    r = random.Random(vlib.SEED * 1000 + 300 + int(prop[1:]))
    c.assumptions = ["answers within 5e-5 of the extent of the volumes around touching are free", "OBB and k-DOP distances are not implemented by the library and not judged"]
    c.model("MCPoly", "MCPoly.cfg" if deep else "MCPolyQ.cfg")
    H, cmds = [], {}
    for k in range(14000 if deep else 1600):
        bv = BVS[k % 8]
        hid = "v%d-%s" % (k, bv)
        H.append(["H %s %s" % (hid, bv)] + history(r, bv, r.choice([10, 20, 30])))
        cmds[hid] = H[-1]
    h, = vlib.build_harness("bv")
    outs = c.execute(h, H, "bv", secs=20)
    c.validate("TraceBV", outs, "bv", cmds)
    return c.finish()
