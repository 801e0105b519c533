"""Shape-shape narrowphase: S01 collision truth, S02 contacts, S03 distance, S04 signed distance."""
import random
import vlib, gen_geo as G

INF = ["halfspace", "plane"]

def scene(r, a, b, cmds):
    A, B = G.mkshape(r, a), G.mkshape(r, b)
    st, kn = G.place(r, A, B)
    return [A.line(0), B.line(1), A.poseline(0), B.poseline(1)] + ([kn] if kn else []) + [x for x in cmds]

def queries(r, prop, inf):
    out = []
    for sv in "ci":
        for x, y in ((0, 1), (1, 0)):
            how = r.choice([0, 0, 1])
            if prop == "S01":
                out += ["collide %d %d %s 1 0 %d" % (x, y, sv, how), "collide %d %d %s %d 1 %d" % (x, y, sv, r.choice([1, 10]), how)]
            elif prop == "S02":
                out += ["collide %d %d %s 10 1 %d" % (x, y, sv, how)] + (["collide %d %d %s 1 1 0" % (x, y, sv)] if r.random() < 0.3 else [])
            elif prop == "S03":
                out += ["distance %d %d %s 0 1 %d" % (x, y, sv, how)] + (["distance %d %d %s 0 0 0" % (x, y, sv)] if r.random() < 0.3 else [])
            else:
                out += ["distance %d %d %s 1 1 %d" % (x, y, sv, how)] + (["distance %d %d %s 1 0 0" % (x, y, sv)] if r.random() < 0.3 else [])
    return out

def run(prop, tier):
    c = vlib.Check(prop, tier)
    deep = c.thorough
    r = random.Random(vlib.SEED * 1000 + 100 + int(prop[1:]))
    c.assumptions = ["shapes have sizes between 0.075 and 10 and lie within 20 of the origin", "iterative solvers are judged to 1e-4 (own solver) or 3e-3 (libccd) of the bodies' size"]
    c.model("MCGeo", "MCGeo.cfg" if deep or prop == "S01" else "MCGeoQ.cfg")
    pairs = [(a, b) for a in G.BOUNDED for b in G.BOUNDED]
    n = {"S01": 12, "S02": 14, "S03": 14, "S04": 14}[prop] * (40 if deep else 5)
    H, cmds = [], {}
    if prop in ("S01", "S02"):
        inf = [(a, b) for a in G.BOUNDED + INF for b in G.BOUNDED + INF if (a in INF) != (b in INF) and {a, b} != {"plane", "convex"}]
        if prop == "S01":
            inf += [(a, b) for a in INF for b in INF]
    else:
        inf = []
    for a, b in pairs + inf:
        for k in range(0, n, 14):
            hid = "%s-%s-%d" % (a, b, k // 14)
            L = ["H " + hid]
            for q in range(min(14, n - k)):
                L += scene(r, a, b, queries(r, prop, a in INF or b in INF))
            L += ["tally"]
            H.append(L)
            cmds[hid] = L
    h, = vlib.build_harness("geo")
    outs = c.execute(h, H, "geo", secs=60)
    c.validate("TraceGeo", outs, "geo", cmds, cfg="TraceGeo%s.cfg" % prop, stops=False)
    return c.finish()
