"""Motion: C01 motions, their bounds and swept boxes; C02 continuous collision."""
import math, random
import vlib
import gen_geo as G
from gen_geo import f, rndq, rndv, axisdir, SPECIALQ
from c_meshq import BVS, mesh, meshline

def fs(v): return " ".join(f(x) for x in v)
def qpose(r, s): return (r.choice(SPECIALQ) if r.random() < 0.5 else rndq(r)), [s * (r.uniform(-1, 1) if r.random() < 0.7 else r.randint(-2, 2) / 2) for _ in range(3)]
def qmul(a, b):
    return (a[0]*b[0]-a[1]*b[1]-a[2]*b[2]-a[3]*b[3], a[0]*b[1]+a[1]*b[0]+a[2]*b[3]-a[3]*b[2], a[0]*b[2]-a[1]*b[3]+a[2]*b[0]+a[3]*b[1], a[0]*b[3]+a[1]*b[2]-a[2]*b[1]+a[3]*b[0])
def near(r, q):
    """an orientation a special angle away from q"""
    a = r.choice([0.0, 0.0, 1e-12, 1e-9, 1e-6, 1e-3, 0.1, 1.0, 2.0, 3.0, math.pi / 2, math.pi - 1e-6, math.pi - 1e-3, math.pi])
    n = math.sqrt(sum(x * x for x in q)); q = [x / n for x in q]
    u = axisdir(r) if r.random() < 0.5 else rndv(r)
    return qmul((math.cos(a / 2), *(math.sin(a / 2) * x for x in u)), q)
def motion(r, k, kind, s, how=None, ends=None):
    if kind == "spline":
        a = r.choice([0.0, 0.3, 1.0, 3.0])
        c = [[s * r.uniform(-1, 1) for _ in range(3)] for _ in range(4)] + [[a * r.uniform(-1, 1) for _ in range(3)] for _ in range(4)]
        if r.random() < 0.2: c[4:] = [c[4]] * 4
        return "motion %d spline 0 %s" % (k, fs([x for v in c for x in v]))
    q1, t1 = qpose(r, s)
    q2, t2 = qpose(r, s)
    if ends: (q1, t1), (q2, t2) = ends
    elif r.random() < 0.5: q2 = near(r, q1)
    if not ends and r.random() < 0.1: t2 = list(t1)
    if how is None: how = r.randint(0, 3 if kind == "linear" else 1)
    return "motion %d %s %d %s %s %s" % (k, kind, how, fs(list(q1) + list(t1)), fs(list(q2) + list(t2)), fs([s * r.uniform(-1, 1) for _ in range(3)]))

def h_motion(r):
    s = r.choice([0.1, 1.0, 1.0, 10.0])
    L, n = [], r.randint(1, 3)
    L.append(G.mkshape(r, r.choice(G.BOUNDED), s * r.choice([0.6, 1.0])).line(0))
    kinds = []
    for k in range(n):
        kinds.append(r.choice(["trans", "linear", "linear", "screw", "screw", "spline"])); L.append(motion(r, k, kinds[k], s))
    for _ in range(r.randint(5, 9)):
        k = r.randrange(n); x = r.random()
        t = r.choice([0.0, 0.0, 1.0, 0.5, r.random(), r.random(), r.random()])
        if x < 0.4: L.append("at %d %s" % (k, f(r.choice([t, t, 1.0 + r.random()]))))
        elif x < 0.6 and kinds[k] in ("linear", "screw"): L.append("sweep %d 0" % k)
        elif x < 0.8: L.append("bound %d rss %s %s %s %s" % (k, f(t), fs(rndv(r) if r.random() < 0.7 else axisdir(r)), fs(list(rndq(r)) + [s * r.uniform(-1, 1) for _ in range(3)]), fs([s * r.random(), s * r.random(), s * r.choice([0, 0.3, 1])])))
        elif kinds[k] == "spline" or True: L.append("bound %d tri %s %s %s" % (k, f(t), fs(rndv(r) if r.random() < 0.7 else axisdir(r)), fs([s * r.uniform(-1, 1) for _ in range(9)])))
    return L

CA = ["box", "sphere", "capsule", "cone", "cylinder", "convex"]
def h_ccd(r, sols=("naive", "ca", "poly"), bvs=BVS, kinds=("trans", "linear", "screw", "spline")):
    s = r.choice([0.3, 1.0, 1.0, 4.0])
    sol = r.choice(sols)
    bv = r.choice(bvs)
    L, what = [], []
    pair = r.random() < 0.4
    if sol == "ca" and pair: bv = r.choice(["RSS", "OBBRSS"])
    for k in range(2):
        x = r.random()
        if sol == "poly" or (sol == "ca" and pair) or (sol == "naive" and x < 0.4): what.append("mesh"); L.append(meshline(r, k, bv, mesh(r, s * 0.6)))
        elif sol == "naive" and x < 0.6: what.append(r.choice([x for x in G.BOUNDED if x != "convex" or what[:1] != ["plane"]])); L.append(G.mkshape(r, what[-1], s * r.choice([0.6, 1.0])).line(k))
        elif sol == "naive" and x < 0.7 and not (what and what[0] in ("halfspace", "plane")): what.append("halfspace" if what == ["convex"] else r.choice(["halfspace", "plane"])); L.append(G.mkshape(r, what[-1], s).line(k))
        else: what.append(r.choice([x for x in CA if x != "convex" or what[:1] != ["plane"]])); L.append(G.mkshape(r, what[-1], s * r.choice([0.3, 0.6])).line(k))
    for _ in range(r.randint(2, 4)):
        how = r.choice([0, 0, 1, 2, 3])
        if sol == "poly": mk = ["trans", "trans"]
        elif how in (1, 2): mk = [r.choice([x for x in kinds if x != "spline"])] * 2
        elif sol == "ca": mk = [r.choice(kinds[:3]), r.choice(kinds[:3])]  # a spline's bound is not one for a part of the time
        else: mk = [r.choice(kinds), r.choice(kinds)]
        # they pass each other, meet on the way, or stay away
        d = rndv(r); side = rndv(r)
        gap = s * r.choice([1.5, 3.0, 3.0])
        off = s * r.choice([0.0, 0.0, 0.3, 0.8, 2.0])
        for k in range(2):
            g = -1 if k else 1
            q1, _ = qpose(r, s); q2 = q1 if r.random() < 0.3 else near(r, q1)
            a = [g * gap * d[c] + (off * side[c] if k else 0) for c in range(3)]
            e = r.choice([-1, -0.3, 0, 0.4, 1])
            b = [e * x + s * 0.2 * r.uniform(-1, 1) for x in a]
            L.append(motion(r, k, mk[k], s, how=r.randint(0, 1) if how in (1, 2) else None, ends=((q1, a), (q2, b))))
        if r.random() < 0.2: L.append("at %d %s" % (r.randint(0, 1), f(r.random())))
        for _ in range(r.choice([1, 1, 2])):
            L.append("ccd 0 1 0 1 %s %s %d %s %d" % (sol, r.choice("ci"), r.choice([1, 2, 5, 10, 10, 17, 33]) if sol == "naive" else 10, f(r.choice([0.0001, 0.0001, 0.1, 0.07])), how))
    return L

def run(prop, tier):
    c = vlib.Check(prop, tier)
    deep = c.thorough
    r = random.Random(vlib.SEED * 1000 + 970 + int(prop[1:]))
    c.assumptions = []
    H, cmds = [], {}
    for k in range((8000 if prop == "C01" else 4000) if deep else (800 if prop == "C01" else 260)):
        hid = "c-%d" % k
        H.append(["H " + hid] + (h_motion(r) if prop == "C01" else h_ccd(r))); cmds[hid] = H[-1]
    h, = vlib.build_harness("ccd")
    outs = c.execute(h, H, "c", secs=20)
    c.validate("TraceCcd", outs, "c", cmds, stops=False)
    return c.finish()
