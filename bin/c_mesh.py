"""Mesh models: M01 life cycle, M02 hierarchies; M03.. queries on meshes."""
import random
import vlib
from gen_geo import f

BVS = ["AABB", "OBB", "RSS", "kIOS", "OBBRSS", "KDOP16", "KDOP18", "KDOP24"]

class Pts:
    """A source of points: coordinates on a lattice (coincident, collinear and
    coplanar points), generic, on a line, far from the origin, tiny."""
    def __init__(self, r, style=None):
        self.r = r
        self.style = style or r.choice(["lattice", "generic", "generic", "line", "plane", "far", "tiny", "flat", "blob"])
        self.o = [r.uniform(-50, 50) for _ in range(3)]
        self.d = [r.uniform(-1, 1) for _ in range(3)]
        self.e = [r.uniform(-1, 1) for _ in range(3)]
    def one(self):
        r, s = self.r, self.style
        if s == "lattice": return [float(r.randint(-2, 2)) for _ in range(3)]
        if s == "generic": return [r.uniform(-3, 3) for _ in range(3)]
        if s == "line": t = r.uniform(-3, 3); return [self.o[k] + t * self.d[k] for k in range(3)]
        if s == "plane": t, u = r.uniform(-3, 3), r.uniform(-2, 2); return [t * self.d[k] + u * self.e[k] for k in range(3)]
        if s == "far": return [self.o[k] * 20 + r.uniform(-1, 1) for k in range(3)]
        if s == "tiny": return [self.o[k] * 0.02 + r.uniform(-1e-3, 1e-3) for k in range(3)]
        if s == "flat": return [r.uniform(-5, 5), r.uniform(-3, 3), r.choice([0.0, 0.0, 1e-4, 0.05])]
        return [r.gauss(0, 1) * (3, 1, 0.4)[k] for k in range(3)]
    def tri(self):
        """three corners, not on one line (unless the style is a line)"""
        for _ in range(50):
            a, b, c = self.one(), self.one(), self.one()
            u, v = [b[k] - a[k] for k in range(3)], [c[k] - a[k] for k in range(3)]
            n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
            lu, lv, ln = (sum(x * x for x in w) ** 0.5 for w in (u, v, n))
            if ln > 1e-3 * (lu * lv + 1e-12):
                return [a, b, c]
        return [a, b, c]
def P(ps):
    return "%d %s" % (len(ps), " ".join(f(x) for p in ps for x in p))

def op(r, g, name):
    """a symbolic operation of MCMeshModel as a command"""
    k = {"addv": 1, "repv": 1, "updv": 1, "addt": 3, "rept": 3, "updt": 3, "adds": 2, "reps": 2, "upds": 2}
    if name == "begin": return "begin %d %d" % (r.choice([0, 0, 1, 8, -1]), r.choice([0, 1, 3, 8]))
    if name in k: return "%s %s" % (name, P([g.one() for _ in range(k[name])]))
    if name == "addst":
        a = g.tri()
        return "addst %s 2 0 1 2 3 0 2" % P(a + [g.one()])
    if name[:4] in ("erep", "eupd"): return "%s %s" % (name[:4], {"rb": "1 1", "bt": "1 0", "nn": "0 0"}[name[4:]] if r.random() < 0.8 else "0 1")
    return name

def life(r, g, n):
    """a random history of calls in a mostly sensible order, with larger models"""
    L, nv, st, fresh = [], 0, "E", 0
    for _ in range(n):
        x = r.random()
        if x < 0.12: L.append(r.choice(["end", "brep", "bupd", "copy", op(r, g, "erepnn"), op(r, g, "eupdrb"), "copy", "begin 0 0", op(r, g, "addt"), op(r, g, "reps"), op(r, g, "upds"), op(r, g, "adds")])); c = L[-1]
        elif st == "E": c = op(r, g, "begin"); L.append(c)
        elif st == "B":
            y = r.random()
            if y < 0.25 and nv: c = "end"
            elif y < 0.4: c = "adds %s" % P([g.one() for _ in range(r.choice([0, 1, 2, 5, 9, 17]))])
            elif y < 0.7:
                k = r.choice([3, 4, 8, 9, 15])
                ps = [g.one() for _ in range(k)]
                ts = [tuple(r.sample(range(k), 3)) for _ in range(r.choice([1, 2, 7, 8, 9, 16]))]
                c = "addst %s %d %s" % (P(ps), len(ts), " ".join("%d %d %d" % t for t in ts))
            else: c = op(r, g, r.choice(["addt", "addv"]))
            L.append(c)
        elif st in "PU": c = r.choice((["brep"] if st == "P" else []) + ["bupd", "bupd", "copy"]); L.append(c)
        else:
            left = nv - fresh
            a, b = ("rep", "erep") if st == "R" else ("upd", "eupd")
            if left == 0: c = "%s %d %d" % (b, r.randint(0, 1), r.randint(0, 1))
            else:
                k = r.choice([1, 3, left, left, left, left + 1])
                c = (a + "v " if k == 1 else a + "t " if k == 3 and r.random() < 0.5 else a + "s ") + P([g.one() for _ in range(k)])
            L.append(c)
        # keep track as the library should (only to make histories interesting)
        w = c.split()
        if w[0] == "begin": st, nv = ("B", 0) if st == "E" else ("E", 0)
        elif w[0] in ("addv", "addt", "adds", "addst") and st == "B": nv += int(w[1])
        elif w[0] == "end" and st == "B" and nv: st = "P"
        elif w[0] == "brep" and st == "P": st, fresh = "R", 0
        elif w[0] == "bupd" and st in "PU": st, fresh = "W", 0
        elif w[0][:3] == {"R": "rep", "W": "upd"}.get(st) and fresh + int(w[1]) <= nv: fresh += int(w[1])
        elif w[0] == {"R": "erep", "W": "eupd"}.get(st) and fresh == nv: st = "P" if st == "R" else "U"
        if r.random() < 0.35: L.append("obs")
    return L + ["obs"]

def build(r, g, n, cloud):
    """a model of n primitives, then some replacements and updates; hierarchy inspected after each"""
    L = ["begin 0 0"]
    if cloud: nv = n; L.append("adds " + P([g.one() for _ in range(n)]))
    else:
        k = r.random()
        if k < 0.4:
            nv = 3 * n
            L += ["addt " + P(g.tri()) for _ in range(n)]
        else:
            nv = max(3, n // 2 + 2)
            ps = [g.one() for _ in range(nv)]
            L.append("addst %s %d %s" % (P(ps), n, " ".join("%d %d %d" % tuple(r.sample(range(nv), 3)) for _ in range(n))))
    L += ["end", "tree"]
    st = "P"
    for _ in range(r.randint(0, 3)):
        if st == "P" and r.random() < 0.5: a, b = "rep", "erep"
        else: a, b = "upd", "eupd"; st = "U"
        h = r.choice([g, Pts(r)])
        L += ["b" + a, a + "s " + P([h.one() for _ in range(nv)]), "%s %d %d" % (b, r.randint(0, 1), r.randint(0, 1))]
        if r.random() < 0.3: L.append("copy")
        L.append("tree")
    return L + ["obs"]

def models(prop, c, r, deep):
    H, cmds = [], {}
    def add(tag, bv, split, lines):
        hid = "%s-%s" % (tag, bv)
        H.append(["H %s %s %d" % (hid, bv, split)] + lines)
        cmds[hid] = H[-1]
    if prop == "M01":
        c.model("MCMeshModel", "MCMeshModel.cfg" if deep else "MCMeshModelQ.cfg")
        paths = c.generate("MCMeshModel", "GenMeshModel.cfg", exhaustive=True)
        for k, p in enumerate(paths):
            g = Pts(r, "generic")
            ops = [x for x in p.split(";") if x]
            L = []
            for j, x in enumerate(ops):
                L.append(op(r, g, x))
            add("g%d" % k, BVS[k % 8], k % 3, L + ["obs"])
        for k in range(6000 if deep else 800):
            add("r%d" % k, BVS[k % 8], r.randint(0, 2), life(r, Pts(r, "generic"), r.choice([8, 15, 30])))
    else:
        for k in range(12000 if deep else 960):
            cloud = r.random() < 0.3
            g = Pts(r)
            add("b%d-%s" % (k, g.style), BVS[k % 8], r.randint(0, 2), build(r, g, r.choice([1, 1, 2, 2, 3, 4, 5, 7, 12, 20]), cloud))
    h, = vlib.build_harness("bvh")
    outs = c.execute(h, H, "bvh", secs=20)
    c.validate("TraceMesh", outs, "bvh", cmds)

def run(prop, tier):
    c = vlib.Check(prop, tier)
    deep = c.thorough
    r = random.Random(vlib.SEED * 1000 + 200 + int(prop[1:]))
    if prop in ("M01", "M02"):
        models(prop, c, r, deep)
    return c.finish()
