"""Scenes for the narrowphase: shapes, meshes and poses, either random or built
around a known gap between two support points (see specs/Geo.tla).  Nothing
computed here is believed by the specification: it re-checks every statement."""
import math, random

def f(x):
    return repr(float(x))
def add(a, b): return [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
def sub(a, b): return [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
def mul(s, a): return [s * a[0], s * a[1], s * a[2]]
def dot(a, b): return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def norm(a): return math.sqrt(dot(a, a))
def unit(a):
    m = norm(a)
    return [a[0] / m, a[1] / m, a[2] / m] if m > 0 else [0.0, 0.0, 1.0]
def qmat(q):
    n = math.sqrt(sum(x * x for x in q))
    w, x, y, z = [c / n for c in q]
    if x == 0 and y == 0 and z == 0:
        return [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]
def mv(R, v): return [dot(R[0], v), dot(R[1], v), dot(R[2], v)]
def mtv(R, v): return [R[0][k] * v[0] + R[1][k] * v[1] + R[2][k] * v[2] for k in range(3)]

S2 = math.sqrt(0.5)
SPECIALQ = [(1, 0, 0, 0)] * 4 + [(S2, S2, 0, 0), (S2, 0, S2, 0), (S2, 0, 0, S2), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (0.5, 0.5, 0.5, 0.5),
            (math.cos(math.pi / 8), 0, 0, math.sin(math.pi / 8)), (math.cos(math.pi / 8), math.sin(math.pi / 8), 0, 0)]
def rndq(r):
    return [r.gauss(0, 1) for _ in range(4)]
def rndv(r):
    return unit([r.gauss(0, 1) for _ in range(3)])
def axisdir(r):
    v = [0.0, 0.0, 0.0]
    v[r.randint(0, 2)] = r.choice([-1.0, 1.0])
    return v

class Shape:
    """kind, parameters, vertices, faces, pose"""
    def __init__(self, kind, p=(), v=(), fc=()):
        self.kind, self.p, self.v, self.fc = kind, list(p), [list(x) for x in v], [list(x) for x in fc]
        self.q, self.R, self.t = (1, 0, 0, 0), qmat((1, 0, 0, 0)), [0.0, 0.0, 0.0]
    def pose(self, q, t):
        self.q, self.R, self.t = q, qmat(q), list(t)
        return self
    def lsup(self, n):
        k, p = self.kind, self.p
        rr = math.hypot(n[0], n[1])
        disk = lambda r: [r * n[0] / rr, r * n[1] / rr] if rr > 0 else [0.0, 0.0]
        s = lambda x: -1.0 if x < 0 else 1.0
        if k == "sphere": return mul(p[0], unit(n))
        if k == "box": return [s(n[i]) * p[i] / 2 for i in range(3)]
        if k == "ellipsoid":
            u = unit([n[i] * p[i] for i in range(3)])
            return [u[i] * p[i] for i in range(3)]
        if k == "capsule": return add(mul(p[0], unit(n)), [0, 0, s(n[2]) * p[1] / 2])
        if k == "cylinder": return disk(p[0]) + [s(n[2]) * p[1] / 2]
        if k == "cone": return [0.0, 0.0, p[1] / 2] if p[0] * rr - n[2] * p[1] / 2 <= n[2] * p[1] / 2 else disk(p[0]) + [-p[1] / 2]
        return max(self.v, key=lambda x: dot(n, x))
    def sup(self, n):
        return add(mv(self.R, self.lsup(mtv(self.R, n))), self.t)
    def scale(self):
        if self.v: return max(norm(x) for x in self.v)
        if self.kind in ("halfspace", "plane"): return 1.0
        return sum(abs(x) for x in self.p)
    def line(self, slot):
        o = ["shape", str(slot), self.kind]
        if self.kind == "convex":
            o += [str(len(self.v))] + [f(x) for v in self.v for x in v] + [str(len(self.fc))]
            for c in self.fc:
                o += [str(len(c))] + [str(i) for i in c]
        elif self.kind == "triangle":
            o += [f(x) for v in self.v for x in v]
        else:
            o += [f(x) for x in self.p]
        return " ".join(o)
    def poseline(self, slot):
        return " ".join(["pose", str(slot)] + [f(x) for x in self.q] + [f(x) for x in self.t])

def hull(pts):
    """faces (triangles, outward) of the hull of points in general position"""
    n, out = len(pts), []
    c = mul(1.0 / n, [sum(p[k] for p in pts) for k in range(3)])
    for i in range(n):
        for j in range(i + 1, n):
            for k in range(j + 1, n):
                nn = cross(sub(pts[j], pts[i]), sub(pts[k], pts[i]))
                m = norm(nn)
                if m < 1e-9:
                    continue
                d = dot(nn, pts[i])
                side = 1 if dot(nn, c) < d else -1
                if all((dot(nn, p) - d) * side <= 1e-12 * m for p in pts):
                    out.append([i, j, k] if side > 0 else [i, k, j])
    return out

def mkconvex(r, s):
    st = r.choice(["tet", "box", "oct", "prism", "rand", "big", "pyr"])
    if st == "tet":
        v = [[s, s, s], [-s, -s, s], [-s, s, -s], [s, -s, -s]]
        return Shape("convex", (), v, hull(v))
    if st == "box":
        a = [s * r.uniform(0.3, 1) for _ in range(3)]
        v = [[x * a[0], y * a[1], z * a[2]] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)]
        return Shape("convex", (), v, [[0, 1, 3, 2], [4, 6, 7, 5], [0, 4, 5, 1], [2, 3, 7, 6], [0, 2, 6, 4], [1, 5, 7, 3]])
    if st == "oct":
        v = [[s, 0, 0], [-s, 0, 0], [0, s, 0], [0, -s, 0], [0, 0, s], [0, 0, -s]]
        return Shape("convex", (), v, hull(v))
    if st == "prism":
        n, h = r.randint(3, 8), s * r.uniform(0.3, 1)
        v = [[s * math.cos(2 * math.pi * k / n), s * math.sin(2 * math.pi * k / n), z] for z in (-h, h) for k in range(n)]
        fc = [list(range(n))[::-1], list(range(n, 2 * n))] + [[k, (k + 1) % n, n + (k + 1) % n, n + k] for k in range(n)]
        return Shape("convex", (), v, fc)
    if st == "pyr":
        n = r.randint(3, 6)
        v = [[s * math.cos(2 * math.pi * k / n), s * math.sin(2 * math.pi * k / n), -s / 3] for k in range(n)] + [[0, 0, s]]
        return Shape("convex", (), v, [list(range(n))[::-1]] + [[k, (k + 1) % n, n] for k in range(n)])
    if st == "big":         # more than 32 vertices: the support search walks along edges
        n, m = r.choice([(6, 6), (8, 5), (10, 4)])
        v, fc = [[0, 0, s], [0, 0, -s]], []
        for a in range(1, m):
            th = math.pi * a / m
            for b in range(n):
                ph = 2 * math.pi * b / n
                v.append([s * math.sin(th) * math.cos(ph), s * math.sin(th) * math.sin(ph), s * math.cos(th)])
        at = lambda a, b: 2 + (a - 1) * n + b % n
        for b in range(n):
            fc.append([0, at(1, b), at(1, b + 1)])
            fc.append([1, at(m - 1, b + 1), at(m - 1, b)])
            for a in range(1, m - 1):
                fc.append([at(a, b), at(a + 1, b), at(a + 1, b + 1), at(a, b + 1)])
        return Shape("convex", (), v, fc)
    n = r.randint(5, 10)
    while True:
        v = [mul(s, rndv(r)) for _ in range(n)]
        fc = hull(v)
        c = mul(1.0 / n, [sum(p[k] for p in v) for k in range(3)])
        # a hull of points on a sphere: all of them are vertices; keep fat ones
        if all(abs(dot(unit(cross(sub(v[x[1]], v[x[0]]), sub(v[x[2]], v[x[0]]))), sub(c, v[x[0]]))) > 0.12 * s for x in fc):
            return Shape("convex", (), v, fc)

BOUNDED = ["sphere", "box", "ellipsoid", "capsule", "cylinder", "cone", "convex"]
def mkshape(r, kind, s=None):
    s = s if s is not None else r.choice([0.3, 1.0, 1.0, 2.0, 5.0])
    u = lambda: s * r.choice([0.25, 0.5, 1.0, 1.0, r.uniform(0.2, 1.0)])
    if kind == "sphere": return Shape(kind, [u()])
    if kind == "box": return Shape(kind, [2 * u(), 2 * u(), 2 * u()])
    if kind == "ellipsoid": return Shape(kind, [u(), u(), u()])
    if kind in ("capsule", "cylinder", "cone"): return Shape(kind, [u(), 2 * u()])
    if kind == "convex": return mkconvex(r, s)
    if kind == "triangle":
        while True:
            v = [[s * r.uniform(-1, 1) for _ in range(3)] for _ in range(3)]
            a, b, c = (sub(v[1], v[0]), sub(v[2], v[0]), sub(v[2], v[1]))
            if norm(cross(a, b)) > 0.3 * max(norm(a), norm(b), norm(c)) ** 2:
                return Shape(kind, [], v)
    if kind in ("halfspace", "plane"):
        n = rndv(r) if r.random() < 0.6 else axisdir(r)
        n = mul(r.choice([1.0, 1.0, 2.0, 0.5]), n)
        return Shape(kind, n + [r.choice([0.0, s * r.uniform(-1, 1)])])
    raise ValueError(kind)

def mkpose(r, spread):
    q = r.choice(SPECIALQ) if r.random() < 0.35 else rndq(r)
    t = [spread * r.uniform(-1, 1) for _ in range(3)]
    if r.random() < 0.15: t = [0.0, 0.0, 0.0]
    elif r.random() < 0.15: t = [round(x) for x in t]
    elif r.random() < 0.1:
        k = r.randint(0, 2)
        t = [x if i == k else 0.0 for i, x in enumerate(t)]
    return q, t

def qfromto(u, v):
    """a quaternion turning the unit vector u to v"""
    w = 1 + dot(u, v)
    if w < 1e-12:
        k = min(range(3), key=lambda i: abs(u[i]))
        return [0.0] + unit(cross(u, [1.0 if i == k else 0.0 for i in range(3)]))
    return [w] + cross(u, v)

def aligned(r, a, b):
    """a plane or halfspace whose normal is along an axis of the other body (or in a plane of two of them), near its surface"""
    x, y = (a, b) if a.kind in BOUNDED else (b, a)
    x.pose(*mkpose(r, 2.0))
    k = r.randint(0, 2)
    m = axisdir(r) if r.random() < 0.8 else unit([r.gauss(0, 1) if i != k else 0.0 for i in range(3)])
    m = mv(x.R, m)
    n = y.p[:3]
    l = norm(n)
    q = qfromto(unit(n), m) if r.random() < 0.8 or max(map(abs, unit(n))) < 1 else r.choice(SPECIALQ)
    y.pose(q, [0.0, 0.0, 0.0])
    nw = mv(y.R, unit(n))
    lo, hi = dot(nw, x.sup(mul(-1.0, nw))), dot(nw, x.sup(nw))
    off = lo + (hi - lo) * r.choice([-0.1, 0.05, 0.3, 0.5, 0.5, 0.8, 0.95, 1.1, r.uniform(-0.2, 1.2)])
    t = rndv(r)
    t = sub(t, mul(dot(t, nw), nw)) if r.random() < 0.7 else [0.0, 0.0, 0.0]
    y.t = add(t, mul(off - y.p[3] / l, nw))
    return "aligned", None

def place(r, a, b, far=0.0):
    """poses for two shapes; returns (kind of scene, known line or None)"""
    if (a.kind in BOUNDED) != (b.kind in BOUNDED) and {a.kind, b.kind} & {"plane", "halfspace"} and r.random() < 0.4: return aligned(r, a, b)
    a.pose(*mkpose(r, 2.0 + far))
    s = a.scale() + b.scale()
    style = r.choice(["gap", "gap", "gap", "overlap", "overlap", "random", "random", "inside"])
    bounded = a.kind in BOUNDED and b.kind in BOUNDED
    if not bounded and style in ("gap", "overlap"):
        style = "random"
    if style in ("gap", "overlap"):
        b.pose(r.choice([a.q, a.q, r.choice(SPECIALQ)]) if r.random() < 0.35 else rndq(r), [0.0, 0.0, 0.0])
        n = rndv(r)
        x = r.random()
        if x < 0.2: n = unit(mv(a.R, axisdir(r)))
        elif x < 0.3: n = unit(mv(b.R, axisdir(r)))
        elif x < 0.35: n = axisdir(r)
        g = s * r.choice([0.02, 0.05, 0.2, 0.7, 3.0, r.uniform(0.01, 1.0)]) if style == "gap" else -min(a.scale(), b.scale()) * r.choice([0.02, 0.1, 0.3, r.uniform(0.01, 0.5)])
        pa = a.sup(n)
        b.t = sub(add(pa, mul(g, n)), b.sup(mul(-1.0, n)))
        pb = b.sup(mul(-1.0, n))
        return style, " ".join(["known", "gap"] + [f(x) for x in n + [g] + pa + pb])
    if style == "inside":
        b.pose(*mkpose(r, 0.0))
        b.t = add(a.t, mul(0.2 * min(a.scale(), b.scale()) * r.choice([0.0, 1.0]), rndv(r)))
        return style, None
    q, t = mkpose(r, 1.0)
    b.pose(q, add(a.t, mul(r.uniform(0.2, 1.6) * s * 0.6, t if norm(t) > 0.1 else rndv(r))))
    return style, None
