"""Random histories for the broadphase managers (see specs/Broadphase.tla)."""
import random

KINDS = [("naive", "0 0 0 0"), ("ssap", "1 0 0 0"), ("sap", "2 0 0 0"), ("itree", "3 0 0 0"),
         ("hash_c3", "4 3 -8 8"), ("hash_c1", "4 1 -4 5"), ("shash_c2", "5 2 -6 7"), ("hash_c7", "4 7 -20 20"),
         ("dyn_00", "6 0 0 0"), ("dyn_10", "6 1 0 3"), ("dyn_20", "6 2 0 0"), ("dyn_30", "6 3 0 5"), ("dyn_01", "6 0 1 2"), ("dyn_31", "6 3 1 9"),
         ("arr_00", "7 0 0 0"), ("arr_10", "7 1 0 3"), ("arr_20", "7 2 0 0"), ("arr_30", "7 3 0 5"), ("arr_01", "7 0 1 2"), ("arr_21", "7 2 1 9")]

class Boxes:
    """A family of integer boxes with a given character."""
    def __init__(self, r, style=None):
        self.r = r
        self.style = style if style is not None else r.choice(["mix", "mix", "tiny", "line", "grid", "flat", "nested", "wide", "same", "point"])
        self.pool = []
    def one(self):
        r, st = self.r, self.style
        def iv(lo, hi, smax, smin=0):
            a = r.randint(lo, hi)
            return a, a + r.randint(smin, smax)
        if st == "mix":
            c = [iv(-9, 9, 4) for _ in range(3)]
        elif st == "tiny":
            c = [iv(-4, 4, 1) for _ in range(3)]
        elif st == "line":
            k = r.randint(0, 2)
            c = [(0, 1)] * 3
            c[k] = iv(-12, 12, 3)
        elif st == "grid":          # cells of a grid: everything touches
            c = [(2 * v, 2 * v + 2) for v in (r.randint(-3, 3), r.randint(-2, 2), r.randint(-2, 2))]
        elif st == "flat":
            k = r.randint(0, 2)
            c = [iv(-6, 6, 3, 1) for _ in range(3)]
            c[k] = (c[k][0], c[k][0])
        elif st == "nested":
            s = r.randint(0, 8)
            o = r.randint(-1, 1)
            c = [(-s + o, s + o)] * 3
        elif st == "wide":
            c = [iv(-30, 30, 12) for _ in range(3)]
        elif st == "point":
            c = [(v, v) for v in (r.randint(-3, 3), r.randint(-3, 3), r.randint(-2, 2))]
        else:                        # many equal boxes
            if len(self.pool) < 3:
                self.pool.append([iv(-3, 3, 3) for _ in range(3)])
            c = r.choice(self.pool)
        return [c[0][0], c[1][0], c[2][0], c[0][1], c[1][1], c[2][1]]

def shift(r, b):
    """a nearby box: translated, grown, shrunk, or changed on one side only"""
    b = list(b)
    m = r.randint(0, 4)
    if m == 0:
        for k in range(3):
            d = r.randint(-4, 4)
            b[k] += d
            b[k + 3] += d
    elif m == 1:
        k = r.randint(0, 2)
        b[k + 3] += r.randint(0, 5)
    elif m == 2:
        k = r.randint(0, 2)
        b[k] -= r.randint(0, 5)
    elif m == 3:
        for k in range(3):
            if b[k + 3] - b[k] >= 2:
                b[k] += 1
                b[k + 3] -= r.randint(0, 1)
    else:
        for k in range(3):
            b[k] -= r.randint(0, 3)
            b[k + 3] += r.randint(0, 3)
    return b

def bs(b):
    return " ".join(map(str, b))

def history(r, nmax, length, dist=False, obs=0.04):
    """commands of one history (without the header)"""
    fam = Boxes(r)
    out = []
    mem = [{}, {}]
    nxt = [0, 500]
    synced = [True, True]
    def reg(m, n):
        items = []
        for _ in range(n):
            b = fam.one()
            mem[m][nxt[m]] = b
            items.append("%d %s" % (nxt[m], bs(b)))
            nxt[m] += 1
        how = r.choice(["reg", "reg1"])
        if n == 0:
            return
        out.append("%s %d %d %s" % (how, m, n, " ".join(items)))
        if r.random() < 0.85:
            out.append("setup %d" % m)
            synced[m] = True
        else:
            synced[m] = False
    def need(m):
        if not synced[m]:
            out.append("setup %d" % m)
            synced[m] = True
    def query(m):
        k = r.random()
        stop = r.choice([0, 0, 0, 0, 1, 2, 3])
        need(m)
        need(1 - m)
        if not dist:
            if k < 0.34:
                out.append("self %d %d" % (m, stop))
            elif k < 0.72:
                b = fam.one() if r.random() < 0.6 or not mem[m] else shift(r, r.choice(list(mem[m].values())))
                out.append("obj %d %d %s" % (m, stop, bs(b)))
            elif k < 0.94:
                out.append("mm %d %d" % (m, stop))
            else:
                out.append("mms %d %d" % (m, stop))
        else:
            md = r.choice([0, 0, 1, 1, 1, 2, 3, 4, 6])
            if k < 0.34:
                out.append("dself %d %d" % (m, md))
            elif k < 0.72:
                b = fam.one() if r.random() < 0.6 or not mem[m] else shift(r, r.choice(list(mem[m].values())))
                out.append("dobj %d %d %s" % (m, md, bs(b)))
            elif k < 0.94:
                out.append("dmm %d %d" % (m, md))
            else:
                out.append("dmms %d %d" % (m, md))
    n0 = r.randint(0, nmax)
    reg(0, n0)
    if r.random() < 0.5:
        reg(1, r.randint(0, nmax))
    for _ in range(length):
        m = 0 if r.random() < 0.75 else 1
        k = r.random()
        if k < 0.12 and len(mem[m]) < nmax:
            reg(m, r.randint(1, 3))
        elif k < 0.24 and mem[m]:
            o = r.choice(sorted(mem[m]))
            need(m)
            out.append("unreg %d %d%s" % (m, o, " gone" if r.random() < 0.7 else ""))
            b = mem[m].pop(o)
            if not out[-1].endswith("gone") and r.random() < 0.5:   # registered again later
                mem[m][o] = b
                out.append("reg1 %d 1 %d %s" % (m, o, bs(b)))
                synced[m] = False
        elif k < 0.50 and mem[m]:
            how = r.choice(["upd1", "updN", "updA"])
            n = 1 if how == "upd1" and r.random() < .7 else r.randint(1, min(5, len(mem[m])))
            ids = r.sample(sorted(mem[m]), min(n, len(mem[m])))
            need(m)
            items = []
            for o in ids:
                mem[m][o] = shift(r, mem[m][o]) if r.random() < 0.7 else fam.one()
                items.append("%d %s" % (o, bs(mem[m][o])))
            out.append("%s %d %d %s" % (how, m, len(ids), " ".join(items)))
        elif k < 0.52:
            out.append("clear %d" % m)
            mem[m] = {}
        elif k < 0.56:
            out.append("setup %d" % m)
            synced[m] = True
        elif k < 0.56 + obs:
            out.append("obs %d" % m)
        else:
            query(m)
    out.append("obs 0")
    out.append("obs 1")
    query(0)
    return out

def crowd(r, dense, dist=False):
    """many objects (more than the managers' cut-off of 100) that all meet a query along the dense axes"""
    n = r.randint(105, 135)
    spread = 60
    rare = [r.choice([0, 0, 0.06, 0.12]) for _ in range(3)]      # some miss a dense axis, so that the axes differ in how many they find
    def one(big=False):
        lo, hi = [], []
        for k in range(3):
            if k in dense and not big and r.random() < rare[k]: a = r.choice([-1, 1]) * r.randint(20, 30); b = a + r.randint(0, 3)
            elif k in dense: a = r.randint(-4, 2); b = a + r.randint(1, 5) if big or r.random() < 0.9 else a
            else: a = r.randint(-spread, spread); b = a + r.randint(0, 4)
            lo.append(a); hi.append(b)
        return lo + hi
    mem = {k: one() for k in range(n)}
    out = ["%s 0 %d %s" % (r.choice(["reg", "reg1"]), n, " ".join("%d %s" % (k, bs(b)) for k, b in mem.items())), "setup 0"]
    small = {500 + k: one() for k in range(r.randint(1, 4))}
    out += ["reg 1 %d %s" % (len(small), " ".join("%d %s" % (k, bs(b)) for k, b in small.items())), "setup 1"]
    for _ in range(7):
        x = r.random()
        if x < 0.25:
            ids = r.sample(sorted(mem), r.randint(1, 4))
            for o in ids: mem[o] = one()
            out.append("updN 0 %d %s" % (len(ids), " ".join("%d %s" % (o, bs(mem[o])) for o in ids)))
        elif x < 0.35:
            o = r.choice(sorted(mem)); mem.pop(o)
            out.append("unreg 0 %d gone" % o)
        b = one(True)
        for k in range(3):
            if k in dense: b[k], b[k + 3] = -5, 6
            elif r.random() < 0.5: b[k] -= r.randint(0, 6); b[k + 3] += r.randint(0, 6)
        if dist: out.append("dobj 0 %d %s" % (r.choice([0, 0, 1, 3]), bs(b)) if x < 0.8 else "dmm %d %d" % (r.choice([0, 1]), r.choice([0, 1, 5])))
        else: out.append("obj 0 %d %s" % (r.choice([0, 0, 0, 2]), bs(b)) if x < 0.8 else "mm %d 0" % r.choice([0, 1]))
    return out
