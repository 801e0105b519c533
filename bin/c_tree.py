"""Search structures below the broad phase: T01 trees of boxes, T02 interval trees, hashing, Morton codes."""
import random
import vlib
from gen_geo import f

def coord(r, style):
    if style == 0: return float(r.randint(-3, 3))
    if style == 1: return r.uniform(-1, 1)
    if style == 2: return r.choice([0.0, 0.5, 1.0]) + 1e6
    return r.choice([-1, 1]) * 10.0 ** r.uniform(-6, 6)
def box(r, style):
    if style == 4:       # all centers coincide
        d = [r.choice([0.0, 0.5, 1.0, r.random()]) for _ in range(3)]; return [-x for x in d] + d
    a = [coord(r, style) for _ in range(3)]; b = [x if r.random() < 0.2 else coord(r, style) for x in a]
    return [min(x, y) for x, y in zip(a, b)] + [max(x, y) for x, y in zip(a, b)]
def num(v): return " ".join(f(x) for x in v)

def trees(r):
    st = r.choice([0, 0, 1, 1, 2, 3, 4])
    L = ["tree %s %d %d" % (r.choice("da"), r.choice([0, 1, 2, 2, 4, 16]), r.randint(0, 1))]
    live, nxt = {}, 1
    def fresh():
        nonlocal nxt
        nxt += 1; return nxt - 1
    big = r.random() < 0.15
    if r.random() < 0.5:
        n = r.choice([1, 2, 3, 5, 8]) if not big else r.randint(18, 40)
        ids = [fresh() for _ in range(n)]; r.shuffle(ids)
        for k in ids: live[k] = box(r, st)
        L.append("init %d %d %s" % (r.randint(0, 3), n, " ".join("%d %s" % (k, num(live[k])) for k in ids)))
    for _ in range(r.randint(5, 12) if big else r.randint(10, 30)):
        x = r.random()
        if not live or x < 0.25:
            k = fresh(); live[k] = box(r, st) if not live or r.random() < 0.85 else list(r.choice(list(live.values())))
            L.append("insert %d %s" % (k, num(live[k]))); continue
        k = r.choice(list(live))
        if x < 0.4: del live[k]; L.append("remove %d" % k)
        elif x < 0.6:
            b = box(r, st)
            if r.random() < 0.3: b = list(live[k])
            elif r.random() < 0.3: b = [(p + q) / 2 for p, q in zip(b, live[k])]
            L.append("move %d %s" % (k, num(b)))
            o = live[k]
            if not all(o[q] <= b[q] and b[q + 3] <= o[q + 3] for q in range(3)): live[k] = b
        elif x < 0.72: live[k] = box(r, st) if r.random() < 0.8 else live[k]; L.append("touch %d %s %d" % (k, num(live[k]), r.choice([-1, -1, 0, 1, 2, 3])))
        elif x < 0.87: L.append("balance %s %d" % (r.choice("bti"), r.choice([-1, 1, 2, 3, 5])))
        elif x < 0.94:
            for q in r.sample(list(live), min(len(live), r.randint(1, 3))): live[q] = box(r, st); L.append("set %d %s" % (q, num(live[q])))
            L.append(r.choice(["refit", "refit", "balance b 0", "balance t 0"]))
        elif x < 0.96: live = {}; L.append("clear")
        elif x < 0.98: L.append("refit")
        else:
            n = r.randint(1, 6); live = {fresh(): box(r, st) for _ in range(n)}
            L.append("init %d %d %s" % (r.randint(0, 3), n, " ".join("%d %s" % (k, num(live[k])) for k in live)))
    return L

def intervals(r):
    st = r.choice([0, 0, 0, 1, 3])
    L, live, nxt = ["itree"], [], 1
    inf = float("inf")
    for _ in range(r.randint(10, 40)):
        x = r.random()
        if not live or x < 0.45:
            a, b = sorted([coord(r, st), coord(r, st)])
            if r.random() < 0.1: b = a
            if r.random() < 0.03: a = -1e300
            if r.random() < 0.03: b = 1e300
            L.append("iadd %d %s %s" % (nxt, f(a), f(b))); live.append(nxt); nxt += 1
        elif x < 0.7:
            k = r.choice(live); live.remove(k); L.append("idel %d %d" % (k, r.randint(0, 1)))
        else:
            a, b = sorted([coord(r, st), coord(r, st)])
            if r.random() < 0.1: b = a
            if r.random() < 0.05: a = -1e308
            if r.random() < 0.05: b = 1e308
            L.append("iask %s %s" % (f(a), f(b)))
    return L

def hashing(r):
    cell = r.choice([0.5, 1.0, 1.5, 0.3])
    lo = [r.choice([-3.0, 0.0, -2.7]) for _ in range(3)]
    hi = [x + r.choice([1.0, 2.0, 3.1, 6.0]) for x in lo]
    L = ["hash %s %d %s" % (f(cell), r.choice([1, 3, 7, 1000, 100]), num(lo + hi))]
    def b():
        v = []
        for k in range(3):
            a, c = sorted([r.choice([lo[k] + cell * r.randint(0, 6), r.uniform(lo[k], hi[k])]) for _ in range(2)])
            v.append((min(max(a, lo[k]), hi[k]), min(max(c if r.random() < 0.85 else a, lo[k]), hi[k])))
        return [x[0] for x in v] + [x[1] for x in v]
    live, nxt = {}, 1
    for _ in range(r.randint(8, 25)):
        x = r.random()
        if not live or x < 0.45: live[nxt] = b(); L.append("hput %d %s" % (nxt, num(live[nxt]))); nxt += 1
        elif x < 0.6: k = r.choice(list(live)); L.append("hdel %d %s" % (k, num(live.pop(k))))
        elif x < 0.97: L.append("hask %s" % num(b()))
        else: live = {}; L.append("hclear")
    return L

def codes(r):
    L = []
    for _ in range(12):
        st = r.choice([0, 1, 3])
        a = [coord(r, st) for _ in range(3)]; b = [x + r.choice([1.0, 0.5, 8.0, r.uniform(0.1, 5)]) for x in a]
        p = [x + (y - x) * r.choice([0, 1, 0.5, 0.25, r.random(), r.random(), r.randint(0, 1024) / 1024]) for x, y in zip(a, b)]
        L.append("morton %s %s" % (num(a + b), num([min(max(x, y), z) for x, y, z in zip(p, a, b)])))
    return L

def run(prop, tier):
    c = vlib.Check(prop, tier)
    deep = c.thorough
    r = random.Random(vlib.SEED * 1000 + 950 + int(prop[1:]))
    c.assumptions = ["boxes hashed lie within the limits of the scene, as the manager clips them", "a tree is initialized with at least one leaf",
                     "boxes changed behind the tree's back are followed by a refit or a rebuild before anything else"]
    if prop == "T01": c.model("MCTree", "MCTree4.cfg" if deep else "MCTree.cfg")
    else: c.model("MCRedBlack", "MCRedBlack.cfg" if deep else "MCRedBlackQ.cfg")
    H, cmds = [], {}
    n = (20000 if deep else 1500) if prop == "T01" else (20000 if deep else 1500)
    for k in range(n):
        hid = "t-%d" % k
        g = trees if prop == "T01" else r.choice([intervals, intervals, hashing, codes])
        H.append(["H " + hid] + g(r)); cmds[hid] = H[-1]
    h, = vlib.build_harness("tree")
    outs = c.execute(h, H, "t", secs=20)
    c.validate("TraceTree", outs, "t", cmds)
    return c.finish()
