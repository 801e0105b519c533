"""Broadphase properties B01, B02, B03."""
import random
import vlib, gen_bp

def run(prop, tier):
    c = vlib.Check(prop, tier)
    deep = c.thorough
    r = random.Random(vlib.SEED * 1000 + {"B01": 1, "B02": 2, "B03": 3}[prop])
    c.assumptions = ["boxes have integer coordinates of magnitude below 2^15 and objects are placed by translations only",
                     "moved objects are reported by an update before the next query, and setup() follows a registration"]
    c.model("MCBroadphase")
    if prop == "B01":
        c.model("SweepPruneMC", "SweepPruneMC.cfg" if deep else "SweepPruneMCQ.cfg")
    dist = prop == "B03"
    H, cmds = [], {}
    def add(tag, lines):
        for n, h in gen_bp.KINDS:
            hid = "%s-%s" % (n, tag)
            b = ["H %s %s" % (hid, h)] + lines
            H.append(b)
            cmds[hid] = b
    # behaviours generated by the specification ...
    gen = c.generate("GenBroadphase", "GenBroadphaseD.cfg" if dist else "GenBroadphase.cfg", num=1500 if deep else 250, depth=33)
    for k, l in enumerate(gen):
        add("g%d" % k, [x for x in l.split(";") if x])
    # ... and random histories with other shapes, sizes and lengths
    for k in range(600 if deep else 70):
        add("r%d" % k, gen_bp.history(r, r.choice([3, 6, 12, 20]), r.choice([15, 25, 40]), dist, obs=0.4 if prop == "B02" else 0.06))
    for k in range(24 if deep else 4):
        add("l%d" % k, gen_bp.history(r, r.choice([40, 130, 220]), 14, dist, obs=0.4 if prop == "B02" else 0.06))
    if prop != "B02":
        for k in range(12 if deep else 4):
            add("c%d" % k, gen_bp.crowd(r, [[0], [0, 1], [0, 1, 2], [0, 1, 2]][k % 4], dist))
    h, = vlib.build_harness("bp")
    outs = c.execute(h, H, "bp", secs=20)
    c.validate("TraceBroadphase", outs, "bp", cmds)
    return c.finish()
