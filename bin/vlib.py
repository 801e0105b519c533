"""Shared driver of the checks: builds the library and the harnesses from
/repo's working tree, runs TLC (model checking, behaviour generation, trace
validation), collects verdicts, writes the evidence."""
import fcntl, glob, json, os, re, subprocess, sys, time, hashlib, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FCL_REPO", "/repo")
BUILD = os.environ.get("FCLV_BUILD", os.path.join(VERIF, "build"))
SPECS = os.path.join(VERIF, "specs")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")

class CheckError(Exception):
    pass

def log(*a):
    print(*a, flush=True)

def sh(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.STDOUT)
    return subprocess.run(cmd, **kw)

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")
    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

# ------------------------------------------------------------------ building
CXXFLAGS = os.environ.get("FCLV_CXXFLAGS", "-O1 -DNDEBUG -w")

# The library is compiled from the working tree by a build description of our
# own: small sources are grouped into unity files, and the dispatch matrices
# that three sources instantiate over and over get sources of their own.  If
# either trick does not fit the tree (a clash of names, a renamed matrix), the
# sources are compiled one by one, as the project's own build does.
MATS = {"Cc": "CollisionFunctionMatrix<GJKSolver_libccd<double>>", "Ci": "CollisionFunctionMatrix<GJKSolver_indep<double>>",
        "Dc": "DistanceFunctionMatrix<GJKSolver_libccd<double>>", "Di": "DistanceFunctionMatrix<GJKSolver_indep<double>>",
        "Ac": "ConservativeAdvancementFunctionMatrix<GJKSolver_libccd<double>>", "Ai": "ConservativeAdvancementFunctionMatrix<GJKSolver_indep<double>>"}
HEAVY = ["narrowphase/distance.cpp", "narrowphase/continuous_collision.cpp", "narrowphase/collision.cpp"]
NEEDS = {"bp": [], "tree": [], "ccd": ["Cc", "Ci", "Dc", "Di", "Ac", "Ai"]}     # matrices a harness links; default: all but the continuous ones
DEFAULT_NEEDS = ["Cc", "Ci", "Dc", "Di"]

def configure():
    """config.h and export.h, by the project's own cmake"""
    d = os.path.join(BUILD, "cm")
    stamp = os.path.join(d, "include", "fcl", "config.h")
    if not os.path.exists(stamp) or os.path.getmtime(stamp) < os.path.getmtime(os.path.join(REPO, "CMakeLists.txt")):
        os.makedirs(d, exist_ok=True)
        r = sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-Wno-dev", "-DBUILD_TESTING=OFF",
                "-DFCL_STATIC_LIBRARY=ON", "-DCMAKE_BUILD_TYPE=None"])
        if r.returncode:
            raise CheckError("cmake failed:\n" + r.stdout.decode(errors="replace")[-3000:])
    return os.path.join(d, "include")

def write_if_changed(p, txt):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != txt:
        with open(p, "w") as f:
            f.write(txt)

def ninja_file(split, names):
    gen = configure()
    src = os.path.join(REPO, "src")
    inc = "-I%s/include -I%s -I%s/harness -isystem /usr/include/eigen3" % (REPO, gen, VERIF)
    cpps = sorted(glob.glob(src + "/**/*.cpp", recursive=True))
    o = ["rule cxx", " command = g++ -std=c++14 %s %s $x -MMD -MF $out.d -c $in -o $out" % (CXXFLAGS, inc), " depfile = $out.d", " deps = gcc",
         "rule ar", " command = rm -f $out && ar rcs $out $in", "rule link", " command = g++ %s $in -lccd -loctomap -loctomath -lpthread -o $out" % CXXFLAGS]
    objs, mats = [], {}
    if split:
        for k, m in MATS.items():
            write_if_changed(os.path.join(BUILD, "u", "mat_%s.cpp" % k), '#define FCLV_MAT %s\n#include "%s/lib/mats.h"\n' % (m, VERIF))
            o.append("build m/%s.o: cxx %s/u/mat_%s.cpp" % (k, BUILD, k))
            mats[k] = "m/%s.o" % k
        rest = []
        for c in cpps:
            r = os.path.relpath(c, src)
            if r in HEAVY:
                o += ["build s/%s.o: cxx %s" % (r, c), " x = -include %s/lib/mats.h" % VERIF]
                objs.append("s/%s.o" % r)
            else:
                rest.append(c)
        n = 14
        # neighbouring files share headers
        for k in range(0, n):
            part = rest[k * len(rest) // n:(k + 1) * len(rest) // n]
            write_if_changed(os.path.join(BUILD, "u", "unity_%d.cpp" % k), "".join('#include "%s"\n' % c for c in part))
            o.append("build u/unity_%d.o: cxx %s/u/unity_%d.cpp" % (k, BUILD, k))
            objs.append("u/unity_%d.o" % k)
    else:
        for c in cpps:
            r = os.path.relpath(c, src)
            o.append("build p/%s.o: cxx %s" % (r, c))
            objs.append("p/%s.o" % r)
    lib = "libfcl_%s.a" % ("s" if split else "p")
    o.append("build %s: ar %s" % (lib, " ".join(objs)))
    for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*.cpp"))):
        n = os.path.basename(p)[:-4]
        need = [mats[k] for k in NEEDS.get(n, DEFAULT_NEEDS)] if split else []
        o += ["build h/%s.o: cxx %s" % (n, p)] + ([" x = -include %s/lib/mats.h" % VERIF] if split and NEEDS.get(n, DEFAULT_NEEDS) else [])
        o.append("build h/%s: link h/%s.o %s %s" % (n, n, " ".join(need), lib))
    write_if_changed(os.path.join(BUILD, "build_%d.ninja" % split), "\n".join(o) + "\n")
    return ["ninja", "-C", BUILD, "-f", "build_%d.ninja" % split, "-j%d" % NCPU] + ["h/" + n for n in names]

def build_harness(*names):
    os.makedirs(BUILD, exist_ok=True)
    with Lock("lib"):
        t = time.time()
        r = sh(ninja_file(1, names))
        if r.returncode:
            log("grouped build failed, compiling one by one:\n" + r.stdout.decode(errors="replace")[-1500:])
            r = sh(ninja_file(0, names))
        if r.returncode:
            raise CheckError("build failed:\n" + r.stdout.decode(errors="replace")[-6000:])
        log("harness %s and library built in %.1fs" % (",".join(names), time.time() - t))
    return [os.path.join(BUILD, "h", n) for n in names]

def classes():
    d = os.path.join(BUILD, "classes")
    src = os.path.join(VERIF, "java", "fclv", "Overrides.java")
    cls = os.path.join(d, "fclv", "Overrides.class")
    with Lock("classes"):
        if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
            os.makedirs(d, exist_ok=True)
            r = sh(["javac", "-cp", JARS, "-d", d, src])
            if r.returncode:
                raise CheckError("javac failed:\n" + r.stdout.decode())
    return d

# ------------------------------------------------------------------ TLC
def tlc(spec, cfg=None, args=(), env=None, workers=NCPU, timeout=800, heap="6g", work=None, out=None):
    """Runs TLC on specs/<spec>.tla; returns (exit code, output)."""
    cd = classes()
    work = work or os.path.join(BUILD, "tlc-%d-%d" % (os.getpid(), time.time_ns()))
    os.makedirs(work, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:fclv.Overrides",
           "-DTLA-Library=" + SPECS,
           "-cp", cd + ":" + JARS, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", work, "-config", cfg or os.path.join(SPECS, spec + ".cfg")] + list(args) + [os.path.join(SPECS, spec + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=work)
        rc, txt = r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        rc, txt = 124, (x.stdout or b"").decode(errors="replace")
    shutil.rmtree(work, ignore_errors=True)
    return rc, txt

def stats(txt):
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", txt)
    if m:
        return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
    m = re.findall(r"The number of states generated: ([\d,]+)", txt)
    if m:
        n = int(m[-1].replace(",", ""))
        return n, n
    return 0, 0

# ------------------------------------------------------------------ a check
class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.viol, self.known, self.notes = [], [], [], {}
        self.assumptions = []
        self.dir = os.path.join(BUILD, "run", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replays = os.path.join(BUILD, "replay", prop)
        shutil.rmtree(self.replays, ignore_errors=True)
        os.makedirs(self.replays)
        self.findings = load_findings(prop)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def elapsed(self):
        return time.time() - self.t0

    # exhaustive model checking of a design specification
    def model(self, spec, cfg=None, expect=None, timeout=800, args=()):
        t = time.time()
        rc, txt = tlc(spec, cfg and os.path.join(SPECS, cfg), args=args, timeout=timeout)
        g, d = stats(txt)
        name = cfg or spec
        log("model %s: %d states generated, %d distinct, rc=%d, %.1fs" % (name, g, d, rc, time.time() - t))
        if rc != 0:
            raise CheckError("model %s failed (rc=%d):\n%s" % (name, rc, txt[-3000:]))
        self.states += d
        self.transitions += g
        self.notes.setdefault("models", []).append({"model": name, "distinct": d, "generated": g, "seconds": round(time.time() - t, 1)})

    # behaviours of a specification, printed by it as lines "CMD ..."; returns the list of lines
    def generate(self, spec, cfg=None, num=100, depth=30, seed=None, timeout=600, exhaustive=False, env=None):
        t = time.time()
        args = [] if exhaustive else ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed if seed is not None else SEED)]
        rc, txt = tlc(spec, cfg and os.path.join(SPECS, cfg), args=args, workers=1, timeout=timeout, env=env)
        if rc != 0:
            raise CheckError("generator %s failed (rc=%d):\n%s" % (spec, rc, txt[-3000:]))
        lines = re.findall(r'^"?GEN (.*?)"?$', txt, re.M)
        g, d = stats(txt)
        self.states += d
        self.transitions += g
        self.notes.setdefault("generated", []).append({"spec": cfg or spec, "behaviours": len(lines), "states": d, "seconds": round(time.time() - t, 1)})
        log("generator %s: %d behaviours, %d states, %.1fs" % (cfg or spec, len(lines), d, time.time() - t))
        return lines

    # run histories through a harness; histories = list of blocks (lists of lines)
    def execute(self, binary, histories, tag, secs=20, chunks=NCPU, timeout=900):
        chunks = max(1, min(chunks, len(histories)))
        procs, outs = [], []
        env = dict(os.environ, MALLOC_PERTURB_="165")
        for k in range(chunks):
            part = histories[k::chunks]
            i, o = self.path("%s.%d.in" % (tag, k)), self.path("%s.%d.ndjson" % (tag, k))
            with open(i, "w") as f:
                for b in part:
                    f.write("\n".join(b) + "\n")
            procs.append(subprocess.Popen([binary, i, o, str(secs)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env))
            outs.append(o)
        t = time.time()
        for p in procs:
            try:
                o = p.communicate(timeout=max(1, timeout - (time.time() - t)))[0]
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                raise CheckError("harness timed out")
            if p.returncode != 0:
                raise CheckError("harness %s failed rc=%s: %s" % (binary, p.returncode, o.decode(errors="replace")[-2000:]))
        log("harness %s: %d histories in %.1fs" % (os.path.basename(binary), len(histories), time.time() - t))
        return outs

    # validate recorded traces against a trace specification
    def validate(self, spec, outs, tag, cmds=None, timeout=800, cfg=None, heap="10g", stops=True):
        """stops: a rejected event ends its history.  cmds: id -> list of command lines (for replay files)."""
        f = self.path(tag + ".ndjson")
        n = ev = 0
        byid, nev = {}, {}
        with open(f, "w") as w:
            for o in outs:
                for line in open(o):
                    w.write(line)
                    n += 1
                    hid = line[7:line.index('"', 7)]
                    byid[hid] = line
                    nev[hid] = line.count('"op":')
                    ev += nev[hid]
        if n == 0:
            raise CheckError("no traces recorded")
        t = time.time()
        rc, txt = tlc(spec, cfg and os.path.join(SPECS, cfg), env={"TRACE": f}, timeout=timeout, heap=heap)
        g, d = stats(txt)
        bad = re.findall(r'<<\s*"NONCONFORM",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)",\s*"([^"]*)"(.*?)>>', txt, re.S)
        # acceptance: every event of every history was consumed, one state each,
        # except that a rejected history ends at the rejected event
        first = {}
        for hid, step, op, why, extra in bad:
            first[hid] = int(step)
        want = sum(first[k] + 1 if stops and k in first else nev[k] + 1 for k in nev)
        if rc != 0 or d != want or "No error has been found" not in txt or len(nev) != n:
            raise CheckError("trace validation %s failed (rc=%d, %d verdicts, %d states, expected %d):\n%s" % (spec, rc, len(bad), d, want, txt[-4000:]))
        self.states += d
        self.transitions += g
        self.traces += n
        self.events += ev
        cov = re.findall(r'<<\s*"COVER",\s*"([^"]*)",\s*(\d+)\s*>>', txt)
        log("validated %d histories (%d events) against %s: %d states, %d rejected, %.1fs" % (n, ev, spec, d, len(bad), time.time() - t))
        self.notes.setdefault("validated", []).append({"spec": spec, "tag": tag, "histories": n, "events": ev, "rejected": len(bad), "seconds": round(time.time() - t, 1)})
        seen = set()
        for hid, step, op, why, extra in bad:
            if (hid, why) in seen:
                continue
            seen.add((hid, why))
            self.report(hid, int(step), op, why, byid.get(hid, ""), (cmds or {}).get(hid), spec)
        if not self.samples and byid:
            k = sorted(byid)[len(byid) // 2]
            self.samples.append(json.loads(byid[k]) if len(byid[k]) < 6000 else {"id": k, "trace_prefix": byid[k][:3000]})
        return bad

    def report(self, hid, step, op, why, line, cmds, spec):
        desc = "history %s step %d (%s): %s" % (hid, step, op, why)
        for k in self.findings:
            if k["re"].search(desc):
                k["hits"] += 1
                return
        p = os.path.join(self.replays, re.sub(r"[^A-Za-z0-9_.-]", "_", hid) + ".txt")
        with open(p, "w") as f:
            f.write("# property %s, specification %s\n# %s\n" % (self.prop, spec, desc))
            if cmds:
                f.write("\n".join(cmds) + "\n")
            f.write("# recorded trace:\n# " + line[:200000] + "\n")
        self.viol.append((desc, p))

    def finish(self, level="model_checking", extra=None, rule=None):
        for k in self.findings:
            log("KNOWN-FINDING: property=%s %s%s" % (self.prop, k["text"], "" if k["hits"] else " (not exercised by this run)"))
        for desc, p in self.viol[:20]:
            log("  " + desc)
        if self.viol:
            log("VIOLATION property=%s replay=%s" % (self.prop, self.viol[0][1]))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "samples": self.samples or [{"note": "none"}]}
        cov.update(self.notes)
        cov.update(extra or {})
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": SEED, "level": level, "coverage": cov,
                       "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
                       "violations": len(self.viol)}, f, indent=1)
        log("%s %s: %d violation(s), %d states, %d traces, %.1fs" % (self.prop, self.tier, len(self.viol), self.states, self.traces, time.time() - self.t0))
        return 1 if self.viol else 0

def load_findings(prop):
    """known_findings.txt: lines 'finding: property=<id> /regex over the verdict/ description'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) /(.*?)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append({"re": re.compile(m.group(2)), "text": m.group(3), "hits": 0})
    return out
