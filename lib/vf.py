"""Build the harness crates from /repo's current tree, run the symbolic
executor on their entries, replay what the solver reports, write evidence."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
REPO_CRATES = ["lexan", "lalr1", "alalr1", "lalr1_lib", "lalr1_gen", "alalr1_lib", "alalr1_gen"]
OWN_CRATES = ["lalr1_self", "alalr1_self"]


class Broken(Exception):
    """The check itself cannot decide (exit 2)."""


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def env():
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    home = e.get("HOME", "/root")
    for d in (os.path.join(home, ".cargo/bin"), "/root/.cargo/bin", "/usr/local/cargo/bin"):
        if os.path.isdir(d):
            e["PATH"] = d + ":" + e["PATH"]
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = toolchain()
    return e


def toolchain():
    # the stable toolchain the engine was written for; fall back to the default
    r = "/opt/vp/env.sh"
    if "RUSTUP_TOOLCHAIN" in os.environ:
        return os.environ["RUSTUP_TOOLCHAIN"]
    if os.path.exists(r):
        for l in open(r):
            m = re.search(r"RUSTUP_TOOLCHAIN=['\"]?([^'\"\s]+)", l)
            if m:
                return m.group(1)
    return "stable"


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def run(cmd, timeout=900, **k):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace", **k)
    except subprocess.TimeoutExpired as x:
        raise Broken("timeout: %s" % " ".join(cmd)) from x


def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".laps", ".alaps")):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as g:
                    h.update(g.read())
    return h.hexdigest()


def engine():
    d = os.path.join(VERIF, "engine")
    exe = os.path.join(BUILD, "engine", "release", "symex")
    with Lock("engine"):
        e = env()
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "engine")
        r = run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=d, env=e)
        if r.returncode:
            raise Broken("engine does not build:\n" + r.stdout)
    return exe


IR_FLAGS = "--emit=llvm-ir -Cno-vectorize-loops -Cno-vectorize-slp"


def cargo(src, target, args, flags="", more=None):
    e = env()
    e.update(more or {})
    e["CARGO_TARGET_DIR"] = target
    if flags:
        e["RUSTFLAGS"] = flags
    stamp = os.path.join(target, ".repo-hash")
    h = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old and old != h:
        # do not rely on file times
        names = REPO_CRATES + OWN_CRATES
        run(["cargo", "clean", "--offline", "--release"] + sum((["-p", c] for c in names), []), cwd=src, env=e)
        for c in names:
            for f in glob.glob(os.path.join(target, "release", ".fingerprint", c + "-*")):
                shutil.rmtree(f, ignore_errors=True)
    os.makedirs(target, exist_ok=True)
    r = run(["cargo"] + args, cwd=src, env=e)
    if r.returncode == 0:
        open(stamp, "w").write(h)
    return r


def fix_paths(src, dst):
    """Copy a harness crate, pointing its path dependencies at REPO."""
    os.makedirs(dst, exist_ok=True)
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d != "target"]
        rel = os.path.relpath(root, src)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            put(os.path.join(dst, rel, f), open(os.path.join(root, f)).read())


def put(path, text):
    """Write only when different (keeps cargo's freshness)."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


class Crate:
    """A harness crate built to LLVM IR and to a native static library."""

    def __init__(self, name, src=None):
        self.name = name
        self.src = src or os.path.join(VERIF, "harness", name)
        self.target = os.path.join(BUILD, "t-" + name)
        self.lib = "h" + name
        self.build_s = 0.0
        self.more = {}

    def refused(self, text):
        raise Broken("harness %s does not build against the current tree:\n%s" % (self.name, text[-6000:]))

    def build(self):
        t = time.time()
        with Lock("t-" + self.name):
            dep = os.path.join(self.target, "release", "deps")
            old = set(glob.glob(os.path.join(dep, self.lib + "-*.ll")))
            r = cargo(self.src, self.target, ["build", "--release", "--offline", "--quiet"], IR_FLAGS, self.more)
            if r.returncode:
                self.refused(r.stdout)
            lls = glob.glob(os.path.join(dep, self.lib + "-*.ll"))
            if not lls:
                raise Broken("no IR for " + self.name)
            lls.sort(key=os.path.getmtime)
            for f in lls[:-1]:
                os.remove(f)
            self.ll = lls[-1]
            self.a = os.path.join(self.target, "release", "lib%s.a" % self.lib)
        self.build_s = time.time() - t
        log("built %s in %.1f s (%d MB of IR)" % (self.name, self.build_s, os.path.getsize(self.ll) >> 20))
        return self

    def native(self, entries):
        """One executable that runs any of `entries` natively."""
        key = hashlib.sha256(("\n".join(entries)).encode()).hexdigest()[:12]
        exe = os.path.join(self.target, "native-" + key)
        if os.path.exists(exe) and os.path.getmtime(exe) > os.path.getmtime(self.a):
            return exe
        c = exe + ".c"
        with open(c, "w") as f:
            f.write("#include <string.h>\n#include <stdlib.h>\n")
            for x in entries:
                f.write("extern void %s(void);\n" % x)
            f.write("void sym_entry(void){const char*n=getenv(\"SYM_ENTRY\");if(!n)n=\"\";\n")
            for x in entries:
                f.write("if(!strcmp(n,\"%s\")){%s();return;}\n" % (x, x))
            f.write("abort();}\n")
        r = run(["gcc", "-O1", "-DSYM_ENTRY=sym_entry", "-Wl,--wrap=exit", "-o", exe + ".tmp", os.path.join(VERIF, "rt", "native.c"), c, self.a, "-lpthread", "-ldl", "-lm"])
        if r.returncode:
            raise Broken("native harness does not link:\n" + r.stdout[-3000:])
        os.replace(exe + ".tmp", exe)
        return exe


class Refused(Exception):
    """The generators refuse a specification of ours, or write what is no module."""


class Generated(Crate):
    """A harness crate around parsers that the current generators write."""

    def __init__(self, name):
        super().__init__(name)
        self.out = os.path.join(BUILD, name + "-gen")
        self.more = {"HGP_GENERATED": self.out}

    def refused(self, text):
        # an error inside a generated module, or one of the harness
        if re.search(r"--> %s/[\w/]+\.rs" % re.escape(self.out), re.split(r"(?m)^error", text, maxsplit=1)[-1]):
            raise Refused("the generated modules do not compile:\n" + text[-6000:])
        super().refused(text)

    def generate(self, specs):
        """What the generators write for the specifications in a directory, by name."""
        mk, target = os.path.join(VERIF, "harness", "mk"), os.path.join(BUILD, "t-mk")
        with Lock("t-mk"):
            r = cargo(mk, target, ["build", "--release", "--offline", "--quiet"])
            if r.returncode:
                raise Broken("harness mk does not build against the current tree:\n" + r.stdout[-6000:])
            d = tempfile.mkdtemp(prefix="gen-", dir=BUILD)
            try:
                r = run([os.path.join(target, "release", "mk"), specs, d], timeout=120)
                if r.returncode:
                    raise Refused("the generators give up on specifications without errors:\n" + r.stdout[-6000:])
                return {f: open(os.path.join(d, f), encoding="utf-8", errors="replace").read() for f in sorted(os.listdir(d))}
            finally:
                shutil.rmtree(d, ignore_errors=True)

    def build(self):
        for f, text in self.generate(os.path.join(self.src, "specs")).items():
            put(os.path.join(self.out, f), text)
        return super().build()


class Booted(Generated):
    """A harness crate around copies of the generators whose parsers they have
    written themselves, from the specifications beside their sources."""

    def build(self):
        d = tempfile.mkdtemp(prefix="own-", dir=BUILD)
        own = (("lalr1_lib", "lalr1_self", "parser.laps", "parser_l.rs"), ("alalr1_lib", "alalr1_self", "parser.alaps", "parser_a.rs"))
        try:
            for lib, _, spec, _ in own:
                shutil.copy(os.path.join(REPO, lib, "src", spec), d)
            made = self.generate(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        for lib, name, _, parser in own:
            src, dst = os.path.join(REPO, lib), os.path.join(self.out, name)
            toml = open(os.path.join(src, "Cargo.toml")).read()
            toml = re.sub(r'(?m)^name = ".*"', 'name = "%s"' % name, toml, count=1).replace('path = "../', 'path = "%s/' % REPO)
            put(os.path.join(dst, "Cargo.toml"), toml + "\n[workspace]\n")
            keep = set()
            for root, dirs, files in os.walk(os.path.join(src, "src")):
                for f in files:
                    if f.endswith(".rs"):
                        rel = os.path.relpath(os.path.join(root, f), src)
                        keep.add(rel)
                        put(os.path.join(dst, rel), made[parser] if rel == "src/parser.rs" else open(os.path.join(root, f)).read())
            for root, dirs, files in os.walk(os.path.join(dst, "src")):
                for f in files:
                    if os.path.relpath(os.path.join(root, f), dst) not in keep:
                        os.remove(os.path.join(root, f))
        return Crate.build(self)


def replay(exe, entry, hexin, timeout=20):
    e = dict(os.environ, SYM_ENTRY=entry, SYM_INPUT=hexin, RUST_BACKTRACE="0")
    # files the code writes stay in a scratch directory
    d = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    try:
        r = subprocess.run(["bash", "-c", "ulimit -v 8000000; ulimit -f 20000; exec " + exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=d)
    except subprocess.TimeoutExpired:
        return dict(kind="hang", code=3, obs=[], out="", notes=[])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out = r.stdout.decode(errors="replace")
    obs, notes, kind, code = [], [], "none", 0
    for l in out.split("\n"):
        if l.startswith("O "):
            obs.append(int(l[2:]))
        elif l.startswith("N "):
            notes.append(l[2:])
        elif l.startswith("ASSERT "):
            kind, code = "assert", int(l[7:])
        elif l == "END":
            kind = "end"
        elif l == "ASSUME":
            kind = "assume"
    if kind in ("none", "end") and r.returncode < 0:
        kind, code = "panic", -r.returncode
    return dict(kind=kind, code=code, obs=obs, notes=notes, out=out[-2000:] + r.stderr.decode(errors="replace")[-2000:])


class Entry:
    """One symbolic run: `need` are the cover points that must be reached."""

    def __init__(self, crate, name, bounds, need=(), time=300, max_steps=400000000, cross=6):
        self.crate, self.name, self.bounds, self.need, self.time, self.max_steps, self.cross = crate, name, bounds, tuple(need), time, max_steps, cross


class Result:
    pass


def symex(exe, crate, ent, jobs=8):
    out = os.path.join(BUILD, "out-%s-%s.txt" % (crate.name, ent.name))
    r = run([exe, "--ll", crate.ll, "--entry", ent.name, "--out", out, "--jobs", str(jobs), "--time", str(ent.time),
             "--max-steps", str(ent.max_steps), "--filter", REPO + "/", "--samples", "24"], timeout=ent.time + 120)
    if r.returncode or not os.path.exists(out):
        raise Broken("symbolic executor failed on %s: %s" % (ent.name, r.stdout[-2000:]))
    o = Result()
    o.fails, o.errors, o.samples, o.covers, o.n, o.mass, o.funcs, o.secs = [], [], [], {}, {}, 0.0, set(), 0.0
    for l in open(out, errors="replace"):
        p = l.rstrip("\n").split("\t")
        if p[0] == "F":
            o.fails.append(dict(kind=p[1], code=int(p[2]), detail=p[3], model=p[4], notes=p[5], bt=p[6] if len(p) > 6 else ""))
        elif p[0] == "E":
            o.errors.append(p[1:])
        elif p[0] == "S":
            o.samples.append((p[1], [int(x) for x in p[2].split(",") if x and x != "?"], p[3]))
        elif p[0] == "C":
            o.covers[int(p[1])] = o.covers.get(int(p[1]), 0) + int(p[2])
        elif p[0] == "N":
            o.n[p[1]] = o.n.get(p[1], 0) + int(p[2])
        elif p[0] == "M":
            o.mass += float(p[1])
        elif p[0] == "U":
            o.funcs.add(p[1])
        elif p[0] == "T":
            o.secs = float(p[1])
    return o


def known(prop):
    """Entries of the known-findings file for a property."""
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == prop]


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.violations, self.known_hit, self.entries, self.funcs = [], [], [], set()
        self.tot = {}
        self.validated = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.broken = []

    def violation(self, title, text):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.txt" % (self.prop, len(self.violations) + 1))
        with open(p, "w") as f:
            f.write(title + "\n" + text + "\n")
        self.violations.append((title, p))

    def known_match(self, ent, f, rep):
        for k in known(self.prop):
            if k.get("entry") == ent.name and f["model"].startswith(k.get("input_prefix", "\0")):
                return k
        return None

    def run_entry(self, exe, crate, native, ent, jobs=8):
        o = symex(exe, crate, ent, jobs)
        log("%s: %d paths, %d cut, mass %.6f, %d fail, %d err, %.1f s" % (ent.name, o.n.get("paths", 0), o.n.get("cuts", 0), o.mass, len(o.fails), len(o.errors), o.secs))
        for k, v in o.n.items():
            self.tot[k] = self.tot.get(k, 0) + v
        self.funcs |= o.funcs
        done = False
        seen = set()
        for f in o.fails:
            key = (f["kind"], f["code"], f["detail"])
            rep = replay(native, ent.name, f["model"])
            same = rep["kind"] == f["kind"] and (f["kind"] != "assert" or rep["code"] == f["code"])
            if not same:
                self.broken.append("%s: the solver's model %s does not replay natively: %s vs %s" % (ent.name, f["model"], f, rep))
                continue
            k = self.known_match(ent, f, rep)
            if k:
                self.known_hit.append(k)
                continue
            done = True
            if key in seen:
                continue
            seen.add(key)
            self.violation("%s: %s %s %s %s" % (ent.name, f["kind"], f["code"], f["detail"], f["notes"]),
                           "entry: %s\ninput bytes (hex): %s\nbounds: %s\nbacktrace of the symbolic run: %s\nnative replay (%s %s):\n%s\nreplay command: SYM_ENTRY=%s SYM_INPUT=%s %s"
                           % (ent.name, f["model"], ent.bounds, f["bt"], rep["kind"], rep["code"], rep["out"], ent.name, f["model"], native))
        for e in o.errors:
            if not done:
                self.broken.append("%s: engine: %s" % (ent.name, e))
        if not done and not o.fails and not o.errors:
            if o.n.get("incomplete"):
                self.broken.append("%s: exploration incomplete after %.0f s" % (ent.name, o.secs))
            elif not o.n.get("mass_inexact") and abs(o.mass - 1.0) > 1e-6:
                self.broken.append("%s: explored share of the input space is %.9f" % (ent.name, o.mass))
            for c in ent.need:
                if c not in o.covers:
                    self.broken.append("%s: vacuous: cover point %d not reached" % (ent.name, c))
            if not o.n.get("paths"):
                self.broken.append("%s: no path" % ent.name)
        # the executor's own account of the real code against native runs
        ok = 0
        pick = o.samples[:: max(1, len(o.samples) // ent.cross)] if ent.cross else []
        for model, obs, notes in pick:
            rep = replay(native, ent.name, model)
            if rep["kind"] != "end" or rep["obs"] != obs:
                self.broken.append("%s: native run of %s differs from the symbolic path: %s vs %s" % (ent.name, model, rep, obs))
            else:
                ok += 1
        self.validated += ok
        for model, obs, notes in o.samples[:3]:
            self.samples.append(dict(entry=ent.name, input_hex=model, observed=obs[:16], notes=notes[:200]))
        self.entries.append(dict(entry=ent.name, bounds=ent.bounds, paths=o.n.get("paths", 0), cut=o.n.get("cuts", 0), branch_forks=o.n.get("forks", 0),
                                 instructions=o.n.get("instrs", 0), solver_queries=o.n.get("queries", 0), unsat=o.n.get("unsat", 0), sat=o.n.get("sat", 0),
                                 solver_s=round(o.n.get("solver_us", 0) / 1e6, 3), wall_s=round(o.secs, 2), input_space_share=None if o.n.get("mass_inexact") else round(o.mass, 9),
                                 failures=len(o.fails), covers={str(k): v for k, v in sorted(o.covers.items())}))
        return o

    def finish(self, level="model_checking"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(states=self.tot.get("paths", 0) + self.tot.get("cuts", 0), transitions=self.tot.get("forks", 0),
                   traces_validated_against_impl=self.validated, samples=self.samples[:24],
                   explanation="states = symbolic paths run to their end (completed + cut by an assumption), transitions = two-way forks at symbolic branches; "
                   "each completed path is a set of inputs described by its path condition, on all of which the assertions held",
                   entries=self.entries, functions_encoded=sorted(self.funcs), solver_queries=self.tot.get("queries", 0), solver_unsat=self.tot.get("unsat", 0),
                   solver_sat=self.tot.get("sat", 0), solver_s=round(self.tot.get("solver_us", 0) / 1e6, 3), instructions=self.tot.get("instrs", 0))
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=SEED, level=level, coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - T0, 2), violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        seen = set()
        for k in self.known_hit:
            if k["what"] not in seen:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                seen.add(k["what"])
        for t, p in self.violations:
            print("  " + t)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        if self.violations:
            for b in self.broken:
                print("note: " + b[:2000])
            sys.stdout.flush()
            return 1
        if self.broken:
            for b in self.broken:
                print("CHECK-ERROR: " + b[:3000])
            sys.stdout.flush()
            return 2
        print("OK property=%s %d paths, %d solver queries, %d native replays, %.1f s" % (self.prop, cov["states"], cov["solver_queries"], self.validated, time.time() - T0))
        return 0
