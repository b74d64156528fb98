"""Shared machinery of the checks: building drivers from /repo's working tree, running TLC, reporting."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
OUT = os.environ.get("VERIF_OUT") or os.path.join(VERIF, "build")   # git-ignored; everything in it is recreated on every run
TLA_CP = "/opt/veriftools/tla/tla2tools.jar"
JOBS = os.cpu_count() or 4
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")

CXX = "g++"
BASE = ["-fext-numeric-literals", "-march=x86-64-v3", "-I" + REPO + "/include", "-I" + HARNESS, "-g1", "-w"]


class CheckError(Exception):
    """The machinery itself failed (compiler, TLC, ...): exit 2, neither a pass nor a violation."""


class NotConstant(CheckError):
    """A constant expression of a driver (a call the specification gives a value to) no longer has a value."""


def sh(cmd, timeout=600, env=None, cwd=None, stdin=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd,
                           stdin=stdin)
    except subprocess.TimeoutExpired as ex:
        return None, (ex.stdout or b"").decode("utf8", "replace"), "timeout"
    return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")


def _compile(args):
    src, obj, flags = args
    rc, o, e = sh([CXX] + flags + ["-c", src, "-o", obj], timeout=600)
    if rc != 0 and re.search(r"(is not a constant expression|is not usable in a constant expression|called in a constant expression"
                             r"|non-constant condition|overflow in constant expression|<throw-expression>"
                             r"|in .constexpr. expansion of|is outside the bounds of array)", e or ""):
        where = re.findall(r"^\S*%s\S*: error: .*|^\S+: error: .*" % re.escape(os.path.basename(src)), e, re.M)
        raise NotConstant("%s: a call that has a value no longer has one at compile time: %s" % (
            os.path.basename(src), " / ".join(w[:300] for w in where[:2])))
    if rc != 0:
        raise CheckError("compile failed: %s\n%s" % (src, (e or "")[-3000:]))
    return obj


def build(name, units, flags, link=(), tag=""):
    """units: list of (source, extra_flags or None to use `flags`). Returns path of the executable. Always rebuilds."""
    d = os.path.join(OUT, name + tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    jobs = []
    for i, u in enumerate(units):
        src, fl = u if isinstance(u, tuple) else (u, None)
        obj = os.path.join(d, "%d_%s.o" % (i, os.path.basename(src)))
        jobs.append((src, obj, BASE + (flags if fl is None else fl)))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(_compile, jobs))
    exe = os.path.join(d, name)
    rc, o, e = sh([CXX] + objs + ["-o", exe] + list(link) + ["-lpthread", "-ldl", "-lquadmath"], timeout=300)
    if rc != 0:
        raise CheckError("link failed: %s\n%s" % (name, (e or "")[-3000:]))
    return exe


def repo_src(*names):
    return [os.path.join(REPO, "src", n + ".cpp") for n in names]


LIBSRC = ["hashing", "string_param", "thread_name", "thread_pool", "uuid", "vector_types_common"]
SAN = ["-std=c++20", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-fno-sanitize=alignment,vptr,float-cast-overflow"]
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=1",
           "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:abort_on_error=1"}


def build_seq(name, libs=(), flags=None, extra=(), tag="", link=(), parts=0):
    """A sequential driver harness/<name>.cpp with ASan+UBSan, plus the listed library sources."""
    flags = list(flags if flags is not None else SAN) + ["-DMUU_BUILDING=1", "-I" + REPO + "/src"] + list(extra)
    src = os.path.join(HARNESS, name + ".cpp")
    # a driver may be compiled in several parts (-DPART=n), in parallel
    units = [(src, flags + ["-DPART=%d" % k]) for k in range(parts)] if parts else [src]
    units += repo_src(*libs)
    lk = list(link)
    if any("-fsanitize=address" in f for f in flags):
        lk += ["-fsanitize=address,undefined"]
    return build(name, units, flags, lk, tag)


def run_env(**kw):
    e = dict(os.environ)
    e.update(SAN_ENV)
    e.update({k: str(v) for k, v in kw.items()})
    return e


# ----------------------------------------------------------------------------------------------------------------- TLC
class TlcResult:
    pass


def tlc(module, cfg=None, env=None, workers=None, timeout=800, extra=(), heap="6g", modules=None):
    """Runs TLC in a scratch copy of spec/. Returns a TlcResult: ok, violated(kind,name), states, distinct, out, trace."""
    scratch = tempfile.mkdtemp(prefix="tlc_", dir=_ensure(OUT))
    try:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                os.symlink(os.path.join(SPEC, f), os.path.join(scratch, f))
        for f, text in (modules or {}).items():
            open(os.path.join(scratch, f), "w").write(text)
        if cfg is not None and "\n" in cfg:
            cpath = os.path.join(scratch, "run.cfg")
            open(cpath, "w").write(cfg)
        else:
            cpath = os.path.join(scratch, cfg or (module + ".cfg"))
        cp = TLA_CP
        comm = [p for p in ("/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/veriftools/tla/CommunityModules.jar")
                if os.path.exists(p)]
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", ":".join([cp] + comm), "tlc2.TLC",
               "-workers", str(workers or JOBS), "-metadir", os.path.join(scratch, "states"), "-config", cpath,
               "-noGenerateSpecTE", "-lncheck", "final"] + list(extra) + [os.path.join(scratch, module + ".tla")]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e.pop("JAVA_TOOL_OPTIONS", None)
        t0 = time.time()
        rc, o, err = sh(cmd, timeout=timeout, env=e, cwd=scratch)
        r = TlcResult()
        r.wall = time.time() - t0
        r.rc, r.out = rc, o + ("\n" + err if err else "")
        r.timeout = rc is None
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", r.out)
        r.states, r.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        m = re.search(r"The depth of the complete state graph search is (\d+)", r.out)
        r.depth = int(m.group(1)) if m else 0
        r.violated = None
        for pat, kind in ((r"Invariant (\S+) is violated", "invariant"), (r"Action property (\S+) is violated", "action property"),
                          (r"Temporal propert(?:y|ies).* violated", "liveness"), (r"Deadlock reached", "deadlock"),
                          (r"[Pp]ostcondition (\S+) .*violated|The postcondition (\S+)", "postcondition"),
                          (r"Property (\S+) is violated", "property"),
                          (r"Assumption (.*?) is false", "assumption")):
            mm = re.search(pat, r.out)
            if mm:
                r.violated = (kind, next((g for g in mm.groups() if g), kind) if mm.groups() else kind)
                break
        r.ok = rc == 0 and r.violated is None and "Finished in" in r.out
        r.prints = re.findall(r"^<<.*>>$", r.out, re.M)
        return r
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _ensure(d):
    os.makedirs(d, exist_ok=True)
    return d


def tlc_must(module, what, **kw):
    """TLC run on the design alone: failing here is a failure of the specification, never of the code."""
    r = tlc(module, **kw)
    if not r.ok:
        raise CheckError("TLC on %s (%s) did not succeed: %s\n%s" % (module, what, r.violated, r.out[-4000:]))
    return r


def validate_batch(module, cfg, files, extra_env=None, timeout=800, heap="2g", workers=1, par=None, modules=None):
    """Runs one TLC per trace file, in parallel. Each file's module must expose the monitor convention: invariant
    NoReject, and a printed/last-state record. Returns list of TlcResult in order."""
    def one(f):
        env = {"TRACE": f}
        env.update(extra_env or {})
        return tlc(module, cfg=cfg, env=env, workers=workers, timeout=timeout, heap=heap, modules=modules)
    with cf.ThreadPoolExecutor(par or JOBS) as ex:
        return list(ex.map(one, files))


def last_state(out):
    """The last state of a TLC counterexample, as {var: text}."""
    blocks = re.split(r"^State \d+:.*$|^\d+: <.*$", out, flags=re.M)
    if len(blocks) < 2:
        return {}
    txt = blocks[-1]
    txt = txt.split("\n\n")[0]
    res = {}
    for m in re.finditer(r"^/\\ (\w+) = (.*?)(?=^/\\ \w+ = |\Z)", txt + "\n", flags=re.M | re.S):
        res[m.group(1)] = " ".join(m.group(2).split())
    return res


# ------------------------------------------------------------------------------------------------------------- reports
def known_findings():
    """Lines of known_findings.txt: `known: property=ID <key> | <what fails>` (a violation whose text contains the key is
    reported as a known finding, once) and `fixed: property=ID <commit> <what failed>` (suppresses nothing)."""
    p = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) (.*?) \| (.*)", line)
            if m:
                res.append({"property": m.group(1), "key": m.group(2), "what": m.group(3)})
    return res


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assume = []
        self.violations = []
        self.notes = []
        _ensure(OUT)
        _ensure(os.path.join(VERIF, "evidence"))

    def add_tlc(self, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.states

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def violation(self, what, replay):
        """replay: dict saved to a file"""
        d = _ensure(os.path.join(VERIF, "build", "replays"))
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        json.dump({"property": self.prop, "what": what, "replay": replay}, open(p, "w"), indent=1, default=str)
        self.violations.append((what, p))

    def finish(self):
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": self.cov, "assumptions": self.assume,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1, default=str)
        for k in known_findings():
            if k["property"] == self.prop:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                self.violations = [v for v in self.violations if k["key"] not in v[0]]
        for what, p in self.violations:
            print("  " + what)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        if not self.violations:
            print("OK property=%s %s" % (self.prop, json.dumps({k: v for k, v in self.cov.items() if k != "samples"})))
        return 1 if self.violations else 0


def main_wrap(fn):
    try:
        rc = fn()
    except CheckError as ex:
        print("CHECK ERROR: " + str(ex), file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
