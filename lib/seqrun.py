"""Conformance of the sequential components: TLC explores a component's specification and prints one operation sequence
per transition; the driver performs them (and random ones) on the real code; TLC judges the recorded observations."""
import json, os, re, shutil, concurrent.futures as cf
import vlib

JUDGE = """---- MODULE {X}Judge ----
EXTENDS {X}, Json, IOUtils
VARIABLES tr, i, s, bad
Traces == ndJsonDeserialize(IOEnv.TRACE)
Judged == IOEnv.CLAUSES
vars == <<tr, i, s, bad>>
Init == tr \\in 1..Len(Traces) /\\ i = 1 /\\ s = Init0 /\\ bad = {{}}
Next == /\\ bad = {{}} /\\ i <= Len(Traces[tr].events)
        /\\ LET e == Traces[tr].events[i] IN
             /\\ bad' = {{r \\in Rejects(s, e) : r[1] = Judged}}
             /\\ s' = IF e.op[1] \\in {{"crash", "hang", "fin"}} \\/ bad' # {{}} THEN s ELSE Step(s, e)
             /\\ i' = i + 1
        /\\ tr' = tr
Spec == Init /\\ [][Next]_vars
NoReject == bad = {{}}
====
"""
GEN = """---- MODULE {X}Gen ----
EXTENDS {X}, Json
CONSTANT Depth
VARIABLES s, hist
Init == s = Init0 /\\ hist = <<>>
Next == \\E o \\in GenOps(s) :
           /\\ hist' = Append(hist, o) /\\ s' = Step(s, [op |-> o, out |-> <<>>])
           /\\ PrintT(ToJson(hist'))
Spec == Init /\\ [][Next]_<<s, hist>>
Short == Len(hist) < Depth /\\ GenBound(s)
View == s
====
"""


def write_module(d, name, text):
    open(os.path.join(d, name), "w").write(text)


def generate(check, X, depth, cap, timeout=400):
    """Operation sequences covering every transition of the specification's state graph up to `depth`."""
    mods = {X + "Gen.tla": GEN.format(X=X)}
    r = vlib.tlc(X + "Gen", cfg="SPECIFICATION Spec\nCONSTANT Depth = %d\nCONSTRAINT Short\nVIEW View\nCHECK_DEADLOCK FALSE\n" % depth,
                 workers=1, timeout=timeout, modules=mods)
    if not r.ok:
        raise vlib.CheckError("TLC could not explore %s: %s" % (X, r.out[-2500:]))
    check.add_tlc(r)
    seqs = [json.loads(json.loads(l)) for l in r.out.splitlines() if l.startswith('"[')]
    total = len(seqs)
    if total > cap:  # an even sample of the transitions, deterministic
        step = total / cap
        seqs = [seqs[int(k * step)] for k in range(cap)]
    check.add("spec_transitions_replayed", len(seqs))
    check.add("spec_transitions_generated", total)
    return seqs


def run_driver(exe, args, timeout, env=None):
    rc, o, e = vlib.sh([exe] + args, timeout=timeout, env=vlib.run_env(**(env or {})))
    if rc != 0:
        raise vlib.CheckError("driver %s %s failed: rc=%s %s" % (exe, args[:2], rc, e[-800:]))
    return o


def judge(check, X, clause, lines, exe, timeout=700, nfiles=None):
    """lines: recorded executions (JSON text), already from the real code."""
    d = os.path.join(vlib.OUT, "seq_%s_%s_%d" % (check.prop, X, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    n = max(1, min(nfiles or vlib.JOBS, len(lines)))
    # balance by size
    files, parts = [], [lines[j::n] for j in range(n)]
    for j in range(n):
        p = os.path.join(d, "t%d.ndjson" % j)
        open(p, "w").write("\n".join(parts[j]) + "\n")
        files.append(p)
    cfg = "SPECIFICATION Spec\nINVARIANT NoReject\nCHECK_DEADLOCK FALSE\n"
    res = vlib.validate_batch(X + "Judge", cfg, files, extra_env={"CLAUSES": clause}, timeout=timeout, heap="3g",
                              modules={X + "Judge.tla": JUDGE.format(X=X)})
    for j, r in enumerate(res):
        check.add_tlc(r)
        st = vlib.last_state(r.out)
        # a number so far off that the specification cannot even compute with it (TLC's integers have 32 bits)
        off = not r.ok and not r.violated and "tr" in st and re.search(r"Overflow when computing|out of range|out of domain|Attempted to", r.out)
        if off:
            st["bad"], st["i"] = '{"%s", "beyond what the specification allows: %s"}' % (clause, off.group(0)), str(int(st["i"]) + 1)
        if off or r.violated and r.violated[0] == "invariant":
            tr, i = int(st.get("tr", "1")), int(st.get("i", "2")) - 1
            t = json.loads(parts[j][tr - 1])
            evs = t["events"]
            ops = [e.get("of") or e["op"] for e in evs[:i] if e["op"][0] != "fin"]
            check.violation("%s at %s" % (st.get("bad"), json.dumps(evs[i - 1])[:300]),
                            {"component": X, "driver": exe, "ops": ops, "observed": evs[max(0, i - 3):i]})
        elif not r.ok:
            raise vlib.CheckError("TLC failed while judging %s: %s" % (X, r.out[-3000:]))
    check.add("traces_validated_against_impl", len(lines))
    check.add("operations_judged", sum(l.count('"op":') for l in lines))
    for l in lines[:: max(1, len(lines) // 2)][:2]:
        check.sample({"component": X, "trace": l[:800]})
    shutil.rmtree(d, ignore_errors=True)


RELEASE = ["-std=c++20", "-O2", "-DNDEBUG"]


def component(check, X, clause, driver, libs=(), depth=0, cap=6000, seeds=400, extra=(), flags=None, tag="", exe=None, judge_files=None,
              timeout=700, env=None, parts=0, release=True, link=()):
    """Builds the driver, replays the specification's transitions and random sequences, and judges all of them. The same
    sequences also run on an optimized build without assertions and sanitizers (the library's attributes and pragmas for
    the optimizer only take effect there); what it does differently from the first build is judged too."""
    with cf.ThreadPoolExecutor(3) as ex:
        dbg = None if exe else ex.submit(vlib.build_seq, driver, libs, extra=extra, flags=flags, tag=tag, parts=parts, link=link)
        rel = ex.submit(vlib.build_seq, driver, libs, extra=extra, flags=RELEASE, tag=tag + "_rel", parts=parts, link=link) if release else None
        seqs = generate(check, X, depth, cap) if depth else []
        try:
            exe = exe or dbg.result()
            exes = [exe] + ([rel.result()] if rel else [])
        except vlib.NotConstant as e:
            check.violation(str(e), {"driver": driver, "compiler": str(e)})
            return None, []
    lines, seen = [], set()
    jobs, files = [], []
    with cf.ThreadPoolExecutor(vlib.JOBS) as ex:
        n = vlib.JOBS
        for j in range(n if seqs else 0):
            part = seqs[j::n]
            if not part:
                continue
            p = os.path.join(vlib.OUT, "gen_%s_%s_%d_%d.txt" % (check.prop, X, os.getpid(), j))
            open(p, "w").write("\n".join(json.dumps(s) for s in part) + "\n")
            files.append(p)
        for x in exes:
            jobs += [(x, ex.submit(run_driver, x, ["file", p], timeout, env)) for p in files]
            if seeds:
                first = 1 + 1000000 * (vlib.SEED - 1)
                step = (seeds + n - 1) // n
                for k in range(0, seeds, step):
                    jobs.append((x, ex.submit(run_driver, x, ["rand", str(first + k), str(min(step, seeds - k))], timeout, env)))
        for x, f in jobs:
            for l in f.result().splitlines():
                if l.startswith("{") and not (x != exe and l in seen):
                    lines.append((l, x))
                    seen.add(l)
    for p in files:
        os.unlink(p)
    if not lines:
        raise vlib.CheckError("driver %s produced nothing" % exe)
    nrel = sum(1 for l, x in lines if x != exe)
    check.add("release_build_differs", nrel)
    judge(check, X, clause, [l for l, x in lines], exe, timeout, judge_files)
    return exe, [l for l, x in lines]
