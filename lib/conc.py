"""Runs a controlled-scheduler driver over many seeds and judges every distinct execution with a TLA+ monitor."""
import json, os, shutil, concurrent.futures as cf, time
import vlib

TS = ["-std=c++20", "-O1", "-fsanitize=thread", "-DMUU_BUILDING=1", "-I" + vlib.REPO + "/src"]
PL = ["-std=c++20", "-O2"]


def build_conc(name, libs):
    H = vlib.HARNESS
    return vlib.build(name, [H + "/%s.cpp" % name, *vlib.repo_src(*libs), (H + "/vlog.cpp", PL), (H + "/vsched.cpp", PL)], TS)


def run_chunk(exe, mode, first, count, timeout):
    rc, o, e = vlib.sh([exe, mode, str(first), str(count)], timeout=timeout)
    if rc not in (0, None):
        raise vlib.CheckError("driver %s %s failed: rc=%s %s" % (exe, mode, rc, e[-500:]))
    if rc is None and not o:
        raise vlib.CheckError("driver %s %s produced nothing in %ss" % (exe, mode, timeout))
    return o


class Execs:
    """distinct executions by their event sequence"""
    def __init__(self):
        self.seen = {}
        self.total = 0
        self.events = 0
        self.by_mode = {}

    def take(self, mode, text):
        for line in text.splitlines():
            if not line.endswith("}"):
                continue
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d["overflow"]:
                d["events"] = d["events"][:]
            self.total += 1
            ev = d["events"]
            if d["status"] == "stuck" and not any(x["e"] == "stuck" for x in ev):
                ev.append({"e": "stuck"})
            if d["status"] in ("crash", "hang"):
                ev.append({"e": d["status"]})
            key = json.dumps(ev)
            self.by_mode.setdefault(mode, [0, 0])[0] += 1
            if key not in self.seen:
                self.seen[key] = {"mode": mode, "seed": d["seed"], "status": d["status"], "events": ev}
                self.events += len(ev)
                self.by_mode[mode][1] += 1


def collect(exe, plan, budget, max_events, chunk=40):
    """plan: list of (mode, weight). Runs seeds round-robin until the wall budget or the event budget is used."""
    ex = Execs()
    t0 = time.time()
    nxt = {m: 1 + 1000000 * (vlib.SEED - 1) for m, _ in plan}
    sched = [m for m, w in plan for _ in range(w)]
    k = 0
    with cf.ThreadPoolExecutor(vlib.JOBS) as pool:
        pend = {}
        while True:
            while len(pend) < vlib.JOBS and time.time() - t0 < budget and ex.events < max_events:
                m = sched[k % len(sched)]
                k += 1
                f = pool.submit(run_chunk, exe, m, nxt[m], chunk, max(120, budget * 2))
                nxt[m] += chunk
                pend[f] = m
            if not pend:
                break
            done, _ = cf.wait(list(pend), return_when=cf.FIRST_COMPLETED)
            for f in done:
                ex.take(pend.pop(f), f.result())
    return ex


def judge(check, module, execs, clause, exe, env=None, tlc_timeout=700):
    d = os.path.join(vlib.OUT, "traces_%s_%d" % (check.prop, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    items = sorted(execs.seen.values(), key=lambda x: (x["status"] == "ok", len(x["events"])))
    n = max(1, min(vlib.JOBS, len(items)))
    files = []
    for j in range(n):
        p = os.path.join(d, "t%d.ndjson" % j)
        with open(p, "w") as f:
            for it in items[j::n]:
                f.write(json.dumps({"seed": it["seed"], "mode": it["mode"], "events": it["events"]}) + "\n")
        files.append(p)
    cfg = "SPECIFICATION Spec\nINVARIANT NoReject\nCHECK_DEADLOCK FALSE\n"
    ev = {"CLAUSES": clause}
    ev.update(env or {})
    res = vlib.validate_batch(module, cfg, files, extra_env=ev, timeout=tlc_timeout)
    for j, r in enumerate(res):
        check.add_tlc(r)
        if r.violated and r.violated[0] == "invariant":
            st = vlib.last_state(r.out)
            tr = int(st.get("tr", "1"))
            it = items[j::n][tr - 1]
            # the schedule is a function of the seed: the same execution must come out again
            again = Execs()
            again.take(it["mode"], run_chunk(exe, it["mode"], it["seed"], 1, 120))
            rep = list(again.seen.values())[0]["events"] if again.seen else None
            if it["status"] in ("hang", "crash") and rep and rep[-1]["e"] != it["events"][-1]["e"]:
                # not reproduced: a starved machine, not the code
                check.notes.append("unreproduced " + it["status"])
                continue
            check.violation("%s (execution: mode %s seed %s)" % (st.get("bad"), it["mode"], it["seed"]),
                            {"driver": exe, "mode": it["mode"], "seed": it["seed"], "reproduced": rep == it["events"],
                             "step": st.get("i"), "events": it["events"]})
        elif not r.ok:
            raise vlib.CheckError("TLC failed while judging traces: %s" % r.out[-3000:])
    check.add("traces_validated_against_impl", len(items))
    check.add("executions", execs.total)
    check.add("events", execs.events)
    check.cov["executions_by_mode(total,distinct)"] = {k: tuple(v) for k, v in execs.by_mode.items()}
    for it in items[:1] + items[len(items) // 2:len(items) // 2 + 2]:
        check.sample({"mode": it["mode"], "seed": it["seed"], "events": it["events"][:40]})
    shutil.rmtree(d, ignore_errors=True)
