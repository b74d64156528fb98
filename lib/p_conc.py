"""C01..C06: the thread pool and the spin mutex. Design: TLC on ThreadPool.tla / SpinMutex.tla against the contract;
code: every distinct execution recorded under the controlled scheduler is judged by the same contract."""
import concurrent.futures as cf
import vlib, conc

POOL_LIBS = ["thread_pool", "string_param", "thread_name", "vector_types_common"]
CONTRACT = "Contract TypeOK CounterCovers"


def tp_cfg(w, q, prog, variant="ok", live=False, inv=CONTRACT):
    return ("SPECIFICATION Spec\nCONSTANTS W=%d QCap=%d Variant=\"%s\"\n Progs <- P%s\nINVARIANT %s\n%s"
            % (w, q, variant, prog, inv, "PROPERTY Finishes EveryWaitReturns\n" if live else ""))


# property -> design configurations (workers, queue capacity, programs, liveness), broken variants, driver modes
POOL = {
    "C01": dict(quick=[(2, 1, "D", 0), (2, 2, "B", 0)], deep=[(3, 1, "B", 0), (2, 2, "F", 0), (3, 2, "C", 0)],
                variants=[("pop_without_lock", 2, 1, "B", 0), ("pop_twice", 2, 1, "B", 0), ("full_gt", 2, 1, "D", 0),
                          ("no_drain", 2, 1, "D", 0)],
                modes=[("enq", 2), ("wait", 2), ("destroy", 2), ("fifo", 1), ("foreach", 1), ("cap", 1)]),
    "C02": dict(quick=[(2, 1, "G", 1), (2, 2, "B", 0)], deep=[(2, 1, "E", 0), (2, 2, "B", 1), (2, 2, "F", 0)],
                variants=[("dec_before_run", 2, 1, "D", 0), ("dec_before_destroy", 2, 1, "B", 0), ("late_increment", 2, 1, "B", 0),
                          ("increment_one", 2, 2, "C", 0), ("if_not_while", 2, 1, "D", 0), ("no_notify", 1, 1, "A", 1),
                          ("notify_one", 2, 1, "G", 1)],
                modes=[("wait", 4), ("enq", 3), ("foreach", 2), ("cap", 1)]),
    "C03": dict(quick=[(2, 1, "D", 0), (2, 2, "B", 0)], deep=[(3, 1, "B", 0), (2, 2, "F", 0)],
                variants=[("no_drain", 2, 1, "D", 0), ("no_join", 2, 1, "D", 0)],
                modes=[("destroy", 6), ("enq", 1)]),
    "C04": dict(quick=[(2, 2, "C", 0), (2, 1, "D", 0)], deep=[(2, 2, "F", 0), (3, 2, "C", 0)],
                variants=[("pop_without_lock", 2, 1, "C", 0), ("multi_off_by_one", 2, 2, "C", 1), ("full_gt", 2, 2, "C", 1)],
                modes=[("foreach", 7), ("wait", 1), ("enq", 1)]),
    "C05": dict(quick=[(1, 1, "A", 1), (2, 1, "D", 0)], deep=[(1, 2, "B", 1), (2, 1, "E", 0)],
                variants=[("full_gt", 1, 1, "A", 1)],
                modes=[("cap", 3), ("fifo", 3), ("enq", 1), ("size", 1)]),
}


def run(prop):
    ck = vlib.Check(prop)
    thorough = vlib.TIER == "thorough"
    if prop == "C06":
        return spin(ck, thorough)
    p = POOL[prop]
    pool = cf.ThreadPoolExecutor(4)
    exe_f = pool.submit(conc.build_conc, "pool_driver", POOL_LIBS)
    des = [(c, pool.submit(vlib.tlc_must, "MCThreadPool", str(c), cfg=tp_cfg(*c[:3], live=c[3]), workers=8 if thorough else 4,
                           timeout=3000))
           for c in p["quick"] + (p["deep"] if thorough else [])]
    var = [(v, pool.submit(vlib.tlc, "MCThreadPool", cfg=tp_cfg(v[1], v[2], v[3], v[0], v[4], inv="Contract"), workers=2))
           for v in (p["variants"] if thorough else p["variants"][:2])]
    for c, f in des:
        ck.add_tlc(f.result())
    for v, f in var:
        if not f.result().violated:
            raise vlib.CheckError("the specification accepts the broken design %s: %s" % (v[0], f.result().out[-1500:]))
    ck.add("broken_designs_rejected", len(var))
    exe = exe_f.result()
    ex = conc.collect(exe, p["modes"], 600 if thorough else 25, 6000000 if thorough else 350000)
    conc.judge(ck, "PoolTrace", ex, prop, exe, tlc_timeout=3000 if thorough else 700)
    ck.assume = ["sequentially consistent interleavings plus happens-before race detection on probed memory",
                 "libstdc++/pthread primitives behave as POSIX says (they are the scheduler's own)",
                 "at most 3 workers (7 for sizes), 3 producers; seeds %d.." % (1 + 1000000 * (vlib.SEED - 1))]
    return ck.finish()


def spin(ck, thorough):
    def cfg(th, rounds, variant, live):
        return ('SPECIFICATION Spec\nCONSTANTS Threads={%s} Rounds=%d Variant="%s"\nINVARIANT Contract%s\n%s'
                % (",".join(map(str, range(1, th + 1))), rounds, variant, " Exclusion" if variant == "ok" else "",
                   "PROPERTY Finishes\n" if live else ""))
    exe = conc.build_conc("spin_driver", [])
    ck.add_tlc(vlib.tlc_must("SpinMutex", "2 threads", cfg=cfg(2, 2, "ok", True)))
    ck.add_tlc(vlib.tlc_must("SpinMutex", "3 threads", cfg=cfg(3, 3 if thorough else 1, "ok", False), timeout=3000))
    vs = ["relaxed_acquire", "relaxed_release", "no_exchange", "inverted_test", "no_unlock"]
    for v in vs:
        if not vlib.tlc("SpinMutex", cfg=cfg(2, 2, v, False), workers=2).violated:
            raise vlib.CheckError("the specification accepts the broken design " + v)
    ck.add("broken_designs_rejected", len(vs))
    ex = conc.collect(exe, [("all", 1)], 400 if thorough else 10, 6000000 if thorough else 500000, chunk=400)
    conc.judge(ck, "MutexTrace", ex, "C06", exe, tlc_timeout=3000 if thorough else 700)
    ck.assume = ["sequentially consistent interleavings plus happens-before race detection on the protected data",
                 "at most 4 threads, 2 mutexes, 5 operations each"]
    return ck.finish()
