------------------------------ MODULE TaskPool ------------------------------
(***************************************************************************)
(* The contract of muu::thread_pool, stated over API-level events: what a   *)
(* user may observe, independently of queues, locks and counters.           *)
(*                                                                          *)
(* A state `s` is what the contract remembers of a history. For every event *)
(* `e`, Rejects(s, e) is the set of <<clause, why>> pairs that forbid it,   *)
(* and Step(s, e) is the state after it. The module has no variables: the   *)
(* implementation-shaped model (ThreadPool.tla) and the monitor of recorded *)
(* executions of the real code (PoolTrace.tla) both step through it, so one *)
(* text judges the design and the code.                                     *)
(*                                                                          *)
(* Clauses:                                                                 *)
(*   C01 a task runs exactly once, on one worker, alive, never two at once  *)
(*       on a worker, and is not lost                                       *)
(*   C02 wait() is a barrier for everything enqueued before it              *)
(*   C03 destruction / move: nothing runs afterwards, nothing leaks         *)
(*   C04 for_each visits every element exactly once                         *)
(*   C05 capacity, back-pressure, single-worker order                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

Reject(c, why) == {<<c, why>>}
If(p, set) == IF p THEN set ELSE {}
EmptyFn == [x \in {} |-> 0]

Init0 == [ w |-> EmptyFn, cap |-> EmptyFn, life |-> EmptyFn,
           called |-> {}, rets |-> {}, started |-> {}, ended |-> {}, dropped |-> {},
           tp |-> EmptyFn,      \* task -> pool
           tw |-> EmptyFn,      \* running task -> worker (999: the task did not ask for its index)
           pred |-> EmptyFn,    \* task -> tasks whose enqueue had returned when its own was called
           live |-> EmptyFn,    \* tracked task -> owning payload copies alive inside the pool
           fe |-> EmptyFn,      \* for_each -> [pool, lo, hi, bt, ret, vis, live, own]
           wt |-> EmptyFn,      \* waiter -> [pool, need, fes]
           held |-> {} ]        \* pools whose workers are all deliberately occupied

Running(s, p) == {t \in DOMAIN s.tw : s.tp[t] = p}
OfPool(s, p, S) == {t \in S : s.tp[t] = p}
FePool(s, p) == {f \in DOMAIN s.fe : s.fe[f].pool = p}
FeDone(s, f) == Cardinality(s.fe[f].vis) = s.fe[f].hi - s.fe[f].lo
FeGone(s, f) == s.fe[f].live = 0
AliveCopies(s, t) == IF t \in DOMAIN s.live THEN s.live[t] ELSE 0
\* tasks handed over and not yet taken by a worker, as far as a user can tell
Backlog(s, p) == Cardinality(OfPool(s, p, s.rets \ s.started))
Finished(s, t) == t \in s.ended /\ AliveCopies(s, t) = 0
CeilDiv(a, b) == (a + b - 1) \div b

-----------------------------------------------------------------------------
RejCreate(s, e) == {}
RejReq(s, e) ==
    If(s.w[e.pool] # e.w, Reject("C05", "worker count differs from the one asked for"))
    \cup If(s.cap[e.pool] # e.w * CeilDiv(e.cap, e.w), Reject("C05", "capacity is not the requested size, rounded up to whole queues"))

RejEnqCall(s, e) == {}
RejEnqRet(s, e) ==
    LET p == e.p
        back == Backlog([s EXCEPT !.rets = @ \cup {e.t}], p)
    IN  If(p \in DOMAIN s.cap /\ back > s.cap[p] + (s.w[p] - Cardinality(Running(s, p))),
           Reject("C05", "enqueue returned although the queues were full (more tasks accepted than capacity)"))

RejStart(s, e) ==
    IF e.t \notin s.called THEN Reject("C01", "a task ran that was never enqueued")
    ELSE LET p == s.tp[e.t] IN
      If(e.t \in s.started, Reject("C01", "a task was started twice"))
      \cup If(s.life[p] = "closed", Reject("C01", "a task ran after its pool was destroyed")
                                    \cup Reject("C03", "a task ran after its pool was destroyed"))
      \cup If(e.w # 999 /\ (e.w < 0 \/ e.w >= s.w[p]), Reject("C01", "worker index out of range"))
      \cup If(e.w # 999 /\ \E u \in Running(s, p) : s.tw[u] = e.w, Reject("C01", "two tasks running on the same worker"))
      \cup If(Cardinality(Running(s, p)) >= s.w[p], Reject("C01", "more tasks running than workers"))
      \cup If(e.t \in DOMAIN s.live /\ s.live[e.t] = 0, Reject("C01", "a task ran after its state was destroyed"))
      \cup If(s.w[p] = 1 /\ ~(s.pred[e.t] \subseteq s.started), Reject("C05", "a single worker ran tasks out of order"))

RejEnd(s, e) == If(e.t \notin DOMAIN s.tw, Reject("C01", "a task ended that was not running"))

RejBorn(s, e) == {}
RejDead(s, e) ==
    If(AliveCopies(s, e.t) <= 0, Reject("C01", "the state of a task was destroyed twice"))
    \cup If(AliveCopies(s, e.t) = 1 /\ e.t \in DOMAIN s.tw, Reject("C01", "the state of a task was destroyed while it was running"))
    \cup If(AliveCopies(s, e.t) = 1 /\ e.t \notin s.started /\ s.life[s.tp[e.t]] = "live",
            Reject("C01", "a task was dropped by a pool that is not being destroyed"))
    \cup If(s.life[s.tp[e.t]] = "closed", Reject("C03", "the state of a task outlived its pool"))

RejFeCall(s, e) == {}
RejFeRng(s, e) == {}
RejVisit(s, e) ==
    LET r == s.fe[e.f] p == r.pool IN
      If(e.x < r.lo \/ e.x >= r.hi, Reject("C04", "for_each visited a value outside of the range"))
      \cup If(e.x \in r.vis, Reject("C04", "for_each visited a value twice"))
      \cup If(r.own /\ r.live = 0, Reject("C04", "for_each ran a callable after destroying it"))
      \cup If(r.bt = 1 /\ (e.b < 0 \/ e.b >= s.w[p]), Reject("C04", "batch index out of range"))
      \cup If(s.life[p] = "closed", Reject("C03", "for_each ran after the pool was destroyed"))
RejFeRet(s, e) == {}
RejFeDead(s, e) == If(s.fe[e.f].live <= 0, Reject("C04", "a for_each callable was destroyed twice"))
                   \cup If(s.life[s.fe[e.f].pool] = "closed", Reject("C03", "a for_each callable outlived its pool"))

RejWaitCall(s, e) == {}
RejWaitRet(s, e) ==
    LET r == s.wt[e.p] IN
      If(\E t \in r.need : t \notin s.started, Reject("C02", "wait() returned before an earlier task started") \cup
                                               Reject("C01", "a task had not run when wait() returned"))
      \cup If(\E t \in r.need : t \notin s.ended, Reject("C02", "wait() returned before an earlier task ended"))
      \cup If(\E t \in r.need : t \in s.ended /\ AliveCopies(s, t) > 0, Reject("C02", "wait() returned before the state of a finished task was destroyed"))
      \cup If(\E f \in r.fes : ~FeDone(s, f), Reject("C02", "wait() returned before for_each was finished") \cup
                                              Reject("C04", "for_each had not visited every value when wait() returned"))
      \cup If(\E f \in r.fes : FeDone(s, f) /\ ~FeGone(s, f), Reject("C02", "wait() returned before the callable of a finished for_each was destroyed"))
RejRead(s, e) == If(e.ok # 1, Reject("C02", "the effects of a finished task were not visible after wait()"))

RejDestroyCall(s, e) == {}
RejDestroyRet(s, e) ==
    If(Running(s, e.pool) # {}, Reject("C03", "the pool was destroyed while a task was running"))
    \cup If(\E t \in OfPool(s, e.pool, DOMAIN s.live) : s.live[t] > 0, Reject("C03", "the state of a task leaked when its pool was destroyed")
                                                                      \cup Reject("C01", "the state of a task leaked when its pool was destroyed"))
    \cup If(\E f \in FePool(s, e.pool) : ~FeGone(s, f), Reject("C03", "a for_each callable leaked when its pool was destroyed")
                                                      \cup Reject("C04", "a for_each callable leaked when its pool was destroyed"))
\* a worker thread could not be created
RejNewFail(s, e) ==
    If(e.threw # 1, Reject("C03", "the constructor did not report that a worker could not be created"))
    \cup If(e.left # 0, Reject("C03", "workers outlive a pool whose construction failed"))
RejMoved(s, e) == If(e.w # 0, Reject("C03", "a moved-from pool still reports workers"))

Outstanding(s) == {t \in s.rets : t \notin s.started /\ s.life[s.tp[t]] = "live"}
RejEnd0(s, why) ==   \* the execution cannot go on: crash, deadlock, livelock
    If(why = "crash", Reject("C01", "crash") \cup Reject("C02", "crash") \cup Reject("C03", "crash") \cup Reject("C04", "crash") \cup Reject("C05", "crash"))
    \cup If(why = "stuck" /\ (Outstanding(s) # {} /\ s.held = {}), Reject("C01", "an enqueued task is never run"))
    \cup If(why = "stuck" /\ DOMAIN s.wt # {}, Reject("C02", "wait() never returns"))
    \cup If(why = "stuck" /\ \E p \in DOMAIN s.life : s.life[p] = "closing", Reject("C03", "the destructor never returns"))
    \cup If(why = "stuck" /\ \E p \in DOMAIN s.life : s.life[p] = "opening", Reject("C03", "the constructor never returns when a worker cannot be created"))
    \cup If(why = "stuck" /\ \E f \in DOMAIN s.fe : s.fe[f].ret = 0, Reject("C04", "for_each never returns"))
    \cup If(why = "stuck" /\ \E f \in DOMAIN s.fe : s.fe[f].ret = 1 /\ ~FeDone(s, f), Reject("C04", "for_each is never finished"))
    \cup If(why = "stuck" /\ s.called # s.rets, Reject("C05", "enqueue never returns") \cup Reject("C01", "enqueue never returns"))

Rejects(s, e) ==
    CASE e.e = "create"       -> RejCreate(s, e)
      [] e.e = "req"          -> RejReq(s, e)
      [] e.e = "enq_call"     -> RejEnqCall(s, e)
      [] e.e = "enq_ret"      -> RejEnqRet(s, e)
      [] e.e = "start"        -> RejStart(s, e)
      [] e.e = "end"          -> RejEnd(s, e)
      [] e.e = "born"         -> RejBorn(s, e)
      [] e.e = "dead"         -> RejDead(s, e)
      [] e.e = "fe_call"      -> RejFeCall(s, e)
      [] e.e = "fe_rng"       -> RejFeRng(s, e)
      [] e.e = "visit"        -> RejVisit(s, e)
      [] e.e = "fe_ret"       -> RejFeRet(s, e)
      [] e.e = "fe_born"      -> {}
      [] e.e = "fe_dead"      -> RejFeDead(s, e)
      [] e.e = "wait_call"    -> RejWaitCall(s, e)
      [] e.e = "wait_ret"     -> RejWaitRet(s, e)
      [] e.e = "read"         -> RejRead(s, e)
      [] e.e = "destroy_call" -> RejDestroyCall(s, e)
      [] e.e = "destroy_ret"  -> RejDestroyRet(s, e)
      [] e.e = "moved"        -> RejMoved(s, e)
      [] e.e = "new_call"     -> {}
      [] e.e = "new_fail"     -> RejNewFail(s, e)
      [] e.e \in {"held", "open", "fin"} -> {}
      [] e.e = "corrupt"      -> Reject("C01", "a task ran with corrupted or moved-from state") \cup Reject("C04", "for_each used corrupted state")
      [] e.e = "race"         -> Reject("C02", "a task's effects are not ordered with its enqueuer or waiter (data race)")
                                 \cup Reject("C04", "per-batch state is raced upon")
      [] e.e \in {"crash", "stuck", "hang"} -> RejEnd0(s, IF e.e = "hang" THEN "stuck" ELSE e.e)
      [] OTHER -> Reject("C01", "unknown event")

-----------------------------------------------------------------------------
SetFn(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Step(s, e) ==
    CASE e.e = "create"   -> [s EXCEPT !.w = SetFn(@, e.pool, e.w), !.cap = SetFn(@, e.pool, e.cap), !.life = SetFn(@, e.pool, "live")]
      [] e.e = "enq_call" -> [s EXCEPT !.called = @ \cup {e.t}, !.tp = SetFn(@, e.t, e.p),
                                       !.pred = SetFn(@, e.t, OfPool(s, e.p, s.rets))]
      [] e.e = "enq_ret"  -> [s EXCEPT !.rets = @ \cup {e.t}]
      [] e.e = "start"    -> IF e.t \in s.called THEN [s EXCEPT !.started = @ \cup {e.t}, !.tw = SetFn(@, e.t, e.w)] ELSE s
      [] e.e = "end"      -> [s EXCEPT !.ended = @ \cup {e.t}, !.tw = Without(@, e.t)]
      [] e.e = "born"     -> [s EXCEPT !.live = SetFn(@, e.t, AliveCopies(s, e.t) + 1)]
      [] e.e = "dead"     -> [s EXCEPT !.live = SetFn(@, e.t, AliveCopies(s, e.t) - 1)]
      [] e.e = "fe_call"  -> [s EXCEPT !.fe = SetFn(@, e.f, [pool |-> e.p, lo |-> 0, hi |-> 0, bt |-> e.bt, ret |-> 0, vis |-> {}, live |-> 0, own |-> FALSE])]
      [] e.e = "fe_rng"   -> [s EXCEPT !.fe[e.f].lo = e.lo, !.fe[e.f].hi = e.hi]
      [] e.e = "visit"    -> [s EXCEPT !.fe[e.f].vis = @ \cup {e.x}]
      [] e.e = "fe_born"  -> [s EXCEPT !.fe[e.f].live = @ + 1, !.fe[e.f].own = TRUE]
      [] e.e = "fe_dead"  -> [s EXCEPT !.fe[e.f].live = @ - 1]
      [] e.e = "fe_ret"   -> [s EXCEPT !.fe[e.f].ret = 1]
      [] e.e = "wait_call" -> [s EXCEPT !.wt = SetFn(@, e.p, [pool |-> e.pool, need |-> OfPool(s, e.pool, s.rets),
                                                              fes |-> {f \in FePool(s, e.pool) : s.fe[f].ret = 1}])]
      [] e.e = "wait_ret"  -> [s EXCEPT !.wt = Without(@, e.p)]
      [] e.e = "new_call" -> [s EXCEPT !.life = SetFn(@, e.pool, "opening")]
      [] e.e = "new_fail" -> [s EXCEPT !.life = SetFn(@, e.pool, "closed")]
      [] e.e = "destroy_call" -> [s EXCEPT !.life = SetFn(@, e.pool, "closing")]
      [] e.e = "destroy_ret"  -> [s EXCEPT !.life = SetFn(@, e.pool, "closed")]
      [] e.e = "held" -> [s EXCEPT !.held = @ \cup {e.pool}]
      [] e.e = "open" -> [s EXCEPT !.held = {}]
      [] OTHER -> s
=============================================================================
