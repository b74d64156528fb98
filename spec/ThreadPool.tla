------------------------------ MODULE ThreadPool ------------------------------
(***************************************************************************)
(* How muu::thread_pool works: one bounded queue per worker, each with its  *)
(* lock; producers lock any queue that has room, construct the task in      *)
(* place, add to the shared busy counter and unlock; workers try every      *)
(* queue and then block on their own, run the task, destroy it and decrement*)
(* the counter; wait() sleeps on a condition variable until the counter is  *)
(* zero; the destructor terminates queues and workers, joins, and destroys  *)
(* whatever is still queued. One action per critical section.               *)
(*                                                                          *)
(* Every API-visible step also steps the contract (TaskPool), so `bad`      *)
(* collects what the contract forbids: the invariant bad = {} says that the *)
(* design implements the contract, on every interleaving of the bounds.     *)
(* Variant selects a deliberately broken design (see DESIGN.md): TLC has to *)
(* reject each of them.                                                     *)
(***************************************************************************)
EXTENDS TaskPool
CONSTANTS W, QCap, Progs, Variant
\* Progs: producer -> sequence of operations: <<"enq">>, <<"wait">>, <<"fe", n>>

Workers == 0..(W - 1)
Producers == DOMAIN Progs
NoTask == [k |-> "none"]

VARIABLES q, qlock, busy, asleep, ppc, pi, pq, rest, nadd, wpc, cur, term, wterm, dpc, s, bad
vars == <<q, qlock, busy, asleep, ppc, pi, pq, rest, nadd, wpc, cur, term, wterm, dpc, s, bad>>

RECURSIVE Feed(_, _, _)
Feed(st, b, es) == IF es = <<>> THEN [st |-> st, b |-> b]
                   ELSE Feed(Step(st, Head(es)), b \cup Rejects(st, Head(es)), Tail(es))
Emit(es) == LET r == Feed(s, bad, es) IN s' = r.st /\ bad' = r.b

TaskId(p) == p * 10 + pi[p]   \* also the id of a for_each
Op(p) == Progs[p][pi[p]]
Min(a, b) == IF a < b THEN a ELSE b

Batches(f, n) ==  \* batch_size_generator
    LET c == n \div W  o == n % W  m == Min(n, W)
        Size(i) == c + (IF i <= o THEN 1 ELSE 0)
        Start[i \in 1..m] == IF i = 1 THEN 0 ELSE Start[i - 1] + Size(i - 1)
    IN  [i \in 1..m |-> [k |-> "b", f |-> f, lo |-> Start[i], hi |-> Start[i] + Size(i), b |-> i - 1]]

Init == /\ q = [w \in Workers |-> <<>>] /\ qlock = [w \in Workers |-> 0] /\ busy = 0
        /\ ppc = [p \in Producers |-> "idle"] /\ pi = [p \in Producers |-> 1] /\ pq = [p \in Producers |-> -1]
        /\ rest = [p \in Producers |-> <<>>] /\ nadd = [p \in Producers |-> 0] /\ asleep = {}
        /\ wpc = [w \in Workers |-> "loop"] /\ cur = [w \in Workers |-> NoTask]
        /\ term = FALSE /\ wterm = [w \in Workers |-> FALSE] /\ dpc = "no" /\ bad = {}
        /\ s = Step(Init0, [e |-> "create", pool |-> 0, w |-> W, cap |-> W * QCap])

Quiet == UNCHANGED <<s, bad>>
WorkerVars == <<wpc, cur, wterm>>
DtorVars == <<term, dpc>>
ProdVars == <<ppc, pi, pq, rest, nadd>>
Full(w) == Len(q[w]) >= QCap + (IF Variant = "full_gt" THEN 1 ELSE 0)
Goto(p, l) == ppc' = [ppc EXCEPT ![p] = l]

\* ---------------------------------------------------------------- producers
Call(p) ==
    /\ ppc[p] = "idle" /\ pi[p] <= Len(Progs[p])
    /\ LET o == Op(p) IN
       \/ /\ o[1] = "enq"
          /\ Emit(<<[e |-> "enq_call", t |-> TaskId(p), p |-> 0, k |-> 0]>>)
          /\ rest' = [rest EXCEPT ![p] = <<[k |-> "t", t |-> TaskId(p)]>>] /\ Goto(p, "lock")
       \/ /\ o[1] = "fe"
          /\ Emit(<<[e |-> "fe_call", f |-> TaskId(p), p |-> 0, bt |-> 1],
                    [e |-> "fe_rng", f |-> TaskId(p), lo |-> 0, hi |-> o[2]]>>)
          /\ rest' = [rest EXCEPT ![p] = Batches(TaskId(p), o[2])]
          /\ Goto(p, IF o[2] = 0 THEN "ret" ELSE "lockall")
       \/ /\ o[1] = "wait"
          /\ Emit(<<[e |-> "wait_call", p |-> p, pool |-> 0]>>)
          /\ Goto(p, "waiting") /\ UNCHANGED rest
    /\ UNCHANGED <<q, qlock, busy, asleep, pi, pq, nadd, WorkerVars, DtorVars>>

TakeLock(p, w, l) == qlock' = [qlock EXCEPT ![w] = p] /\ pq' = [pq EXCEPT ![p] = w] /\ Goto(p, l)

Lock(p) == \* thread_pool_impl::lock(): any unlocked queue with room
    /\ ppc[p] = "lock"
    /\ \E w \in Workers : qlock[w] = 0 /\ ~Full(w) /\ TakeLock(p, w, "push")
    /\ nadd' = [nadd EXCEPT ![p] = 0]
    /\ UNCHANGED <<q, busy, asleep, pi, rest, WorkerVars, DtorVars>> /\ Quiet

LockAll(p) == \* lock_multiple(): one queue with room for every batch; may give up
    /\ ppc[p] = "lockall"
    /\ \/ \E w \in Workers : /\ qlock[w] = 0
                             /\ QCap - Len(q[w]) >= Len(rest[p]) - (IF Variant = "multi_off_by_one" THEN 1 ELSE 0)
                             /\ TakeLock(p, w, "pushall")
       \/ Goto(p, "lock") /\ UNCHANGED <<qlock, pq>>
    /\ nadd' = [nadd EXCEPT ![p] = 0]
    /\ UNCHANGED <<q, busy, asleep, pi, rest, WorkerVars, DtorVars>> /\ Quiet

Born(t) == IF t.k = "t" THEN [e |-> "born", t |-> t.t] ELSE [e |-> "fe_born", f |-> t.f]
Dead(t) == IF t.k = "t" THEN [e |-> "dead", t |-> t.t] ELSE [e |-> "fe_dead", f |-> t.f]
Room(w) == IF Len(q[w]) >= QCap THEN Tail(q[w]) ELSE q[w]   \* a ring buffer without room overwrites its oldest task

Push(p) == \* acquire() and construction in place
    /\ ppc[p] \in {"push", "pushall"}
    /\ q' = [q EXCEPT ![pq[p]] = Append(Room(pq[p]), Head(rest[p]))]
    /\ Emit(<<Born(Head(rest[p]))>>)
    /\ rest' = [rest EXCEPT ![p] = Tail(@)] /\ nadd' = [nadd EXCEPT ![p] = @ + 1]
    /\ Goto(p, IF ppc[p] = "pushall" /\ Tail(rest[p]) # <<>> THEN "pushall"
               ELSE IF Variant = "late_increment" THEN "unlock" ELSE "inc")
    /\ UNCHANGED <<qlock, busy, asleep, pi, pq, WorkerVars, DtorVars>>

AfterUnlock(p) == IF rest[p] # <<>> THEN "lock" ELSE "ret"
Inc(p) == \* unlock(): monitor.increment(enqueues)
    /\ ppc[p] = "inc"
    /\ busy' = busy + (IF Variant = "increment_one" THEN 1 ELSE nadd[p])
    /\ Goto(p, IF Variant = "late_increment" THEN AfterUnlock(p) ELSE "unlock")
    /\ UNCHANGED <<q, qlock, asleep, pi, pq, rest, nadd, WorkerVars, DtorVars>> /\ Quiet
Unlock(p) ==
    /\ ppc[p] = "unlock"
    /\ qlock' = [qlock EXCEPT ![pq[p]] = 0]
    /\ Goto(p, IF Variant = "late_increment" THEN "inc" ELSE AfterUnlock(p))
    /\ UNCHANGED <<q, busy, asleep, pi, pq, rest, nadd, WorkerVars, DtorVars>> /\ Quiet
Ret(p) ==
    /\ ppc[p] = "ret"
    /\ Emit(IF Op(p)[1] = "enq" THEN <<[e |-> "enq_ret", t |-> TaskId(p), p |-> 0]>>
            ELSE IF Op(p)[1] = "fe" THEN <<[e |-> "fe_ret", f |-> TaskId(p), p |-> 0]>>
            ELSE <<[e |-> "wait_ret", p |-> p, pool |-> 0]>>)
    /\ pi' = [pi EXCEPT ![p] = @ + 1] /\ Goto(p, "idle")
    /\ UNCHANGED <<q, qlock, busy, asleep, pq, rest, nadd, WorkerVars, DtorVars>>

Waiting(p) == \* monitor.wait(): the test and the sleep are one critical section
    /\ ppc[p] = "waiting"
    /\ IF busy = 0 THEN Goto(p, "ret") /\ UNCHANGED asleep
       ELSE Goto(p, "asleep") /\ asleep' = asleep \cup {p}
    /\ UNCHANGED <<q, qlock, busy, pi, pq, rest, nadd, WorkerVars, DtorVars>> /\ Quiet
Woken(p) ==
    /\ ppc[p] = "asleep" /\ p \notin asleep
    /\ Goto(p, IF Variant = "if_not_while" THEN "ret" ELSE "waiting")
    /\ UNCHANGED <<q, qlock, busy, asleep, pi, pq, rest, nadd, WorkerVars, DtorVars>> /\ Quiet
Spurious(p) == \* condition variables may wake up for no reason
    /\ p \in asleep /\ asleep' = asleep \ {p}
    /\ UNCHANGED <<q, qlock, busy, ProdVars, WorkerVars, DtorVars>> /\ Quiet

\* ------------------------------------------------------------------ workers
WGoto(w, l) == wpc' = [wpc EXCEPT ![w] = l]
Decrement(n) == /\ busy' = busy - n
                /\ IF busy - n # 0 THEN UNCHANGED asleep
                   ELSE IF Variant = "no_notify" THEN UNCHANGED asleep
                   ELSE IF Variant = "notify_one" /\ asleep # {} THEN \E p \in asleep : asleep' = asleep \ {p}
                   ELSE asleep' = {}

Pop(w) == \* try_pop() on any queue, or pop() on its own
    /\ wpc[w] = "loop" /\ ~wterm[w]
    /\ \E v \in Workers : /\ (qlock[v] = 0 \/ Variant = "pop_without_lock") /\ q[v] # <<>> /\ ~term
                          /\ cur' = [cur EXCEPT ![w] = Head(q[v])]
                          /\ q' = [q EXCEPT ![v] = IF Variant = "pop_twice" /\ Len(@) = QCap THEN @ ELSE Tail(@)]
    /\ WGoto(w, IF Variant = "dec_before_run" THEN "dec" ELSE "run")
    /\ UNCHANGED <<qlock, busy, asleep, ProdVars, wterm, DtorVars>> /\ Quiet
Run(w) ==
    /\ wpc[w] = "run"
    /\ IF cur[w].k = "t" THEN Emit(<<[e |-> "start", t |-> cur[w].t, w |-> w]>>) /\ UNCHANGED cur /\ WGoto(w, "ran")
       ELSE /\ Emit(<<[e |-> "visit", f |-> cur[w].f, x |-> cur[w].lo, b |-> cur[w].b]>>)
            /\ cur' = [cur EXCEPT ![w].lo = @ + 1]
            /\ WGoto(w, IF cur[w].lo + 1 < cur[w].hi THEN "run" ELSE "ran")
    /\ UNCHANGED <<q, qlock, busy, asleep, ProdVars, wterm, DtorVars>>
Ran(w) ==
    /\ wpc[w] = "ran"
    /\ IF cur[w].k = "t" THEN Emit(<<[e |-> "end", t |-> cur[w].t]>>) ELSE Quiet
    /\ WGoto(w, IF Variant = "dec_before_destroy" THEN "dec" ELSE "destroy")
    /\ UNCHANGED <<q, qlock, busy, asleep, ProdVars, cur, wterm, DtorVars>>
Destroy(w) ==
    /\ wpc[w] = "destroy"
    /\ Emit(<<Dead(cur[w])>>)
    /\ WGoto(w, IF Variant \in {"dec_before_destroy", "dec_before_run"} THEN "loop" ELSE "dec")
    /\ cur' = [cur EXCEPT ![w] = IF Variant \in {"dec_before_destroy", "dec_before_run"} THEN NoTask ELSE @]
    /\ UNCHANGED <<q, qlock, busy, asleep, ProdVars, wterm, DtorVars>>
Dec(w) ==
    /\ wpc[w] = "dec"
    /\ Decrement(1)
    /\ IF Variant = "dec_before_run" THEN WGoto(w, "run") /\ UNCHANGED cur
       ELSE IF Variant = "dec_before_destroy" THEN WGoto(w, "destroy") /\ UNCHANGED cur
       ELSE WGoto(w, "loop") /\ cur' = [cur EXCEPT ![w] = NoTask]
    /\ UNCHANGED <<q, qlock, ProdVars, wterm, DtorVars>> /\ Quiet
Exit(w) ==
    /\ wpc[w] = "loop" /\ wterm[w] /\ WGoto(w, "exit")
    /\ UNCHANGED <<q, qlock, busy, asleep, ProdVars, cur, wterm, DtorVars>> /\ Quiet

\* --------------------------------------------------------------- destructor
AllDone == \A p \in Producers : pi[p] > Len(Progs[p])
DtorCall ==
    /\ dpc = "no" /\ AllDone /\ dpc' = "term" /\ Emit(<<[e |-> "destroy_call", pool |-> 0]>>)
    /\ UNCHANGED <<q, qlock, busy, asleep, ProdVars, WorkerVars, term>>
DtorTerm ==
    /\ dpc = "term" /\ dpc' = "join" /\ term' = TRUE
    /\ UNCHANGED <<q, qlock, busy, asleep, ProdVars, WorkerVars>> /\ Quiet
\* workers are told to stop, and joined, one after the other, last first
DtorTermWorker ==
    /\ dpc = "join"
    /\ \E w \in Workers : /\ ~wterm[w] /\ \A v \in Workers : v > w => wpc[v] = "exit" \/ Variant = "no_join"
                          /\ wterm' = [wterm EXCEPT ![w] = TRUE]
    /\ UNCHANGED <<q, qlock, busy, asleep, ProdVars, wpc, cur, DtorVars>> /\ Quiet
DtorDrain ==
    /\ dpc = "join" /\ (\A w \in Workers : wterm[w] /\ (wpc[w] = "exit" \/ Variant = "no_join"))
    /\ dpc' = "drained" /\ term' = TRUE
    /\ LET left[w \in 0..W] == IF w = W THEN <<>> ELSE q[w] \o left[w + 1] IN
       /\ Emit(IF Variant = "no_drain" THEN <<>> ELSE [i \in 1..Len(left[0]) |-> Dead(left[0][i])])
       /\ busy' = busy - Len(left[0]) /\ q' = [w \in Workers |-> <<>>] /\ asleep' = {}
    /\ UNCHANGED <<qlock, ProdVars, WorkerVars>>
DtorRet ==
    /\ dpc = "drained" /\ dpc' = "done" /\ Emit(<<[e |-> "destroy_ret", pool |-> 0]>>)
    /\ UNCHANGED <<q, qlock, busy, asleep, ProdVars, WorkerVars, term>>

Producer(p) == Call(p) \/ Lock(p) \/ LockAll(p) \/ Push(p) \/ Inc(p) \/ Unlock(p) \/ Ret(p) \/ Waiting(p) \/ Woken(p)
Worker(w) == Pop(w) \/ Run(w) \/ Ran(w) \/ Destroy(w) \/ Dec(w) \/ Exit(w)
Dtor == DtorCall \/ DtorTerm \/ DtorTermWorker \/ DtorDrain \/ DtorRet
Done == dpc = "done" /\ UNCHANGED vars
Next == (\E p \in Producers : Producer(p) \/ Spurious(p)) \/ (\E w \in Workers : Worker(w)) \/ Dtor \/ Done
\* strong fairness for lock attempts: lock() retries for ever
Fair == /\ \A p \in Producers : WF_vars(Producer(p)) /\ SF_vars(Lock(p))
        /\ \A w \in Workers : WF_vars(Worker(w)) /\ SF_vars(Pop(w))
        /\ WF_vars(Dtor)
Spec == Init /\ [][Next]_vars /\ Fair

\* ---------------------------------------------------------------- properties
Contract == bad = {}
TypeOK == /\ busy >= 0 /\ \A w \in Workers : Len(q[w]) <= QCap
\* the counter covers every task that is queued or being run
Queued == LET n[w \in 0..W] == IF w = W THEN 0 ELSE Len(q[w]) + n[w + 1] IN n[0]
InHand == Cardinality({w \in Workers : cur[w] # NoTask})
Unaccounted == LET ps == {p \in Producers : ppc[p] \in {"push", "pushall", "inc"}} IN ps
CounterCovers == Unaccounted = {} /\ dpc # "drained" /\ dpc # "done" => busy = Queued + InHand
Finishes == <>(dpc = "done")
EveryWaitReturns == \A p \in Producers : (ppc[p] \in {"waiting", "asleep"}) ~> (ppc[p] = "ret")
EveryTaskRuns == \* unless the pool is destroyed first
    \A t \in {p * 10 + i : p \in Producers, i \in 1..3} : (t \in s.rets) ~> (t \in s.ended \/ dpc # "no")
=============================================================================
