------------------------------- MODULE Mutex --------------------------------
(* The contract of muu::spin_mutex over API-level events: mutual exclusion, no spurious try_lock() failure, no lost
   critical section, and progress. As TaskPool, it has no variables: Rejects(s, e) and Step(s, e).               *)
EXTENDS Integers, FiniteSets, Sequences, TLC
Reject(c, why) == {<<c, why>>}
If(p, set) == IF p THEN set ELSE {}
EmptyFn == [x \in {} |-> 0]
SetFn(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

Init0 == [ own   |-> EmptyFn,   \* mutex -> threads that certainly hold it (acquired, release not begun)
           maybe |-> EmptyFn,   \* mutex -> threads that may hold it (acquisition begun, release not finished)
           cont  |-> EmptyFn,   \* thread in try_lock -> may another holder have been seen since it was called?
           trym  |-> EmptyFn,   \* thread in try_lock -> mutex
           wait  |-> {},        \* <<thread, mutex>> in lock()
           n     |-> EmptyFn ]  \* mutex -> critical sections so far
Own(s, m) == Get(s.own, m, {})
Maybe(s, m) == Get(s.maybe, m, {})

Acquired(s, e) == If(Own(s, e.m) # {}, Reject("C06", "two threads hold the mutex"))
Rejects(s, e) ==
    CASE e.e = "lock_ret" -> Acquired(s, e)
      [] e.e = "try_ret"  -> IF e.ok = 1 THEN Acquired(s, e)
                             ELSE If(~s.cont[e.th], Reject("C06", "try_lock failed although nobody held the mutex"))
      [] e.e = "crit"     -> If(e.v # Get(s.n, e.m, 0), Reject("C06", "an update made under the mutex was lost"))
                             \cup If(e.th \notin Own(s, e.m), Reject("C06", "critical section entered without holding the mutex"))
      [] e.e = "final"    -> If(e.v # Get(s.n, e.m, 0), Reject("C06", "an update made under the mutex was lost"))
      [] e.e = "race"     -> Reject("C06", "critical sections are not ordered (data race on protected data)")
      [] e.e = "crash"    -> Reject("C06", "crash")
      [] e.e \in {"stuck", "hang"} -> If(\E w \in s.wait : Own(s, w[2]) = {}, Reject("C06", "lock() never returns although nobody holds the mutex"))
                             \cup If(DOMAIN s.trym # {}, Reject("C06", "try_lock() never returns"))
                             \cup If(s.wait = {} /\ DOMAIN s.trym = {}, Reject("C06", "unlock() never returns"))
      [] OTHER -> {}

\* a new possible holder of m: whoever is inside try_lock(m) may lose against it
Contend(s, m, th) == [t \in DOMAIN s.cont |-> s.cont[t] \/ (t # th /\ t \in DOMAIN s.trym /\ s.trym[t] = m)]
Begin(s, e) == [s EXCEPT !.maybe = SetFn(@, e.m, Maybe(s, e.m) \cup {e.th}), !.cont = Contend(s, e.m, e.th)]
Step(s, e) ==
    CASE e.e = "lock_call" -> [Begin(s, e) EXCEPT !.wait = @ \cup {<<e.th, e.m>>}]
      [] e.e = "lock_ret"  -> [s EXCEPT !.own = SetFn(@, e.m, Own(s, e.m) \cup {e.th}), !.wait = @ \ {<<e.th, e.m>>}]
      [] e.e = "try_call"  -> LET c == Maybe(s, e.m) # {} IN
                              [Begin(s, e) EXCEPT !.trym = SetFn(@, e.th, e.m), !.cont = SetFn(@, e.th, c)]
      [] e.e = "try_ret"   -> LET held == e.th \in Own(s, e.m)
                                  b == [s EXCEPT !.trym = [x \in DOMAIN @ \ {e.th} |-> @[x]]] IN
                              IF e.ok = 1 THEN [b EXCEPT !.own = SetFn(@, e.m, Own(s, e.m) \cup {e.th})]
                              ELSE IF held THEN b
                              ELSE [b EXCEPT !.maybe = SetFn(@, e.m, Maybe(s, e.m) \ {e.th})]
      [] e.e = "unlock_call" -> [s EXCEPT !.own = SetFn(@, e.m, Own(s, e.m) \ {e.th})]
      [] e.e = "unlock_ret"  -> [s EXCEPT !.maybe = SetFn(@, e.m, Maybe(s, e.m) \ {e.th})]
      [] e.e = "crit" -> [s EXCEPT !.n = SetFn(@, e.m, Get(s.n, e.m, 0) + 1)]
      [] OTHER -> s
=============================================================================
