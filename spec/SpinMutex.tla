------------------------------ MODULE SpinMutex ------------------------------
(* muu::spin_mutex as it works: a flag, test-and-test-and-set with back-off, against the contract of Mutex.tla.
   Memory orders are modelled by visibility: the protected counter is a value each thread sees through its own view,
   which release publishes and acquire takes over; so a relaxed exchange or store loses updates in this model.   *)
EXTENDS Mutex
CONSTANTS Threads, Rounds, Variant
VARIABLES held, pub, view, pc, todo, how, s, bad
vars == <<held, pub, view, pc, todo, how, s, bad>>
RECURSIVE Feed(_, _, _)
Feed(st, b, es) == IF es = <<>> THEN [st |-> st, b |-> b] ELSE Feed(Step(st, Head(es)), b \cup Rejects(st, Head(es)), Tail(es))
Emit(es) == LET r == Feed(s, bad, es) IN s' = r.st /\ bad' = r.b
Quiet == UNCHANGED <<s, bad>>
Ev(n, t) == [e |-> n, th |-> t, m |-> 0]
Init == /\ held = FALSE /\ pub = 0 /\ view = [t \in Threads |-> 0] /\ pc = [t \in Threads |-> "idle"]
        /\ todo = [t \in Threads |-> Rounds] /\ how = [t \in Threads |-> "lock"] /\ s = Init0 /\ bad = {}
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Call(t) == /\ pc[t] = "idle" /\ todo[t] > 0 /\ todo' = [todo EXCEPT ![t] = @ - 1]
           /\ \/ how' = [how EXCEPT ![t] = "lock"] /\ Goto(t, "xchg") /\ Emit(<<Ev("lock_call", t)>>)
              \/ how' = [how EXCEPT ![t] = "try"] /\ Goto(t, "test") /\ Emit(<<Ev("try_call", t)>>)
           /\ UNCHANGED <<held, pub, view>>
Acquire(t) == view' = [view EXCEPT ![t] = IF Variant = "relaxed_acquire" THEN @ ELSE pub]
Xchg(t) == /\ pc[t] = "xchg"
           /\ IF Variant = "no_exchange" THEN Goto(t, "store") /\ UNCHANGED <<held, view>>
              ELSE IF held THEN Goto(t, IF how[t] = "lock" THEN "spin" ELSE "fail") /\ UNCHANGED <<held, view>>
              ELSE held' = TRUE /\ Acquire(t) /\ Goto(t, "got")
           /\ UNCHANGED <<pub, todo, how>> /\ Quiet
Store(t) == pc[t] = "store" /\ held' = TRUE /\ Acquire(t) /\ Goto(t, "got") /\ UNCHANGED <<pub, todo, how>> /\ Quiet
Spin(t) == pc[t] = "spin" /\ ~held /\ Goto(t, "xchg") /\ UNCHANGED <<held, pub, view, todo, how>> /\ Quiet
Test(t) == /\ pc[t] = "test" /\ Goto(t, IF held = (Variant # "inverted_test") THEN "fail" ELSE "xchg")
           /\ UNCHANGED <<held, pub, view, todo, how>> /\ Quiet
Fail(t) == /\ pc[t] = "fail" /\ Goto(t, "idle") /\ Emit(<<[e |-> "try_ret", th |-> t, m |-> 0, ok |-> 0]>>)
           /\ UNCHANGED <<held, pub, view, todo, how>>
Got(t) == /\ pc[t] = "got" /\ Goto(t, "crit")
          /\ Emit(IF how[t] = "lock" THEN <<Ev("lock_ret", t)>> ELSE <<[e |-> "try_ret", th |-> t, m |-> 0, ok |-> 1]>>)
          /\ UNCHANGED <<held, pub, view, todo, how>>
Crit(t) == /\ pc[t] = "crit" /\ Goto(t, "rel")
           /\ Emit(<<[e |-> "crit", th |-> t, m |-> 0, v |-> view[t]]>>) /\ view' = [view EXCEPT ![t] = @ + 1]
           /\ UNCHANGED <<held, pub, todo, how>>
RelCall(t) == pc[t] = "rel" /\ Goto(t, "clear") /\ Emit(<<Ev("unlock_call", t)>>) /\ UNCHANGED <<held, pub, view, todo, how>>
Clear(t) == /\ pc[t] = "clear" /\ Goto(t, "relret") /\ held' = (Variant = "no_unlock")
            /\ pub' = (IF Variant = "relaxed_release" THEN pub ELSE view[t])
            /\ UNCHANGED <<view, todo, how>> /\ Quiet
RelRet(t) == pc[t] = "relret" /\ Goto(t, "idle") /\ Emit(<<Ev("unlock_ret", t)>>) /\ UNCHANGED <<held, pub, view, todo, how>>
Thread(t) == Call(t) \/ Xchg(t) \/ Store(t) \/ Spin(t) \/ Test(t) \/ Fail(t) \/ Got(t) \/ Crit(t) \/ RelCall(t) \/ Clear(t) \/ RelRet(t)
AllDone == \A t \in Threads : pc[t] = "idle" /\ todo[t] = 0
Next == (\E t \in Threads : Thread(t)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Thread(t))
Contract == bad = {}
Exclusion == Cardinality({t \in Threads : pc[t] \in {"got", "crit", "rel", "clear"}}) <= 1
Finishes == <>AllDone
=============================================================================
