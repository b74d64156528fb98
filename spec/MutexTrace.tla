------------------------------ MODULE MutexTrace ------------------------------
(* Judges recorded executions of the real thread pool (or spin mutex) against the contract. Environment:
   TRACE  ndjson file, one recorded execution per line: [seed, events];
   CLAUSES  the clauses that are judged, e.g. "C01,C02".                                                     *)
EXTENDS Mutex, Json, IOUtils, TLCExt
VARIABLES tr, i, s, bad

Traces == ndJsonDeserialize(IOEnv.TRACE)
Judged == IOEnv.CLAUSES

vars == <<tr, i, s, bad>>
\* every execution is its own initial state
Init == tr \in 1..Len(Traces) /\ i = 1 /\ s = Init0 /\ bad = {}
Next == /\ bad = {} /\ i <= Len(Traces[tr].events)
        /\ LET e == Traces[tr].events[i] IN
             /\ bad' = {r \in Rejects(s, e) : r[1] = Judged}
             /\ s' = Step(s, e)
             /\ i' = i + 1
        /\ tr' = tr
Spec == Init /\ [][Next]_vars
NoReject == bad = {}
=============================================================================
