----------------------------- MODULE FunctionView -----------------------------
(* muu::function_view: a non-owning view of a callable. State: what each view is bound to, and the call counters of the
   stateful callables. Clause R06.                                                                                   *)
EXTENDS Integers, Sequences, TLC
Reject(why) == {<<"R06", why>>}
If(p, set) == IF p THEN set ELSE {}
B(p) == IF p THEN 1 ELSE 0
V == 1..3
\* callables: 1 function, 2 function through a pointer variable, 3 stateless lambda, 4 lambda with a small reference
\* capture, 5 lambda with a large capture, 6 functor with mutable state, 7 const view of functor 6 (its const operator),
\* 8 second function of the same type, 9 stateless functor, 10 functor that throws on negative arguments,
\* 11 lambda returning by reference the argument, 12 noexcept functor
Targets == 1..12
Stateful == {4, 5, 6, 10, 12}
Init0 == [v |-> [i \in V |-> 0], n |-> [t \in Targets |-> 0]]
Calls(s, t, x) == IF t \in Stateful /\ ~(t = 10 /\ x < 0) THEN [s EXCEPT !.n[t] = @ + 1] ELSE s
\* the result of calling a target: its identity, the argument, and how often it was called before
Res(s, t, x) == 1000 * t + 3 * x + (IF t = 7 THEN s.n[6] ELSE s.n[t])
Next1(s, o) ==
    CASE o[1] = "bind"   -> [s EXCEPT !.v[o[2]] = o[3]]
      [] o[1] \in {"copy", "assign"} -> [s EXCEPT !.v[o[2]] = s.v[o[3]]]
      [] o[1] = "null"   -> [s EXCEPT !.v[o[2]] = 0]
      [] o[1] \in {"call", "callc"} -> IF s.v[o[2]] = 0 THEN s ELSE Calls(s, s.v[o[2]], o[3])
      [] o[1] = "direct" -> Calls(s, o[2], o[3])              \* called without a view
      [] OTHER -> s
Step(s, e) == Next1(s, e.op)
Obs(s) == [i \in V |-> B(s.v[i] # 0)]
\* a call: how it ended (0 returned, 1 threw, 2 not called because the view is empty), result, and that the arguments were
\* passed through: references refer to the caller's object, nothing was copied, a movable argument was moved exactly once
Outcome(s, t, x) == IF t = 0 THEN <<2, 0, 1>> ELSE IF t = 10 /\ x < 0 THEN <<1, 0, 1>> ELSE <<0, Res(s, t, x), 1>>
Rejects(s, e) ==
    LET o == e.op  t == Next1(s, o) IN
    IF o[1] \in {"crash", "hang"} THEN Reject(o[1])
    ELSE IF o[1] = "fin" THEN {}
    ELSE If(e.out # (CASE o[1] \in {"call", "callc"} -> Outcome(s, s.v[o[2]], o[3])
                       [] o[1] = "direct" -> Outcome(s, o[2], o[3]) [] OTHER -> <<>>) \o Obs(t),
            Reject("wrong callable, argument, result or emptiness"))
GenOps(s) ==
    {<<"bind", i, t>> : i \in 1..2, t \in Targets} \cup {<<"copy", 3, 1>>, <<"assign", 1, 2>>, <<"assign", 2, 2>>, <<"null", 1>>}
    \cup {<<op, i, x>> : op \in {"call", "callc"}, i \in V, x \in {-1, 5}}
    \cup {<<"direct", 6, 1>>}
GenBound(s) == TRUE
=============================================================================
