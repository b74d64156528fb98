------------------------------ MODULE ScopeGuard ------------------------------
(* scope_guard, scope_fail, scope_success, read token by token from a program of nested scopes. State: the stack of open
   scopes, innermost last; a scope is a plain block, a try block, or the body of a destructor, and holds its guards in the
   order of their construction. Every exception thrown unwinds to the innermost try block.
   A "defer" makes an object whose destructor runs, when its scope ends, a try block of one guard of each kind that ends
   normally (m = 0) or by an exception of its own (m = 1): guards count only exceptions newer than themselves.
   Clause R03.                                                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Reject(c, why) == {<<c, why>>}
If(p, set) == IF p THEN set ELSE {}
Always == 0  Fail == 1  Success == 2  Defer == 3
\* guard: [id, kind, on]; on = FALSE when dismissed; a Defer has on = throws
Init0 == [n |-> 0, scopes |-> <<[try |-> TRUE, gs |-> <<>>]>>]
Top(s) == s.scopes[Len(s.scopes)]
Runs(g, failing) == g.on /\ (g.kind = Always \/ (g.kind = Fail /\ failing) \/ (g.kind = Success /\ ~failing))
Did(id) == 100 + id
\* a deferred object's destructor: guards of kinds 0, 1, 2 constructed in this order, destroyed in reverse
Inner(g) == IF g.on THEN <<1000 + g.id * 10 + Fail, 1000 + g.id * 10 + Always>>
            ELSE <<1000 + g.id * 10 + Success, 1000 + g.id * 10 + Always>>
RECURSIVE Close(_, _)
Close(gs, failing) ==   \* what ending a scope with these guards runs, last constructed first
    IF gs = <<>> THEN <<>>
    ELSE LET g == gs[Len(gs)]  rest == Close(SubSeq(gs, 1, Len(gs) - 1), failing) IN
         IF g.kind = Defer THEN Inner(g) \o rest
         ELSE IF Runs(g, failing) THEN <<Did(g.id)>> \o rest ELSE rest
RECURSIVE Unwind(_)
Unwind(scopes) ==  \* [out, scopes] after an exception
    LET t == scopes[Len(scopes)]  out == Close(t.gs, TRUE) IN
    IF t.try THEN [out |-> out \o <<1>>, scopes |-> SubSeq(scopes, 1, Len(scopes) - 1)]
    ELSE LET r == Unwind(SubSeq(scopes, 1, Len(scopes) - 1)) IN [out |-> out \o r.out, scopes |-> r.scopes]
Base(scopes) == IF scopes = <<>> THEN Init0.scopes ELSE scopes  \* the outermost block is a try block that starts again

AddGuard(s, k, on) == [s EXCEPT !.n = @ + 1, !.scopes[Len(s.scopes)].gs = Append(@, [id |-> s.n, kind |-> k, on |-> on])]
Live(s) == UNION {{s.scopes[j].gs[k].id : k \in {k2 \in 1..Len(s.scopes[j].gs) : s.scopes[j].gs[k2].kind # Defer}} : j \in 1..Len(s.scopes)}
Off(gs, id) == [k \in 1..Len(gs) |-> IF gs[k].id = id THEN [gs[k] EXCEPT !.on = FALSE] ELSE gs[k]]
IsOn(s, id) == \E j \in 1..Len(s.scopes) : \E k \in 1..Len(s.scopes[j].gs) : s.scopes[j].gs[k].id = id /\ s.scopes[j].gs[k].on
Step(s, e) ==
    LET o == e.op IN
    CASE o[1] = "guard"   -> AddGuard(s, o[2], TRUE)      \* o[3]: what kind of callable, of no consequence
      [] o[1] = "defer"   -> AddGuard(s, Defer, o[2] = 1)
      [] o[1] = "dismiss" -> [s EXCEPT !.scopes = [j \in 1..Len(s.scopes) |-> [s.scopes[j] EXCEPT !.gs = Off(@, o[2])]]]
      [] o[1] = "block"   -> [s EXCEPT !.scopes = Append(@, [try |-> FALSE, gs |-> <<>>])]
      [] o[1] = "try"     -> [s EXCEPT !.scopes = Append(@, [try |-> TRUE, gs |-> <<>>])]
      [] o[1] = "end"     -> [s EXCEPT !.scopes = Base(SubSeq(@, 1, Len(@) - 1))]
      [] o[1] = "throw"   -> [s EXCEPT !.scopes = Base(Unwind(@).scopes)]
      [] OTHER -> s
Expected(s, o) ==
    CASE o[1] = "end"     -> Close(Top(s).gs, FALSE)
      [] o[1] = "throw"   -> Unwind(s.scopes).out
      [] o[1] = "dismiss" -> IF IsOn(s, o[2]) THEN <<10, 11>> ELSE <<11, 11>>   \* dismissed() before and after
      [] OTHER -> <<>>
Rejects(s, e) ==
    IF e.op[1] \in {"crash", "hang"} THEN Reject("R03", e.op[1])
    ELSE IF e.op[1] = "fin" THEN If(e.out[1] # 0, Reject("R03", "memory leaked"))
    ELSE If(e.out # Expected(s, e.op), Reject("R03", "guards that ran, or their order, differ"))
RECURSIVE Count(_, _)
Count(scopes, i) == IF i = 0 THEN 0 ELSE Len(scopes[i].gs) + Count(scopes, i - 1)
GenOps(s) ==
    LET few == Count(s.scopes, Len(s.scopes)) < 3 IN
    (IF few THEN {<<"guard", k, c>> : k \in 0..2, c \in {s.n % 5}} \cup {<<"defer", m>> : m \in 0..1} ELSE {})
    \cup {<<"dismiss", id>> : id \in Live(s)}
    \cup (IF Len(s.scopes) < 3 THEN {<<"block">>, <<"try">>} ELSE {})
    \cup {<<"end">>, <<"throw">>}
GenBound(s) == TRUE
=============================================================================
