------------------------------ MODULE EmplArray ------------------------------
(* muu::emplacement_array: a fixed-capacity array that owns the elements emplaced into it. State: the element kind in
   use and N arrays [cap, els]. Clause R02.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
N == 3
Kinds == 0..3   \* 0: may throw, 1: nothrow and over-aligned, 2: trivially destructible, 3: move-only and owning memory
Reject(c, why) == {<<c, why>>}
If(p, set) == IF p THEN set ELSE {}
None == [cap |-> 0, els |-> <<>>]
Init0 == [kind |-> 0, arr |-> [i \in 1..N |-> None]]
Push(s, i, v) == [s EXCEPT !.arr[i].els = Append(@, v)]
Step(s, e) ==
    LET o == e.op IN
    CASE o[1] = "kind"   -> [Init0 EXCEPT !.kind = o[2]]
      [] o[1] = "new"    -> [s EXCEPT !.arr[o[2]] = [cap |-> o[3], els |-> <<>>]]
      [] o[1] \in {"push", "with"} -> Push(s, o[2], o[3])
      [] o[1] \in {"pushx", "withx"} -> s               \* the construction throws: nothing changes
      [] o[1] = "set"    -> [s EXCEPT !.arr[o[2]].els[o[3] + 1] = o[4]]
      [] o[1] = "clear"  -> [s EXCEPT !.arr[o[2]].els = <<>>]
      [] o[1] = "mctor"  -> [s EXCEPT !.arr[o[2]] = s.arr[o[3]], !.arr[o[3]] = None]
      [] o[1] = "massign" -> [s EXCEPT !.arr[o[2]] = s.arr[o[3]], !.arr[o[3]] = None]
      [] OTHER -> s
\* observation: threw, live objects, then per array: size, capacity, empty(), consistent, elements...
RECURSIVE Flat(_, _)
Flat(a, i) == IF i > N THEN <<>>
              ELSE <<Len(a[i].els), a[i].cap, IF a[i].els = <<>> THEN 1 ELSE 0, 1>> \o a[i].els \o Flat(a, i + 1)
RECURSIVE Total(_, _)
Total(a, i) == IF i > N THEN 0 ELSE Len(a[i].els) + Total(a, i + 1)
Rejects(s, e) ==
    LET t == Step(s, e) IN
    IF e.op[1] \in {"crash", "hang"} THEN Reject("R02", e.op[1])
    ELSE IF e.op[1] = "fin" THEN If(e.out[1] # 0, Reject("R02", "memory leaked")) \cup If(e.out[2] # 0, Reject("R02", "elements not destroyed"))
    ELSE If(e.out[1] # (IF e.op[1] \in {"pushx", "withx"} THEN 1 ELSE 0), Reject("R02", "an exception was swallowed or invented"))
         \cup If(e.out[2] # Total(t.arr, 1) /\ t.kind # 2, Reject("R02", "number of live elements differs"))
         \cup If(SubSeq(e.out, 3, Len(e.out)) # Flat(t.arr, 1), Reject("R02", "size, capacity or elements differ"))

Room(s) == {i \in 1..N : Len(s.arr[i].els) < s.arr[i].cap}
GenOps(s) ==
    (IF \A i \in 1..N : s.arr[i] = None THEN {<<"kind", k>> : k \in Kinds} ELSE {})
    \cup {<<"new", i, c>> : i \in 1..2, c \in {0, 1, 3}}
    \cup {<<op, i, 10 + Len(s.arr[i].els) + 5 * i>> : op \in {"push", "with"}, i \in Room(s)}
    \cup {<<op, i, 9>> : op \in IF s.kind = 0 THEN {"pushx", "withx"} ELSE {}, i \in Room(s)}
    \cup {<<"set", i, Len(s.arr[i].els) - 1, 77>> : i \in {k \in 1..2 : s.arr[k].els # <<>>}}
    \cup {<<"clear", i>> : i \in 1..2}
    \cup {<<op, x[1], x[2]>> : op \in {"mctor", "massign"}, x \in {<<1, 2>>, <<2, 1>>, <<3, 1>>}}
GenBound(s) == TRUE
=============================================================================
