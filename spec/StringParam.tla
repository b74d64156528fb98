------------------------------ MODULE StringParam ------------------------------
(* string_param: a string of any encoding, owned or viewed, converted on demand. State: N parameters [enc, own, u];
   enc: 0 empty, 1 char, 2 wchar_t (32 bit), 3 char8_t, 4 char16_t, 5 char32_t. Texts are well formed. Clause R04.   *)
EXTENDS Utf, TLC
N == 3
Reject(c, why) == {<<c, why>>}
If(p, set) == IF p THEN set ELSE {}
W(enc) == CASE enc \in {1, 3} -> 1 [] enc = 4 -> 2 [] OTHER -> 4
None == [enc |-> 0, own |-> FALSE, u |-> <<>>]
P(enc, own, u) == IF u = <<>> THEN None ELSE [enc |-> enc, own |-> own, u |-> u]
Init0 == [i \in 1..N |-> None]
MoveHow == 4   \* constructed from an rvalue string
As(p, enc) == IF p.enc = 0 THEN <<>> ELSE Transcode(p.u, W(p.enc), W(enc))
Rest(o, k) == SubSeq(o, k, Len(o))
Step(s, e) ==
    LET o == e.op IN
    CASE o[1] = "init"    -> [s EXCEPT ![o[2]] = P(o[3], o[4] = MoveHow, Rest(o, 5))]
      [] o[1] = "mctor"   -> [s EXCEPT ![o[2]] = s[o[3]], ![o[3]] = None]
      [] o[1] = "massign" -> IF o[2] = o[3] THEN s ELSE [s EXCEPT ![o[2]] = s[o[3]], ![o[3]] = None]
      [] o[1] = "view"    -> IF s[o[2]].enc \in {0, o[3]} THEN s ELSE [s EXCEPT ![o[2]] = P(o[3], TRUE, As(s[o[2]], o[3]))]
      [] o[1] = "take"    -> IF s[o[2]].enc = o[3] /\ s[o[2]].own THEN [s EXCEPT ![o[2]] = None] ELSE s
      [] o[1] = "trim"    -> LET p == s[o[2]]  sp == TrimSpan(p.u, W(p.enc)) IN
                             IF p.enc = 0 THEN s ELSE [s EXCEPT ![o[2]] = P(p.enc, p.own, SubSeq(p.u, sp[1] + 1, sp[2]))]
      [] OTHER -> s
\* observation: result units of view and take ([len, units...]); then per parameter: empty(), bool, owning()
Expected(s, t, o) ==
    (IF o[1] \in {"view", "take"} THEN LET r == As(s[o[2]], o[3]) IN <<Len(r)>> \o r ELSE <<0>>)
    \o [k \in 1..3 * N |-> LET p == t[((k - 1) \div 3) + 1] IN
          CASE (k - 1) % 3 = 0 -> IF p.enc = 0 THEN 1 ELSE 0
            [] (k - 1) % 3 = 1 -> IF p.enc = 0 THEN 0 ELSE 1
            [] OTHER -> IF p.own THEN 1 ELSE 0]
Rejects(s, e) ==
    IF e.op[1] \in {"crash", "hang"} THEN Reject("R04", e.op[1])
    ELSE IF e.op[1] = "fin" THEN If(e.out[1] # 0, Reject("R04", "memory leaked or freed twice"))
    ELSE If(e.out # Expected(s, Step(s, e), e.op), Reject("R04", "text, emptiness or ownership differs"))

LOCAL Long == [k \in 1..24 |-> 96 + k]
Texts == {<<>>, <<97>>, <<32, 233, 9>>, <<32, 8239>>, Long, <<8287, 128512, 20013, 32>>, <<65279>>, <<65279, 98, 8364>>}
GenOps(s) ==
    {<<"init", 1, enc, how>> \o EncAll(t, W(enc)) : enc \in 1..5, how \in {0, 4}, t \in Texts}
    \cup {<<"init", 2, enc, how>> \o EncAll(Long, W(enc)) : enc \in {1, 5}, how \in {1, 4}}
    \cup {<<op, x[1], x[2]>> : op \in {"mctor", "massign"}, x \in {<<1, 2>>, <<2, 1>>}} \cup {<<"massign", 1, 1>>}
    \cup {<<op, 1, enc>> : op \in {"view", "take"}, enc \in 1..5}
    \cup {<<"trim", 1>>}
GenBound(s) == TRUE
=============================================================================
