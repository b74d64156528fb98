---------------------------------- MODULE Text ----------------------------------
(* Decoding, transcoding and trimming of text. State: a UTF-8 and a UTF-16 incremental decoder, each the units of the
   sequence in progress. Clauses T01 (decoding), T02 (transcoding), T03 (trimming).                                  *)
EXTENDS Utf, TLC
Reject(c, why) == {<<c, why>>}
If(p, set) == IF p THEN set ELSE {}
Init0 == [d8 |-> <<>>, d16 |-> <<>>]
W(enc) == CASE enc \in {1, 3} -> 1 [] enc = 4 -> 2 [] OTHER -> 4
Rest(o, k) == SubSeq(o, k, Len(o))
Max2(a, b) == IF a > b THEN a ELSE b

\* a decoder fed with a unit: p is what is pending including that unit. Every byte is checked as soon as it arrives.
Prefix8(p) ==   \* p can begin (but is not) a well-formed sequence
    LET b == p[1]  n == Len(p)
        second == CASE b = 224 -> p[2] \in 160..191 [] b = 237 -> p[2] \in 128..159 [] b = 240 -> p[2] \in 144..191
                    [] b = 244 -> p[2] \in 128..143 [] OTHER -> p[2] \in 128..191
    IN CASE n = 1 -> b \in 194..244
         [] n = 2 -> b \in 224..244 /\ second
         [] n = 3 -> b \in 240..244 /\ second /\ p[3] \in 128..191
         [] OTHER -> FALSE
Outcome(p, w) ==  \* <<error, has_value, needs_more, value>>
    IF SeqLen(p, 1, w) = Len(p) THEN <<0, 1, 0, Value(p, 1, Len(p), w)>>
    ELSE IF (w = 1 /\ Prefix8(p)) \/ (w = 2 /\ Len(p) = 1 /\ Hi(p[1])) THEN <<0, 0, 1, 0>>
    ELSE <<1, 0, 0, 0>>
Pending(p, w) == IF Outcome(p, w)[3] = 1 THEN p ELSE <<>>   \* errors are cleared
Step(s, e) ==
    CASE e.op[1] = "feed8"  -> [s EXCEPT !.d8 = Pending(Append(@, e.op[2]), 1)]
      [] e.op[1] = "feed16" -> [s EXCEPT !.d16 = Pending(Append(@, e.op[2]), 2)]
      [] OTHER -> s

\* whole texts: decode(w, reverse, limit, units): flat items cp, start, count; the callback stops after `limit` items (0: never)
RECURSIVE FlatItems(_)
FlatItems(it) == IF it = <<>> THEN <<>> ELSE <<it[1][3], it[1][1], it[1][2]>> \o FlatItems(Tail(it))
Reversed(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
First(q, n) == IF n = 0 \/ Len(q) <= n THEN q ELSE SubSeq(q, 1, n)
\* what is demanded of malformed text: the items cover all units after the mark exactly once, in order, and each is a
\* well-formed sequence or a single unit standing for itself
Covers(out, u, w, rev) ==
    LET n == Len(out) \div 3  from == Bom(u, w)  v == Native(u, w)
        ST(k) == out[3 * k - 1]  CN(k) == out[3 * k]  CP(k) == out[3 * k - 2]
    IN /\ \A k \in 1..n : /\ CN(k) >= 1 /\ ST(k) >= from /\ ST(k) + CN(k) <= Len(v)
                          /\ \/ CN(k) = 1 /\ CP(k) = v[ST(k) + 1]
                             \/ SeqLen(v, ST(k) + 1, w) = CN(k) /\ CP(k) = Value(v, ST(k) + 1, CN(k), w)
       /\ IF rev THEN /\ (n = 0) = (Len(v) = from) /\ (n > 0 => ST(1) + CN(1) = Len(v) /\ ST(n) = from)
                      /\ \A k \in 1..(n - 1) : ST(k) = ST(k + 1) + CN(k + 1)
          ELSE /\ (n = 0) = (Len(v) = from) /\ (n > 0 => ST(1) = from /\ ST(n) + CN(n) = Len(v))
               /\ \A k \in 1..(n - 1) : ST(k + 1) = ST(k) + CN(k)
\* of the forward decoding, the well-formed text before the first malformed sequence is decoded as if it were alone
GoodPrefix(out, it) == LET good == FlatItems(SubSeq(it, 1, Len(it) - 1)) IN Len(good) <= Len(out) /\ SubSeq(out, 1, Len(good)) = good
Decode(o, out) ==
    LET w == o[2]  rev == o[3] = 1  lim == o[4]  u == Rest(o, 5)  it == Items(u, w) IN
    IF WellFormed(it)
    THEN If(out # FlatItems(First(IF rev THEN Reversed(it) ELSE it, lim)), Reject("T01", "code points or their positions differ"))
    ELSE If(lim = 0 /\ ~Covers(out, u, w, rev), Reject("T01", "malformed text: units lost, repeated or made up"))
         \cup If(lim = 0 /\ ~rev /\ ~GoodPrefix(out, it), Reject("T01", "the well-formed beginning is not decoded as such"))
\* transcode(from, to, units): the units of the result
TransOk(o, out) ==
    LET u == Rest(o, 4)  a == W(o[2])  b == W(o[3]) IN
    IF a = b THEN out = u ELSE ~WellFormed(Items(u, a)) \/ out = Transcode(u, a, b)
\* trim(which, enc, units), which = 0 both, 1 left, 2 right: offset and length of the result
TrimOk(o, out) ==
    LET u == Rest(o, 4)  w == W(o[3])  sp == TrimSpan(u, w)
        a == IF o[2] = 2 THEN 0 ELSE sp[1]
        b == IF o[2] = 1 THEN Len(u) ELSE sp[2]
    IN IF ~WellFormed(Items(u, w)) THEN out[1] >= 0 /\ out[2] >= 0 /\ out[1] + out[2] <= Len(u)
       ELSE IF sp = <<0, 0>> THEN out = <<0, 0>> ELSE out = <<a, b - a>>
ClauseOf(o) == CASE o[1] = "trans" -> "T02" [] o[1] = "trim" -> "T03" [] OTHER -> "T01"
Rejects(s, e) ==
    LET o == e.op IN
    IF o[1] \in {"crash", "hang"} THEN Reject(ClauseOf(e.of), o[1])
    ELSE IF o[1] = "feed8" THEN If(e.out # Outcome(Append(s.d8, o[2]), 1), Reject("T01", "UTF-8 decoder state or value differs"))
    ELSE IF o[1] = "feed16" THEN If(e.out # Outcome(Append(s.d16, o[2]), 2), Reject("T01", "UTF-16 decoder state or value differs"))
    ELSE IF o[1] \in {"dec", "decsw"} THEN Decode(o, e.out)
    ELSE IF o[1] = "trans" THEN If(~TransOk(o, e.out), Reject("T02", "transcoded text differs"))
    ELSE IF o[1] = "trim" THEN If(~TrimOk(o, e.out), Reject("T03", "trimmed text differs"))
    ELSE {}

Bytes == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255}
Units16 == {0, 65, 255, 55295, 55296, 56319, 56320, 57343, 57344, 65535}
GenOps(s) == {<<"feed8", b>> : b \in Bytes} \cup {<<"feed16", u>> : u \in Units16}
GenBound(s) == s.d8 = <<>> \/ s.d16 = <<>>
=============================================================================
