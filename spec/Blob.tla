-------------------------------- MODULE Blob --------------------------------
(* muu::blob: an owning, resizable, aligned chunk of memory. State: N named blobs, each [size, align, data], data being
   a run-length description of its bytes: a sequence of [p, o, n]: n bytes starting at offset o of pattern p (p = -1:
   unspecified). Clause R01.                                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
N == 3
MinAlign == 16
Reject(c, why) == {<<c, why>>}
If(p, set) == IF p THEN set ELSE {}
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

ActualAlign(size, a) == Max(a, IF size < 2048 THEN MinAlign ELSE 64)
Empty == [size |-> 0, align |-> MinAlign, data |-> <<>>]
Init0 == [i \in 1..N |-> Empty]

RECURSIVE Cut(_, _, _)
Cut(d, off, n) ==  \* n bytes of d starting at off
    IF n = 0 \/ d = <<>> THEN <<>>
    ELSE LET h == Head(d) IN
         IF off >= h.n THEN Cut(Tail(d), off - h.n, n)
         ELSE LET m == Min(h.n - off, n) IN <<[p |-> h.p, o |-> h.o + off, n |-> m]>> \o Cut(Tail(d), 0, n - m)
Fill(p, o, n) == IF n = 0 THEN <<>> ELSE <<[p |-> p, o |-> o, n |-> n]>>
PatByte(p, k) == (p * 31 + k * 7 + (k \div 256) * 13) % 251
RECURSIVE ByteAt(_, _)
ByteAt(d, k) == IF k < Head(d).n THEN (IF Head(d).p = -1 THEN -1 ELSE PatByte(Head(d).p, Head(d).o + k)) ELSE ByteAt(Tail(d), k - Head(d).n)
Resized(b, n) == IF n = b.size THEN b
                 ELSE [b EXCEPT !.size = n, !.data = Cut(b.data, 0, Min(n, b.size)) \o Fill(-1, 0, Max(0, n - b.size))]
Made(n, d, a) == [size |-> n, align |-> ActualAlign(n, a), data |-> d]
Assigned(b, n, d, a) == Made(n, d, a)

\* operations; i, j are blobs
Step(s, e) ==
    LET o == e.op  i == o[2] IN
    CASE o[1] = "new"     -> [s EXCEPT ![i] = Made(o[3], IF o[4] < 0 THEN Fill(-1, 0, o[3]) ELSE Fill(o[4], 0, o[3]), o[5])]
      [] o[1] = "copy"    -> [s EXCEPT ![i] = Made(s[o[3]].size, s[o[3]].data, s[o[3]].align)]
      [] o[1] = "copyal"  -> [s EXCEPT ![i] = Made(s[o[3]].size, s[o[3]].data, IF o[4] = 0 THEN s[o[3]].align ELSE o[4])]
      [] o[1] = "move"    -> [s EXCEPT ![i] = s[o[3]], ![o[3]] = Empty]     \* a new blob i constructed from j (i # j)
      [] o[1] = "assign"  -> [s EXCEPT ![i] = Assigned(s[i], o[3], Fill(o[4], 0, o[3]), o[5])]
      [] o[1] = "assign0" -> [s EXCEPT ![i] = [Resized(s[i], o[3]) EXCEPT !.align = ActualAlign(o[3], o[4])]]  \* no source
      [] o[1] = "alias"   -> [s EXCEPT ![i] = Assigned(s[i], o[4], Cut(s[i].data, o[3], o[4]), o[5])] \* from part of itself
      [] o[1] = "cassign" -> [s EXCEPT ![i] = Assigned(s[i], s[o[3]].size, s[o[3]].data, s[o[3]].align)]
      [] o[1] = "massign" -> IF i = o[3] THEN s ELSE [s EXCEPT ![i] = s[o[3]], ![o[3]] = Empty]
      [] o[1] = "resize"  -> [s EXCEPT ![i] = Resized(s[i], o[3])]
      [] o[1] = "write"   -> [s EXCEPT ![i].data = Cut(@, 0, o[3]) \o Fill(o[4], 0, 1) \o Cut(@, o[3] + 1, s[i].size - o[3] - 1)]
      [] OTHER -> s

\* observation of a blob: size, alignment, data() is null, data() is aligned, bool, then bytes at Pos(size)
Pos(n) == IF n <= 12 THEN [k \in 1..n |-> k - 1]
          ELSE <<0, 1, 7, 8, n \div 2, n - 9, n - 8, n - 2, n - 1>>
Bad(b, v) ==
    If(v[1] # b.size, Reject("R01", "size() differs"))
    \cup If(v[2] # b.align, Reject("R01", "alignment() differs"))
    \cup If(v[3] # (IF b.size = 0 THEN 1 ELSE 0), Reject("R01", "data() is null unless there is data"))
    \cup If(v[4] # 1, Reject("R01", "data() is not aligned to alignment()"))
    \cup If(v[5] # (IF b.size = 0 THEN 0 ELSE 1), Reject("R01", "operator bool differs"))
    \cup If(v[1] = b.size /\ \E k \in 1..Len(Pos(b.size)) :
                 LET x == ByteAt(b.data, Pos(b.size)[k]) IN x # -1 /\ x # v[5 + k],
            Reject("R01", "contents differ"))
RECURSIVE Off(_, _, _)
Off(out, i, at) == IF i = 1 THEN at ELSE Off(out, i - 1, at + 6 + out[at])   \* start of blob i in the observation: [len, ...]
Rejects(s, e) ==
    LET t == Step(s, e) IN
    IF e.op[1] \in {"crash", "hang"} THEN Reject("R01", e.op[1])
    ELSE IF e.op[1] = "fin" THEN If(e.out[1] # 0, Reject("R01", "memory leaked"))
    ELSE UNION {LET at == Off(e.out, i, 1) IN Bad(t[i], SubSeq(e.out, at + 1, at + 5 + e.out[at])) : i \in 1..N}

\* operations explored exhaustively
GenSizes == {0, 1, 3, 2048}
GenOps(s) ==
    {<<"new", 1, n, 2, a>> : n \in GenSizes, a \in {0, 128}} \cup {<<"new", 2, 3, 5, 32>>}
    \cup {<<op, i, j>> : op \in {"cassign", "massign"}, i \in 1..2, j \in 1..2}
    \cup {<<"copyal", 2, 1, a>> : a \in {0, 16, 64}} \cup {<<"move", 2, 1>>, <<"copy", 2, 1>>}
    \cup {<<"assign", 1, n, 9, a>> : n \in {0, 3, 2048}, a \in {0, 64}}
    \cup {<<"alias", 1, o, n, a>> : o \in {o2 \in {0, 1} : s[1].size >= 3}, n \in {1, 2}, a \in {0, 256}}
    \cup {<<"resize", i, n>> : i \in 1..1, n \in {0, 2, 2049}}
GenBound(s) == TRUE
=============================================================================
