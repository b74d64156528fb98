---------------------------------- MODULE Utf ----------------------------------
(* The encoding forms of Unicode, as code unit sequences: w is the width of a unit in bytes (1, 2 or 4).              *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL Ext(b) == b >= 128 /\ b < 192
Hi(u) == u >= 55296 /\ u < 56320     \* D800..DBFF
Lo(u) == u >= 56320 /\ u < 57344     \* DC00..DFFF
Scalar(c) == c >= 0 /\ c <= 1114111 /\ ~Hi(c) /\ ~Lo(c)

\* length of the well-formed sequence that starts at position i (1-based) of u, or 0
SeqLen1(u, i) ==
    LET n == Len(u)  b == u[i]
        At(k) == IF i + k <= n THEN u[i + k] ELSE 0
    IN CASE b < 128 -> 1
         [] b >= 194 /\ b < 224 -> IF Ext(At(1)) THEN 2 ELSE 0
         [] b >= 224 /\ b < 240 ->
               IF Ext(At(1)) /\ Ext(At(2)) /\ (b = 224 => At(1) >= 160) /\ (b = 237 => At(1) < 160) THEN 3 ELSE 0
         [] b >= 240 /\ b < 245 ->
               IF Ext(At(1)) /\ Ext(At(2)) /\ Ext(At(3)) /\ (b = 240 => At(1) >= 144) /\ (b = 244 => At(1) < 144) THEN 4 ELSE 0
         [] OTHER -> 0
SeqLen2(u, i) == IF Hi(u[i]) THEN (IF i < Len(u) /\ Lo(u[i + 1]) THEN 2 ELSE 0) ELSE IF Lo(u[i]) THEN 0 ELSE 1
SeqLen(u, i, w) == CASE w = 1 -> SeqLen1(u, i) [] w = 2 -> SeqLen2(u, i) [] OTHER -> IF Scalar(u[i]) THEN 1 ELSE 0
\* the code point encoded by the well-formed sequence of n units at i
Value(u, i, n, w) ==
    CASE w = 4 -> u[i]
      [] w = 2 -> IF n = 1 THEN u[i] ELSE (u[i] - 55296) * 1024 + (u[i + 1] - 56320) + 65536
      [] OTHER -> CASE n = 1 -> u[i]
                    [] n = 2 -> (u[i] % 32) * 64 + (u[i + 1] % 64)
                    [] n = 3 -> (u[i] % 16) * 4096 + (u[i + 1] % 64) * 64 + (u[i + 2] % 64)
                    [] OTHER -> (u[i] % 8) * 262144 + (u[i + 1] % 64) * 4096 + (u[i + 2] % 64) * 64 + (u[i + 3] % 64)
\* items <<start (0-based), units, code point>> of a well-formed text, or <<>> with ok = FALSE
RECURSIVE ItemsFrom(_, _, _)
ItemsFrom(u, i, w) ==
    IF i > Len(u) THEN <<>>
    ELSE LET n == SeqLen(u, i, w) IN
         IF n = 0 THEN << <<i - 1, 0, 0>> >>     \* malformed from here
         ELSE << <<i - 1, n, Value(u, i, n, w)>> >> \o ItemsFrom(u, i + n, w)
WellFormed(items) == items = <<>> \/ items[Len(items)][2] # 0

Enc1(c) == CASE c < 128 -> <<c>>
             [] c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
             [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Enc2(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
Enc(c, w) == CASE w = 1 -> Enc1(c) [] w = 2 -> Enc2(c) [] OTHER -> <<c>>
RECURSIVE EncAll(_, _)
EncAll(cps, w) == IF cps = <<>> THEN <<>> ELSE Enc(Head(cps), w) \o EncAll(Tail(cps), w)

\* byte order: a leading byte order mark decides and is not part of the text
Swap2(x) == ((x % 256) * 256) + x \div 256
Bom(u, w) == CASE w = 1 -> IF Len(u) >= 3 /\ u[1] = 239 /\ u[2] = 187 /\ u[3] = 191 THEN 3 ELSE 0
               [] OTHER -> IF Len(u) >= 1 /\ (u[1] = 65279 \/ (w = 2 /\ u[1] = 65534)) THEN 1 ELSE 0
\* without a mark: 16-bit text is taken for byte-swapped when more of its first 16 units have a zero low byte than a
\* zero high byte
ZeroLow(u) == Cardinality({k \in 1..(IF Len(u) < 16 THEN Len(u) ELSE 16) : (u[k] % 256) = 0})
ZeroHigh(u) == Cardinality({k \in 1..(IF Len(u) < 16 THEN Len(u) ELSE 16) : u[k] \div 256 = 0})
Swapped(u) == Len(u) > 0 /\ (u[1] = 65534 \/ (u[1] # 65279 /\ ZeroLow(u) > ZeroHigh(u)))
Native(u, w) == IF w = 2 /\ Swapped(u) THEN [k \in 1..Len(u) |-> Swap2(u[k])] ELSE u
\* the items of a text in native order, after its mark
Items(u, w) == ItemsFrom(Native(u, w), Bom(u, w) + 1, w)
Points(items) == [k \in 1..Len(items) |-> items[k][3]]
Transcode(u, from, to) == IF from = to THEN u ELSE EncAll(Points(Items(u, from)), to)

Space(c) == c \in {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \/ (c >= 8192 /\ c <= 8202)
\* trimming: bounds [from, to) in units of the text between its first and its last non-space
TrimSpan(u, w) ==
    LET it == Items(u, w)
        keep == {k \in 1..Len(it) : ~Space(it[k][3])}
        lo == CHOOSE k \in keep : \A j \in keep : k <= j
        hi == CHOOSE k \in keep : \A j \in keep : k >= j
    IN IF keep = {} THEN <<0, 0>> ELSE <<it[lo][1], it[hi][1] + it[hi][2]>>
=============================================================================
