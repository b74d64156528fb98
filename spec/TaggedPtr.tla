------------------------------ MODULE TaggedPtr ------------------------------
(* muu::tagged_ptr: an aligned pointer with a small tag in its unused bits. State: the kind of pointer in use and two
   tagged pointers, each [p, t]: p names an address (0 is null), t is the tag as an unsigned number. Clause R05.      *)
EXTENDS Integers, Sequences, TLC
Reject(why) == {<<"R05", why>>}
If(p, set) == IF p THEN set ELSE {}
B(p) == IF p THEN 1 ELSE 0
\* kinds of pointee: log2 of the alignment, which is the number of bits a tag can use beside the unused high bits
Log2Align == <<3, 10, 2, 4, 4, 1, 0>>     \* object, over-aligned, int, void, function, char aligned to 2, char
Free == {0, 7, 16}                        \* high bits of an address that are not used (64-, 57- and 48-bit addresses)
Bits(s) == Log2Align[s.kind + 1] + s.free
Pow(n) == 2 ^ n
Addresses == 0..5                         \* null, lowest, real storage, highest positive, lowest negative, highest
\* tag types: width in bits; which are objects (stored bytewise, must fit) or plain integers (may be wider, value must fit)
Width == <<8, 8, 16, 16, 32, 32, 64, 8, 8, 16, 8, 8, 8>> \* u8 i8 u16 i16 u32 i32 i64 enum struct1 struct2 bool char signed-enum
Object(ty) == ty \in {8, 9, 10, 11}
Signed(ty) == ty \in {1, 3, 5, 6, 11, 12}
Storable(s, ty, v) == IF Width[ty + 1] <= Bits(s) THEN TRUE
                      ELSE ~Object(ty) /\ v >= 0 /\ (Bits(s) >= 30 \/ v < Pow(Bits(s)))
\* a tag keeps the bits of the value in its own type, and the rest of the tag is zero
Enc(s, ty, v) == IF v >= 0 THEN v ELSE v + Pow(Width[ty + 1])
Init0 == [kind |-> 0, free |-> 0, r |-> <<[p |-> 0, t |-> 0], [p |-> 0, t |-> 0]>>]
BitOf(v, i) == ((v \div Pow(i)) % 2)
SetBit(v, i, b) == v + (b - BitOf(v, i)) * Pow(i)
Next1(s, o) ==
    CASE o[1] = "kind"   -> [Init0 EXCEPT !.kind = o[2], !.free = o[3]]
      [] o[1] \in {"ctor", "resetp"}  -> [s EXCEPT !.r[o[2]] = [p |-> o[3], t |-> 0]]
      [] o[1] \in {"ctort", "resett"} -> [s EXCEPT !.r[o[2]] = [p |-> o[3], t |-> Enc(s, o[4], o[5])]]
      [] o[1] \in {"reset", "null"}   -> [s EXCEPT !.r[o[2]] = [p |-> 0, t |-> 0]]
      [] o[1] \in {"ptr", "asg"}      -> [s EXCEPT !.r[o[2]].p = o[3]]
      [] o[1] = "clearp" -> [s EXCEPT !.r[o[2]].p = 0]
      [] o[1] = "cleart" -> [s EXCEPT !.r[o[2]].t = 0]
      [] o[1] = "tag"    -> [s EXCEPT !.r[o[2]].t = Enc(s, o[3], o[4])]
      [] o[1] = "bit"    -> [s EXCEPT !.r[o[2]].t = SetBit(@, o[3], o[4])]
      [] o[1] = "copy"   -> [s EXCEPT !.r[o[2]] = s.r[o[3]]]
      [] o[1] = "swap"   -> [s EXCEPT !.r = <<s.r[2], s.r[1]>>]
      [] OTHER -> s
Step(s, e) == Next1(s, e.op)
\* every pointer: address, tag, boolean, all other ways to read it agree; then ==, != of the two, == with the other's address
See(x) == <<x.p, x.t, B(x.p # 0), 1>>
Obs(s) == See(s.r[1]) \o See(s.r[2]) \o <<B(s.r[1] = s.r[2]), B(s.r[1] # s.r[2]), B(s.r[1].p = s.r[2].p), B(s.r[1].p # s.r[2].p)>>
Rejects(s, e) ==
    LET o == e.op  t == Next1(s, o) IN
    IF o[1] \in {"crash", "hang"} THEN Reject(o[1])
    ELSE IF o[1] = "fin" THEN {}
    ELSE IF o[1] = "kind" THEN If(e.out # <<Bits(t), Pow(Log2Align[t.kind + 1]), Pow(Bits(t)) - 1>>, Reject("tag bits, alignment or largest tag differ"))
    ELSE IF o[1] = "can" THEN If(e.out # <<B(Storable(s, o[2], o[3]))>>, Reject("can_store_tag differs"))
    ELSE IF o[1] = "canp" THEN If(e.out # <<B((o[3] % Pow(Log2Align[s.kind + 1])) = 0)>>, Reject("can_store_ptr differs"))
    ELSE If(e.out # Obs(t), Reject("address, tag or comparison differs"))

Vals(s, ty) == {v \in {0, 1, 2, 5, Pow(Bits(s)) - 1, 127, 200, 255} \cup (IF Signed(ty) THEN {-1, -100} ELSE {}) :
                    /\ Storable(s, ty, v)
                    /\ (ty \in {10}) => v \in 0..1
                    /\ (Width[ty + 1] = 8 => v <= (IF Signed(ty) THEN 127 ELSE 255)) /\ (Width[ty + 1] = 16 => v <= (IF Signed(ty) THEN 32767 ELSE 65535))}
Types == 0..12
Usable(k, f) == ~(k = 6 /\ f = 0)
GenOps(s) ==
    (IF s = Init0 THEN {<<"kind", x[1], x[2]>> : x \in {y \in (0..6) \X Free : Usable(y[1], y[2])}} ELSE {})
    \cup {<<"ctor", 1, p>> : p \in Addresses} \cup {<<"resetp", 1, 2>>, <<"reset", 1>>, <<"null", 2>>, <<"copy", 2, 1>>, <<"swap">>}
    \cup UNION {{<<"ctort", 1, p, ty, v>> : p \in {0, 2, 4}, v \in Vals(s, ty)} : ty \in Types}
    \cup UNION {{<<"resett", 2, 3, ty, v>> : v \in Vals(s, ty)} : ty \in {0, 1, 3, 8}}
    \cup UNION {{<<"tag", 1, ty, v>> : v \in Vals(s, ty)} : ty \in Types}
    \cup {<<op, 1, p>> : op \in {"ptr", "asg"}, p \in Addresses}
    \cup {<<"clearp", 1>>, <<"cleart", 1>>}
    \cup {<<"bit", 1, i, b>> : i \in {0, Bits(s) - 1}, b \in 0..1}
    \cup UNION {{<<"can", ty, v>> : v \in {0, 1, 3, 7, 8, 127} \cup (IF Signed(ty) THEN {-1} ELSE {})} : ty \in Types \ {10}}
    \cup {<<"canp", p, off>> : p \in {1, 2}, off \in {0, 1, 2, 4, 8, 16, 512}}
GenBound(s) == TRUE
=============================================================================
