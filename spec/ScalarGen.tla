------------------------------ MODULE ScalarGen ------------------------------
(***************************************************************************)
(* Boundary values of every scalar type, with the record each of them is   *)
(* encoded as. What is said about them here: the encoding is the shortest  *)
(* one and decoding it yields the value again.                             *)
(***************************************************************************)
EXTENDS Dec, Json, SequencesExt

CONSTANTS
  Fields,     \* set of [ty, f]: the type with a field f to write
  Dense,      \* number of further pseudo-random values per bit
  Lens        \* lengths of strings

VARIABLES fld, bit, ok
vars == <<fld, bit, ok>>

FromBits(on(_), n) == [i \in 1..n |-> BitsToByte(on, 8 * (i - 1), 8)]

\* for bit k of n bytes: powers of two, their neighbours, and the complements
Around(n, k, s) ==
  LET pow(j)   == IF j = k THEN 1 ELSE 0
      below(j) == IF j < k THEN 1 ELSE 0
      plus(j)  == IF j = k \/ j = 0 THEN 1 ELSE 0
      top(j)   == IF j = 8 * n - 1 \/ j < k THEN 1 ELSE 0
      rnd(i, j) == IF j < k THEN (Hash(s + i, j) \div 7) % 2 ELSE 0
      not(b)   == [i \in 1..n |-> 255 - b[i]]
      base == {FromBits(pow, n), FromBits(below, n), FromBits(plus, n), FromBits(top, n)}
              \cup {LET r(j) == rnd(i, j) IN FromBits(r, n) : i \in 1..Dense}
  IN base \cup {not(b) : b \in base}

ValuesAt(f, k) ==
  IF f.type \in StringTypes THEN {}
  ELSE IF f.type = TBOOL THEN {<<0>>, <<1>>}
  ELSE Around(TypeSize(f.type), k, f.type * 100 + (f.tag % 1000))

Bits(f) == IF f.type \in StringTypes THEN DOMAIN Lens ELSE IF f.type = TBOOL THEN {0} ELSE 0..(8 * TypeSize(f.type) - 1)

Rec(f, v) == Key(f.tag, WireType(f.type)) \o EncScalar(f.type, v)

ScalarOk(f, v) ==
  LET e == EncScalar(f.type, v)
      b == Rec(f, v)
      D == ScalarAt(e, 1, Len(e), f.type)
      K == KeyAt(b, 1, Len(b))
  IN /\ D = Got(Len(e), v)
     /\ K.tag = f.tag /\ K.wt = WireType(f.type)
     /\ WireType(f.type) = 0 =>
          /\ \A i \in 1..(Len(e) - 1) : e[i] >= 128
          /\ e[Len(e)] < 128
          /\ Len(e) > 1 => e[Len(e)] # 0
          /\ Len(e) <= 10
     /\ f.type \in {INT32, TENUM} /\ v[4] >= 128 => Len(e) = 10

\* a string of length n, as rle
Str(n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN << <<120, 1>> >> ELSE << <<120, n - 1>>, <<0, 1>> >>

Cases(f, k) ==
  IF f.type \in StringTypes
  THEN {LET v == Str(Lens[k]) IN [v |-> v, r |-> Rle(Key(f.tag, 2) \o LenPrefix(Size(v))) \o v]}
  ELSE {[v |-> Rle(v), r |-> Rle(Rec(f, v))] : v \in ValuesAt(f, k)}

\* all values of one bit in a row, packed
RECURSIVE Concat(_, _)
Concat(t, q) == IF q = <<>> THEN <<>> ELSE EncScalar(t, Head(q)) \o Concat(t, Tail(q))
PackedAll(f, k) ==
  IF f.type \in StringTypes THEN [v |-> <<>>, r |-> <<>>]
  ELSE LET q == SetToSeq(ValuesAt(f, k))
           b == Concat(f.type, q)
       IN [v |-> q, r |-> Key(f.tag, 2) \o LenPrefix(Len(b)) \o b]

Init == fld \in Fields /\ bit = -1 /\ ok = TRUE
Next == /\ bit = -1
        /\ \E k \in Bits(fld.f) :
             /\ bit' = k
             /\ ok' = (\A v \in ValuesAt(fld.f, k) : ScalarOk(fld.f, v))
             /\ UNCHANGED fld
             /\ PrintT("@@" \o ToJson([ty |-> fld.ty, tag |-> fld.f.tag, type |-> fld.f.type, c |-> Cases(fld.f, k), p |-> PackedAll(fld.f, k)]))
Holds == ok
=============================================================================
