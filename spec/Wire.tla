-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The protocol-buffers wire format, byte by byte.                         *)
(*                                                                         *)
(* TLC integers are 32 bit, so 64-bit values are never numbers here: a     *)
(* native value is the little-endian sequence of its bytes (as in memory), *)
(* and a varint is computed from its bits.                                 *)
(*                                                                         *)
(* Byte strings that may be long are kept run-length encoded ("rle"):      *)
(* a sequence of <<byte, count>>, so that contents around 127/128,         *)
(* 16383/16384 or 2097151/2097152 bytes cost nothing.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

INT32 == 1    INT64 == 2    UINT32 == 3   UINT64 == 4
SINT32 == 5   SINT64 == 6   FIXED32 == 7  FIXED64 == 8
SFIXED32 == 9 SFIXED64 == 10 TBOOL == 11   TENUM == 12
FLOAT == 13   DOUBLE == 14  TSTRING == 15  TBYTES == 16   TMESSAGE == 17

REQUIRED == 1 OPTIONAL == 2 REPEATED == 3 ONEOF == 4

ScalarTypes == 1..14
StringTypes == {TSTRING, TBYTES}

TypeSize(t) ==
  IF t = TBOOL THEN 1
  ELSE IF t \in {INT64, UINT64, SINT64, FIXED64, SFIXED64, DOUBLE} THEN 8
  ELSE 4

WireType(t) ==
  CASE t \in {INT32, INT64, UINT32, UINT64, SINT32, SINT64, TBOOL, TENUM} -> 0
    [] t \in {FIXED64, SFIXED64, DOUBLE} -> 1
    [] t \in {TSTRING, TBYTES, TMESSAGE} -> 2
    [] OTHER -> 5

----------------------------------------------------------------------------
(* run-length encoded byte strings *)

RECURSIVE SizeFrom(_, _)
SizeFrom(r, i) == IF i > Len(r) THEN 0 ELSE r[i][2] + SizeFrom(r, i + 1)
Size(r) == SizeFrom(r, 1)

Rle(bytes) == [i \in 1..Len(bytes) |-> <<bytes[i], 1>>]

RECURSIVE Expand(_)
Expand(r) == IF r = <<>> THEN <<>>
             ELSE [i \in 1..r[1][2] |-> r[1][1]] \o Expand(Tail(r))

----------------------------------------------------------------------------
(* varints *)

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>

(* bit k (from 0) of a little-endian byte sequence, zero beyond its end *)
Bit(b, k) == IF k \div 8 >= Len(b) THEN 0
             ELSE (b[(k \div 8) + 1] \div Pow2[(k % 8) + 1]) % 2

BitsToByte(bit(_), base, n) ==
  LET RECURSIVE S(_)
      S(i) == IF i >= n THEN 0 ELSE bit(base + i) * Pow2[i + 1] + S(i + 1)
  IN S(0)

(* the ten 7-bit groups of a value of at most 64 bits *)
Groups(b) ==
  LET bit(k) == IF k > 63 THEN 0 ELSE Bit(b, k)
  IN [g \in 1..10 |-> BitsToByte(bit, 7 * (g - 1), 7)]

(* shortest varint of a little-endian byte sequence *)
Varint(b) ==
  LET g == Groups(b)
      used == {i \in 1..10 : g[i] # 0}
      n == IF used = {} THEN 1 ELSE CHOOSE i \in used : \A j \in used : j <= i
  IN [i \in 1..n |-> IF i < n THEN g[i] + 128 ELSE g[i]]

(* shortest varint of a small non-negative integer *)
RECURSIVE VarintN(_)
VarintN(n) == IF n < 128 THEN <<n>> ELSE <<(n % 128) + 128>> \o VarintN(n \div 128)

SignExtend(b) == IF b[Len(b)] >= 128
                 THEN [i \in 1..8 |-> IF i <= Len(b) THEN b[i] ELSE 255]
                 ELSE b

(* zig-zag: shift left by one, and flip all bits of negative values *)
ZigZag(b) ==
  LET neg == b[Len(b)] >= 128
      bit(k) == LET s == IF k = 0 THEN 0 ELSE Bit(b, k - 1)
                IN IF neg THEN 1 - s ELSE s
  IN [i \in 1..Len(b) |-> BitsToByte(bit, 8 * (i - 1), 8)]

(* canonical wire bytes of a native scalar value *)
EncScalar(t, b) ==
  CASE t \in {INT32, TENUM} -> Varint(SignExtend(b))
    [] t \in {INT64, UINT32, UINT64, TBOOL} -> Varint(b)
    [] t \in {SINT32, SINT64} -> Varint(ZigZag(b))
    [] OTHER -> b

(* the encoded value (without key and length prefix) of an rle native value *)
EncVal(t, v) == IF t \in StringTypes \cup {TMESSAGE} THEN v ELSE Rle(EncScalar(t, Expand(v)))

(* key of a field; field numbers need not be small, so no shift is done *)
Key(tag, wt) ==
  LET g0 == (tag % 16) * 8 + wt
      hi == tag \div 16
  IN IF hi = 0 THEN <<g0>> ELSE <<g0 + 128>> \o VarintN(hi)

LenPrefix(n) == VarintN(n)

----------------------------------------------------------------------------
(* decoding *)

(* native little-endian value of n bytes from 7-bit groups *)
FromGroups(g, n) ==
  LET bit(k) == IF (k \div 7) + 1 > Len(g) THEN 0
                ELSE (g[(k \div 7) + 1] \div Pow2[(k % 7) + 1]) % 2
  IN [i \in 1..n |-> BitsToByte(bit, 8 * (i - 1), 8)]

UnZigZag(b) ==
  LET neg == b[1] % 2 = 1
      bit(k) == LET s == Bit(b, k + 1) IN IF neg THEN 1 - s ELSE s
  IN [i \in 1..Len(b) |-> BitsToByte(bit, 8 * (i - 1), 8)]

=============================================================================
