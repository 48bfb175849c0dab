--------------------------------- MODULE Dec ---------------------------------
(***************************************************************************)
(* The decoder and the validator, as transition systems over byte strings. *)
(*                                                                         *)
(* A decoder state is [i, n, rc, ev, left, code, need]: the next byte, the *)
(* last byte, the error code so far, the values reported so far, after how *)
(* many further reports the handler fails and with which code, and the     *)
(* required fields not seen yet. One Record step consumes one record. The handler *)
(* modelled here decodes submessages recursively, as the validator does.   *)
(***************************************************************************)
EXTENDS Gen

Slice(b, i, n) == SubSeq(b, i, n)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* number of bytes of the varint at b[i], of at most max bytes, or 0
VLen(b, i, n, max) ==
  LET m == IF n - i + 1 < max THEN n - i + 1 ELSE max
      K == {k \in 1..m : b[i + k - 1] < 128}
  IN IF m > 0 /\ b[i] < 128 THEN 1 ELSE IF K = {} THEN 0 ELSE MinOf(K)

GroupsAt(b, i, k) == [j \in 1..k |-> b[i + j - 1] % 128]

\* the value of a varint of at most four bytes
Number(b, i, k) ==
  LET g(j) == IF j > k THEN 0 ELSE b[i + j - 1] % 128
  IN g(1) + 128 * g(2) + 16384 * g(3) + 2097152 * g(4)

\* a length, or more than any input has
Big == 1000000000
ToInt(v) == IF v[4] # 0 THEN Big ELSE v[1] + 256 * v[2] + 65536 * v[3]

\* a length prefix at b[i]: [k, len]
LenAt(b, i, n) ==
  LET k == VLen(b, i, n, 5) IN
  [k |-> k, len |-> IF k = 0 THEN 0 ELSE IF k < 5 THEN Number(b, i, k) ELSE ToInt(FromGroups(GroupsAt(b, i, k), 4))]

\* the key at b[i]: [k, tag, wt]
KeyAt(b, i, n) ==
  LET k == VLen(b, i, n, 5)
      v == FromGroups(GroupsAt(b, i, k), 4)
      x == Number(b, i, k)
  IN IF k = 0 THEN [k |-> 0, tag |-> 0, wt |-> 0]
     ELSE IF k < 5 THEN [k |-> k, wt |-> x % 8, tag |-> x \div 8]
     ELSE [k |-> k, wt |-> v[1] % 8, tag |-> (v[1] \div 8) + 32 * v[2] + 8192 * v[3] + 2097152 * v[4]]

\* the scalar of type t at b[i]: [rc, k, v]
Bad(rc) == [rc |-> rc, k |-> 0, v |-> <<>>]
Got(k, v) == [rc |-> NONE, k |-> k, v |-> v]
ScalarAt(b, i, n, t) ==
  IF WireType(t) = 1 THEN IF n - i + 1 < 8 THEN Bad(EOFFSET) ELSE Got(8, Slice(b, i, i + 7))
  ELSE IF WireType(t) = 5 THEN IF n - i + 1 < 4 THEN Bad(EOFFSET) ELSE Got(4, Slice(b, i, i + 3))
  ELSE
    LET size == TypeSize(t)
        max == CASE size = 1 -> 2 [] size = 4 -> 5 [] OTHER -> 10
        k  == VLen(b, i, n, max)
        v  == IF k = 1 THEN Pad(<<b[i]>>, size, 0) ELSE FromGroups(GroupsAt(b, i, k), size)
        \* a negative 32-bit integer, sign-extended to 64 bits
        sx == t \in {INT32, TENUM} /\ n - i + 1 >= 10 /\ (\A j \in 0..4 : b[i + j] >= 128)
              /\ (\A j \in 5..8 : b[i + j] = 255) /\ b[i + 9] = 1
    IN IF k = 0 THEN IF sx THEN Got(10, FromGroups(GroupsAt(b, i, 5), 4)) ELSE Bad(EVARINT)
       ELSE Got(k, IF t \in {SINT32, SINT64} THEN UnZigZag(v) ELSE v)

\* bytes to skip at b[i] for wiretype wt: [rc, k]
SkipAt(b, i, n, wt) ==
  LET left == n - i + 1 IN
  CASE wt = 0 -> (LET k == VLen(b, i, n, 10) IN IF k = 0 THEN Bad(EVARINT) ELSE Got(k, <<>>))
    [] wt = 1 -> IF left < 8 THEN Bad(EOFFSET) ELSE Got(8, <<>>)
    [] wt = 5 -> IF left < 4 THEN Bad(EOFFSET) ELSE Got(4, <<>>)
    [] wt = 2 -> (LET l == LenAt(b, i, n) IN
                  IF l.k = 0 THEN Bad(EVARINT)
                  ELSE IF l.len > left - l.k THEN Bad(EOFFSET) ELSE Got(l.k + l.len, <<>>))
    [] OTHER -> Bad(EINVALID)

----------------------------------------------------------------------------
(* the handler: reports a value, and fails at a chosen call *)
Report(S, d, f, v) ==
  LET S1 == [S EXCEPT !.ev = Append(@, <<d, f.tag, v>>), !.left = @ - 1] IN
  IF S.left = 1 THEN [S1 EXCEPT !.rc = S.code] ELSE S1

Required(ty) == {Schema[ty][i].tag : i \in {j \in DOMAIN Schema[ty] : Schema[ty][j].label = REQUIRED /\ Schema[ty][j].ext = 0}}

RECURSIVE Run(_, _, _, _), Record(_, _, _, _), Packed(_, _, _, _, _)

\* the values of a packed record, up to byte e
Packed(b, S, d, f, e) ==
  IF S.rc # NONE \/ S.i > e THEN S
  ELSE LET r == ScalarAt(b, S.i, S.n, f.type) IN
       IF r.rc # NONE THEN [S EXCEPT !.rc = r.rc]
       ELSE IF S.i + r.k - 1 > e THEN [S EXCEPT !.rc = EOFFSET]
       ELSE Packed(b, [Report(S, d, f, r.v) EXCEPT !.i = S.i + r.k], d, f, e)

\* a submessage in the bytes i..e, decoded by the handler; val: with the checks of the validator
Sub(b, S, d, f, i, e) ==
  IF S.rc # NONE THEN S
  ELSE LET R == Run(b, [S EXCEPT !.i = i, !.n = e, !.need = Required(f.nested)], d + 1, f.nested)
           rc == IF R.rc = NONE /\ S.val /\ R.need # {} THEN EABSENT ELSE R.rc
       IN [S EXCEPT !.rc = rc, !.ev = R.ev, !.left = R.left]

Record(b, S, d, ty) ==
  LET key == KeyAt(b, S.i, S.n)
      f   == IF key.tag = 0 THEN NoField ELSE FieldOf(ty, key.tag)
      i   == S.i + key.k
      wt  == WireType(f.type)
      S1  == [S EXCEPT !.need = @ \ {key.tag}]
  IN
  IF key.k = 0 THEN [S EXCEPT !.rc = EVARINT]
  \* unknown, or of a wiretype the field cannot have
  ELSE IF f = NoField \/ (key.wt # 2 /\ key.wt # wt) THEN
    LET r == SkipAt(b, i, S.n, key.wt) IN [S EXCEPT !.rc = r.rc, !.i = i + r.k]
  ELSE IF key.wt = 2 THEN
    LET l == LenAt(b, i, S.n)
        s == i + l.k
        e == s + l.len - 1
    IN IF l.k = 0 THEN [S EXCEPT !.rc = EVARINT]
       ELSE IF l.len > S.n - s + 1 THEN [S EXCEPT !.rc = EOFFSET]
       \* a packed record counts as an occurrence if it has a value
       ELSE IF wt # 2 THEN Packed(b, [S EXCEPT !.i = s, !.need = IF l.len = 0 THEN @ ELSE @ \ {key.tag}], d, f, e)
       ELSE IF f.type # TMESSAGE THEN [Report(S1, d, f, Slice(b, s, e)) EXCEPT !.i = e + 1]
       ELSE [Sub(b, Report(S1, d, f, <<>>), d, f, s, e) EXCEPT !.i = e + 1]
  ELSE LET r == ScalarAt(b, i, S.n, f.type) IN
       IF r.rc # NONE THEN [S EXCEPT !.rc = r.rc]
       ELSE [Report(S1, d, f, r.v) EXCEPT !.i = i + r.k]

Run(b, S, d, ty) == IF S.rc # NONE \/ S.i > S.n THEN S ELSE Run(b, Record(b, S, d, ty), d, ty)

Start(b, ty, left, code, val) ==
  [i |-> 1, n |-> Len(b), rc |-> NONE, ev |-> <<>>, left |-> left, code |-> code, need |-> Required(ty), val |-> val]

\* decoding b, with a handler that returns code at its left-th call (0: never)
Decode(b, ty, left, code) == LET S == Run(b, Start(b, ty, left, code, FALSE), 0, ty) IN [rc |-> S.rc, ev |-> S.ev]

Validate(b, ty) ==
  LET S == Run(b, Start(b, ty, 0, 0, TRUE), 0, ty)
  IN IF S.rc = NONE /\ S.need # {} THEN EABSENT ELSE S.rc

=============================================================================
