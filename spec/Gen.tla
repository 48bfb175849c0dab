--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Pseudo-random values and message trees. Everything is a function of a   *)
(* seed and a counter, hence reproducible.                                 *)
(***************************************************************************)
EXTENDS Msg, Rand

CONSTANTS
  Items,       \* max. records per message initially
  Nest,        \* max. nesting depth initially
  Sorted,      \* initial known records in ascending order
  Unknown,     \* percentage of unknown records
  StrLens      \* lengths of strings to draw from

----------------------------------------------------------------------------
(* values *)
Pad(b, n, x) == [i \in 1..n |-> IF i <= Len(b) THEN b[i] ELSE x]
Patterns == << <<0>>, <<1>>, <<2>>, <<127>>, <<128>>, <<255>>, <<172, 2>>, <<255, 63>>, <<0, 64>>,
               <<255, 255, 31>>, <<0, 0, 32>>, <<255, 255, 255, 15>>, <<0, 0, 0, 16>>, <<255, 255, 255, 127>>, <<0, 0, 0, 128>>,
               <<0, 0, 0, 0, 1>>, <<255, 255, 255, 255, 7>>, <<0, 0, 0, 0, 8>>, <<1, 2, 3, 4, 5, 6, 7, 8>>,
               <<255, 255, 255, 255, 255, 255, 255, 127>>, <<0, 0, 0, 0, 0, 0, 0, 128>> >>
Small == << <<0>>, <<1>>, <<2>>, <<127>>, <<128>>, <<255>>, <<172, 2>>, <<0, 64>> >>

\* n bytes: bit k and, if full, random bits below it
AtBit(n, k, full, s, c) ==
  LET bit(j) == IF j = k THEN 1 ELSE IF j < k /\ full THEN Rnd(s, c + j, 2) ELSE 0
  IN [i \in 1..n |-> BitsToByte(bit, 8 * (i - 1), 8)]

\* the values harness/schema.c declares (assertions rule out others)
EnumValues == << <<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<2, 0, 0, 0>>, <<127, 0, 0, 0>>, <<128, 0, 0, 0>>, <<44, 1, 0, 0>>, <<255, 255, 255, 127>>,
                 <<255, 255, 255, 255>>, <<128, 255, 255, 255>>, <<0, 0, 0, 128>> >>

RandScalar(t, s, c) ==
  LET n == TypeSize(t)
      neg == Rnd(s, c + 1, 5) = 0
      sel == Rnd(s, c + 2, 10)
      p == IF sel < 4 THEN Pick(s, c, Small)
           ELSE IF sel < 7 THEN Pick(s, c, Patterns)
           ELSE LET b == AtBit(n, Rnd(s, c, 8 * n), sel < 9, s, c + 3)
                IN IF Rnd(s, c + 70, 3) = 0 THEN [i \in 1..n |-> 255 - b[i]] ELSE b
  IN IF t = TBOOL THEN Rle(<<Rnd(s, c, 2)>>)
     ELSE IF t = TENUM THEN Rle(Pick(s, c, EnumValues))
     ELSE Rle(Pad(p, n, IF neg THEN 255 ELSE 0))

RandString(s, c) ==
  LET n == Pick(s, c, StrLens)
      b == 97 + Rnd(s, c + 1, 4)
  IN IF n = 0 THEN <<>>
     ELSE IF n > 1 /\ Rnd(s, c + 2, 3) = 0 THEN << <<b, n - 1>>, <<110, 1>> >> ELSE << <<b, n>> >>

(* unknown records *)
Unknowns == << <<0, <<5>> >>, <<0, <<255, 255, 3>> >>, <<1, <<8, 1, 18, 2, 255, 0, 7, 9>> >>, <<2, <<0>> >>, <<2, <<3, 8, 1, 7>> >>,
               <<5, <<10, 0, 255, 13>> >> >>

FreeTag(ty, s, c) == LET q == SelectSeq(<<1, 2, 3, 15, 16, 17, 30, 99, 2047, 2048, 3001, 70000>>,
                                        LAMBDA x : FieldOf(ty, x) = NoField)
                     IN Pick(s, c, q)
RandUnknown(ty, s, c) == LET uk == Pick(s, c, Unknowns) IN Rle(Key(FreeTag(ty, s, c + 1), uk[1]) \o uk[2])

\* what is written to a blob: up to two unknown records, the second of them a string of any length
RandBlob(ty, s, c) ==
  (IF Rnd(s, c + 2, 3) = 0 THEN <<>> ELSE RandUnknown(ty, s, c))
  \o (IF Rnd(s, c + 3, 3) > 0 THEN <<>>
      ELSE LET v == RandString(s, c + 4) IN Rle(Key(FreeTag(ty, s, c + 1), 2) \o LenPrefix(Size(v))) \o v)

RandVal(f, s, c) == IF IsBlob(f) THEN RandBlob(f.nested, s, c) ELSE IF f.type \in StringTypes THEN RandString(s, c) ELSE RandScalar(f.type, s, c)

----------------------------------------------------------------------------
(* a random initial message: g = [N, c] with c the random counter *)
AppendKid(N, p, n) ==
  [Append(N, [n EXCEPT !.par = p]) EXCEPT ![p].kids = Append(@, Len(N) + 1)]

SortByTag(fs) == SortSeq(fs, LAMBDA a, b : a.tag < b.tag)

RECURSIVE GenItems(_, _, _, _, _, _), GenEls(_, _, _, _, _)
GenEls(g, p, f, k, s) ==
  IF k = 0 THEN g
  ELSE LET v == RandVal(f, s, g.c)
       IN GenEls([N |-> AppendKid(g.N, p, Node("el", f.tag, <<>>, EncVal(f.type, v), v, 0, 0)), c |-> g.c + 3], p, f, k - 1, s)

\* fs: the fields to emit into message m
GenItems(g, m, fs, j, d, s) ==
  IF j > Len(fs) THEN g
  ELSE
    LET f == fs[j]
        u == Rnd(s, g.c, 100) < Unknown
        g1 == IF ~u THEN [g EXCEPT !.c = @ + 1]
              ELSE [N |-> AppendKid(g.N, m, Node("unk", 0, <<>>, RandUnknown(g.N[m].ty, s, g.c + 1), <<>>, 0, 0)), c |-> g.c + 4]
        v  == RandVal(f, s, g1.c)
        c2 == g1.c + 4
        \* repeated scalars may come packed, however they are declared
        pk == f.label = REPEATED /\ f.type \in ScalarTypes /\ Rnd(s, g1.c + 3, 4) # (IF f.packed = 1 THEN 0 ELSE 3) /\ (f.packed = 1 \/ Rnd(s, g1.c + 3, 4) = 0)
        id == Len(g1.N) + 1
        g2 == IF f.type = TMESSAGE \/ IsBlob(f)
              THEN LET N1 == AppendKid(g1.N, m, Node("msg", f.tag, Key(f.tag, 2), <<>>, <<>>, 0, f.nested))
                       n  == IF d <= 0 THEN 0 ELSE Rnd(s, c2, Items + 1)
                       T  == Schema[f.nested]
                       q0 == [i \in 1..n |-> Pick(s, c2 + i, T)]
                       q  == IF Sorted THEN SortByTag(q0) ELSE q0
                   IN GenItems([N |-> N1, c |-> c2 + n + 1], id, q, 1, d - 1, s)
              ELSE IF pk
              THEN LET N1 == AppendKid(g1.N, m, Node("pack", f.tag, Key(f.tag, 2), <<>>, <<>>, 0, 0))
                       \* also without any value
                       n  == Rnd(s, c2, 4)
                   IN GenEls([N |-> N1, c |-> c2 + 1], id, f, n, s)
              ELSE [N |-> AppendKid(g1.N, m, NewNode(f, v)), c |-> c2]
    IN GenItems(g2, m, fs, j + 1, d, s)

=============================================================================
