------------------------------- MODULE WireGen -------------------------------
(***************************************************************************)
(* Inputs for the decoder and the validator, constructed together with the *)
(* values they contain, so that the decoder of Dec is itself checked:      *)
(*   - it reports exactly the values an input was built from (W03),        *)
(*   - it rejects an input exactly if a malformed record was put into it   *)
(*     or if it is cut inside a record (W04),                              *)
(*   - with a failing handler it reports a prefix (W05),                   *)
(*   - validation is that, and every required field put in (W06).          *)
(* The decoder's verdicts are printed and compared with the library's.     *)
(***************************************************************************)
EXTENDS Dec, Json

CONSTANTS
  Roots,      \* Seq of types to draw from
  Seeds,      \* set of seeds
  BadPct,     \* percentage of inputs with a malformed record
  Cuts,       \* number of cuts per input, or -1: at every byte
  Flips,      \* number of inputs with a changed byte derived from each
  Fails,      \* number of handler failures per input, or -1: at every call
  ReqPct,     \* percentage of messages in which all required fields are put
  Vals,       \* with the validator's verdicts
  MsgPct      \* percentage of records drawn from the submessages of a type

VARIABLES seed, inp, ok, phase
vars == <<seed, inp, ok, phase>>

\* a longer varint of the same value, of at most max bytes
Longer(v, max, r) ==
  LET k == IF Len(v) >= max THEN Len(v) ELSE Len(v) + 1 + (r % (max - Len(v)))
  IN [i \in 1..k |-> IF i = k THEN (IF k = Len(v) THEN v[i] ELSE 0)
                     ELSE IF i <= Len(v) THEN (IF v[i] >= 128 THEN v[i] ELSE v[i] + 128) ELSE 128]

MaxLen(t) == CASE TypeSize(t) = 1 -> 2 [] TypeSize(t) = 4 -> 5 [] OTHER -> 10

\* a varint too long for type t
TooLong(t, r) ==
  LET n == MaxLen(t) + 1 + (r % 3)
      x == r % 4
  IN IF t \in {INT32, TENUM} /\ x = 0
     \* sign extension cut short, or wrong
     THEN <<129, 130, 131, 132, 255, 255, 255, 255, IF r % 8 < 4 THEN 255 ELSE 127, IF r % 8 < 4 THEN 2 ELSE 1>>
     ELSE IF t \in {INT32, TENUM} /\ x = 1 THEN <<129, 130, 131, 132, 255, 255, 1, 0, 0, 0, 0, 0>>
     ELSE [i \in 1..n |-> IF i = n THEN 1 ELSE 128 + (i % 2)]

Empty == [b |-> <<>>, ev |-> <<>>, bad |-> FALSE, seen |-> {}, miss |-> FALSE]

Kn(t, wt, s, c) == IF Rnd(s, c, 8) = 0 THEN Longer(Key(t, wt), 5, Rnd(s, c + 1, 5)) ELSE Key(t, wt)
Pre(n, s, c) == IF Rnd(s, c, 6) = 0 THEN Longer(LenPrefix(n), 5, Rnd(s, c + 1, 5)) ELSE LenPrefix(n)
Sc(t, v, s, c) ==
  LET e == EncScalar(t, v) IN
  IF WireType(t) = 0 /\ Rnd(s, c, 6) = 0 /\ Len(e) < MaxLen(t) THEN Longer(e, MaxLen(t), Rnd(s, c + 1, 9)) ELSE e

Garbage(wt, s, c) ==
  CASE wt = 0 -> Pick(s, c, << <<0>>, <<127>>, <<128, 1>>, <<255, 255, 255, 255, 255, 255, 255, 255, 255, 1>>, <<129, 128, 128, 0>> >>)
    [] wt = 1 -> Pick(s, c, << <<8, 1, 18, 2, 255, 0, 7, 9>>, <<255, 255, 255, 255, 255, 255, 255, 255>> >>)
    [] wt = 5 -> Pick(s, c, << <<10, 0, 255, 13>>, <<0, 0, 0, 0>> >>)
    [] OTHER -> Pick(s, c, << <<0>>, <<3, 8, 1, 7>>, <<1, 255>>, <<132, 0, 11, 12, 128, 128>> >>)

RECURSIVE GenMsg(_, _, _, _, _, _), GenRecs(_, _, _, _, _, _, _), PackedVals(_, _, _, _, _, _)

\* k packed values
PackedVals(X, f, d, k, s, c) ==
  IF k = 0 THEN X
  ELSE LET v == Expand(RandScalar(f.type, s, c))
       IN PackedVals([X EXCEPT !.b = @ \o Sc(f.type, v, s, c + 5), !.ev = Append(@, <<d, f.tag, v>>), !.seen = {f.tag}], f, d, k - 1, s, c + 10)

\* one record; br: a malformed one
GenRec(ty, f, d, nest, s, c, br) ==
  LET T == Schema[ty]
      roll == Rnd(s, c, 20)
      wt == WireType(f.type)
      anyTag == Pick(s, c + 1, <<f.tag, FreeTag(ty, s, c + 2)>>)
      unk(w, t) == [Empty EXCEPT !.b = Kn(t, w, s, c + 3) \o Garbage(w, s, c + 5)]
      m  == nest > 0
      sub == GenMsg(f.nested, d + 1, IF m THEN nest - 1 ELSE 0, s, c + 40, br /\ m)
      \* what a blob holds need not be well-formed
      v  == IF IsBlob(f) /\ m THEN GenMsg(f.nested, d + 1, nest - 1, s, c + 40, Rnd(s, c + 11, 3) = 0).b ELSE Expand(RandVal(f, s, c + 10))
      pk == PackedVals(Empty, f, d, Rnd(s, c + 6, 5), s, c + 1000)
  IN
  IF br /\ ~(f.type = TMESSAGE /\ m) THEN
    (CASE roll < 4 -> [b |-> Kn(anyTag, Pick(s, c + 7, <<3, 4, 6, 7>>), s, c + 3) \o <<8, 1>>, ev |-> <<>>]
       [] roll < 6 -> [b |-> [i \in 1..6 |-> 128 + (i % 3)] \o <<1, 1>>, ev |-> <<>>]                                    \* overlong key
       [] roll < 8 -> [b |-> Kn(anyTag, 2, s, c + 3) \o <<255, 255, 255, 255, 15>>, ev |-> <<>>]                          \* huge length
       [] roll < 10 -> [b |-> Kn(anyTag, 2, s, c + 3) \o [i \in 1..(5 + (roll % 2)) |-> 128] \o <<0>>, ev |-> <<>>]         \* overlong length
       [] roll < 12 -> [b |-> Kn(FreeTag(ty, s, c + 2), 0, s, c + 3) \o [i \in 1..10 |-> 128] \o <<1>>, ev |-> <<>>]      \* unskippable varint
       [] wt = 0 /\ roll < 16 -> [b |-> Key(f.tag, 0) \o TooLong(f.type, Rnd(s, c + 8, 64)), ev |-> <<>>]
       [] wt = 0 -> [b |-> LET w == TooLong(f.type, Rnd(s, c + 8, 64)) IN Key(f.tag, 2) \o LenPrefix(Len(pk.b) + Len(w)) \o pk.b \o w, ev |-> pk.ev]
       \* fixed-size values cut at the end of a packed record
       [] wt \in {1, 5} -> [b |-> Key(f.tag, 2) \o LenPrefix(Len(pk.b) + 3) \o pk.b \o <<1, 2, 3>> \o [i \in 1..8 |-> 9], ev |-> pk.ev]
       [] OTHER -> [b |-> Kn(f.tag, 2, s, c + 3) \o <<255, 255, 127>>, ev |-> <<>>]) @@ [Empty EXCEPT !.bad = TRUE]
  ELSE IF roll < 3 THEN unk(Pick(s, c + 4, <<0, 1, 2, 5>>), IF Rnd(s, c + 9, 8) = 0 THEN 0 ELSE FreeTag(ty, s, c + 2))
  ELSE IF roll = 3 /\ ~br THEN unk(Pick(s, c + 4, SelectSeq(<<0, 1, 5>>, LAMBDA w : w # wt)), f.tag)
  ELSE IF f.type = TMESSAGE THEN
    LET ss == IF m THEN sub ELSE [Empty EXCEPT !.miss = Required(f.nested) # {}]
    IN [b |-> Kn(f.tag, 2, s, c + 3) \o Pre(Len(ss.b), s, c + 5) \o ss.b, ev |-> << <<d, f.tag, <<>> >> >> \o ss.ev,
        bad |-> ss.bad, seen |-> {f.tag}, miss |-> ss.miss]
  ELSE IF f.type \in StringTypes THEN
    [Empty EXCEPT !.b = Kn(f.tag, 2, s, c + 3) \o Pre(Len(v), s, c + 5) \o v, !.ev = << <<d, f.tag, v>> >>, !.seen = {f.tag}]
  ELSE IF roll < 8 \/ (f.packed = 1 /\ roll < 14) THEN
    [pk EXCEPT !.b = Kn(f.tag, 2, s, c + 3) \o Pre(Len(pk.b), s, c + 5) \o pk.b]
  ELSE [Empty EXCEPT !.b = Kn(f.tag, wt, s, c + 3) \o Sc(f.type, v, s, c + 5), !.ev = << <<d, f.tag, v>> >>, !.seen = {f.tag}]

\* fs: the fields to draw records for; the k-th of them malformed
GenRecs(X, ty, fs, k, d, nest, s) ==
  IF fs = <<>> THEN X
  ELSE LET r == GenRec(ty, Head(fs), d, nest, s, (Len(fs) * 97 + d * 1013 + Len(X.b) * 31) % 90000, k = 1)
           Y == [b |-> X.b \o r.b, ev |-> IF X.bad THEN X.ev ELSE X.ev \o r.ev, bad |-> X.bad \/ r.bad,
                 seen |-> X.seen \cup r.seen, miss |-> X.miss \/ r.miss]
       IN GenRecs(Y, ty, Tail(fs), k - 1, d, nest, s)

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

GenMsg(ty, d, nest, s, c, br) ==
  LET T  == Schema[ty]
      n  == Rnd(s, c, Items + 1)
      M  == SelectSeq(T, LAMBDA f : f.type = TMESSAGE)
      f0 == [i \in 1..n |-> IF M # <<>> /\ nest > 0 /\ Rnd(s, c + 50 + i, 100) < MsgPct THEN Pick(s, c + i, M) ELSE Pick(s, c + i, T)]
      req == SelectSeq(T, LAMBDA f : f.tag \in Required(ty))
      \* all required fields, before or after the others
      f1 == IF Rnd(s, c + 30, 100) >= ReqPct THEN f0 ELSE IF Rnd(s, c + 31, 2) = 0 THEN req \o f0 ELSE f0 \o req
      k  == IF br /\ f1 # <<>> THEN 1 + Rnd(s, c + 32, Len(f1)) ELSE 0
      X  == GenRecs(Empty, ty, f1, k, d, nest, s)
  IN [X EXCEPT !.miss = @ \/ ~(Required(ty) \subseteq X.seen)]

----------------------------------------------------------------------------
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
IsErr(rc) == rc # NONE

\* ends of the top-level records of a well-formed input
RECURSIVE Ends(_, _)
Ends(b, i) ==
  IF i > Len(b) THEN {}
  ELSE LET key == KeyAt(b, i, Len(b))
           j == i + key.k + SkipAt(b, i + key.k, Len(b), key.wt).k
       IN {j - 1} \cup Ends(b, j)

Cutset(b, s) == IF Cuts < 0 THEN 0..(Len(b) - 1)
                ELSE IF b = <<>> THEN {} ELSE {Rnd(s, 95000 + k, Len(b)) : k \in 1..Cuts}

Verdict(ty, b, D) == [ty |-> ty, b |-> b, rc |-> D.rc, ev |-> D.ev, val |-> IF Vals THEN Validate(b, ty) ELSE 0]

Flip(b, s, k) ==
  LET i == 1 + Rnd(s, 96000 + 5 * k, Len(b))
      x == Pick(s, 96001 + 5 * k, <<0, 1, 2, 7, 8, 10, 13, 127, 128, 129, 255>>)
      y == Rnd(s, 96002 + 5 * k, 3)
  IN CASE y = 0 -> [b EXCEPT ![i] = x]
       [] y = 1 -> SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b))
       [] OTHER -> SubSeq(b, 1, i) \o <<x>> \o SubSeq(b, i + 1, Len(b))

Failset(ev, s) == IF ev = <<>> THEN {} ELSE IF Fails < 0 THEN 1..Len(ev) ELSE {1 + Rnd(s, 97000 + k, Len(ev)) : k \in 1..Fails}
FailCode(s, k) == Pick(s, 98000 + k, <<1, 2, 3, 4, 5, 6, 7, 42, 255, 1000>>)

Make(s) ==
  LET ty == Pick(s, 1, Roots)
      X  == GenMsg(ty, 0, Nest, s, 3, Rnd(s, 2, 100) < BadPct)
      D  == Decode(X.b, ty, 0, 0)
      ends == IF X.bad THEN {} ELSE Ends(X.b, 1)
      V == IF Vals THEN Validate(X.b, ty) ELSE 0
      cuts == {LET b == SubSeq(X.b, 1, k) IN [k |-> k, D |-> Decode(b, ty, 0, 0), V |-> IF Vals THEN Validate(b, ty) ELSE 0] : k \in Cutset(X.b, s)}
      fails == {[k |-> k, code |-> FailCode(s, k), D |-> Decode(X.b, ty, k, FailCode(s, k))] : k \in Failset(D.ev, s)}
      flips == IF X.b = <<>> THEN <<>> ELSE [k \in 1..Flips |-> LET b == Flip(X.b, s, k) IN Verdict(ty, b, Decode(b, ty, 0, 0))]
  IN [out |-> [c |-> Verdict(ty, X.b, D), cuts |-> {[k |-> x.k, rc |-> x.D.rc, n |-> Len(x.D.ev), val |-> x.V] : x \in cuts},
               fails |-> {[k |-> x.k, code |-> x.code, rc |-> x.D.rc, n |-> Len(x.D.ev)] : x \in fails}, flips |-> flips],
      ok |-> /\ X.bad <=> IsErr(D.rc)
             /\ D.ev = X.ev
             /\ Vals => /\ IsErr(V) <=> (X.bad \/ X.miss)
                        /\ (~X.bad /\ X.miss) => V = EABSENT
             /\ \A x \in cuts :
                   /\ Prefix(x.D.ev, D.ev)
                   /\ ~X.bad => (IsErr(x.D.rc) <=> ~(x.k = 0 \/ x.k \in ends))
                   /\ Vals => (IsErr(x.D.rc) => IsErr(x.V))
             /\ \A x \in fails :
                   /\ x.D.rc = x.code
                   /\ x.D.ev = SubSeq(D.ev, 1, x.k)]

Init == seed \in Seeds /\ inp = <<>> /\ ok = TRUE /\ phase = 0
Next == /\ phase = 0
        /\ \E m \in {Make(seed)} :
             /\ inp' = m.out.c.b
             /\ ok' = m.ok
             /\ phase' = 1
             /\ UNCHANGED seed
             /\ PrintT("@@" \o ToJson(m.out))

Holds == ok
=============================================================================
