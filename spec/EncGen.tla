------------------------------- MODULE EncGen -------------------------------
(***************************************************************************)
(* The encoder: a program is a sequence of calls [tag, values], where the  *)
(* value of a message field is again a program. The buffer after each call *)
(* is the buffer before it followed by the records the call denotes, and   *)
(* decoding the buffer gives back every value of the program, in order.    *)
(***************************************************************************)
EXTENDS Dec, Json

CONSTANTS Roots, Seeds, Calls, Counts

VARIABLES seed, prog, buf, vals, rest, ok
vars == <<seed, prog, buf, vals, rest, ok>>

\* values of a program, as the decoder reports them
RECURSIVE Flatten(_, _, _), Bytes(_, _), GenProg(_, _, _, _, _)

CallBytes(c) ==
  LET f == c.f
      one(v) == IF f.type = TMESSAGE THEN LET b == Bytes(v, 1) IN Key(f.tag, 2) \o LenPrefix(Len(b)) \o b
                ELSE IF f.type \in StringTypes THEN Key(f.tag, 2) \o LenPrefix(Len(v)) \o v
                ELSE Key(f.tag, WireType(f.type)) \o EncScalar(f.type, v)
      RECURSIVE All(_), Pack(_)
      All(i) == IF i > Len(c.v) THEN <<>> ELSE one(c.v[i]) \o All(i + 1)
      Pack(i) == IF i > Len(c.v) THEN <<>> ELSE EncScalar(f.type, c.v[i]) \o Pack(i + 1)
  IN IF f.packed = 1 /\ Len(c.v) > 1 THEN LET p == Pack(1) IN Key(f.tag, 2) \o LenPrefix(Len(p)) \o p
     ELSE All(1)

Bytes(p, i) == IF i > Len(p) THEN <<>> ELSE CallBytes(p[i]) \o Bytes(p, i + 1)

CallVals(c, d) ==
  LET RECURSIVE All(_)
      All(i) == IF i > Len(c.v) THEN <<>>
                ELSE (IF c.f.type = TMESSAGE THEN << <<d, c.f.tag, <<>> >> >> \o Flatten(c.v[i], 1, d + 1)
                      ELSE << <<d, c.f.tag, c.v[i]>> >>) \o All(i + 1)
  IN All(1)

Flatten(p, i, d) == IF i > Len(p) THEN <<>> ELSE CallVals(p[i], d) \o Flatten(p, i + 1, d)

GenProg(ty, n, d, s, c) ==
  LET T == SelectSeq(Schema[ty], LAMBDA f : d > 0 \/ f.type # TMESSAGE)
      call(i) ==
        LET ci == (c * 37 + i * 101) % 80000
            f == Pick(s, ci, T)
            k0 == IF f.label = REPEATED THEN Pick(s, ci + 1, Counts) ELSE 1
            k == IF f.type \in StringTypes \cup {TMESSAGE} /\ k0 > 3 THEN 3 ELSE k0
        IN [f |-> f, v |-> [j \in 1..k |->
              IF f.type = TMESSAGE THEN GenProg(f.nested, Rnd(s, ci + j, Calls + 1), d - 1, s, ci + 7 * j)
              ELSE Expand(RandVal(f, s, ci + 11 * j))]]
  IN IF T = <<>> THEN <<>> ELSE [i \in 1..n |-> call(i)]

RECURSIVE Text(_)
\* the program as printed: tag, the bytes the call appends, values
Text(p) == [i \in DOMAIN p |-> [tag |-> p[i].f.tag, b |-> CallBytes(p[i]), m |-> IF p[i].f.type = TMESSAGE THEN 1 ELSE 0,
              v |-> [j \in DOMAIN p[i].v |-> IF p[i].f.type = TMESSAGE THEN Text(p[i].v[j]) ELSE p[i].v[j]]]]

TypeOf(s) == Pick(s, 1, Roots)

Init == /\ seed \in Seeds
        /\ prog = GenProg(TypeOf(seed), 1 + Rnd(seed, 2, Calls), Nest, seed, 5)
        /\ buf = <<>> /\ vals = <<>> /\ rest = 1 /\ ok = TRUE

\* one call of the encoder
Next ==
  /\ rest <= Len(prog)
  /\ buf' = buf \o CallBytes(prog[rest])
  /\ vals' = vals \o CallVals(prog[rest], 0)
  /\ rest' = rest + 1
  /\ ok' = LET D == Decode(buf', TypeOf(seed), 0, 0) IN D.rc = NONE /\ D.ev = vals'
  /\ UNCHANGED <<seed, prog>>
  /\ (rest' <= Len(prog) \/ PrintT("@@" \o ToJson([ty |-> TypeOf(seed), p |-> Text(prog), b |-> buf', ev |-> vals'])))

Holds == ok
=============================================================================
