------------------------------ MODULE ChunkGen ------------------------------
(***************************************************************************)
(* An allocator: slots hold nothing or a block, which is a sequence of     *)
(* runs [stamp, length]. The k-th request stamps the bytes it adds with k. *)
(* A request is either granted or refused with every block as it was. As   *)
(* in BufGen, op.fail = n lets the n-th request to the system fail; a      *)
(* refused attempt is then repeated.                                       *)
(***************************************************************************)
EXTENDS Rand, Json, TLC, FiniteSets

CONSTANTS
  Slots,     \* number of slots
  Caps,      \* sequence of capacities; negative: refuses everything
  Seeds,     \* random behaviours; {} for all
  Depth,
  Fails,
  Extra      \* sequence of sizes; negative is -k for SIZE_MAX - (k - 1)

VARIABLES seed, cap, blk, stamp, hist
vars == <<seed, cap, blk, stamp, hist>>

\* runs
Size(r) == LET RECURSIVE S(_) S(i) == IF i > Len(r) THEN 0 ELSE r[i][2] + S(i + 1) IN S(1)
RECURSIVE Cut(_, _)
Cut(r, n) == IF n = 0 \/ r = <<>> THEN <<>> ELSE IF Head(r)[2] >= n THEN << <<Head(r)[1], n>> >> ELSE <<Head(r)>> \o Cut(Tail(r), n - Head(r)[2])
Fill(r, n, s) == IF Size(r) >= n THEN Cut(r, n) ELSE Append(r, <<s, n - Size(r)>>)

I == 1..Slots
Free == {i \in I : blk[i] = <<>>}
Op(o, i, n, f) == [o |-> o, i |-> i, n |-> n, fail |-> f]
Granted(n) == n > 0 /\ cap >= 0
K == Len(hist)

Sizes == {1, cap, cap + 1, 2 * cap + 1}
AllOps ==
  {Op("a", i, n, f) : i \in {j \in Free : \A k \in Free : j <= k}, n \in Sizes, f \in {Fails[x] : x \in DOMAIN Fails}}
  \cup {Op("r", i, n, f) : i \in I \ Free, n \in Sizes, f \in {Fails[x] : x \in DOMAIN Fails}}
  \cup {Op("r", i, n, 0) : i \in {j \in Free : \A k \in Free : j <= k}, n \in {cap}}
  \cup {Op("f", i, 0, 0) : i \in I \ Free}

RandSize(c) ==
  LET u == IF cap < 0 THEN 8 ELSE cap
      q == << 1, u - 1, u, u + 1, 2 * u - 1, 2 * u, 2 * u + 1, 3 * u + 5, 7, 1 + Rnd(seed, c, 4 * u + 3), 1 + Rnd(seed, c + 1, u) >>
      x == IF Rnd(seed, c + 2, 14) = 0 THEN Pick(seed, c + 3, Extra) ELSE Pick(seed, c + 4, q)
  IN IF x = 0 THEN 1 ELSE IF cap < 0 /\ x < 0 THEN 9 ELSE x
RandOp ==
  LET c == 50 * (K + 1)
      i == 1 + Rnd(seed, c, Slots)
      x == Rnd(seed, c + 1, 100)
      f == Pick(seed, c + 2, Fails)
  IN IF blk[i] = <<>> THEN Op(IF x < 70 THEN "a" ELSE "r", i, RandSize(c + 3), f)
     ELSE IF x < 65 THEN Op("r", i, RandSize(c + 3), f)
     ELSE IF x < 97 THEN Op("f", i, 0, f)
     ELSE Op("D", 0, 0, 0)

Done == K > 0 /\ hist[K].op.o = "D"
Do(op) ==
  /\ blk' = CASE op.o \in {"a", "r"} -> IF Granted(op.n) THEN [blk EXCEPT ![op.i] = Fill(@, op.n, stamp + 1)] ELSE blk
              [] op.o = "f" -> [blk EXCEPT ![op.i] = <<>>]
              [] op.o = "D" -> [i \in I |-> <<>>]
  /\ stamp' = IF op.o \in {"a", "r"} THEN stamp + 1 ELSE stamp
  /\ hist' = Append(hist, [op |-> op, ok |-> IF op.o \in {"a", "r"} /\ ~Granted(op.n) THEN 0 ELSE 1, b |-> blk'])
  /\ UNCHANGED <<seed, cap>>

Init ==
  /\ blk = [i \in I |-> <<>>] /\ stamp = 0 /\ hist = <<>>
  /\ IF Seeds = {} THEN seed = 0 /\ cap \in {Caps[i] : i \in DOMAIN Caps}
     ELSE seed \in Seeds /\ cap = Pick(seed, 1, Caps)
Next ==
  /\ K < Depth /\ ~Done
  /\ IF Seeds = {} THEN \E op \in AllOps : Do(op) ELSE Do(RandOp)
  /\ (Len(hist') < Depth /\ hist'[Len(hist')].op.o # "D") \/ PrintT("@@" \o ToJson([cap |-> cap, h |-> hist']))

Holds ==
  /\ \A i \in I : \A j \in DOMAIN blk[i] : blk[i][j][2] > 0
  /\ K > 0 =>
       LET op == hist[K].op
           old == IF K > 1 THEN hist[K - 1].b ELSE [i \in I |-> <<>>]
       IN op.o # "D" =>
          /\ \A i \in I : i # op.i => blk[i] = old[i]                   \* other blocks keep their content
          /\ hist[K].ok = 0 => blk = old
          /\ op.o \in {"a", "r"} /\ hist[K].ok = 1 =>
               /\ Size(blk[op.i]) = op.n
               /\ LET m == IF Size(old[op.i]) < op.n THEN Size(old[op.i]) ELSE op.n IN Cut(blk[op.i], m) = Cut(old[op.i], m)
=============================================================================
