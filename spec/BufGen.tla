------------------------------- MODULE BufGen -------------------------------
(***************************************************************************)
(* Buffers and journals. A buffer is live, destroyed or was never valid.   *)
(* A copying one owns content of its own; a zero-copy one has none, its    *)
(* content is the caller's memory. Each operation either takes effect or   *)
(* is refused, leaving everything as it was.                               *)
(*                                                                         *)
(* An operation may be attempted with its n-th memory request failing      *)
(* (op.fail = n): that attempt either is refused with everything as it     *)
(* was, or succeeds (if it makes no n-th request, or can do without); a    *)
(* refused attempt is repeated. So it is the same transition.              *)
(***************************************************************************)
EXTENDS Rand, Json, TLC, FiniteSets

CONSTANTS
  Kinds,      \* sequence of kinds: copy empty zero jcopy jempty jzero bad jbad
  Sizes,      \* sequence of initial sizes
  Seeds,      \* random behaviours; {} for all behaviours
  Depth,
  Lens,       \* sequence of lengths to write
  Fails       \* sequence of values for op.fail

VARIABLES seed, kind, st, own, mem, orig, hist
vars == <<seed, kind, st, own, mem, orig, hist>>

NONE == 0  ALLOC == 1  INVALID == 2  OFFSET == 4
Journal == kind \in {"jcopy", "jempty", "jzero", "jbad"}
Zero == kind \in {"zero", "jzero"}
Content == IF Zero THEN mem ELSE own

MAX == -1                          \* the largest size_t
Big(x) == IF x = MAX THEN 100000 ELSE x

Splice(b, s, e, d) == SubSeq(b, 1, s) \o d \o SubSeq(b, e + 1, Len(b))
InRange(s, e) == Big(s) <= Big(e) /\ Big(e) <= Len(Content)

Obs(s2, o2, m2) ==
  LET c == IF Zero THEN m2 ELSE o2 IN
  [valid |-> IF s2 = "live" THEN 1 ELSE 0,
   b |-> IF s2 = "live" THEN c ELSE <<>>,
   empty |-> IF s2 # "live" THEN -1 ELSE IF c = <<>> THEN 1 ELSE 0,
   alias |-> IF s2 # "live" \/ c = <<>> THEN -1 ELSE IF Zero THEN 1 ELSE 0,
   mem |-> m2,
   err |-> IF s2 = "live" THEN NONE ELSE ALLOC]

Data(n, k) == [i \in 1..n |-> (k * 13 + i) % 256]

\* outcome of an operation: allowed results and the state after it
Same(rc) == [rc |-> rc, st |-> st, own |-> own, mem |-> mem]
Replace(s, e, d) ==
  IF st # "live" THEN Same({INVALID})
  ELSE IF ~InRange(s, e) THEN Same(IF Zero THEN {OFFSET, ALLOC} ELSE {OFFSET})
  ELSE IF Zero /\ Len(d) # e - s THEN Same({ALLOC})
  ELSE [rc |-> {NONE}, st |-> st,
        own |-> IF Zero THEN own ELSE Splice(own, s, e, d),
        mem |-> IF Zero THEN Splice(mem, s, e, d) ELSE mem]

Outcome(op) ==
  CASE op.o = "p" -> [rc |-> {NONE}, st |-> st, own |-> own, mem |-> [mem EXCEPT ![op.s + 1] = op.d[1]]]
    [] op.o = "g" -> IF st # "live" \/ Zero THEN Same({-1}) ELSE [rc |-> {NONE}, st |-> st, own |-> own \o op.d, mem |-> mem]
    [] op.o \in {"w", "jw"} -> Replace(op.s, op.e, op.d)
    [] op.o \in {"c", "jc"} -> Replace(op.s, op.e, <<>>)
    [] op.o = "d" -> [rc |-> {NONE}, st |-> IF st = "live" THEN "destroyed" ELSE st, own |-> <<>>, mem |-> mem]

\* operations
Offs == {MAX} \cup 0..(Len(Content) + 1)
Op(o, s, e, d, g, f) == [o |-> o, s |-> s, e |-> e, d |-> d, g |-> g, fail |-> f]
K == Len(hist)
AllOps ==
  {Op("p", s, 0, <<255>>, 0, 0) : s \in 0..(Len(mem) - 1)}
  \cup {Op("d", 0, 0, <<>>, 0, 0)}
  \cup {Op(IF Journal THEN "jc" ELSE "c", s, e, <<>>, 0, f) : s \in Offs, e \in Offs, f \in {Fails[i] : i \in DOMAIN Fails}}
  \cup {Op(IF Journal THEN "jw" ELSE "w", s, e, Data(n, K), 0, f) : s \in Offs, e \in Offs, n \in {Lens[i] : i \in DOMAIN Lens}, f \in {Fails[i] : i \in DOMAIN Fails}}
  \cup (IF Journal THEN {} ELSE {Op("g", 0, 0, Data(n, K), 0, f) : n \in {Lens[i] : i \in DOMAIN Lens}, f \in {Fails[i] : i \in DOMAIN Fails}})

RandOp ==
  LET c == 100 * (K + 1)
      n == Len(Content)
      x == Rnd(seed, c, 100)
      f == Pick(seed, c + 1, Fails)
      l == Pick(seed, c + 2, Lens)
      s == IF Rnd(seed, c + 3, 12) = 0 THEN (IF Rnd(seed, c + 4, 2) = 0 THEN MAX ELSE n + Rnd(seed, c + 5, 3)) ELSE Rnd(seed, c + 5, n + 1)
      e == IF Rnd(seed, c + 6, 12) = 0 THEN (IF Rnd(seed, c + 7, 2) = 0 THEN MAX ELSE Rnd(seed, c + 8, n + 3))
           ELSE IF s = MAX \/ s > n THEN s
           ELSE IF Rnd(seed, c + 9, 3) = 0 THEN s + Rnd(seed, c + 10, n - s + 1)
           ELSE LET y == s + Rnd(seed, c + 10, 4) IN IF Rnd(seed, c + 11, 3) = 0 /\ s + l <= n THEN s + l ELSE IF y > n THEN n ELSE y
      g == Rnd(seed, c + 12, n + 1)
  IN IF x < 12 /\ mem # <<>> THEN Op("p", Rnd(seed, c + 13, Len(mem)), 0, <<Rnd(seed, c + 14, 256)>>, 0, 0)
     ELSE IF x < 30 /\ ~Journal THEN Op("g", 0, 0, Data(l, K), 0, f)
     ELSE IF x < 66 THEN Op(IF Journal THEN "jw" ELSE "w", s, e, Data(l, K), g, f)
     ELSE IF x < 97 THEN Op(IF Journal THEN "jc" ELSE "c", s, e, <<>>, g, f)
     ELSE Op("d", 0, 0, <<>>, 0, 0)

Create(k, n) ==
  /\ kind = k
  /\ mem = IF k \in {"empty", "jempty"} THEN <<>> ELSE Data(n, 7)
  /\ orig = mem
  /\ own = IF k \in {"copy", "jcopy"} THEN Data(n, 7) ELSE <<>>
  /\ st = IF k \in {"bad", "jbad"} THEN "invalid" ELSE "live"

Init ==
  /\ hist = <<>>
  /\ IF Seeds = {} THEN seed = 0 /\ \E k \in DOMAIN Kinds, n \in DOMAIN Sizes : Create(Kinds[k], Sizes[n])
     ELSE seed \in Seeds /\ Create(Pick(seed, 1, Kinds), Pick(seed, 2, Sizes))

Do(op) ==
  LET r == Outcome(op) IN
  /\ st' = r.st /\ own' = r.own /\ mem' = r.mem
  /\ hist' = Append(hist, [op |-> op, rc |-> r.rc, obs |-> Obs(r.st, r.own, r.mem)])
  /\ UNCHANGED <<seed, kind, orig>>

Next ==
  /\ K < Depth
  /\ IF Seeds = {} THEN \E op \in AllOps : Do(op) ELSE Do(RandOp)
  /\ (Len(hist') < Depth \/ PrintT("@@" \o ToJson([kind |-> kind, m |-> orig, h |-> hist'])))

----------------------------------------------------------------------------
\* what the histories mean, stated once more on the states themselves
LastOp == hist[K].op
Holds ==
  /\ Zero => own = <<>>
  /\ st # "live" /\ ~Zero => own = <<>>
  /\ K > 1 =>
       \* only a poke and writes to a zero-copy buffer change the caller's memory
       /\ LastOp.o # "p" /\ ~Zero => hist[K].obs.mem = hist[K - 1].obs.mem
       \* a poke does not change a copy
       /\ LastOp.o = "p" /\ ~Zero => hist[K].obs.b = hist[K - 1].obs.b
       \* what is refused changes nothing
       /\ NONE \notin hist[K].rc => hist[K].obs = hist[K - 1].obs
       \* what is not live refuses everything
       /\ hist[K - 1].obs.valid = 0 /\ LastOp.o \notin {"p", "d"} => NONE \notin hist[K].rc
       /\ hist[K].obs.valid = 1 /\ NONE \in hist[K].rc /\ LastOp.o \in {"w", "jw"} =>
            Len(hist[K].obs.b) = Len(hist[K - 1].obs.b) + Len(LastOp.d) - (LastOp.e - LastOp.s)
=============================================================================
