------------------------------- MODULE DescGen -------------------------------
(***************************************************************************)
(* Descriptor lookups. A message descriptor is a sequence of fields in     *)
(* ascending order, an enum descriptor a sequence of values in ascending   *)
(* order, possibly negative and with repeated numbers. Lookup is specified *)
(* declaratively; the way the library searches (from the largest possible  *)
(* index downwards) is specified as well, and checked to find the same.    *)
(***************************************************************************)
EXTENDS Rand, Json, TLC, FiniteSets

CONSTANTS
  Part,      \* "subsets", "random", "enums", "enums-random"
  MaxTag,    \* exhaustive: all sets of numbers up to MaxTag
  Seeds,     \* random
  Names      \* pool of names, some of them prefixes of others

VARIABLES id, step, tab, ok
vars == <<id, step, tab, ok>>

RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})

\* distinct names: a rotation of the pool
NameOf(i, off) == Names[1 + ((i * 4 + off) % Len(Names))]
Numbered(i) == "f" \o ToString(i)

----------------------------------------------------------------------------
(* numbers of the entries *)
MaxNumber == 536870911
RECURSIVE Gaps(_, _, _, _)
Gaps(s, i, n, from) ==
  IF n = 0 THEN <<>>
  ELSE LET g == CASE Rnd(s, i, 10) < 5 -> 1
                  [] Rnd(s, i, 10) < 8 -> 2 + Rnd(s, i + 1, 5)
                  [] Rnd(s, i, 10) < 9 -> 10 + Rnd(s, i + 1, 3000)
                  [] OTHER -> 3000 * (1 + Rnd(s, i + 1, 3000))
           t == from + g
       IN IF t > MaxNumber THEN <<>> ELSE <<t>> \o Gaps(s, i + 2, n - 1, t)
RandomTags(s) == LET g == Gaps(s, 10, Rnd(s, 1, 40), IF Rnd(s, 2, 3) = 0 THEN Rnd(s, 3, 40) * 1000 ELSE 0)
                 IN IF Rnd(s, 4, 5) = 0 /\ (g = <<>> \/ g[Len(g)] < MaxNumber) THEN Append(g, MaxNumber) ELSE g

\* enum numbers: how often each of -3..3 occurs; or random ones
Low == -3
RECURSIVE Repeat(_, _)
Repeat(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Repeat(x, n - 1)
RECURSIVE Counts(_, _)
Counts(k, i) == IF i > 6 THEN <<>> ELSE Repeat(Low + i, k % 3) \o Counts(k \div 3, i + 1)
RECURSIVE Climb(_, _, _, _)
Climb(s, i, n, from) ==
  IF n = 0 THEN <<>>
  ELSE LET g == IF Rnd(s, i, 4) = 0 THEN 0 ELSE IF Rnd(s, i, 4) < 3 THEN 1 + Rnd(s, i + 1, 3) ELSE Rnd(s, i + 1, 40000) * 1000
       IN <<from + g>> \o Climb(s, i + 2, n - 1, from + g)
RandomNumbers(s) == LET k == Rnd(s, 2, 3) IN Climb(s, 10, Rnd(s, 1, 30), IF k = 0 THEN -2147483647 ELSE IF k = 1 THEN -20 ELSE 0)

Tags == CASE Part = "subsets" -> Asc(id) [] Part = "random" -> RandomTags(id) [] OTHER -> <<>>
Numbers == CASE Part = "enums" -> Counts(id, 0) [] Part = "enums-random" -> RandomNumbers(id) [] OTHER -> <<>>
N == IF Part \in {"subsets", "random"} THEN Tags ELSE Numbers
Fields == Part \in {"subsets", "random"}
Off == IF Part = "subsets" THEN Cardinality(id) * 4 ELSE id

----------------------------------------------------------------------------
(* lookups in the entries q, declaratively: the index, 0 if there is none *)
ByNumber(q, t) == IF \E i \in DOMAIN q : q[i].k = t THEN CHOOSE i \in DOMAIN q : q[i].k = t ELSE 0
ByName(q, x) == IF \E i \in DOMAIN q : q[i].s = x THEN CHOOSE i \in DOMAIN q : q[i].s = x ELSE 0

(* the search *)
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Down(_, _, _)
Down(q, f, t) == IF f = 0 THEN 0 ELSE IF q[f].k = t THEN f ELSE IF q[f].k < t THEN 0 ELSE Down(q, f - 1, t)

Queries(q) ==
  LET ks == {q[i].k : i \in DOMAIN q}
  IN IF Fields
     THEN {t \in (1..(MaxTag + 3)) \cup {MaxNumber, MaxNumber - 1, 19000} \cup {k - 1 : k \in ks} \cup ks \cup {k + 1 : k \in ks} :
             t >= 1 /\ t <= MaxNumber}
     ELSE (-5..6) \cup {-2147483647, 2147483647} \cup ks \cup {k - 1 : k \in {j \in ks : j > -2147483647}}
          \cup {k + 1 : k \in {j \in ks : j < 2147483647}}

NameQueries(q) == {Names[i] : i \in DOMAIN Names} \cup {q[i].s : i \in DOMAIN q} \cup {Numbered(Len(q) + 1), Numbered(1)}

Distinct(q) == \A i, j \in DOMAIN q : i < j => q[i].s # q[j].s

Ids == CASE Part = "subsets" -> SUBSET (1..MaxTag) [] Part = "enums" -> 0..2186 [] OTHER -> Seeds

Init == id \in Ids /\ step = 0 /\ ok = TRUE /\ tab = <<>>
Build == /\ step = 0 /\ step' = 1 /\ UNCHANGED <<id, ok>>
         /\ LET n == N
            IN tab' = [i \in DOMAIN n |-> [k |-> n[i], s |-> IF Len(n) <= Len(Names) THEN NameOf(i, Off) ELSE Numbered(i)]]
Query ==
  /\ step = 1 /\ step' = 2 /\ UNCHANGED <<id, tab>>
  /\ ok' = /\ Distinct(tab)
           /\ \A t \in Queries(tab) :
                IF Fields THEN Down(tab, Min(t, Len(tab)), t) = ByNumber(tab, t)
                ELSE (Down(tab, Len(tab), t) # 0) = (ByNumber(tab, t) # 0)
  /\ PrintT("@@" \o ToJson([n |-> tab, q |-> {[k |-> t, r |-> ByNumber(tab, t)] : t \in Queries(tab)},
                            m |-> {[s |-> x, r |-> ByName(tab, x)] : x \in NameQueries(tab)}]))
Next == Build \/ Query
Holds == ok
=============================================================================
