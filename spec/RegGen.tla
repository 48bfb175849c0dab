------------------------------- MODULE RegGen -------------------------------
(***************************************************************************)
(* Registration of extensions. next is the chain of descriptors as the     *)
(* library builds it, reg the set of registered pairs. Lookup walks the    *)
(* chain; it must find exactly the own fields and those of the registered  *)
(* extensions, in whatever order and how often they were registered.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS
  Desc,      \* descriptors: sequences of [t, s] (number, name)
  Base,      \* per descriptor the base it extends, 0 if it is a base
  Length,
  Tags, Names

VARIABLES next, reg, hist
vars == <<next, reg, hist>>

D == DOMAIN Desc
Bases == {d \in D : Base[d] = 0}

RECURSIVE Last(_), Chain(_)
Last(d) == IF next[d] = 0 THEN d ELSE Last(next[d])
Chain(d) == IF d = 0 THEN <<>> ELSE <<d>> \o Chain(next[d])
InChain(b, e) == \E i \in DOMAIN Chain(b) : Chain(b)[i] = e

Index(d, P(_)) == IF \E i \in DOMAIN Desc[d] : P(Desc[d][i]) THEN CHOOSE i \in DOMAIN Desc[d] : P(Desc[d][i]) ELSE 0

\* walking the chain
Walk(b, P(_)) ==
  LET c == Chain(b)
      hit == {i \in DOMAIN c : Index(c[i], P) > 0}
  IN IF hit = {} THEN <<0, 0>>
     ELSE LET i == CHOOSE x \in hit : \A y \in hit : x <= y IN <<c[i], Index(c[i], P)>>

\* what it must find
Members(b) == {b} \cup {e \in D : <<b, e>> \in reg}
Find(b, P(_)) ==
  IF \E d \in Members(b) : Index(d, P) > 0
  THEN LET d == CHOOSE x \in Members(b) : Index(x, P) > 0 IN <<d, Index(d, P)>>
  ELSE <<0, 0>>


Answers == [b \in Bases |-> [t |-> [i \in DOMAIN Tags |-> Find(b, LAMBDA f : f.t = Tags[i])],
                             s |-> [i \in DOMAIN Names |-> Find(b, LAMBDA f : f.s = Names[i])]]]

Init == next = [d \in D |-> 0] /\ reg = {} /\ hist = <<>>
Register(e) ==
  LET b == Base[e] IN
  /\ next' = IF InChain(b, e) THEN next ELSE [next EXCEPT ![Last(b)] = e]
  /\ reg' = reg \cup {<<b, e>>}
Next ==
  /\ Len(hist) < Length
  /\ \E e \in D \ Bases : Register(e) /\ hist' = Append(hist, <<Base[e], e>>)

Holds ==
  /\ \A b \in Bases :
       /\ \A i \in DOMAIN Tags  : Walk(b, LAMBDA f : f.t = Tags[i])  = Find(b, LAMBDA f : f.t = Tags[i])
       /\ \A i \in DOMAIN Names : Walk(b, LAMBDA f : f.s = Names[i]) = Find(b, LAMBDA f : f.s = Names[i])
       /\ Len(Chain(b)) = Cardinality(Members(b))
  /\ (Len(hist) > 0 => PrintT("@@" \o ToJson([h |-> hist, a |-> [i \in DOMAIN Desc |-> IF i \in Bases THEN Answers[i] ELSE [t |-> <<>>, s |-> <<>>]]])))
=============================================================================
