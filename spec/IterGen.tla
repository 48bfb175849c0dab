------------------------------- MODULE IterGen -------------------------------
(***************************************************************************)
(* Iterating a descriptor of n entries: pos = 0 before the first call of   *)
(* begin or end, else the entry the iterator is at. begin and end succeed  *)
(* unless there is no entry; next and prev succeed unless the iterator is  *)
(* at the last or first entry, where it then stays.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, TLC

CONSTANTS Sizes, Length

VARIABLES n, pos, hist
vars == <<n, pos, hist>>

Moves == {"b", "e", "n", "p"}
Enabled(m) == m \in {"b", "e"} \/ pos > 0
To(m) == CASE m = "b" -> IF n > 0 THEN 1 ELSE 0
           [] m = "e" -> n
           [] m = "n" -> IF pos < n THEN pos + 1 ELSE pos
           [] m = "p" -> IF pos > 1 THEN pos - 1 ELSE pos
Success(m) == CASE m \in {"b", "e"} -> n > 0
                [] m = "n" -> pos < n
                [] m = "p" -> pos > 1

Init == n \in Sizes /\ pos = 0 /\ hist = <<>>
Next ==
  /\ Len(hist) < Length
  /\ \E m \in Moves :
       /\ Enabled(m)
       /\ pos' = To(m)
       /\ hist' = Append(hist, <<m, IF Success(m) THEN 1 ELSE 0, To(m)>>)
       /\ UNCHANGED n
       /\ (Len(hist') < Length \/ PrintT("@@" \o ToJson([n |-> n, h |-> hist'])))

\* from begin, exactly n - 1 successful steps to the end, which visit every entry; and back
RECURSIVE Steps(_, _)
Steps(p, m) == LET q == IF m = "n" THEN p + 1 ELSE p - 1 IN IF q < 1 \/ q > n THEN <<p>> ELSE <<p>> \o Steps(q, m)
Holds == /\ pos \in 0..n
         /\ n > 0 => /\ Steps(1, "n") = [i \in 1..n |-> i]
                     /\ Steps(n, "p") = [i \in 1..n |-> n + 1 - i]
         /\ \A i \in 1..Len(hist) : hist[i][2] = 1 => hist[i][3] > 0
=============================================================================
