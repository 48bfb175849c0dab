------------------------------- MODULE ByteGen -------------------------------
(***************************************************************************)
(* Every byte string up to a length over an alphabet, with the verdicts of *)
(* the decoder and the validator. Said about them: decoding never reports  *)
(* more for a longer cut of a rejected string, and a string is valid only  *)
(* if it can be decoded.                                                   *)
(***************************************************************************)
EXTENDS Dec, Json

CONSTANTS Roots, Alphabet, MaxLen, Vals

VARIABLES ty, b, ok
vars == <<ty, b, ok>>

A == {Alphabet[i] : i \in DOMAIN Alphabet}
Prefix(x, y) == Len(x) <= Len(y) /\ x = SubSeq(y, 1, Len(x))

V(x) == LET D == Decode(x, ty, 0, 0) IN [ty |-> ty, b |-> x, rc |-> D.rc, ev |-> D.ev, val |-> IF Vals THEN Validate(x, ty) ELSE 0]

Init == /\ ty \in {Roots[i] : i \in DOMAIN Roots}
        /\ b = <<>> /\ ok = TRUE
        /\ PrintT("@@" \o ToJson(<<V(<<>>)>>))

\* all extensions by one byte at once
Next ==
  /\ Len(b) < MaxLen
  /\ \E a \in A :
       LET D == Decode(b, ty, 0, 0)
           E == Decode(Append(b, a), ty, 0, 0)
       IN /\ b' = Append(b, a)
          \* what was reported for a shorter string is reported for the longer one
          /\ ok' = (Prefix(D.ev, E.ev) /\ (Vals /\ Validate(Append(b, a), ty) = NONE => E.rc = NONE))
          /\ UNCHANGED ty
          /\ (Len(b') = MaxLen \/ PrintT("@@" \o ToJson([i \in DOMAIN Alphabet |-> V(Append(b', Alphabet[i])) ])))
          /\ (Len(b) > 0 \/ PrintT("@@" \o ToJson(<<V(b')>>)))
Holds == ok
=============================================================================
