------------------------------- MODULE BadGen -------------------------------
(***************************************************************************)
(* Malformed messages (constructed by WireGen: bad records at any nesting  *)
(* level, changed, missing and extra bytes, cuts) together with programs   *)
(* of message operations to be run on them. What the operations may do is  *)
(* said by BadTrace, which judges the recorded runs.                       *)
(***************************************************************************)
EXTENDS WireGen

CONSTANTS Length,                 \* operations per program
          MaxH,                   \* handles per program
          OpsM, OpsF, OpsC, OpsO  \* operations to draw from, per kind of handle

RECURSIVE BadPath(_, _, _), TypeOfPath(_, _, _)
\* a path through non-repeated submessages
BadPath(ty, s, c) ==
  LET D == SelectSeq(Schema[ty], LAMBDA f : f.type = TMESSAGE /\ f.label # REPEATED)
  IN IF D = <<>> \/ Rnd(s, c, 3) = 0 THEN <<>>
     ELSE LET f == Pick(s, c + 1, D) IN <<f.tag>> \o BadPath(f.nested, s, c + 2)
TypeOfPath(ty, path, i) == IF i > Len(path) THEN ty ELSE TypeOfPath(FieldOf(ty, path[i]).nested, path, i + 1)

\* a handle: kind, type (of the message, or of the message that holds the field), parent handle, path from it
NoHandle == [k |-> "", ty |-> 0, par |-> 0, path |-> <<>>]
BadOp == [o |-> "mhas", h |-> 1, tag |-> 0, path |-> <<>>, v |-> <<>>, new |-> NoHandle]

BadRandOp(hs, s, c) ==
  LET hi == IF Rnd(s, c, 3) = 0 THEN 1 + Rnd(s, c + 1, Len(hs)) ELSE 1 + ((Len(hs) - 1 + Rnd(s, c + 1, 2)) % Len(hs))
      h  == hs[hi]
      ty == h.ty
      o0 == Pick(s, c + 2, CASE h.k = "m" -> OpsM [] h.k = "f" -> OpsF [] h.k = "c" -> OpsC [] OTHER -> OpsO)
      full == Len(hs) >= MaxH
      o  == IF full /\ o0 \in {"within", "mnested", "mfromcur", "mfromfld", "ffromcur", "fcreate", "fnested", "ccreate", "cnested", "oneof"}
            THEN (CASE h.k = "m" -> "mget" [] h.k = "c" -> "cnext" [] OTHER -> "fget") ELSE o0
      op == [BadOp EXCEPT !.o = o, !.h = hi]
      fld(P0(_), t) == LET F == SelectSeq(Schema[t], P0) IN IF F = <<>> THEN NoField ELSE Pick(s, c + 3, F)
      isM(f) == f.type = TMESSAGE
      isS(f) == f.type # TMESSAGE
      isW(f) == f.type # TMESSAGE /\ ~IsBlob(f)     \* handles may point into a blob: it is not overwritten
      isG(f) == f.type # TMESSAGE /\ f.label # REPEATED
      isO(f) == f.label = ONEOF
      any(f) == TRUE
      has == [op EXCEPT !.o = "mhas", !.tag = fld(any, ty).tag]
      val(f) == Expand(RandVal(f, s, c + 4))
      path == BadPath(ty, s, c + 100)
      T(P0(_), v, k) ==
        LET f == fld(P0, ty) IN
        IF f = NoField THEN has
        ELSE [op EXCEPT !.tag = f.tag, !.v = IF v THEN val(f) ELSE <<>>,
                        !.new = IF k = "" THEN NoHandle
                                ELSE [k |-> k, ty |-> IF k = "m" THEN f.nested ELSE ty, par |-> hi, path |-> <<f.tag>>]]
      Q(P0(_), v, k) ==
        LET lt == TypeOfPath(ty, path, 1)
            f  == fld(P0, lt)
        IN IF path = <<>> \/ f = NoField THEN has
           ELSE [op EXCEPT !.path = Append(path, f.tag), !.v = IF v THEN val(f) ELSE <<>>,
                           !.new = IF k = "" THEN NoHandle
                                   ELSE [k |-> k, ty |-> IF k = "m" THEN f.nested ELSE lt, par |-> hi, path |-> Append(path, f.tag)]]
      own == FieldOf(ty, h.path[Len(h.path)])
  IN CASE o = "within" -> T(isM, FALSE, "m")
       [] o = "fcreate" -> T(isS, FALSE, "f")
       [] o = "ccreate" -> T(any, FALSE, "c")
       [] o = "mnested" -> Q(isM, FALSE, "m")
       [] o = "fnested" -> Q(isS, FALSE, "f")
       [] o = "cnested" -> Q(any, FALSE, "c")
       [] o \in {"mhas", "merase"} -> T(any, FALSE, "")
       [] o = "mget" -> T(isG, FALSE, "")
       [] o = "mput" -> T(isW, TRUE, "")
       [] o = "mmatch" -> T(isS, TRUE, "")
       [] o \in {"nhas", "nerase"} -> Q(any, FALSE, "")
       [] o = "nget" -> Q(isG, FALSE, "")
       [] o = "nput" -> Q(isW, TRUE, "")
       [] o = "nmatch" -> Q(isS, TRUE, "")
       [] o = "oneof" -> (LET f == fld(isO, ty) IN IF f = NoField THEN has
                          ELSE [op EXCEPT !.tag = f.oneof, !.new = [k |-> "o", ty |-> ty, par |-> hi, path |-> <<f.tag>>]])
       [] o = "fput" /\ IsBlob(own) -> [op EXCEPT !.o = "fget"]
       [] o = "mfromfld" -> IF IsBlob(own) THEN [op EXCEPT !.tag = own.nested, !.new = [k |-> "m", ty |-> own.nested, par |-> h.par, path |-> h.path]]
                            ELSE [op EXCEPT !.o = "fget"]
       [] o \in {"fput", "fmatch"} -> [op EXCEPT !.v = val(own)]
       [] o \in {"cput", "cseek", "cmatch"} -> IF own.type = TMESSAGE \/ (o = "cput" /\ IsBlob(own)) THEN [op EXCEPT !.o = "cnext"] ELSE [op EXCEPT !.v = val(own)]
       [] o \in {"mfromcur", "ffromcur"} ->
            IF own.type = TMESSAGE THEN [op EXCEPT !.o = "mfromcur", !.new = [k |-> "m", ty |-> own.nested, par |-> h.par, path |-> h.path]]
            ELSE [op EXCEPT !.o = "ffromcur", !.new = [k |-> "f", ty |-> ty, par |-> h.par, path |-> h.path]]
       [] OTHER -> op

RECURSIVE BadProg(_, _, _, _)
BadProg(hs, ops, s, c) ==
  IF Len(ops) >= Length THEN ops
  ELSE LET op == BadRandOp(hs, s, c)
       IN BadProg(IF op.new.k = "" THEN hs ELSE Append(hs, op.new), Append(ops, op), s, (c + 211) % 90000)

BadInputs(s) ==
  LET ty == Pick(s, 1, Roots)
      X  == GenMsg(ty, 0, Nest, s, 3, Rnd(s, 2, 100) < BadPct)
      out(b, k) == [ty |-> ty, b |-> b, p |-> BadProg(<<[NoHandle EXCEPT !.k = "m", !.ty = ty]>>, <<>>, s + k, 40001 + 17 * k)]
  IN {out(X.b, 0)}
     \cup {out(Flip(X.b, s, k), k) : k \in IF X.b = <<>> THEN {} ELSE 1..Flips}
     \cup {out(SubSeq(X.b, 1, k), 20 + k) : k \in Cutset(X.b, s)}

BadInit == seed \in Seeds /\ inp = <<>> /\ ok = TRUE /\ phase = 0
BadNext == /\ phase = 0
           /\ \E x \in BadInputs(seed) :
                /\ inp' = x
                /\ phase' = 1
                /\ UNCHANGED <<seed, ok>>
                /\ PrintT("@@" \o ToJson(x))
=============================================================================
