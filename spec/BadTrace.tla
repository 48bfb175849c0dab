------------------------------ MODULE BadTrace ------------------------------
(***************************************************************************)
(* What operations on possibly malformed messages may do (M16). Runs       *)
(* recorded from the library are validated step by step: a state is the    *)
(* content of the message and what every handle shows; a step is allowed   *)
(* if one of the cases below explains the next state.                      *)
(*                                                                         *)
(* Offsets in recorded runs count from zero; a range is [s, e), so the     *)
(* byte at offset s is b[s + 1].                                           *)
(***************************************************************************)
EXTENDS Dec, Json

CONSTANTS File          \* recorded runs, one JSON object per line

Runs == ndJsonDeserialize(File)

VARIABLES run, step, bad
vars == <<run, step, bad>>

Bytes(b, s, e) == SubSeq(b, s + 1, e)
Range(q) == {q[i] : i \in DOMAIN q}

----------------------------------------------------------------------------
(* the records of [s, e), up to the first malformed one *)
RECURSIVE ScanFrom(_, _, _, _)
ScanFrom(b, s, e, acc) ==
  IF s >= e THEN [r |-> acc, end |-> s]
  ELSE LET key == KeyAt(b, s + 1, e)
           c0  == s + key.k
           skip == SkipAt(b, c0 + 1, e, key.wt)
           pre == IF key.wt = 2 /\ skip.rc = NONE THEN LenAt(b, c0 + 1, e).k ELSE 0
       IN IF key.k = 0 \/ skip.rc # NONE THEN [r |-> acc, end |-> s]
          ELSE ScanFrom(b, c0 + skip.k, e, Append(acc, [tag |-> key.tag, wt |-> key.wt, p |-> s, l |-> c0, c |-> c0 + pre, e |-> c0 + skip.k]))
Scan(b, s, e) == ScanFrom(b, s, e, <<>>)
Whole(b, s, e) == Scan(b, s, e).end >= e

\* a varint or fixed-size value occupying exactly [s, e)
Exactly(b, s, e, t) == LET r == ScalarAt(b, s + 1, e, t) IN IF r.rc = NONE /\ r.k = e - s THEN {r.v} ELSE {}
RECURSIVE PackVals(_, _, _, _)
PackVals(b, s, e, t) ==
  IF s >= e THEN {}
  ELSE LET k == SkipAt(b, s + 1, e, WireType(t)) IN
       IF k.rc # NONE THEN {} ELSE Exactly(b, s, s + k.k, t) \cup PackVals(b, s + k.k, e, t)

\* values of field tag in the message of type ty at [s, e)
ValsIn(b, ty, s, e, tag) ==
  LET f == FieldOf(ty, tag)
      R == Scan(b, s, e).r
  IN UNION {LET x == R[i] IN
            IF x.tag # tag THEN {}
            ELSE IF f.type \in StringTypes THEN IF x.wt = 2 THEN {Bytes(b, x.c, x.e)} ELSE {}
            ELSE IF x.wt = WireType(f.type) THEN Exactly(b, x.c, x.e, f.type)
            ELSE IF x.wt = 2 THEN PackVals(b, x.c, x.e, f.type) ELSE {} : i \in DOMAIN R}

\* submessages of field tag
SubsIn(b, s, e, tag) == LET R == Scan(b, s, e).r IN {<<R[i].c, R[i].e>> : i \in {j \in DOMAIN R : R[j].tag = tag /\ R[j].wt = 2}}
\* fields a cursor stops at: of the expected wire type, or packed and not empty
TagsIn(b, ty, s, e) ==
  LET R == Scan(b, s, e).r
      sees(x) == \E i \in DOMAIN Schema[ty] :
                    LET f == Schema[ty][i] IN
                    /\ f.tag = x.tag
                    /\ \/ x.wt = WireType(f.type)
                       \/ x.wt = 2 /\ x.c < x.e /\ LET k == SkipAt(b, x.c + 1, x.e, WireType(f.type)) IN k.rc = NONE
  IN {R[i].tag : i \in {j \in DOMAIN R : sees(R[j])}}

RECURSIVE Ranges(_, _, _)
\* the messages a path leads to from the ranges S
Ranges(b, S, path) == IF path = <<>> THEN S
                      ELSE Ranges(b, UNION {SubsIn(b, r[1], r[2], path[1]) : r \in S}, Tail(path))
RECURSIVE LastRange(_, _, _)
\* the one its last occurrences lead to
LastRange(b, r, path) ==
  IF path = <<>> THEN {r}
  ELSE LET S == SubsIn(b, r[1], r[2], path[1])
       IN UNION {LastRange(b, x, Tail(path)) : x \in {y \in S : \A z \in S : z[1] <= y[1]}}
RECURSIVE PathType(_, _)
PathType(ty, path) == IF path = <<>> THEN ty ELSE PathType(FieldOf(ty, path[1]).nested, Tail(path))

Vals(b, ty, S, path) == UNION {ValsIn(b, PathType(ty, Front(path)), r[1], r[2], Last(path)) : r \in Ranges(b, S, Front(path))}
Present(b, ty, S, path) == \E r \in Ranges(b, S, Front(path)) : Last(path) \in TagsIn(b, PathType(ty, Front(path)), r[1], r[2])

----------------------------------------------------------------------------
(* replacing the content of the message at [s, e) by x *)

RECURSIVE Enclosing(_, _, _, _)
\* the records around [s, e), outermost first
Enclosing(b, lo, hi, r) ==
  IF lo = r[1] /\ hi = r[2] THEN <<>>
  ELSE LET R == Scan(b, lo, hi).r
           I == {i \in DOMAIN R : R[i].wt = 2 /\ R[i].c <= r[1] /\ r[2] <= R[i].e}
       IN IF I = {} THEN <<>> ELSE LET x == R[MinOf(I)] IN <<x>> \o Enclosing(b, x.c, x.e, r)

RECURSIVE Rebuild(_, _, _, _, _, _)
\* q: enclosing records; x: new content of [s, e). keep: leave prefixes alone once the size is unchanged
Rebuild(b, q, s, e, x, keep) ==
  IF q = <<>> THEN Bytes(b, 0, s) \o x \o Bytes(b, e, Len(b))
  ELSE LET y == q[Len(q)]
           c == Bytes(b, y.c, s) \o x \o Bytes(b, e, y.e)
           same == keep /\ Len(c) = y.e - y.c
           pre == IF same THEN Bytes(b, y.l, y.c) ELSE LenPrefix(Len(c))
       IN Rebuild(b, Front(q), y.l, y.e, pre \o c, keep)

Replaced(b, r, x) ==
  LET q == Enclosing(b, 0, Len(b), r)
  IN IF q = <<>> /\ r # <<0, Len(b)>> THEN {}
     ELSE IF Len(x) = r[2] - r[1] THEN {Rebuild(b, q, r[1], r[2], x, TRUE)}
     ELSE {Rebuild(b, q, r[1], r[2], x, TRUE), Rebuild(b, q, r[1], r[2], x, FALSE)}

\* nothing but records of the given fields differs between two message contents
Others(b, r, tags) ==
  LET S == Scan(b, r[1], r[2])
      other(x) == x.tag \notin tags
      q == SelectSeq(S.r, other)
  IN [q |-> [i \in DOMAIN q |-> Bytes(b, q[i].p, q[i].e)], tail |-> Bytes(b, S.end, r[2])]
SameOthers(b, r, c, r2, tags) == Others(b, r, tags) = Others(c, r2, tags)

----------------------------------------------------------------------------
(* one step of run R: from state A = [b, h] to state Z by operation op *)

Touched(ty, tag) == LET f == FieldOf(ty, tag)
                    IN {tag} \cup {Schema[ty][i].tag : i \in {j \in DOMAIN Schema[ty] : f.oneof # 0 /\ Schema[ty][j].oneof = f.oneof}}

Reads == {"mhas", "mget", "mmatch", "nhas", "nget", "nmatch", "ccreate", "cnext", "crewind", "cseek", "cmatch", "cget",
          "mfromcur", "mfromfld", "ffromcur", "fget", "fmatch", "oneof", "ocase"}

\* the handle shows something that lies in the message it belongs to
Shows(b, hs, H, i) ==
  LET h == hs[i]  x == H[i]
  IN x.ok = 0 \/ h.par = 0 \/ H[h.par].ok = 0 \/
     LET S == {<<H[h.par].s, H[h.par].e>>}
         f == FieldOf(PathType(hs[h.par].ty, Front(h.path)), Last(h.path))
     IN CASE h.k = "m" -> <<x.s, x.e>> \in Ranges(b, S, h.path)
          [] h.k = "f" -> x.rc # 0 \/ x.v \in Vals(b, hs[h.par].ty, S, h.path)
          [] h.k = "c" -> x.rc # 0 \/ (IF f.type = TMESSAGE THEN <<x.s, x.e>> \in Ranges(b, S, h.path)
                                       ELSE x.v \in Vals(b, hs[h.par].ty, S, h.path))
          [] OTHER -> x.rc = 0 \/ Present(b, hs[h.par].ty, S, Append(Front(h.path), x.rc))

\* which of the clauses the step breaks
Broken(hs, A, op, Z) ==
  LET h   == hs[op.h]
      HA  == A.h[op.h]
      \* the handle of the message the operation works in, and the fields it may touch
      own == h.k \in {"f", "c", "o"} \/ op.o = "mclear"
      g   == IF own /\ h.par # 0 THEN h.par ELSE op.h
      ga  == A.h[g]  gb == Z.h[g]
      path == IF own THEN h.path ELSE IF op.path # <<>> THEN op.path ELSE <<op.tag>>
      r   == <<ga.s, ga.e>>
      r2  == <<gb.s, gb.e>>
      S   == {r}
      ty  == hs[g].ty
      f   == FieldOf(PathType(ty, Front(path)), Last(path))
      V   == Vals(A.b, ty, S, path)
      whole == op.o = "mclear" /\ h.par = 0
      tags == Touched(ty, path[1])
      deflt == f.def # <<>> /\ op.val = Expand(f.def[1])
      changed == A.b # Z.b
      edit == op.o \notin Reads
      fails == op.rc # 0
      Why(c, text) == IF c THEN {text} ELSE {}
  IN
     Why(op.o \in Reads /\ changed, "a reading operation changed the message")
  \cup Why(op.o \in Reads /\ \E i \in DOMAIN A.h : i # op.h /\ i <= Len(Z.h) /\ Z.h[i] # A.h[i], "a reading operation changed another handle")
  \cup Why(\E i \in DOMAIN Z.h : ~Shows(Z.b, hs, Z.h, i), "a handle shows something outside its message")
  \cup Why(op.o \in {"mget", "nget"} /\ op.rc = 0 /\ ga.ok = 1 /\
           ~(op.val \in V \/ (deflt /\ (f.label = ONEOF \/ ~Present(A.b, ty, S, path)))), "a value that is not in the message was read")
  \cup Why(op.o \in {"fget", "cget"} /\ op.rc = 0 /\ ga.ok = 1 /\ op.val \notin V, "a value that is not in the message was read")
  \cup Why(op.o \in {"mhas", "nhas"} /\ op.rc = 1 /\ ga.ok = 1 /\ ~Present(A.b, ty, S, path), "a field that is not in the message is present")
  \cup Why(op.o \in {"mmatch", "nmatch", "fmatch", "cmatch", "cseek"} /\ op.rc = 1 /\ ga.ok = 1 /\ op.v \notin V, "a value that is not in the message matched")
  \cup Why(op.o \in {"mget", "nget", "mhas", "nhas", "mmatch", "nmatch"} /\ HA.ok = 0 /\ op.rc = (IF op.o \in {"mget", "nget"} THEN 0 ELSE 1),
           "an invalid handle was readable")
  \* edits
  \cup Why(edit /\ HA.ok = 0 /\ op.o # "oclear" /\ (changed \/ op.rc = 0), "an invalid handle was editable")
  \* erasing all occurrences and creating along a path are sequences of edits: what precedes the failing one stays
  \cup Why(edit /\ op.o \notin {"merase", "nerase", "oclear", "nput", "mnested", "fnested", "cnested"} /\ fails /\ changed, "an edit failed but changed the message")
  \cup Why(edit /\ ~fails /\ HA.ok = 1 /\ ga.ok = 1 /\ gb.ok = 0 /\ ~whole, "the edit invalidated the message it was made in")
  \cup Why(edit /\ ~fails /\ changed /\ ga.ok = 1 /\ gb.ok = 1 /\
           ~(Z.b \in Replaced(A.b, r, Bytes(Z.b, r2[1], r2[2]))), "bytes outside the edited message and its length prefixes changed")
  \cup Why(edit /\ ~fails /\ changed /\ ga.ok = 1 /\ gb.ok = 1 /\ ~whole /\ ~SameOthers(A.b, r, Z.b, r2, tags), "other records of the edited message changed")
  \cup Why(op.o \in {"mput", "nput", "fput", "cput"} /\ ~fails /\ gb.ok = 1 /\ op.v \notin Vals(Z.b, ty, {r2}, path), "the value written is not in the message")
  \cup Why(op.o \in {"merase", "nerase", "oclear"} /\ ~fails /\ HA.ok = 1 /\ gb.ok = 1 /\ (\E x \in LastRange(Z.b, r2, Front(path)) : Last(path) \in TagsIn(Z.b, PathType(ty, Front(path)), x[1], x[2])), "the erased field is still in the message")
  \* a message whose own records are malformed is not edited
  \cup Why(op.o \in {"mput", "merase", "within", "fcreate"} /\ HA.ok = 1 /\ ~Whole(A.b, HA.s, HA.e) /\ op.rc = 0, "an edit of a malformed message succeeded")

----------------------------------------------------------------------------
(* a run: [ty, b, h, t]; a step of it: operation, result and state after it *)
HandlesAt(R, k) ==
  LET root == [k |-> "m", ty |-> R.ty, par |-> 0, path |-> <<>>]
      RECURSIVE NewH(_)
      NewH(i) == IF i > k THEN <<>> ELSE (IF R.t[i].op.new.k = "" THEN <<>> ELSE <<R.t[i].op.new>>) \o NewH(i + 1)
  IN <<root>> \o NewH(1)

StateAt(R, k) == IF k = 0 THEN [b |-> R.b, h |-> R.h] ELSE [b |-> R.t[k].b, h |-> R.t[k].h]

Init == run \in DOMAIN Runs /\ step = 0 /\ bad = {}

Next ==
  \E R \in {Runs[run]} :
    /\ step < Len(R.t) /\ bad = {}
    /\ step' = step + 1
    /\ bad' = LET x == R.t[step + 1] IN
              Broken(HandlesAt(R, step + 1), StateAt(R, step),
                     [o |-> x.op.o, h |-> x.op.h, tag |-> x.op.tag, path |-> x.op.path, v |-> x.op.v, rc |-> x.rc, val |-> x.val],
                     StateAt(R, step + 1))
    /\ IF bad' = {} THEN TRUE ELSE PrintT("@@" \o ToJson([run |-> run, step |-> step + 1, why |-> bad']))
    /\ UNCHANGED run
=============================================================================
