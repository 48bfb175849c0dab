------------------------------- MODULE MsgGen -------------------------------
(***************************************************************************)
(* Behaviours of Msg: long pseudo-random ones (one chain of states per     *)
(* seed, all drawn from the seed, hence reproducible), optionally followed *)
(* by every sequence of All operations over all handles.                   *)
(*                                                                         *)
(* A finished behaviour is printed as JSON: initial bytes, operations, and *)
(* for each of them the expected return code, value, bytes and handles.    *)
(***************************************************************************)
EXTENDS Gen, Json

CONSTANTS
  Roots,       \* Seq of root types to draw from
  Seeds,       \* set of seeds
  Depth,       \* number of operations
  Modes,       \* journal modes to draw from: "c" copy, "z" zero-copy, "e" empty
  NJ,          \* number of journals
  Kinds,       \* kinds of handles to draw from (weighted)
  OpsM, OpsF, OpsC, OpsO,  \* operations per kind of handle (weighted)
  MaxH,        \* max. number of handles
  Fails,       \* failing allocation request per operation to draw from (0: none), see A02
  All          \* length of the exhaustive suffix

VARIABLES seed, st, hist, ok
vars == <<seed, st, hist, ok>>

----------------------------------------------------------------------------
(* the initial state: NJ messages, each with a handle *)
RootNode(ty, j) == Node("root", j, <<>>, <<>>, <<>>, 0, ty)

GenRoot(g, ty, j, n, s) ==
  LET T  == Schema[ty]
      id == Len(g.N) + 1
      q0 == [i \in 1..n |-> Pick(s, g.c + i, T)]
      q  == IF Sorted THEN SortByTag(q0) ELSE q0
  IN GenItems([N |-> Append(g.N, RootNode(ty, j)), c |-> g.c + n + 1], id, q, 1, Nest, s)

RECURSIVE GenJs(_, _, _, _)
GenJs(S, ty, j, s) ==
  IF j > NJ THEN S
  ELSE LET mode == Pick(s, S.g.c, Modes)
           n  == IF mode = "e" THEN 0 ELSE Rnd(s, S.g.c + 1, Items + 1)
           g1 == GenRoot([S.g EXCEPT !.c = @ + 2], ty, j, n, s)
           r  == Len(S.g.N) + 1
           z  == mode = "z" /\ Size(Content(g1.N, r)) > 0
       IN GenJs([g |-> g1, J |-> Append(S.J, [root |-> r, zc |-> z])], ty, j + 1, s)

InitState(s) ==
  LET ty == Pick(s, 1, Roots)
      S  == GenJs([g |-> [N |-> <<>>, c |-> 2], J |-> <<>>], ty, 1, s)
  IN [N |-> S.g.N, J |-> S.J, H |-> [j \in 1..NJ |-> MsgH(j, S.J[j].root, ty)]]

----------------------------------------------------------------------------
(* a random operation *)
NoOp == [o |-> "", h |-> 0, tag |-> 0, v |-> <<>>, path |-> <<>>, s |-> 0, j |-> 0]

Filter(ty, P0(_)) == SelectSeq(Schema[ty], P0)

RECURSIVE RandPath(_, _, _)
\* a path through non-repeated submessages
RandPath(ty, s, c) ==
  LET down(f) == f.type = TMESSAGE /\ f.label # REPEATED
      D == Filter(ty, down)
  IN IF D = <<>> \/ Rnd(s, c, 3) = 0 THEN <<>>
     ELSE LET f == Pick(s, c + 1, D) IN <<f.tag>> \o RandPath(f.nested, s, c + 2)

\* would overwriting the submessage t of message n hit records other handles denote?
Denoted(S, i) == \E k \in DOMAIN S.H : LET x == S.H[k] IN
                    (x.n # 0 /\ Inside(S.N, x.n, i)) \/ (x.err = 0 /\ x.cur # 0 /\ Inside(S.N, x.cur, i))
PutHits(S, j, n, tag) ==
  LET r == CreatePart(S.N, Fixed(S, j), n, tag, <<>>)
  IN r.rc = NONE /\ ~r.new /\ Denoted(S, r.id)
\* would writing a blob do so? (tag of message n, or element i)
BlobHits(S, j, n, tag) == IsBlob(FieldOf(S.N[n].ty, tag)) /\ PutHits(S, j, n, tag)

Source(S, j, ty, s, c) ==
  LET Q == SelectSeq([i \in 1..Len(S.H) |-> i],
              LAMBDA i : S.H[i].k = "m" /\ S.H[i].j # j /\ S.H[i].ty = ty)
  IN IF Q = <<>> THEN 0 ELSE Pick(s, c, Q)

RandOp(S, s, c) ==
  LET kind == Pick(s, c, Kinds)
      Q  == SelectSeq([i \in 1..Len(S.H) |-> i], LAMBDA i : S.H[i].k = kind)
      Q1 == IF Q = <<>> THEN SelectSeq([i \in 1..Len(S.H) |-> i], LAMBDA i : S.H[i].k = "m") ELSE Q
      \* prefer usable handles
      h1 == Pick(s, c + 1, Q1)
      hi == IF Ok(S, S.H[h1]) THEN h1 ELSE Pick(s, c + 2, Q1)
      h  == S.H[hi]
      ty == h.ty
      o0 == Pick(s, c + 3, CASE h.k = "m" -> OpsM [] h.k = "f" -> OpsF [] h.k = "c" -> OpsC [] h.k = "o" -> OpsO)
      many == Len(S.H) >= MaxH
      o  == IF many /\ o0 \in {"within", "mnested", "mfromcur", "mfromfld", "ffromcur", "fcreate", "fnested", "ccreate", "cnested", "oneof", "msg"}
            THEN (CASE h.k = "m" -> "mhas" [] h.k = "c" -> "cnext" [] OTHER -> "fget") ELSE o0
      isM(f) == f.type = TMESSAGE
      isS(f) == f.type # TMESSAGE
      isG(f) == f.type # TMESSAGE /\ f.label # REPEATED
      isO(f) == f.label = ONEOF
      any(f) == TRUE
      \* a field that satisfies P0, else 0
      Fld(P0(_), t) == LET F == Filter(t, P0) IN IF F = <<>> THEN NoField ELSE Pick(s, c + 4, F)
      op == [NoOp EXCEPT !.o = o, !.h = hi]
      has == [op EXCEPT !.o = "mhas", !.tag = Fld(any, ty).tag]
      T(P0(_)) == LET f == Fld(P0, ty) IN IF f = NoField THEN has ELSE [op EXCEPT !.tag = f.tag]
      TV(P0(_)) == LET f == Fld(P0, ty) IN IF f = NoField THEN has ELSE [op EXCEPT !.tag = f.tag, !.v = RandVal(f, s, c + 5)]
      path == RandPath(ty, s, c + 10)
      lt == TypeAt(ty, path)
      PV(P0(_)) == LET f == Fld(P0, lt) IN IF path = <<>> \/ f = NoField THEN has
                   ELSE [op EXCEPT !.path = Append(path, f.tag), !.v = IF f.type = TMESSAGE THEN <<>> ELSE RandVal(f, s, c + 5)]
  IN
  CASE o \in {"within"} -> T(isM)
    [] o = "mnested" -> PV(isM)
    [] o = "fcreate" -> T(isS)
    [] o = "fnested" -> PV(isS)
    [] o = "cnested" -> PV(any)
    [] o \in {"ccreate", "mhas", "merase"} -> T(any)
    [] o = "mget" -> T(isG)
    [] o = "mput" -> (LET p == TV(isS) IN IF p.o = o /\ Ok(S, h) /\ BlobHits(S, h.j, h.n, p.tag) THEN has ELSE p)
    [] o = "mmatch" -> TV(isS)
    [] o = "nhas" \/ o = "nerase" -> [PV(any) EXCEPT !.v = <<>>]
    [] o = "nget" -> PV(isG)
    [] o = "nput" -> (LET p == PV(isS)  n == IF p.o = o /\ Ok(S, h) THEN Resolve(S.N, h.n, path) ELSE 0
                     IN IF n # 0 /\ BlobHits(S, h.j, n, Last(p.path)) THEN has ELSE p)
    [] o = "nmatch" -> PV(isS)
    [] o = "mputm" ->
         LET f == Fld(isM, ty)
             src == IF f = NoField THEN 0 ELSE Source(S, h.j, f.nested, s, c + 6)
         IN IF src = 0 THEN has
            ELSE IF Ok(S, h) /\ PutHits(S, h.j, h.n, f.tag) THEN has
            ELSE [op EXCEPT !.tag = f.tag, !.s = src]
    [] o = "nputm" ->
         LET f == Fld(isM, lt)
             src == IF f = NoField \/ path = <<>> THEN 0 ELSE Source(S, h.j, f.nested, s, c + 6)
             n == IF Ok(S, h) THEN Resolve(S.N, h.n, path) ELSE 0
         IN IF src = 0 THEN has
            ELSE IF n # 0 /\ PutHits(S, h.j, n, f.tag) THEN has
            ELSE [op EXCEPT !.path = Append(path, f.tag), !.s = src]
    [] o = "oneof" -> LET f == Fld(isO, ty) IN IF f = NoField THEN has ELSE [op EXCEPT !.tag = f.oneof]
    [] o = "fput" -> IF Ok(S, h) /\ IsBlob(FldOf(h)) /\ Denoted(S, h.n) THEN [op EXCEPT !.o = "fget"]
                    ELSE [op EXCEPT !.v = RandVal(FldOf(h), s, c + 5)]
    [] o = "fmatch" -> [op EXCEPT !.v = IF Ok(S, h) /\ Rnd(s, c + 7, 2) = 0 THEN Native(S.N, h.n) ELSE RandVal(FldOf(h), s, c + 5)]
    [] o = "mfromfld" -> IF IsBlob(FldOf(h)) THEN [op EXCEPT !.tag = FldOf(h).nested] ELSE [op EXCEPT !.o = "fget"]
    [] o \in {"cput", "cseek", "cmatch", "cputm"} ->
         IF FldOf(h).type # TMESSAGE THEN
           IF o = "cputm" \/ (o = "cput" /\ IsBlob(FldOf(h)) /\ OkCur(S, h) /\ Denoted(S, h.cur)) THEN [op EXCEPT !.o = "cnext"]
           \* seek and match values that occur
           ELSE LET X == IF o = "cput" \/ ~Ok(S, h) THEN <<>> ELSE SelectSeq(Elems(S.N, h.n), LAMBDA i : S.N[i].tag = h.tag)
                IN [op EXCEPT !.v = IF X # <<>> /\ Rnd(s, c + 7, 3) > 0 THEN Native(S.N, Pick(s, c + 8, X))
                                    ELSE RandVal(FldOf(h), s, c + 5)]
         ELSE LET src == Source(S, h.j, FldOf(h).nested, s, c + 6)
              IN IF src = 0 \/ (OkCur(S, h) /\ Denoted(S, h.cur)) THEN [op EXCEPT !.o = "cnext"]
                 ELSE [op EXCEPT !.o = "cputm", !.s = src]
    [] o = "mfromcur" -> IF FldOf(h).type = TMESSAGE THEN op ELSE [op EXCEPT !.o = "ffromcur"]
    [] o = "ffromcur" -> IF FldOf(h).type = TMESSAGE THEN [op EXCEPT !.o = "mfromcur"] ELSE op
    [] o = "msg" -> [op EXCEPT !.j = h.j]
    [] OTHER -> op

----------------------------------------------------------------------------
(* What the properties say about one step, stated on the tree *)

ReadOps == {"mhas", "mget", "mmatch", "nhas", "nget", "nmatch", "fget", "fmatch", "ccreate", "cnext", "crewind",
            "cseek", "cmatch", "cget", "mfromcur", "mfromfld", "ffromcur", "oneof", "ocase", "msg"}

Known(N, i) == N[i].k \in {"val", "len", "el"}
StepOk(S, op, r) ==
  LET N == S.N  M == r.st.N
      old == 1..Len(N)
      was == {i \in old : Alive(N, i)}
      is  == {i \in 1..Len(M) : Alive(M, i)}
      leaf(i) == N[i].k \notin {"root", "msg", "pack"}
      gone == was \ is
      changed == {i \in was \cap is : leaf(i) /\ N[i].raw # M[i].raw}
      before(X, i, j, s) == Index(s, i) < Index(s, j)
      hh == IF op.h = 0 THEN NoField ELSE S.H[op.h]
      blob == CASE op.o = "mput" -> IsBlob(FieldOf(hh.ty, op.tag))
                [] op.o = "nput" -> IsBlob(FieldOf(TypeAt(hh.ty, Front(op.path)), Last(op.path)))
                [] op.o \in {"fput", "cput"} -> IsBlob(FldOf(hh))
                [] OTHER -> FALSE
      replaced == op.o \in {"mputm", "nputm", "cputm"} \/ blob
  IN
  \* M11: reading changes nothing
  /\ op.o \in ReadOps => M = N
  \* M12: a fixed message keeps its size
  /\ \A j \in DOMAIN S.J : S.J[j].zc => Size(Content(M, S.J[j].root)) = Size(Content(N, S.J[j].root))
  \* an operation that fails with an error changes nothing (but nested creation)
  /\ (r.rc # 0 /\ op.o \in {"mput", "mputm", "merase", "fput", "cput", "cputm", "cerase", "fclear", "mclear"}) => M = N
  \* M01, M07: a write changes at most one record
  /\ op.o \in {"mput", "nput", "fput", "cput"} =>
        /\ Cardinality(changed) <= 1
        /\ gone # {} => op.o \in {"mput", "nput"} \/ blob     \* oneof members, or what a blob held
        /\ \A i \in gone : N[i].k # "root"
  /\ op.o \in {"mput"} /\ r.rc = 0 =>
        LET h == S.H[op.h] IN
        /\ FieldOf(h.ty, op.tag).label # REPEATED => Equals(M, Visible(M, h.n, op.tag), op.v)
        /\ Match(r.st, h.n, op.tag, op.v)
  \* M03, M07: erasing removes and never rewrites
  /\ op.o \in {"merase", "nerase", "cerase", "fclear", "mclear", "oclear"} =>
        /\ changed = {} /\ Len(M) = Len(N)
        /\ op.o = "cerase" /\ r.rc = 0 =>
              gone # {} /\ (Cardinality({i \in gone : Known(N, i)}) <= 1 \/ N[S.H[op.h].cur].k = "msg")
  /\ op.o = "merase" /\ r.rc = 0 => Visible(M, S.H[op.h].n, op.tag) = 0
  \* M13: unknown records survive unless an enclosing record was removed or replaced
  /\ \A i \in was : N[i].k = "unk" => (i \in is /\ N[i].raw = M[i].raw) \/ (\E a \in gone : N[a].par # 0 /\ (Inside(N, i, a) \/ replaced))
                                      \/ (op.o \in {"mclear"} /\ N[S.H[op.h].n].k = "root") \/ (replaced /\ i \in gone)
  \* relative order of surviving records
  /\ \A p \in was \cap is : N[p].k \in {"root", "msg", "pack"} /\ ~replaced =>
        LET both(i) == i \in old IN SelectSeq(M[p].kids, both) = N[p].kids
  \* M08, M09: a handle denotes the same record for ever, or is refused for ever
  /\ \A k \in DOMAIN S.H : S.H[k].k \in {"m", "f"} =>
        /\ r.st.H[k].n \in {S.H[k].n, 0}
        /\ ~Ok(S, S.H[k]) => ~Ok(r.st, r.st.H[k])

\* M02: packed records are never left empty (those that were empty from the beginning may stay)
TreeOk(S) ==
  \A i \in DOMAIN S.N : Alive(S.N, i) =>
    /\ S.N[i].k = "pack" => S.N[i].kids = <<>> \/ \E j \in DOMAIN S.N[i].kids : S.N[S.N[i].kids[j]].live
    /\ \A j \in DOMAIN S.N[i].kids : S.N[S.N[i].kids[j]].par = i

----------------------------------------------------------------------------
Out(S, r, op, fail) == [op |-> op, fail |-> fail, rc |-> r.rc, v |-> r.v, ty |-> S.H[op.h].ty, obs |-> Obs(r.st)]

(* every operation on every handle, with two values per field *)
Values(f) ==
  IF IsBlob(f) THEN {<<>>, Rle(Key(99, 0) \o <<1>>)}
  ELSE IF f.type \in StringTypes THEN {<<>>, << <<98, 2>> >>}
  ELSE IF f.type = TBOOL THEN {Rle(<<0>>), Rle(<<1>>)}
  ELSE IF f.type = TENUM THEN {Rle(Pad(<<1>>, 4, 0)), Rle(<<255, 255, 255, 255>>)}
  ELSE {Rle(Pad(<<1>>, TypeSize(f.type), 0)), Rle(Pad(<<172, 2>>, TypeSize(f.type), 0))}

OpsOf(S, i) ==
  LET h  == S.H[i]
      op(o) == [NoOp EXCEPT !.o = o, !.h = i]
      T  == Schema[h.ty]
      F  == {T[k] : k \in DOMAIN T}
      M  == {f \in F : f.type = TMESSAGE}
      f  == FldOf(h)
  IN CASE h.k = "m" ->
            {[op("merase") EXCEPT !.tag = g.tag] : g \in F}
            \cup UNION {{[op("mput") EXCEPT !.tag = g.tag, !.v = v] : v \in Values(g)} : g \in {x \in F \ M : ~(Ok(S, h) /\ BlobHits(S, h.j, h.n, x.tag))}}
            \cup {[op("within") EXCEPT !.tag = g.tag] : g \in M}
            \cup {op("mclear")}
       [] h.k = "f" -> (IF Ok(S, h) /\ IsBlob(f) /\ Denoted(S, h.n) THEN {} ELSE {[op("fput") EXCEPT !.v = v] : v \in Values(f)})
                       \cup {op("fclear"), op("fget")} \cup (IF IsBlob(f) THEN {[op("mfromfld") EXCEPT !.tag = f.nested]} ELSE {})
       [] h.k = "c" -> {op("cnext"), op("cerase"), op(IF f.type = TMESSAGE THEN "mfromcur" ELSE "ffromcur")}
                       \cup (IF f.type = TMESSAGE \/ (IsBlob(f) /\ OkCur(S, h) /\ Denoted(S, h.cur)) THEN {} ELSE {[op("cput") EXCEPT !.v = v] : v \in Values(f)})
       [] h.k = "o" -> {op("oclear")}

AllOps(S) == UNION {OpsOf(S, i) : i \in DOMAIN S.H}

Init ==
  /\ seed \in Seeds
  /\ st = InitState(seed)
  /\ hist = <<[op |-> [NoOp EXCEPT !.o = "init"], rc |-> 0, v |-> <<>>, obs |-> Obs(st),
              j |-> [i \in DOMAIN st.J |-> [zc |-> st.J[i].zc, ty |-> st.N[st.J[i].root].ty]]]>>
  /\ ok = TRUE

Next ==
  /\ Len(hist) <= Depth + All
  /\ \E op \in IF Len(hist) <= Depth THEN {RandOp(st, seed, 1000 + 20 * Len(hist))} ELSE AllOps(st) :
       \E r \in {Apply(st, op)} :
         /\ st' = r.st
         /\ hist' = Append(hist, Out(st, r, op, Pick(seed, 1000 + 20 * Len(hist) + 19, Fails)))
         /\ ok' = (StepOk(st, op, r) /\ TreeOk(r.st))
         /\ UNCHANGED seed
         /\ (Len(hist') <= Depth + All \/ PrintT("@@" \o ToJson([seed |-> seed, t |-> hist'])))

Holds == ok
=============================================================================
