--------------------------------- MODULE Msg ---------------------------------
(***************************************************************************)
(* The message layer: an abstract machine for messages, fields, cursors    *)
(* and oneofs over a tree of records, as seen by a user of the library.    *)
(*                                                                         *)
(* The library keeps the message as one flat byte buffer, and handles as   *)
(* offsets which it re-aligns lazily by replaying a journal of changes.    *)
(* This specification says what that machinery must amount to: a message   *)
(* is a tree of records, a handle denotes a record by identity, the buffer *)
(* is always the serialisation of the tree, and a handle is refused for    *)
(* good once its record (or one enclosing it) was removed.                 *)
(*                                                                         *)
(* Removed records stay in the tree as tombstones: they mark the place     *)
(* where a cursor that stood on them continues.                            *)
(***************************************************************************)
EXTENDS Wire, FiniteSets, TLC

CONSTANTS Schema            \* Seq of message types, a type is a Seq of fields

NONE == 0  EALLOC == 1  EINVALID == 2  EVARINT == 3  EOFFSET == 4  EABSENT == 5  EEOM == 6

----------------------------------------------------------------------------
(* schema *)

NoField == [tag |-> 0, type |-> 0, label |-> 0, nested |-> 0, packed |-> 0, oneof |-> 0, ext |-> 0, def |-> <<>>]

FieldOf(ty, tag) ==
  LET T == Schema[ty]
      S == {i \in DOMAIN T : T[i].tag = tag}
  IN IF S = {} THEN NoField ELSE T[CHOOSE i \in S : TRUE]

----------------------------------------------------------------------------
(* nodes *)

Node(k, tag, key, raw, nat, par, ty) ==
  [k |-> k, tag |-> tag, key |-> key, raw |-> raw, nat |-> nat, kids |-> <<>>,
   par |-> par, live |-> TRUE, ty |-> ty]

RECURSIVE Alive(_, _)
Alive(N, i) == i # 0 /\ N[i].live /\ (N[i].par = 0 \/ Alive(N, N[i].par))

RECURSIVE Inside(_, _, _)
\* i lies strictly inside a
Inside(N, i, a) == i # 0 /\ N[i].par # 0 /\ (N[i].par = a \/ Inside(N, N[i].par, a))

RECURSIVE Ser(_, _), SerKids(_, _, _)
Ser(N, i) ==
  LET n == N[i] IN
  IF ~n.live THEN <<>>
  ELSE CASE n.k = "val"  -> Rle(n.key) \o n.raw
         [] n.k = "len"  -> Rle(n.key \o LenPrefix(Size(n.raw))) \o n.raw
         [] n.k = "el"   -> n.raw
         [] n.k = "unk"  -> n.raw
         [] n.k = "root" -> SerKids(N, n.kids, 1)
         [] OTHER        -> LET c == SerKids(N, n.kids, 1)        \* msg, pack
                            IN Rle(n.key \o LenPrefix(Size(c))) \o c
SerKids(N, kids, j) == IF j > Len(kids) THEN <<>> ELSE Ser(N, kids[j]) \o SerKids(N, kids, j + 1)

Content(N, i) == IF N[i].k \in {"root", "msg", "pack"} THEN SerKids(N, N[i].kids, 1) ELSE N[i].raw

(* the elements of a message, tombstones included, packed records flattened *)
RECURSIVE FlatFrom(_, _, _)
FlatFrom(N, kids, j) ==
  IF j > Len(kids) THEN <<>>
  ELSE (CASE N[kids[j]].k = "unk" -> <<>>
          [] N[kids[j]].k = "pack" -> N[kids[j]].kids
          [] OTHER -> <<kids[j]>>) \o FlatFrom(N, kids, j + 1)
Flat(N, m) == FlatFrom(N, N[m].kids, 1)

Elems(N, m) == LET live(i) == Alive(N, i) IN SelectSeq(Flat(N, m), live)

Index(s, x) == CHOOSE i \in DOMAIN s : s[i] = x

(* A bytes field whose schema entry names a type (a "blob") holds an encoded
   message: its element is a message node, which can be read and written as a
   byte string, or edited through a message handle created from the field. *)
IsBlob(f) == f.type = TBYTES /\ f.nested # 0

(* run-length encoding without empty or adjacent equal runs *)
RECURSIVE NormFrom(_, _, _)
NormFrom(v, i, acc) ==
  IF i > Len(v) THEN acc
  ELSE LET n == Len(acc) IN
       IF v[i][2] = 0 THEN NormFrom(v, i + 1, acc)
       ELSE IF n > 0 /\ acc[n][1] = v[i][1] THEN NormFrom(v, i + 1, [acc EXCEPT ![n][2] = @ + v[i][2]])
       ELSE NormFrom(v, i + 1, Append(acc, v[i]))
Norm(v) == NormFrom(v, 1, <<>>)

(* the value an element shows, and whether it equals a given one *)
Native(N, i) == IF N[i].k = "msg" THEN Content(N, i) ELSE N[i].nat
Equals(N, i, v) == IF N[i].k = "msg" THEN Norm(Content(N, i)) = Norm(v) ELSE N[i].nat = v

(* remove an element; a packed record goes with its last value *)
Kill(N, i) ==
  LET N1 == [N EXCEPT ![i].live = FALSE]
      p  == N[i].par
  IN IF p # 0 /\ N[p].k = "pack" /\ \A j \in DOMAIN N[p].kids : ~N1[N[p].kids[j]].live
     THEN [N1 EXCEPT ![p].live = FALSE]
     ELSE N1

RECURSIVE KillAll(_, _, _)
KillAll(N, s, j) == IF j > Len(s) THEN N ELSE KillAll(Kill(N, s[j]), s, j + 1)

(* insert node n into the children of p behind child a (0: at the start): a
   new record goes behind the tombstones that share this place, so a cursor
   which stood on one of them meets it; a value appended to a packed record
   goes right behind the last value *)
InsertKid(N, p, a, n) ==
  LET kids == N[p].kids
      i0   == IF a = 0 THEN 0 ELSE Index(kids, a)
      RECURSIVE Skip(_)
      Skip(i) == IF i < Len(kids) /\ ~N[kids[i + 1]].live THEN Skip(i + 1) ELSE i
      i1   == IF n.k = "el" THEN i0 ELSE Skip(i0)
      id   == Len(N) + 1
  IN [Append(N, [n EXCEPT !.par = p]) EXCEPT ![p].kids =
        SubSeq(kids, 1, i1) \o <<id>> \o SubSeq(kids, i1 + 1, Len(kids))]

KillKids(N, i) ==
  [j \in DOMAIN N |-> IF N[j].par = i THEN [N[j] EXCEPT !.live = FALSE] ELSE N[j]]

(* set the content of a scalar, string or packed element; what is written to a
   blob is a sequence of records nobody has a handle to *)
SetVal(N, i, f, v) ==
  IF ~IsBlob(f) THEN [N EXCEPT ![i].raw = EncVal(f.type, v), ![i].nat = v]
  ELSE LET N1 == [KillKids(N, i) EXCEPT ![i].kids = <<>>]
       IN IF v = <<>> THEN N1
          ELSE [Append(N1, Node("unk", 0, <<>>, v, <<>>, i, 0)) EXCEPT ![i].kids = <<Len(N1) + 1>>]

----------------------------------------------------------------------------
(* finding and creating elements *)

LastWhere(s, P(_)) == LET S == {i \in DOMAIN s : P(s[i])}
                      IN IF S = {} THEN 0 ELSE s[CHOOSE i \in S : \A j \in S : j <= i]
FirstWhere(s, P(_)) == LET S == {i \in DOMAIN s : P(s[i])}
                       IN IF S = {} THEN 0 ELSE s[CHOOSE i \in S : \A j \in S : j >= i]

IsMember(ty, tag, o) == o # 0 /\ FieldOf(ty, tag).oneof = o

(* the visible occurrence of a non-repeated field, the first of a repeated one *)
Visible(N, m, tag) ==
  LET ty == N[m].ty
      f  == FieldOf(ty, tag)
      E  == Elems(N, m)
      is(i) == N[i].tag = tag
      mem(i) == IsMember(ty, N[i].tag, f.oneof)
  IN IF f.label = REPEATED THEN FirstWhere(E, is)
     ELSE IF f.label = ONEOF
          THEN LET a == LastWhere(E, mem) IN IF a # 0 /\ N[a].tag = tag THEN a ELSE 0
          ELSE LastWhere(E, is)

Case(N, m, o) ==
  LET mem(i) == IsMember(N[m].ty, N[i].tag, o)
      a == LastWhere(Elems(N, m), mem)
  IN IF a = 0 THEN 0 ELSE N[a].tag

(* the value a new element holds until it is written *)
DefaultOf(f) ==
  IF f.type = TMESSAGE THEN <<>>
  ELSE IF f.def # <<>> THEN f.def[1]
  ELSE IF f.type \in StringTypes THEN <<>>
  ELSE Rle([i \in 1..TypeSize(f.type) |-> 0])

NewNode(f, v) ==
  CASE f.type = TMESSAGE \/ IsBlob(f) -> Node("msg", f.tag, Key(f.tag, 2), <<>>, <<>>, 0, f.nested)
    [] f.type \in StringTypes -> Node("len", f.tag, Key(f.tag, 2), v, v, 0, 0)
    [] OTHER -> Node("val", f.tag, Key(f.tag, WireType(f.type)), EncVal(f.type, v), v, 0, 0)

(* Create or find the element to write for a tag of message m, see
   pb_part_create(). A fixed (zero-copy) message refuses to change its size:
   rc is then the error the operation that asked for the element reports. *)
CreatePart(N, fixed, m, tag, v) ==
  LET ty == N[m].ty
      f  == FieldOf(ty, tag)
      E  == Elems(N, m)
      is(i) == N[i].tag = tag
      le(i) == N[i].tag <= tag
      exact == LastWhere(E, is)
      best  == IF exact # 0 THEN exact ELSE LastWhere(E, le)
      from  == IF best = 0 THEN 1 ELSE Index(E, best)
      kill  == IF f.label # ONEOF THEN <<>>
               ELSE LET o(i) == N[i].tag # tag /\ IsMember(ty, N[i].tag, f.oneof)
                    IN SelectSeq(SubSeq(E, from, Len(E)), o)
      N1    == KillAll(N, kill, 1)
      top(i) == IF N[i].k = "el" THEN N[i].par ELSE i
  IN IF fixed /\ kill # <<>> THEN [N |-> N, id |-> 0, rc |-> EINVALID, new |-> FALSE]
     ELSE IF exact # 0 /\ f.label # REPEATED
          THEN [N |-> N1, id |-> exact, rc |-> NONE, new |-> FALSE]
     ELSE IF f.packed = 1 /\ exact # 0 /\ N[exact].k = "el"
          THEN IF fixed THEN [N |-> N, id |-> 0, rc |-> EALLOC, new |-> TRUE]
               ELSE [N |-> InsertKid(N1, N[exact].par, exact,
                             Node("el", tag, <<>>, EncVal(f.type, v), v, 0, 0)),
                     id |-> Len(N1) + 1, rc |-> NONE, new |-> TRUE]
     ELSE IF fixed THEN [N |-> N, id |-> 0, rc |-> EINVALID, new |-> TRUE]
     ELSE IF f.packed = 1
          THEN LET N2 == InsertKid(N1, m, IF best = 0 THEN 0 ELSE top(best),
                                   Node("pack", tag, Key(tag, 2), <<>>, <<>>, 0, 0))
                   p  == Len(N1) + 1
               IN [N |-> InsertKid(N2, p, 0, Node("el", tag, <<>>, EncVal(f.type, v), v, 0, 0)),
                   id |-> p + 1, rc |-> NONE, new |-> TRUE]
     ELSE LET N2 == InsertKid(N1, m, IF best = 0 THEN 0 ELSE top(best), NewNode(f, v))
              id == Len(N1) + 1
          IN [N |-> IF IsBlob(f) THEN SetVal(N2, id, f, v) ELSE N2, id |-> id, rc |-> NONE, new |-> TRUE]

----------------------------------------------------------------------------
(* submessages *)

(* replace the content of i by a copy of the content of s (in nodes NS); the
   old content is dead *)
RECURSIVE CopyKids(_, _, _, _, _)
CopyKids(N, i, NS, kids, j) ==
  IF j > Len(kids) THEN N
  ELSE LET k == NS[kids[j]] IN
       IF ~k.live THEN CopyKids(N, i, NS, kids, j + 1)
       ELSE LET id == Len(N) + 1
                N1 == [Append(N, [k EXCEPT !.par = i, !.kids = <<>>]) EXCEPT ![i].kids = Append(@, id)]
                N2 == CopyKids(N1, id, NS, k.kids, 1)
            IN CopyKids(N2, i, NS, kids, j + 1)

CopyInto(N, i, NS, s) ==
  CopyKids([KillKids(N, i) EXCEPT ![i].kids = <<>>], i, NS, NS[s].kids, 1)

----------------------------------------------------------------------------
(* handles

   [k |-> "m", j, n]                 message
   [k |-> "f", j, n, m, tag]         field (m: the message type it was created from)
   [k |-> "c", j, n, tag, cur, pos, err]   cursor over tag of message n
   [k |-> "o", j, n, tag]            oneof number tag of message n
   n = 0: created invalid *)

MsgH(j, n, ty)        == [k |-> "m", j |-> j, n |-> n, ty |-> ty, tag |-> 0, cur |-> 0, pos |-> 0, err |-> 0]
FldH(j, n, ty, tag)   == [k |-> "f", j |-> j, n |-> n, ty |-> ty, tag |-> tag, cur |-> 0, pos |-> 0, err |-> 0]
CurH(j, n, ty, tag, cur, pos, err) ==
  [k |-> "c", j |-> j, n |-> n, ty |-> ty, tag |-> tag, cur |-> cur, pos |-> pos, err |-> err]
OneH(j, n, ty, o)     == [k |-> "o", j |-> j, n |-> n, ty |-> ty, tag |-> o, cur |-> 0, pos |-> 0, err |-> 0]

(* the element a handle denotes; the machine state is
   [N: nodes, H: handles, J: journals [root, zc]] *)
Ok(st, h) == h.n # 0 /\ Alive(st.N, h.n)
OkCur(st, h) == h.err = 0 /\ Ok(st, h) /\ h.cur # 0 /\ Alive(st.N, h.cur)

FldOf(h) == FieldOf(h.ty, h.tag)

(* cursor creation, see pb_cursor_create() *)
MkCursor(st, j, n, ty, tag) ==
  IF n = 0 \/ ~Alive(st.N, n) THEN CurH(j, 0, ty, tag, 0, 0, EINVALID)
  ELSE LET v == Visible(st.N, n, tag)
           is(i) == st.N[i].tag = tag
           S == SelectSeq(Elems(st.N, n), is)
       IN IF v = 0 THEN CurH(j, n, ty, tag, 0, 0, EEOM)
          ELSE CurH(j, n, ty, tag, v, Index(S, v) - 1, 0)

Rewound(st, h) ==
  IF ~Ok(st, h) THEN [h EXCEPT !.n = 0, !.cur = 0, !.pos = 0, !.err = EINVALID]
  ELSE LET is(i) == st.N[i].tag = h.tag
           S == SelectSeq(Elems(st.N, h.n), is)
       IN IF S = <<>> THEN [h EXCEPT !.cur = 0, !.pos = 0, !.err = EEOM]
          ELSE [h EXCEPT !.cur = S[1], !.pos = 0, !.err = 0]

(* one step of a cursor: result [h, r] *)
Step(st, h) ==
  IF h.err # 0 THEN [h |-> h, r |-> 0]
  ELSE IF ~Ok(st, h) THEN [h |-> [h EXCEPT !.err = EINVALID], r |-> 0]
  ELSE LET F == Flat(st.N, h.n)
           i == Index(F, h.cur)
           is(x) == Alive(st.N, x) /\ st.N[x].tag = h.tag
           nx == FirstWhere(SubSeq(F, i + 1, Len(F)), is)
       IN IF nx = 0 THEN [h |-> [h EXCEPT !.err = EEOM], r |-> 0]
          ELSE [h |-> [h EXCEPT !.cur = nx, !.pos = @ + 1], r |-> 1]

RECURSIVE Seek(_, _, _)
Seek(st, h, v) ==
  LET s == Step(st, h) IN
  IF s.r = 0 THEN s
  ELSE IF Equals(st.N, s.h.cur, v) THEN s
  ELSE Seek(st, s.h, v)

(* resolve a path of non-repeated submessages: the node, 0 if missing *)
RECURSIVE Resolve(_, _, _)
Resolve(N, n, path) ==
  IF path = <<>> \/ n = 0 THEN n
  ELSE Resolve(N, Visible(N, n, Head(path)), Tail(path))

RECURSIVE TypeAt(_, _)
TypeAt(ty, path) == IF path = <<>> THEN ty ELSE TypeAt(FieldOf(ty, Head(path)).nested, Tail(path))

(* create a path of submessages *)
RECURSIVE CreatePath(_, _, _, _)
CreatePath(N, fixed, n, path) ==
  IF path = <<>> THEN [N |-> N, id |-> n, rc |-> NONE]
  ELSE LET r == CreatePart(N, fixed, n, Head(path), <<>>)
       IN IF r.rc # NONE THEN [N |-> r.N, id |-> 0, rc |-> EINVALID]
          ELSE CreatePath(r.N, fixed, r.id, Tail(path))

Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s)  == s[Len(s)]

----------------------------------------------------------------------------
(* The operations. An operation is a record [o, h, ...]; Apply yields the
   next state, the return code and the value read (<<>> or <<value>>). *)

Res(st, rc) == [st |-> st, rc |-> rc, v |-> <<>>]
ResV(st, v) == [st |-> st, rc |-> 0, v |-> <<v>>]
B(x) == IF x THEN 1 ELSE 0

WithN(st, N) == [st EXCEPT !.N = N]
AddH(st, h)  == [st EXCEPT !.H = Append(@, h)]
New(st, h)   == [st |-> AddH(st, h), rc |-> IF h.k = "c" THEN h.err ELSE IF h.n = 0 THEN EINVALID ELSE 0, v |-> <<>>]
Fixed(st, j) == st.J[j].zc

EncSize(f, v) == Size(EncVal(f.type, v))

(* overwrite element i *)
Overwrite(st, j, i, f, v) ==
  IF Fixed(st, j) /\ EncSize(f, v) # Size(Content(st.N, i)) THEN Res(st, EALLOC)
  ELSE Res(WithN(st, SetVal(st.N, i, f, v)), 0)

(* replace the content of submessage i by that of handle s *)
OverwriteMsg(st, j, i, s) ==
  IF Fixed(st, j) /\ Size(Content(st.N, s)) # Size(Content(st.N, i)) THEN Res(st, EALLOC)
  ELSE Res(WithN(st, CopyInto(st.N, i, st.N, s)), 0)

Put(st, j, n, tag, v) ==
  LET f == FieldOf(st.N[n].ty, tag)
      r == CreatePart(st.N, Fixed(st, j), n, tag, v)
  IN IF r.rc # NONE THEN Res(st, r.rc)
     ELSE IF r.new THEN Res(WithN(st, r.N), 0)
     ELSE Overwrite(WithN(st, r.N), j, r.id, f, v)

PutMsg(st, j, n, tag, s) ==
  IF ~Ok(st, s) THEN Res(st, EINVALID)
  ELSE LET r == CreatePart(st.N, Fixed(st, j), n, tag, <<>>)
       IN IF r.rc # NONE THEN Res(st, r.rc)
          ELSE OverwriteMsg(WithN(st, r.N), j, r.id, s.n)

Get(st, n, tag) ==
  LET f == FieldOf(st.N[n].ty, tag)
      i == Visible(st.N, n, tag)
  IN IF i # 0 THEN ResV(st, Native(st.N, i))
     ELSE IF f.def # <<>> THEN ResV(st, f.def[1])
     ELSE Res(st, EABSENT)

Match(st, n, tag, v) ==
  LET f == FieldOf(st.N[n].ty, tag)
      i == Visible(st.N, n, tag)
      is(e) == st.N[e].tag = tag /\ Equals(st.N, e, v)
  IN IF f.label = REPEATED THEN LastWhere(Elems(st.N, n), is) # 0
     ELSE i # 0 /\ Equals(st.N, i, v)

Erase(st, j, n, tag) ==
  LET ty == st.N[n].ty
      f  == FieldOf(ty, tag)
      hit(i) == IF f.label = ONEOF THEN IsMember(ty, st.N[i].tag, f.oneof) ELSE st.N[i].tag = tag
      S  == SelectSeq(Elems(st.N, n), hit)
  IN IF S = <<>> THEN Res(st, 0)
     ELSE IF Fixed(st, j) THEN Res(st, EALLOC)
     ELSE Res(WithN(st, KillAll(st.N, S, 1)), 0)

Clear(st, h, hi) ==
  IF ~Ok(st, h) THEN Res(st, EINVALID)
  ELSE IF st.N[h.n].k = "root"
       THEN IF Fixed(st, h.j) /\ Size(Content(st.N, h.n)) > 0 THEN Res(st, EALLOC)
            ELSE Res([WithN(st, KillKids(st.N, h.n)) EXCEPT !.H[hi].n = 0], 0)
       ELSE IF Fixed(st, h.j) THEN Res(st, EALLOC)
       ELSE Res(WithN(st, Kill(st.N, h.n)), 0)

Apply(st, op) ==
  LET h == IF op.h = 0 THEN MsgH(0, 0, 0) ELSE st.H[op.h]
      f == IF h.k \in {"f", "c"} THEN FldOf(h) ELSE NoField
      N == st.N
  IN
  CASE op.o = "msg" ->
         New(st, MsgH(op.j, st.J[op.j].root, N[st.J[op.j].root].ty))
    [] op.o = "within" ->
         LET g == FieldOf(h.ty, op.tag).nested IN
         IF ~Ok(st, h) THEN New(st, MsgH(h.j, 0, g))
         ELSE LET r == CreatePart(N, Fixed(st, h.j), h.n, op.tag, <<>>)
              IN New(WithN(st, r.N), MsgH(h.j, r.id, g))
    [] op.o = "mnested" ->
         LET g == TypeAt(h.ty, op.path) IN
         IF ~Ok(st, h) THEN New(st, MsgH(h.j, 0, g))
         ELSE LET r == CreatePath(N, Fixed(st, h.j), h.n, op.path)
              IN New(WithN(st, r.N), MsgH(h.j, r.id, g))
    [] op.o = "mfromcur" ->
         New(st, MsgH(h.j, IF OkCur(st, h) THEN h.cur ELSE 0, f.nested))
    [] op.o = "mfromfld" -> New(st, MsgH(h.j, IF Ok(st, h) THEN h.n ELSE 0, f.nested))
    [] op.o = "ffromcur" ->
         New(st, FldH(h.j, IF OkCur(st, h) THEN h.cur ELSE 0, h.ty, h.tag))
    [] op.o = "fcreate" ->
         IF ~Ok(st, h) THEN New(st, FldH(h.j, 0, h.ty, op.tag))
         ELSE LET g == FieldOf(h.ty, op.tag)
                  r == CreatePart(N, Fixed(st, h.j), h.n, op.tag, DefaultOf(g))
              IN New(WithN(st, r.N), FldH(h.j, r.id, h.ty, op.tag))
    [] op.o = "fnested" ->
         LET tt == TypeAt(h.ty, Front(op.path)) t == Last(op.path) IN
         IF ~Ok(st, h) THEN New(st, FldH(h.j, 0, tt, t))
         ELSE LET p == CreatePath(N, Fixed(st, h.j), h.n, Front(op.path))
              IN IF p.rc # NONE THEN New(WithN(st, p.N), FldH(h.j, 0, tt, t))
                 ELSE LET r == CreatePart(p.N, Fixed(st, h.j), p.id, t, DefaultOf(FieldOf(tt, t)))
                      IN New(WithN(st, r.N), FldH(h.j, r.id, tt, t))
    [] op.o = "ccreate" -> New(st, MkCursor(st, h.j, h.n, h.ty, op.tag))
    [] op.o = "cnested" ->
         LET tt == TypeAt(h.ty, Front(op.path)) t == Last(op.path) IN
         IF ~Ok(st, h) THEN New(st, CurH(h.j, 0, tt, t, 0, 0, EINVALID))
         ELSE LET p == CreatePath(N, Fixed(st, h.j), h.n, Front(op.path))
                  s1 == WithN(st, p.N)
              IN New(s1, MkCursor(s1, h.j, p.id, tt, t))
    [] op.o = "oneof" -> [st |-> AddH(st, OneH(h.j, IF Ok(st, h) THEN h.n ELSE 0, h.ty, op.tag)), rc |-> 0, v |-> <<>>]

    [] op.o = "mhas"   -> Res(st, B(Ok(st, h) /\ Visible(N, h.n, op.tag) # 0))
    [] op.o = "mget"   -> IF ~Ok(st, h) THEN Res(st, EINVALID) ELSE Get(st, h.n, op.tag)
    [] op.o = "mput"   -> IF ~Ok(st, h) THEN Res(st, EINVALID) ELSE Put(st, h.j, h.n, op.tag, op.v)
    [] op.o = "mputm"  -> IF ~Ok(st, h) THEN Res(st, EINVALID) ELSE PutMsg(st, h.j, h.n, op.tag, st.H[op.s])
    [] op.o = "mmatch" -> Res(st, B(Ok(st, h) /\ Match(st, h.n, op.tag, op.v)))
    [] op.o = "merase" -> IF ~Ok(st, h) THEN Res(st, EINVALID) ELSE Erase(st, h.j, h.n, op.tag)
    [] op.o = "mclear" -> Clear(st, h, op.h)

    [] op.o = "nhas"   -> LET n == IF Ok(st, h) THEN Resolve(N, h.n, Front(op.path)) ELSE 0
                          IN Res(st, B(n # 0 /\ Visible(N, n, Last(op.path)) # 0))
    [] op.o = "nmatch" -> LET n == IF Ok(st, h) THEN Resolve(N, h.n, Front(op.path)) ELSE 0
                          IN Res(st, B(n # 0 /\ Match(st, n, Last(op.path), op.v)))
    [] op.o = "nget"   -> IF ~Ok(st, h) THEN Res(st, EINVALID)
                          ELSE LET n == Resolve(N, h.n, Front(op.path))
                               IN IF n = 0 THEN Res(st, EABSENT) ELSE Get(st, n, Last(op.path))
    [] op.o = "nerase" -> IF ~Ok(st, h) THEN Res(st, EINVALID)
                          ELSE LET n == Resolve(N, h.n, Front(op.path))
                               IN IF n = 0 THEN Res(st, EINVALID) ELSE Erase(st, h.j, n, Last(op.path))
    [] op.o = "nput"   -> IF ~Ok(st, h) THEN Res(st, EINVALID)
                          ELSE LET p == CreatePath(N, Fixed(st, h.j), h.n, Front(op.path))
                               IN IF p.rc # NONE THEN Res(WithN(st, p.N), EINVALID)
                                  ELSE Put(WithN(st, p.N), h.j, p.id, Last(op.path), op.v)
    [] op.o = "nputm"  -> IF ~Ok(st, h) THEN Res(st, EINVALID)
                          ELSE LET p == CreatePath(N, Fixed(st, h.j), h.n, Front(op.path))
                               IN IF p.rc # NONE THEN Res(WithN(st, p.N), EINVALID)
                                  ELSE PutMsg(WithN(st, p.N), h.j, p.id, Last(op.path), st.H[op.s])

    [] op.o = "fget"   -> IF Ok(st, h) THEN ResV(st, Native(N, h.n)) ELSE Res(st, EINVALID)
    [] op.o = "fput"   -> IF Ok(st, h) THEN Overwrite(st, h.j, h.n, f, op.v) ELSE Res(st, EINVALID)
    [] op.o = "fmatch" -> Res(st, B(Ok(st, h) /\ Equals(N, h.n, op.v)))
    [] op.o = "fclear" -> Clear(st, h, op.h)

    [] op.o = "cnext"  -> LET s == Step(st, h) IN Res([st EXCEPT !.H[op.h] = s.h], s.r)
    [] op.o = "crewind"-> LET g == Rewound(st, h) IN Res([st EXCEPT !.H[op.h] = g], B(g.err = 0))
    [] op.o = "cseek"  -> IF h.err # 0 \/ f.type = TMESSAGE THEN Res(st, 0)
                          ELSE LET s == Seek(st, h, op.v) IN Res([st EXCEPT !.H[op.h] = s.h], s.r)
    [] op.o = "cmatch" -> Res(st, B(f.type # TMESSAGE /\ OkCur(st, h) /\ Equals(N, h.cur, op.v)))
    [] op.o = "cget"   -> IF f.type # TMESSAGE /\ OkCur(st, h) THEN ResV(st, Native(N, h.cur)) ELSE Res(st, EINVALID)
    [] op.o = "cput"   -> IF OkCur(st, h) THEN Overwrite(st, h.j, h.cur, f, op.v) ELSE Res(st, EINVALID)
    [] op.o = "cputm"  -> IF OkCur(st, h) /\ Ok(st, st.H[op.s]) THEN OverwriteMsg(st, h.j, h.cur, st.H[op.s].n)
                          ELSE Res(st, EINVALID)
    [] op.o = "cerase" -> IF ~OkCur(st, h) THEN Res(st, EINVALID)
                          ELSE IF Fixed(st, h.j) THEN Res(st, EALLOC)
                          ELSE Res(WithN(st, Kill(N, h.cur)), 0)

    [] op.o = "ocase"  -> Res(st, IF Ok(st, h) THEN Case(N, h.n, h.tag) ELSE 0)
    [] op.o = "oclear" -> IF ~Ok(st, h) THEN Res(st, 0)
                          ELSE LET hit(i) == IsMember(N[h.n].ty, N[i].tag, h.tag)
                                   S == SelectSeq(Elems(N, h.n), hit)
                               IN IF S = <<>> THEN Res(st, 0)
                                  ELSE IF Fixed(st, h.j) THEN Res(st, EALLOC)
                                  ELSE Res(WithN(st, KillAll(N, S, 1)), 0)

----------------------------------------------------------------------------
(* what a user can see of a handle *)
ProbeOf(st, h) ==
  CASE h.k = "m" -> IF Ok(st, h) THEN [s |-> "v", v |-> Content(st.N, h.n), n |-> 0] ELSE [s |-> "x", v |-> <<>>, n |-> 0]
    [] h.k = "f" -> IF Ok(st, h) THEN [s |-> "v", v |-> Native(st.N, h.n), n |-> 0] ELSE [s |-> "x", v |-> <<>>, n |-> 0]
    [] h.k = "c" -> IF h.err # 0 THEN [s |-> "e", v |-> <<>>, n |-> h.err]
                    ELSE IF OkCur(st, h)
                         THEN [s |-> "c", n |-> h.pos,
                               v |-> Native(st.N, h.cur)]
                         ELSE [s |-> "y", v |-> <<>>, n |-> h.pos]
    [] h.k = "o" -> [s |-> "t", v |-> <<>>, n |-> IF Ok(st, h) THEN Case(st.N, h.n, h.tag) ELSE 0]

Obs(st) == [j |-> [i \in DOMAIN st.J |-> Content(st.N, st.J[i].root)],
            h |-> [i \in DOMAIN st.H |-> ProbeOf(st, st.H[i])]]

=============================================================================
