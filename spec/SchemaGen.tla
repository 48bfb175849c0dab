----------------------------- MODULE SchemaGen -----------------------------
(***************************************************************************)
(* Schema definitions and the tables the compiler plugin has to make of    *)
(* them (G01). A behaviour declares one thing per step: a message, an      *)
(* enum, a oneof, a field, a map, an extension, in any order and nesting,  *)
(* spread over an imported and a main file. The descriptor tables are kept *)
(* sorted by insertion, the indexes of oneof members are shifted along;    *)
(* the invariants say that they are exactly what the declarations say.     *)
(*                                                                         *)
(* Names are records [n, l, u]: as declared, in lower and in upper case.   *)
(* Each carries a number of its own, so that symbols cannot collide.       *)
(***************************************************************************)
EXTENDS Rand, FiniteSets, Json, TLC

CONSTANTS
  Seeds, Length,
  Styles,        \* names without their number
  Packages,      \* [n, l, u], with trailing separators; n = "" if there is none
  Tags, Numbers, \* field numbers, enum numbers to choose from
  Types,         \* scalar type names
  Lits,          \* per type name: number of default literals known
  Deep,          \* TRUE: nest messages and let fields refer to messages within their own
  Strs           \* types of which repeated fields cannot be packed

VARIABLES seed, files, msgs, enums, oneofs, fields, tab, mem
vars == <<seed, files, msgs, enums, oneofs, fields, tab, mem>>

Steps == Len(msgs) + Len(enums) + Len(fields)
Count == Len(msgs) + Len(enums) + Len(oneofs) + Len(fields) + Len(files)
C == 50 * Count
R(k, n) == Rnd(seed, C + k, n)
P1(k, q) == Pick(seed, C + k, q)

Name(st, k) == [n |-> st.n \o ToString(k), l |-> st.l \o ToString(k), u |-> st.u \o ToString(k)]
\* enum values live in the scope around their enum
ValueName(st, k) == Name([n |-> st.n \o "v", l |-> st.l \o "v", u |-> st.u \o "V"], k)
NewName(k, sub) == Name(P1(k, Styles), 10 * Count + sub)

InsertAt(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
Fs == DOMAIN fields
Ms == DOMAIN msgs

----------------------------------------------------------------------------
(* declarations *)

NoOneof == 0
RECURSIVE Up(_)
Up(m) == IF m = 0 THEN {} ELSE {m} \cup Up(msgs[m].par)     \* a message and those around it
Depth(m) == Cardinality(Up(m))

Seq1(S) == LET RECURSIVE F(_) F(i) == IF i > Len(msgs) THEN <<>> ELSE (IF i \in S THEN <<i>> ELSE <<>>) \o F(i + 1) IN F(1)
Parents(f) == <<0>> \o Seq1({m \in Ms : msgs[m].f = f /\ ~msgs[m].map /\ Depth(m) < 3})
Holders == Seq1({m \in Ms : ~msgs[m].map})
Reach(f) == Seq1({m \in Ms : ~msgs[m].map /\ msgs[m].f <= f})
EnumsFor(f) == LET RECURSIVE F(_)
                   F(i) == IF i > Len(enums) THEN <<>>
                           ELSE (IF enums[i].f <= f /\ (files[f].syn = 3 => files[enums[i].f].syn = 3) THEN <<i>> ELSE <<>>) \o F(i + 1)
               IN F(1)

DeclMessage ==
  LET f == 1 + R(1, 2)
      q == Parents(f) IN
  /\ msgs' = Append(msgs, [f |-> f, par |-> IF Deep /\ R(5, 3) > 0 THEN q[Len(q)] ELSE P1(2, q), n |-> NewName(3, 0), map |-> FALSE, dep |-> R(4, 12) = 0])
  /\ tab' = Append(tab, <<>>)
  /\ UNCHANGED <<enums, oneofs, fields, mem>>

DeclEnum ==
  LET f == 1 + R(1, 2)
      n == 1 + R(4, 6)
      v(i) == [n |-> ValueName(P1(5 + i, Styles), 100 * Count + i), num |-> IF i = 1 /\ files[f].syn = 3 THEN 0 ELSE P1(15 + i, Numbers)]
  IN /\ enums' = Append(enums, [f |-> f, par |-> P1(2, Parents(f)), n |-> NewName(3, 0), v |-> [i \in 1..n |-> v(i)]])
     /\ UNCHANGED <<msgs, oneofs, fields, tab, mem>>

\* field F enters the table of message m
Entered(F, q) ==
  LET m == F.m
      pos == 1 + Cardinality({i \in DOMAIN tab[m] : fields[tab[m][i]].tag < F.tag})
      x == Len(fields) + 1
      shift(o) == IF q[o].m # m THEN q[o].x ELSE [i \in DOMAIN q[o].x |-> IF q[o].x[i] >= pos - 1 THEN q[o].x[i] + 1 ELSE q[o].x[i]]
      own(o) == LET s == shift(o) IN
                IF F.oneof # o THEN s
                ELSE InsertAt(s, 1 + Cardinality({i \in DOMAIN s : s[i] < pos - 1}), pos - 1)
  IN /\ fields' = Append(fields, F)
     /\ tab' = [tab EXCEPT ![m] = InsertAt(@, pos, x)]
     /\ mem' = [o \in DOMAIN q |-> [m |-> q[o].m, x |-> own(o)]]

Free(m) == SelectSeq(Tags, LAMBDA t : \A i \in DOMAIN tab[m] : fields[tab[m][i]].tag # t)

Within(m) == Seq1({x \in Ms : ~msgs[x].map /\ m \in Up(msgs[x].par)})
\* type, reference, packed option and default literal of a new field of message m in file f; lab: "optional", "required", "repeated", "oneof"
Typed(m, f, lab, k) ==
  LET kind == R(k, IF Deep THEN 6 ELSE 10)
      E == EnumsFor(f)
      M == IF Deep /\ Within(m) # <<>> /\ R(k + 8, 8) > 0 THEN Within(m) ELSE Reach(f)
      t == IF kind < 3 /\ M # <<>> THEN "MESSAGE" ELSE IF kind < 5 /\ E # <<>> THEN "ENUM" ELSE P1(k + 1, Types)
      ref == IF t = "MESSAGE" THEN P1(k + 2, M) ELSE IF t = "ENUM" THEN P1(k + 2, E) ELSE 0
      pk == IF lab # "repeated" \/ t = "MESSAGE" \/ t \in Strs THEN 0 ELSE R(k + 3, 3)       \* 1: packed = true, 2: packed = false
      dl == IF files[f].syn = 3 \/ lab = "repeated" \/ t = "MESSAGE" \/ R(k + 4, 3) = 0 THEN 0
            ELSE IF t = "ENUM" THEN R(k + 5, 1 + Len(enums[ref].v)) ELSE R(k + 5, 1 + Lits[t])
  IN [t |-> t, ref |-> ref, pk |-> pk, lit |-> dl]

MkField(m, f, lab, tag, oneof, scope, k) ==
  LET T == Typed(m, f, lab, k) IN
  [m |-> m, f |-> f, n |-> NewName(k + 6, 1), tag |-> tag, type |-> T.t, ref |-> T.ref, label |-> lab, pk |-> T.pk, lit |-> T.lit,
   oneof |-> oneof, scope |-> scope, dep |-> R(k + 7, 10) = 0]

PlainLabel(f) == IF files[f].syn = 3 THEN P1(3, <<"optional", "repeated">>) ELSE P1(3, <<"optional", "optional", "required", "repeated">>)

DeclField ==
  LET m == P1(1, Holders) IN
  /\ Free(m) # <<>>
  /\ Entered(MkField(m, msgs[m].f, PlainLabel(msgs[m].f), P1(2, Free(m)), NoOneof, -1, 10), mem)
  /\ UNCHANGED <<msgs, enums, oneofs>>

\* a member of an old or a new oneof
DeclMember ==
  LET m == P1(1, Holders)
      old == {o \in DOMAIN oneofs : oneofs[o].m = m}
      new == old = {} \/ R(5, 4) = 0
      o == IF new THEN Len(oneofs) + 1 ELSE CHOOSE x \in old : Cardinality({y \in old : y < x}) = R(6, Cardinality(old))
  IN /\ Free(m) # <<>>
     /\ oneofs' = IF new THEN Append(oneofs, [m |-> m, n |-> NewName(7, 2)]) ELSE oneofs
     /\ Entered(MkField(m, msgs[m].f, "oneof", P1(2, Free(m)), o, -1, 10), IF new THEN Append(mem, [m |-> m, x |-> <<>>]) ELSE mem)
     /\ UNCHANGED <<msgs, enums>>

ExtTag == 1000 + ((Len(fields) * 37 + R(9, 37)) % 1000)
DeclExt ==
  LET B == Seq1({m \in Ms : ~msgs[m].map /\ files[msgs[m].f].syn = 2})
      base == P1(1, B)
      f == IF msgs[base].f = 1 THEN 1 + R(2, 2) ELSE 2
      scope == P1(4, Parents(f))
  IN /\ B # <<>> /\ files[f].syn = 2
     /\ \A x \in Fs : fields[x].m = base => fields[x].tag # ExtTag
     /\ fields' = Append(fields, MkField(base, f, P1(3, <<"optional", "repeated">>), ExtTag, NoOneof, scope, 10))
     /\ UNCHANGED <<msgs, enums, oneofs, tab, mem>>

KeyTypes == <<"INT32", "INT64", "UINT32", "UINT64", "SINT32", "FIXED32", "SFIXED64", "BOOL", "STRING">>
\* a map: a repeated field of a message with a key and a value
DeclMap ==
  LET m == P1(1, Holders)
      f == msgs[m].f
      k == 10 * Count + 3
      x == Len(msgs) + 1
      T == Typed(m, f, "optional", 10)
      fld(n, tag, t, ref) == [m |-> x, f |-> f, n |-> [n |-> n, l |-> n, u |-> IF n = "key" THEN "KEY" ELSE "VALUE"], tag |-> tag, type |-> t, ref |-> ref,
                              label |-> "optional", pk |-> 0, lit |-> 0, oneof |-> 0, scope |-> -1, dep |-> FALSE]
      val == IF T.t = "ENUM" /\ enums[T.ref].v[1].num # 0 THEN fld("value", 2, "INT32", 0) ELSE fld("value", 2, T.t, T.ref)
      F == [fld("key", P1(2, Free(m)), "MESSAGE", x) EXCEPT !.m = m, !.label = "repeated",
               !.n = [n |-> "f" \o ToString(k), l |-> "f" \o ToString(k), u |-> "F" \o ToString(k)]]
      pos == 1 + Cardinality({i \in DOMAIN tab[m] : fields[tab[m][i]].tag < F.tag})
      K == Len(fields) + 1
  IN /\ Free(m) # <<>>
     /\ msgs' = Append(msgs, [f |-> f, par |-> m, map |-> TRUE, dep |-> FALSE,
                              n |-> [n |-> "F" \o ToString(k) \o "Entry", l |-> "f" \o ToString(k) \o "entry", u |-> "F" \o ToString(k) \o "ENTRY"]])
     /\ fields' = fields \o <<fld("key", 1, P1(4, KeyTypes), 0), val, F>>
     /\ tab' = Append([tab EXCEPT ![m] = InsertAt(@, pos, K + 2)], <<K, K + 1>>)
     /\ mem' = [o \in DOMAIN mem |-> [m |-> mem[o].m, x |-> IF mem[o].m # m THEN mem[o].x
                   ELSE [i \in DOMAIN mem[o].x |-> IF mem[o].x[i] >= pos - 1 THEN mem[o].x[i] + 1 ELSE mem[o].x[i]]]]
     /\ UNCHANGED <<enums, oneofs>>

----------------------------------------------------------------------------
(* what the tables must be *)

IsExt(x) == fields[x].scope >= 0
Sound ==
  /\ \A m \in Ms :
       /\ \A i \in DOMAIN tab[m] : i > 1 => fields[tab[m][i - 1]].tag < fields[tab[m][i]].tag
       /\ {tab[m][i] : i \in DOMAIN tab[m]} = {x \in Fs : fields[x].m = m /\ ~IsExt(x)}
  /\ \A o \in DOMAIN oneofs :
       /\ mem[o].m = oneofs[o].m
       /\ \A i \in DOMAIN mem[o].x : i > 1 => mem[o].x[i - 1] < mem[o].x[i]
       /\ {tab[oneofs[o].m][mem[o].x[i] + 1] : i \in DOMAIN mem[o].x} = {x \in Fs : fields[x].oneof = o}
  /\ \A x \in Fs, y \in Fs : x # y /\ fields[x].m = fields[y].m => fields[x].tag # fields[y].tag

----------------------------------------------------------------------------
(* the generated code *)

RECURSIVE Sym(_), SymU(_), Dotted(_)
Sym(m)    == LET x == msgs[m] IN (IF x.par = 0 THEN files[x.f].pkg.l ELSE Sym(x.par) \o "_") \o x.n.l
SymU(m)   == LET x == msgs[m] IN (IF x.par = 0 THEN files[x.f].pkg.u ELSE SymU(x.par) \o "_") \o x.n.u
Dotted(m) == LET x == msgs[m] IN (IF x.par = 0 THEN "" ELSE Dotted(x.par) \o ".") \o x.n.n
RECURSIVE Under(_)
Under(m)  == LET x == msgs[m] IN (IF x.par = 0 THEN "" ELSE Under(x.par) \o "_") \o x.n.l
InL(f, par) == IF par = 0 THEN files[f].pkg.l ELSE Sym(par) \o "_"
InU(f, par) == IF par = 0 THEN files[f].pkg.u ELSE SymU(par) \o "_"
ESym(e) == InL(enums[e].f, enums[e].par) \o enums[e].n.l
OSym(o) == Sym(oneofs[o].m) \o "_" \o oneofs[o].n.l

\* name of a field in its descriptor and in function names
Shown(F) == (IF F.scope > 0 THEN Dotted(F.scope) \o "." ELSE "") \o F.n.n
Fn(F) == IF F.scope < 0 THEN F.n.l ELSE "X_" \o (IF F.scope > 0 THEN Under(F.scope) \o "_" ELSE "") \o F.n.l

Packed(F) == IF F.label # "repeated" \/ F.type = "MESSAGE" \/ F.type \in Strs THEN FALSE
             ELSE F.pk = 1 \/ (F.pk = 0 /\ files[F.f].syn = 3)
Refer(F) == IF F.type = "MESSAGE" THEN Sym(F.ref) ELSE IF F.type = "ENUM" THEN ESym(F.ref) ELSE ""
\* default: literal number, enum number, or none; a oneof member has none
Default(F) ==
  IF F.label = "oneof" \/ F.label = "repeated" THEN [k |-> "none", v |-> 0]
  ELSE IF F.type = "ENUM" THEN (IF F.lit > 0 THEN [k |-> "enum", v |-> enums[F.ref].v[F.lit].num]
                                ELSE IF F.label = "optional" THEN [k |-> "enum", v |-> enums[F.ref].v[1].num] ELSE [k |-> "none", v |-> 0])
  ELSE IF F.lit > 0 THEN [k |-> "lit", v |-> F.lit] ELSE [k |-> "none", v |-> 0]

Row(x) == LET F == fields[x] IN
          [tag |-> F.tag, name |-> Shown(F), type |-> F.type, label |-> F.label, refer |-> Refer(F), packed |-> Packed(F),
           oneof |-> IF F.oneof = 0 THEN "" ELSE OSym(F.oneof), dflt |-> Default(F)]
Exts(m) == {x \in Fs : IsExt(x) /\ fields[x].m = m}

RECURSIVE SortNum(_)
\* values by number
SortNum(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE x \in S : \A y \in S : x.num <= y.num IN <<a>> \o SortNum(S \ {a})
EnumRow(e) == [sym |-> ESym(e), v |-> SortNum({[num |-> enums[e].v[i].num, name |-> enums[e].v[i].n.n] : i \in DOMAIN enums[e].v})]

Consts ==
  {[c |-> SymU(fields[x].m) \o "_" \o fields[x].n.u \o "_T", v |-> fields[x].tag] : x \in {y \in Fs : ~IsExt(y)}}
  \cup UNION {{[c |-> InU(enums[e].f, enums[e].par) \o enums[e].v[i].n.u \o "_V", v |-> enums[e].v[i].num] : i \in DOMAIN enums[e].v} : e \in DOMAIN enums}

\* functions: what they are called, what they do, on which message and path
Func(fn, op, m, path, F, v, hv) == [fn |-> fn, op |-> op, m |-> Sym(m), path |-> path, type |-> F.type, v |-> v, hv |-> hv, f |-> F.f]
FieldFuncs(m, pre, path, F) ==
  LET nm == pre \o Fn(F)
      p  == Append(path, F.tag)
      S  == Sym(m) \o "_"
      fn(verb, op) == {Func(S \o verb \o nm, op, m, p, F, 0, FALSE)}
      isM == F.type = "MESSAGE"
      rep == F.label = "repeated"
  IN (IF F.label # "required" THEN fn("has_", "has") ELSE {})
     \cup (IF isM THEN fn("create_", "create") ELSE {})
     \cup (IF isM /\ rep THEN {Func(S \o "create_" \o nm \o "_cursor", "cursor", m, p, F, 0, FALSE)} ELSE {})
     \cup (IF ~isM /\ ~rep THEN fn("get_", "get") ELSE {})
     \cup (IF ~isM THEN fn("put_", "put") ELSE {})
     \cup (IF F.label \in {"optional", "oneof"} THEN fn("erase_", "erase") ELSE {})
     \cup (IF F.type # "ENUM" THEN {}
           ELSE UNION {LET e == enums[F.ref].v[i] IN
                       {Func(S \o "has_" \o nm \o "_" \o e.n.l, "match", m, p, F, e.num, TRUE), Func(S \o "put_" \o nm \o "_" \o e.n.l, "put", m, p, F, e.num, TRUE)}
                       : i \in DOMAIN enums[F.ref].v})
RECURSIVE Nested(_, _, _, _)
\* accessors of the message ty reached from m by path
Nested(m, ty, pre, path) ==
  UNION {LET F == fields[tab[ty][i]] IN
         FieldFuncs(m, pre, path, F)
         \cup (IF F.type = "MESSAGE" /\ F.label # "repeated" /\ F.ref # ty /\ ty \in Up(F.ref)
               THEN Nested(m, F.ref, pre \o F.n.l \o "_", Append(path, F.tag)) ELSE {})
         : i \in DOMAIN tab[ty]}
Accessors == UNION {IF files[msgs[m].f].lite THEN {} ELSE Nested(m, m, "", <<>>) : m \in Ms}
             \cup UNION {LET F == fields[x] IN IF IsExt(x) /\ ~files[F.f].lite THEN FieldFuncs(F.m, "", <<>>, F) ELSE {} : x \in Fs}
Encoders ==
  UNION {LET F == fields[x] IN
         IF IsExt(x) THEN {}
         ELSE {Func(Sym(F.m) \o "_encode_" \o F.n.l, IF F.label = "repeated" THEN "encn" ELSE "enc1", F.m, <<F.tag>>, F, 0, FALSE)}
              \cup (IF F.type # "ENUM" THEN {}
                    ELSE {Func(Sym(F.m) \o "_encode_" \o F.n.l \o "_" \o enums[F.ref].v[i].n.l, "encv", F.m, <<F.tag>>, F, enums[F.ref].v[i].num, TRUE)
                          : i \in DOMAIN enums[F.ref].v})
         : x \in Fs}
Cases == {[fn |-> Sym(oneofs[o].m) \o "_case_" \o oneofs[o].n.n, m |-> Sym(oneofs[o].m), o |-> OSym(o)] : o \in {p \in DOMAIN oneofs : ~files[msgs[oneofs[p].m].f].lite}}

Expect ==
  [enums |-> [e \in DOMAIN enums |-> EnumRow(e)],
   msgs  |-> [m \in Ms |-> [sym |-> Sym(m), lite |-> files[msgs[m].f].lite, own |-> [i \in DOMAIN tab[m] |-> Row(tab[m][i])], ext |-> {Row(x) : x \in Exts(m)}]],
   oneofs |-> [o \in DOMAIN oneofs |-> [sym |-> OSym(o), m |-> Sym(oneofs[o].m), x |-> mem[o].x]],
   consts |-> Consts, acc |-> Accessors, enc |-> Encoders, cases |-> Cases]

----------------------------------------------------------------------------
Init ==
  /\ seed \in Seeds
  /\ files = LET lite == Rnd(seed, 3, 8) = 0
                 one(k) == [pkg |-> Pick(seed, k, Packages), syn |-> IF Rnd(seed, k + 1, 4) = 0 THEN 3 ELSE 2, lite |-> lite]
             IN <<one(11), one(21)>>
  /\ msgs = <<>> /\ enums = <<>> /\ oneofs = <<>> /\ fields = <<>> /\ tab = <<>> /\ mem = <<>>

Next ==
  /\ Steps < Length
  /\ UNCHANGED <<seed, files>>
  /\ LET d == R(0, 20)
         M == Holders # <<>>
     IN IF ~M \/ d < 3 THEN DeclMessage
        ELSE IF d < 5 THEN DeclEnum
        ELSE IF d < 9 THEN (IF ENABLED DeclMember THEN DeclMember ELSE DeclMessage)
        ELSE IF d < 12 THEN (IF ENABLED DeclExt THEN DeclExt ELSE DeclMessage)
        ELSE IF d = 12 THEN (IF ENABLED DeclMap THEN DeclMap ELSE DeclMessage)
        ELSE (IF ENABLED DeclField THEN DeclField ELSE DeclMessage)

Spec == Init /\ [][Next]_vars
Holds == Sound /\ (Steps >= Length => PrintT("@@" \o ToJson([seed |-> seed, files |-> files, msgs |-> msgs, enums |-> enums, oneofs |-> oneofs, fields |-> fields, x |-> Expect])))
=============================================================================
