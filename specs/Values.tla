------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* The data model of Rayfall: typed atoms, typed vectors, lists,           *)
(* dictionaries, tables, functions and errors, and the comparison of a     *)
(* specified value with one observed from the engine.                      *)
(*                                                                         *)
(* Every value is a record with a type tag t.  Integers of every width,    *)
(* dates, times and timestamps are integers; the null of each is NI, which *)
(* is below every other value, as in the engine.  A float is an integer    *)
(* number of 1/1024ths (NI is the null float).  Values of the 64-bit types *)
(* that do not fit 31 bits are carried as three 24-bit limbs, most         *)
(* significant first, in vectors tagged I64w/TSw (atoms i64w/tsw).         *)
(* Strings are vectors of character codes; symbols and GUIDs are strings.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NI == -2147483647 - 1

VecT == [b8 |-> "B8", u8 |-> "U8", i16 |-> "I16", i32 |-> "I32", i64 |-> "I64",
         sym |-> "SYM", date |-> "DATE", time |-> "TIME", ts |-> "TS",
         f64 |-> "F64", guid |-> "GUID", c8 |-> "C8", i64w |-> "I64w", tsw |-> "TSw"]
AtomT == [B8 |-> "b8", U8 |-> "u8", I16 |-> "i16", I32 |-> "i32", I64 |-> "i64",
          SYM |-> "sym", DATE |-> "date", TIME |-> "time", TS |-> "ts",
          F64 |-> "f64", GUID |-> "guid", C8 |-> "c8", I64w |-> "i64w", TSw |-> "tsw",
          ENUM |-> "sym"]

AtomTypes == DOMAIN VecT
VecTypes  == DOMAIN AtomT

IsAtom(x) == x.t \in AtomTypes
IsVec(x)  == x.t \in VecTypes
IsList(x) == x.t = "LIST"
IsErr(x)  == x.t = "ERR"
IsSeq(x)  == IsVec(x) \/ IsList(x)
IsTab(x)  == x.t = "TABLE"
IsDict(x) == x.t = "DICT"

Atom(t, v)   == [t |-> t, v |-> v]
Vec(t, v)    == [t |-> t, v |-> v]
Lst(v)       == [t |-> "LIST", v |-> v]
Dict(k, v)   == [t |-> "DICT", k |-> k, v |-> v]
Table(c, v)  == [t |-> "TABLE", c |-> c, v |-> v]
Err(c)       == [t |-> "ERR", c |-> c]
Null         == [t |-> "NULL"]
Bool(b)      == Atom("b8", b)
Lng(n)       == Atom("i64", n)
Sym(s)       == Atom("sym", s)
Str(s)       == Vec("C8", s)
(* outcome the specification leaves open *)
Wild         == [t |-> "ANY"]

\* the atom type of the elements of x (x atom or vector)
ET(x) == IF IsAtom(x) THEN x.t ELSE AtomT[x.t]

NullOf(t) == IF t \in {"b8"} THEN FALSE
             ELSE IF t \in {"u8"} THEN 0
             ELSE IF t = "c8" THEN 0
             ELSE IF t = "sym" THEN "0Ns"
             ELSE IF t = "guid" THEN "00000000000000000000000000000000"
             ELSE IF t \in {"i64w", "tsw"} THEN <<-32768, 0, 0>>
             ELSE NI

Len1(x) == CASE IsSeq(x) -> Len(x.v)
             [] IsTab(x) -> IF Len(x.v) = 0 THEN 0 ELSE Len(x.v[1].v)
             [] IsDict(x) -> Len(x.k.v)
             [] OTHER -> 1

\* i-th element as a value
ElemAt(x, i) == IF IsList(x) THEN x.v[i] ELSE Atom(AtomT[x.t], x.v[i])

\* a sequence of values collapses to a vector when all are atoms of one type
Collapse(s) ==
  IF Len(s) = 0 THEN Lst(<<>>)
  ELSE IF IsAtom(s[1]) /\ (\A i \in 1..Len(s) : s[i].t = s[1].t)
       THEN Vec(VecT[s[1].t], [i \in 1..Len(s) |-> s[i].v])
       ELSE Lst(s)

Elems(x) == [i \in 1..Len(x.v) |-> ElemAt(x, i)]

\* pick elements (1-based positions) keeping the type of x
Pick(x, ids) == IF x.t = "ANY" THEN x ELSE [x EXCEPT !.v = [i \in 1..Len(ids) |-> x.v[ids[i]]]]

TabPick(t, ids) == Table(t.c, [j \in 1..Len(t.v) |-> Pick(t.v[j], ids)])

ColIx(t, c) == CHOOSE i \in 1..Len(t.c) : t.c[i] = c
HasCol(t, c) == \E i \in 1..Len(t.c) : t.c[i] = c
Col(t, c) == t.v[ColIx(t, c)]

-----------------------------------------------------------------------------
(* widening *)
B24 == 16777216
Widen(n) == IF n = NI THEN <<-32768, 0, 0>>
            ELSE <<IF n < 0 THEN -1 ELSE 0, (IF n >= 0 THEN n \div B24 ELSE (n \div B24) + B24), n % B24>>
\* arithmetic on limbs; k up to 512 when the product stays within 63 bits is done in two steps
WNorm(h, m, l) == LET c0 == l \div B24  m1 == m + c0  c1 == m1 \div B24
                  IN <<h + c1, m1 % B24, l % B24>>
RECURSIVE WMul(_, _)
WMul(w, k) == IF k > 64 THEN WMul(WMul(w, CHOOSE d \in {10, 8, 5, 4, 2} : k % d = 0 /\ \A z \in {10, 8, 5, 4, 2} : k % z = 0 => z <= d),
                                  k \div (CHOOSE d \in {10, 8, 5, 4, 2} : k % d = 0 /\ \A z \in {10, 8, 5, 4, 2} : k % z = 0 => z <= d))
              ELSE WNorm(w[1] * k, w[2] * k, w[3] * k)
WAdd(a, b) == WNorm(a[1] + b[1], a[2] + b[2], a[3] + b[3])
WSub(a, b) == WNorm(a[1] - b[1], a[2] - b[2], a[3] - b[3])
WOf(n) == WNorm(0, n \div B24, n % B24)
NarrowT(t) == CASE t = "I64w" -> "I64" [] t = "TSw" -> "TS" [] t = "i64w" -> "i64" [] t = "tsw" -> "ts" [] OTHER -> t
IsWideT(t) == t \in {"I64w", "TSw", "i64w", "tsw"}

-----------------------------------------------------------------------------
(* Does the observed value g match the specified value e? *)
Near(a, b) == IF a = NI \/ b = NI THEN a = b ELSE b \in {a - 1, a, a + 1}

RECURSIVE Same(_, _)
Same(e, g) ==
  IF e.t = "ANY" THEN TRUE
  ELSE IF IsWideT(e.t) /\ ~IsWideT(g.t)
       THEN /\ NarrowT(e.t) = g.t
            /\ IF e.t \in {"i64w", "tsw"} THEN e.v = Widen(g.v)
               ELSE Len(e.v) = Len(g.v) /\ \A i \in 1..Len(e.v) : e.v[i] = Widen(g.v[i])
  ELSE IF e.t # g.t THEN FALSE
  ELSE CASE e.t = "f64"   -> Near(e.v, g.v)
         [] e.t = "F64"   -> /\ Len(e.v) = Len(g.v)
                             /\ \A i \in 1..Len(e.v) : Near(e.v[i], g.v[i])
         [] e.t = "LIST"  -> /\ Len(e.v) = Len(g.v)
                             /\ \A i \in 1..Len(e.v) : Same(e.v[i], g.v[i])
         [] e.t = "DICT"  -> Same(e.k, g.k) /\ Same(e.v, g.v)
         [] e.t = "TABLE" -> /\ e.c = g.c
                             /\ Len(e.v) = Len(g.v)
                             /\ \A i \in 1..Len(e.v) : Same(e.v[i], g.v[i])
         [] e.t = "ERR"   -> e.c = "*" \/ e.c = g.c
         [] e.t \in {"NULL", "LAMBDA", "FN", "UNDEF"} -> TRUE
         [] e.t = "ENUM"  -> e.k = g.k /\ e.v = g.v
         [] OTHER         -> e.v = g.v
=============================================================================
