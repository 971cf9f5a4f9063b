-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* The evaluator: a program fragment (an abstract syntax tree) transforms  *)
(* the environment and yields a value.  The environment is the globals,    *)
(* the local bindings of the running function and the columns of the       *)
(* query being evaluated.  Errors are values that abandon every enclosing  *)
(* form up to the nearest (try ...); effects performed before the error    *)
(* stay.                                                                   *)
(*                                                                         *)
(* Nodes (field n):                                                        *)
(*  lit v | var s | op f a | call f a | fn p b | fref f | set s x | let s x*)
(*  if a | do a | try a | and a | or a | map f a | pmap f a | mapl f a     *)
(*  mapr f a | fold f a | apply f a                                        *)
(*  sel from wh by cols tk | upd q/s/from wh by cols                       *)
(*  ins q s x r | ups q s x k r | alt q s x f i v                          *)
(***************************************************************************)
EXTENDS Ops

Empty == [x \in {} |-> 0]
Env(g, l, c) == [g |-> g, l |-> l, c |-> c]
Bind(f, s, v) == (s :> v) @@ f
Out(v, e) == [v |-> v, e |-> e]

Lookup(s, e) == IF s \in DOMAIN e.c THEN e.c[s]
                ELSE IF s \in DOMAIN e.l THEN e.l[s]
                ELSE IF s \in DOMAIN e.g THEN e.g[s]
                ELSE Err("*")

Lambda(p, b) == [t |-> "LAMBDA", p |-> p, b |-> b]
IsFn(x) == x.t \in {"LAMBDA", "FN"}

\* does the condition of (if ...) hold: "y", "n", or "o" for open (zeroes of the narrow types, empty vectors of them)
Truth(x) == CASE x.t = "b8" -> IF x.v THEN "y" ELSE "n"
              [] x.t \in {"i64", "u8", "c8", "ts"} -> IF x.v # 0 THEN "y" ELSE "n"
              [] x.t \in {"i32", "i16", "date", "time", "f64"} -> IF x.v # 0 THEN "y" ELSE "o"
              [] x.t \in {"LIST", "I64", "SYM", "TS", "B8", "U8", "C8"} -> IF Len(x.v) > 0 THEN "y" ELSE "n"
              [] IsSeq(x) -> IF Len(x.v) > 0 THEN "y" ELSE "o"
              [] OTHER -> "y"

TabEnv(t, e) == [e EXCEPT !.c = [x \in Cols(t) |-> Col(t, x)] @@ e.c]
SetCol(t, c, v) == IF HasCol(t, c) THEN Table(t.c, [t.v EXCEPT ![ColIx(t, c)] = v])
                   ELSE Table(Append(t.c, c), Append(t.v, v))

HasWild(s) == \E i \in 1..Len(s) : s[i].t = "ANY"

\* groups of row numbers by equal keys, in order of first occurrence
GroupsOf(keys, n) ==
  LET tup == [r \in 1..n |-> [i \in 1..Len(keys) |-> keys[i].v[r]]]
      firsts == SelectSeq(Range1(n), LAMBDA r : \A q \in 1..(r - 1) : tup[q] # tup[r])
  IN [g \in 1..Len(firsts) |-> SelectSeq(Range1(n), LAMBDA r : tup[r] = tup[firsts[g]])]

\* one row to append: atoms, or several: vectors; as a sequence of columns
RowCols(t, r) ==
  IF IsTab(r) THEN (IF Cols(r) = Cols(t) THEN [i \in 1..Len(t.c) |-> Col(r, t.c[i])] ELSE <<Wild>>)
  ELSE IF IsDict(r) /\ r.k.t = "SYM" /\ IsSeq(r.v)
       THEN (IF Len(r.k.v) = Len(t.c) /\ \A i \in 1..Len(t.c) : IsIn(t.c[i], r.k.v)
             THEN [i \in 1..Len(t.c) |-> ElemAt(r.v, FirstIx(t.c[i], r.k.v))] ELSE <<Wild>>)
  ELSE IF IsSeq(r) THEN Elems(r)
  ELSE <<Wild>>
\* columns to append, each a sequence of raw elements; Err / Wild by tag
AppendRows(t, r) ==
  LET cs == RowCols(t, r)
  IN IF HasWild(cs) THEN Wild
     ELSE IF Len(cs) # Len(t.c) THEN Err("*")
     ELSE IF \E i \in 1..Len(cs) : ~IsVec(t.v[i]) THEN Wild
     ELSE IF \A i \in 1..Len(cs) : IsAtom(cs[i])
          THEN IF \E i \in 1..Len(cs) : cs[i].t # ET(t.v[i]) THEN Err("*")
               ELSE [t |-> "ROWS", v |-> [i \in 1..Len(cs) |-> <<cs[i].v>>]]
     ELSE IF \A i \in 1..Len(cs) : IsVec(cs[i])
          THEN IF \E i \in 1..Len(cs) : cs[i].t # t.v[i].t THEN Err("*")
               ELSE IF \E i \in 1..Len(cs) : Len(cs[i].v) # Len(cs[1].v) THEN Err("*")
               ELSE [t |-> "ROWS", v |-> [i \in 1..Len(cs) |-> cs[i].v]]
     ELSE Wild

InsertRows(t, r) ==
  LET a == AppendRows(t, r)
  IN IF a.t # "ROWS" THEN a
     ELSE Table(t.c, [i \in 1..Len(t.c) |-> [t.v[i] EXCEPT !.v = t.v[i].v \o a.v[i]]])

\* rows whose first k columns match an existing row replace it; the others are appended
UpsertRows(t, k, r) ==
  LET a == AppendRows(t, r)
  IN IF k < 1 \/ k > Len(t.c) THEN Err("*")
     ELSE IF a.t # "ROWS" THEN a
     \* whether a null f64 key finds a null one is left open (NaN)
     \* find has no i16 or b8 case, so a single such key is refused
     ELSE IF k = 1 /\ t.v[1].t \in {"I16", "B8"} THEN Wild
     ELSE IF \E i \in 1..k : t.v[i].t = "F64" /\ IsIn(NullOf("f64"), a.v[i]) THEN Wild
     ELSE LET n == Len1(t)
              m == Len(a.v[1])
              key(q) == [i \in 1..k |-> a.v[i][q]]
              told == [p \in 1..n |-> [i \in 1..k |-> t.v[i].v[p]]]
              hit(q) == FirstIx(key(q), told)
              new == SelectSeq(Range1(m), LAMBDA q : hit(q) = 0)
              last(p) == LET S == {q \in 1..m : hit(q) = p}
                         IN IF S = {} THEN 0 ELSE CHOOSE q \in S : \A z \in S : z <= q
              col(i) == [p \in 1..n |-> IF i <= k \/ last(p) = 0 THEN t.v[i].v[p] ELSE a.v[i][last(p)]]
                        \o [j \in 1..Len(new) |-> a.v[i][new[j]]]
          IN Table(t.c, [i \in 1..Len(t.c) |-> [t.v[i] EXCEPT !.v = col(i)]])

\* x with the elements at (1-based) positions ps replaced by the values vs
PutAt(x, ps, vs) ==
  IF IsVec(x) /\ \A j \in 1..Len(vs) : IsAtom(vs[j]) /\ vs[j].t = ET(x)
  THEN LET last(i) == CHOOSE j \in 1..Len(ps) : ps[j] = i /\ \A h \in (j+1)..Len(ps) : ps[h] # i
       IN [x EXCEPT !.v = [i \in 1..Len(x.v) |-> IF \E j \in 1..Len(ps) : ps[j] = i THEN vs[last(i)].v ELSE x.v[i]]]
  ELSE IF IsSeq(x)
  THEN LET last(i) == CHOOSE j \in 1..Len(ps) : ps[j] = i /\ \A h \in (j+1)..Len(ps) : ps[h] # i
           s == [i \in 1..Len(x.v) |-> IF \E j \in 1..Len(ps) : ps[j] = i THEN vs[last(i)] ELSE ElemAt(x, i)]
       IN Lst(s)
  ELSE Wild

\* one element at the end, whatever it is
PushOne(x, v) == IF IsVec(x) /\ IsAtom(v) /\ v.t = ET(x) THEN [x EXCEPT !.v = Append(@, v.v)]
                 ELSE IF IsSeq(x) /\ x.v # <<>> /\ (IsAtom(v) \/ IsSeq(v)) THEN Lst(Append(Elems(x), v))
                 ELSE Wild

Alter(x, f, i, v) ==
  IF IsSeq(x) /\ i.t = "i64"
  THEN LET n == Len(x.v)
       IN IF i.v < 0 THEN Wild
          ELSE IF i.v >= n THEN Err("*")
          ELSE LET w == IF f = "set" THEN v ELSE Op(f, <<ElemAt(x, i.v + 1), v>>)
               IN IF w.t = "ANY" \/ IsErr(w) THEN w
                  ELSE IF f # "set" /\ IsVec(x) /\ (~IsAtom(w) \/ w.t # ET(x)) THEN Wild
                  ELSE PutAt(x, <<i.v + 1>>, <<w>>)
  ELSE IF IsVec(x) /\ i.t = "I64" /\ i.v # <<>>
  THEN LET n == Len(x.v)
       IN IF \E j \in 1..Len(i.v) : i.v[j] < 0 THEN Wild
          ELSE IF \E j \in 1..Len(i.v) : i.v[j] >= n THEN Wild
          ELSE IF \E j, h \in 1..Len(i.v) : j # h /\ i.v[j] = i.v[h] THEN Wild
          ELSE LET ps == [j \in 1..Len(i.v) |-> i.v[j] + 1]
                   w == IF f = "set" THEN v ELSE Op(f, <<Pick(x, ps), v>>)
               IN IF w.t = "ANY" \/ IsErr(w) THEN w
                  ELSE IF IsAtom(w) /\ w.t = ET(x) THEN PutAt(x, ps, [j \in 1..Len(ps) |-> w])
                  ELSE IF IsVec(w) /\ w.t = x.t /\ Len(w.v) = Len(ps) THEN PutAt(x, ps, Elems(w))
                  ELSE Wild
  ELSE IF IsDict(x) /\ IsVec(x.k) /\ IsAtom(i) /\ i.t = ET(x.k) /\ f = "set"
  THEN LET p == FirstIx(i.v, x.k.v)
       IN IF ~IsSeq(x.v) THEN Wild
          ELSE IF IsVec(x.v) /\ (~IsAtom(v) \/ ET(x.v) # v.t) THEN Wild
          ELSE IF p = 0 THEN Dict([x.k EXCEPT !.v = Append(@, i.v)],
                                  [x.v EXCEPT !.v = Append(@, IF IsList(x.v) THEN v ELSE v.v)])
          ELSE Dict(x.k, PutAt(x.v, <<p>>, <<v>>))
  ELSE Wild

RECURSIVE Ev(_, _), EvSeq(_, _, _, _), Apply(_, _, _), MapRows(_, _, _, _, _), FoldV(_, _, _, _), ScanV(_, _, _, _, _, _),
          EvCols(_, _, _, _), EvGroups(_, _, _, _), EvDo(_, _, _), EvBool(_, _, _, _)

\* evaluate a sequence of nodes left to right; stop at the first error
EvSeq(a, i, e, acc) ==
  IF i > Len(a) THEN [v |-> acc, e |-> e, err |-> <<>>]
  ELSE LET r == Ev(a[i], e)
       IN IF IsErr(r.v) THEN [v |-> acc, e |-> r.e, err |-> <<r.v>>]
          ELSE EvSeq(a, i + 1, r.e, Append(acc, r.v))

\* apply a function value to argument values; names free in a function are looked up in its callers' locals
\* before the globals
Apply(f, args, e) ==
  IF f.t = "FN" THEN Out(IF f.f = "self" THEN Wild ELSE Op(f.f, args), e)
  ELSE IF f.t # "LAMBDA" THEN Out(IF f.t = "ANY" THEN Wild ELSE Err("*"), e)
  ELSE IF Len(args) # Len(f.p) THEN Out(Err("*"), e)
  ELSE LET l == [x \in {f.p[i] : i \in 1..Len(f.p)} |-> args[CHOOSE i \in 1..Len(f.p) : f.p[i] = x]]
           r == EvDo(f.b, 1, Env(e.g, Bind(l, "self", f) @@ e.l, Empty))
       IN Out(r.v, [e EXCEPT !.g = r.e.g])

\* apply f to the i-th elements of the sequences in args (atoms repeat when rep allows)
MapRows(f, args, i, e, acc) ==
  IF i > Len(args[1]) THEN [v |-> acc, e |-> e, err |-> <<>>]
  ELSE LET r == Apply(f, [k \in 1..Len(args) |-> args[k][i]], e)
       IN IF IsErr(r.v) THEN [v |-> acc, e |-> r.e, err |-> <<r.v>>]
          ELSE MapRows(f, args, i + 1, r.e, Append(acc, r.v))

FoldV(f, acc, s, e) ==
  IF s = <<>> THEN Out(acc, e)
  ELSE LET r == Apply(f, <<acc, Head(s)>>, e)
       IN IF IsErr(r.v) THEN r ELSE FoldV(f, r.v, Tail(s), r.e)

\* every accumulation of a fold, the first one included; `first`: the element is the first argument
ScanV(f, acc, s, e, first, out) ==
  IF s = <<>> THEN [v |-> out, e |-> e, err |-> <<>>]
  ELSE LET r == Apply(f, IF first THEN <<Head(s), acc>> ELSE <<acc, Head(s)>>, e)
       IN IF IsErr(r.v) THEN [v |-> out, e |-> r.e, err |-> <<r.v>>]
          ELSE ScanV(f, r.v, Tail(s), r.e, first, Append(out, r.v))

EvDo(b, i, e) ==
  IF b = <<>> THEN Out(Null, e)
  ELSE LET r == Ev(b[i], e)
       IN IF IsErr(r.v) \/ i = Len(b) THEN r ELSE EvDo(b, i + 1, r.e)

\* and / or of booleans, element-wise
EvBool(a, i, e, f) ==
  LET r == EvSeq(a, 1, e, <<>>)
      ok(v) == v.t \in {"b8", "B8"}
      n == IF \E k \in 1..Len(r.v) : r.v[k].t = "B8"
           THEN Len(r.v[CHOOSE k \in 1..Len(r.v) : r.v[k].t = "B8"].v) ELSE 0
      at(v, j) == IF v.t = "b8" THEN v.v ELSE v.v[j]
      val(j) == IF f = "and" THEN \A k \in 1..Len(r.v) : at(r.v[k], j) ELSE \E k \in 1..Len(r.v) : at(r.v[k], j)
  IN IF r.err # <<>> THEN Out(r.err[1], r.e)
     ELSE IF \E k \in 1..Len(r.v) : ~ok(r.v[k]) THEN Out(Wild, r.e)
     ELSE IF \A k \in 1..Len(r.v) : r.v[k].t = "b8" THEN Out(Bool(val(1)), r.e)
     ELSE IF \E k \in 1..Len(r.v) : r.v[k].t = "B8" /\ Len(r.v[k].v) # n THEN Out(Wild, r.e)
     ELSE IF \E k \in 1..Len(r.v) : r.v[k].t = "b8" THEN Out(Wild, r.e)
     ELSE Out(Vec("B8", [j \in 1..n |-> val(j)]), r.e)

\* evaluate the columns of a query: a sequence of [k, x]
EvCols(cs, i, e, acc) ==
  IF i > Len(cs) THEN [v |-> acc, e |-> e, err |-> <<>>]
  ELSE LET r == Ev(cs[i].x, e)
       IN IF IsErr(r.v) THEN [v |-> acc, e |-> r.e, err |-> <<r.v>>]
          ELSE EvCols(cs, i + 1, r.e, Append(acc, r.v))

\* An aggregate of one group of a column: the plain aggregate of its rows, for the column types the
\* grouped form supports (the others are refused by the engine); last passes over nulls, first may.
GAggTypes == [f \in AggF |->
  CASE f = "sum" -> {"I64", "F64"}
    [] f \in {"min", "max"} -> {"I16", "I64", "TS", "F64", "DATE", "TIME"}
    [] f = "avg" -> {"I16", "I32", "I64", "F64"}
    [] f = "count" -> {"I32", "DATE", "TIME", "I64", "SYM", "TS", "F64", "LIST"}
    [] f = "first" -> {"I16", "I32", "DATE", "TIME", "I64", "SYM", "TS", "F64"}
    [] f = "last" -> {"I16", "I32", "DATE", "TIME", "I64", "SYM", "TS", "F64"}
    [] f = "dev" -> {"I64"} [] f = "med" -> {"I64"}]
Open1 == [t |-> "ANY", c |-> "value"]      \* any value, but not a refusal
GAgg(f, v) ==
  IF v.t \notin GAggTypes[f] THEN Wild
  ELSE IF f = "first" /\ v.v[1] = NullOf(AtomT[v.t]) THEN (IF \A i \in 1..Len(v.v) : v.v[i] = v.v[1] THEN Agg(f, v) ELSE Open1)
  ELSE IF f = "last"
       THEN LET nn == SelectSeq(v.v, LAMBDA a : a # NullOf(AtomT[v.t])) IN IF nn = <<>> THEN Agg(f, v) ELSE Agg(f, [v EXCEPT !.v = nn])
  ELSE IF f = "dev" /\ (\E i \in 1..Len(v.v) : v.v[i] # NI /\ (v.v[i] > 9 \/ v.v[i] < -9)) THEN Wild
  ELSE Agg(f, v)

\* is the value of x per group specified?  Aggregates of columns, sum/avg/min/max of expressions over
\* columns, and arithmetic and comparison of those; a bare column or an expression over columns.
RECURSIVE RowX(_, _)
RowX(x, t) == CASE x.n = "var" -> HasCol(t, x.s)
                [] x.n = "lit" -> IsAtom(x.v)
                [] x.n = "op" -> x.f \in {"+", "-", "*"} /\ \A i \in 1..Len(x.a) : RowX(x.a[i], t)
                [] OTHER -> FALSE
RECURSIVE GOk(_, _)
GOk(x, t) == CASE x.n = "var" -> TRUE
               [] x.n = "lit" -> IsAtom(x.v)
               [] x.n = "op" ->
                    IF x.f \in AggF
                    THEN IF x.a[1].n = "var" THEN HasCol(t, x.a[1].s)
                         ELSE x.f \in {"sum", "avg", "min", "max"} /\ RowX(x.a[1], t)
                    ELSE x.f \in {"+", "-", "*"} /\ \A i \in 1..Len(x.a) : GOk(x.a[i], t)
               [] OTHER -> FALSE
RECURSIVE GEv(_, _, _)
GEv(x, t, e) ==
  IF x.n = "op" /\ x.f \in AggF /\ Len(x.a) = 1 /\ x.a[1].n = "var" /\ HasCol(t, x.a[1].s)
  THEN Out(GAgg(x.f, Col(t, x.a[1].s)), e)
  ELSE IF x.n = "op" /\ x.f \in {"+", "-", "*"} /\ Len(x.a) = 2
  THEN LET p == GEv(x.a[1], t, e)  q == GEv(x.a[2], t, p.e)
       IN IF IsErr(p.v) THEN p ELSE IF IsErr(q.v) THEN q
          ELSE IF p.v.t = "ANY" \/ q.v.t = "ANY" THEN Out(Wild, q.e) ELSE Out(Op(x.f, <<p.v, q.v>>), q.e)
  ELSE LET r == Ev(x, TabEnv(t, e)) IN Out(r.v, [r.e EXCEPT !.c = e.c])

\* key types grouping supports: one column, or several; a table of several partitions is grouped by their dates
GroupKeysOk(ks, q) == "part" \in DOMAIN q \/ LET all == {"B8", "U8", "C8", "I64", "SYM", "TS"} \cup (IF Len(ks) > 1 THEN {"I16", "I32", "DATE", "TIME"} ELSE {})
              IN \A i \in 1..Len(ks) : ks[i].t \in all

\* the first values of the groups; a first value that is null may be passed over
HeadsOf(v) == IF v.t \in {"B8", "U8", "C8", "LIST"} THEN Open1
              ELSE IF v.t # "ANY" /\ \E i \in 1..Len(v.v) : v.v[i] = NullOf(AtomT[v.t]) THEN Open1 ELSE v

\* evaluate x once per group of rows
EvGroups(x, t, gs, e) ==
  IF ~GOk(x, t) THEN [v |-> <<Wild>>, err |-> <<>>]
  ELSE LET vs == [i \in 1..Len(gs) |-> GEv(x, TabPick(t, gs[i]), e).v]
           errs == SelectSeq(vs, IsErr)
       IN [v |-> vs, err |-> IF errs = <<>> THEN <<>> ELSE <<errs[1]>>]

\* columns of one result: atoms repeat to the common length
Broadcast(names, vs) ==
  LET seqs == {i \in 1..Len(vs) : IsSeq(vs[i])}
      n == IF seqs = {} THEN 1 ELSE Len(vs[CHOOSE i \in seqs : TRUE].v)
  IN IF HasWild(vs) THEN Wild
     ELSE IF \E i \in 1..Len(vs) : ~IsSeq(vs[i]) /\ ~IsAtom(vs[i]) THEN Wild
     ELSE IF \E i \in seqs : Len(vs[i].v) # n THEN Err("*")
     ELSE Table(names, [i \in 1..Len(vs) |-> IF IsSeq(vs[i]) THEN vs[i] ELSE Vec(VecT[vs[i].t], [j \in 1..n |-> vs[i].v])])

Names(cs) == [i \in 1..Len(cs) |-> cs[i].k]

(* Window joins.  The right rows whose keys but the last equal those of the left row form its group, in
   time order (rows of one time in their order in the table).  window-join1 takes the rows of the group
   within the window, bounds included; window-join also the row prevailing when the window opens: the
   last one not after its lower bound.  The aggregates are those of the rows taken; nothing taken gives
   a null (a count of nothing: 0; a bare column: no rows). *)
W32 == {"I32", "DATE", "TIME"}
WinRows(f, lk, rk, rt, ord, lo, hi) ==     \* per left row; ord: the right rows in time order
  [i \in 1..Len(lo) |->
     LET grp == SelectSeq(ord, LAMBDA j : \A h \in 1..Len(lk) : rk[h][j] = lk[h][i])
         old == Len(SelectSeq(grp, LAMBDA j : rt[j] <= lo[i]))
     IN IF f = "window-join1" THEN SelectSeq(grp, LAMBDA j : rt[j] >= lo[i] /\ rt[j] <= hi[i])
        ELSE SelectSeq(SubSeq(grp, IF old = 0 THEN 1 ELSE old, Len(grp)), LAMBDA j : rt[j] <= hi[i])]
EmptyAgg(f, v) == IF v.t \notin GAggTypes[f] THEN Wild
                  ELSE IF f = "count" THEN [t |-> "i64", v |-> 0]
                  ELSE IF f \in {"avg", "dev", "med"} THEN [t |-> "f64", v |-> NI]
                  ELSE [t |-> AtomT[v.t], v |-> NullOf(AtomT[v.t])]
RECURSIVE WEv(_, _, _)
WEv(x, t, e) ==
  IF Len1(t) > 0 THEN GEv(x, t, e)
  ELSE IF x.n = "op" /\ x.f \in AggF /\ Len(x.a) = 1 /\ x.a[1].n = "var" /\ HasCol(t, x.a[1].s)
  THEN Out(EmptyAgg(x.f, Col(t, x.a[1].s)), e)
  ELSE IF x.n = "op" /\ x.f \in {"+", "-", "*"} /\ Len(x.a) = 2
  THEN LET p == WEv(x.a[1], t, e)  q == WEv(x.a[2], t, p.e)
       IN IF IsErr(p.v) THEN p ELSE IF IsErr(q.v) THEN q
          ELSE IF p.v.t = "ANY" \/ q.v.t = "ANY" THEN Out(Wild, q.e) ELSE Out(Op(x.f, <<p.v, q.v>>), q.e)
  ELSE GEv(x, t, e)
EvWindows(x, r, rows, e) ==
  IF ~GOk(x, r) THEN [v |-> <<Wild>>, err |-> <<>>]
  ELSE LET vs == [i \in 1..Len(rows) |-> WEv(x, TabPick(r, rows[i]), e).v]
           errs == SelectSeq(vs, IsErr)
       IN [v |-> vs, err |-> IF errs = <<>> THEN <<>> ELSE <<errs[1]>>]
WinCols(l, r, cols, rows, e) ==
  LET rcs == [i \in 1..Len(cols) |-> EvWindows(cols[i].x, r, rows, e)]
      bad == {i \in 1..Len(cols) : rcs[i].err # <<>>}
  IN IF bad # {} THEN Out(rcs[CHOOSE i \in bad : \A j \in bad : i <= j].err[1], e)
     ELSE IF \E i \in 1..Len(rcs) : \E j \in 1..Len(rcs[i].v) : rcs[i].v[j] = Wild THEN Out(Wild, e)
     ELSE Out(Table(l.c \o Names(cols),
              l.v \o [i \in 1..Len(rcs) |-> IF HasWild(rcs[i].v) THEN Wild ELSE Collapse(rcs[i].v)]), e)
WindowJoin(f, ks, iv, l, r, cols, e) ==
  IF ks.t # "SYM" \/ ~IsList(iv) \/ ~IsTab(l) \/ ~IsTab(r) THEN Out(Err("*"), e)
  ELSE IF cols = <<>> \/ ks.v = <<>> THEN Out(Err("*"), e)
  ELSE IF ~KeysOk(ks, l, r) THEN Out(Wild, e)
  ELSE LET nl == Len1(l)
           tt == Col(l, ks.v[Len(ks.v)]).t
       IN IF tt \notin W32 \/ Len(iv.v) # 2 THEN Out(Err("*"), e)
          ELSE IF \E h \in 1..2 : iv.v[h].t \notin W32 THEN Out(Err("*"), e)
          ELSE IF \E h \in 1..2 : Len(iv.v[h].v) # nl THEN Out(Err("*"), e)
          ELSE IF nl = 0 \/ (\E i \in 1..Len(cols) : HasCol(l, cols[i].k)) THEN Out(Wild, e)
          ELSE LET rt == Col(r, ks.v[Len(ks.v)]).v
                   key(t) == [h \in 1..(Len(ks.v) - 1) |-> Col(t, ks.v[h]).v]
                   ords == {SortSeq(Range1(Len1(r)), LAMBDA x, y : rt[x] < rt[y] \/ (rt[x] = rt[y] /\ x < y))}
                   all == {WinRows(f, lk, rk, ti, ord, iv.v[1].v, iv.v[2].v) :
                             lk \in {key(l)}, rk \in {key(r)}, ti \in {rt}, ord \in ords}
               IN CHOOSE o \in {WinCols(l, r, cols, rows, e) : rows \in all} : TRUE

TakeTab(t, n) == IF n.t # "i64" THEN Wild ELSE Take(t, n)

EvSelect(q, e) ==
  LET r0 == Ev(q.from, e)
      t0 == r0.v
      ec == TabEnv(t0, r0.e)
      rw == IF q.wh = <<>> THEN Out(Null, r0.e) ELSE Ev(q.wh[1], ec)
      t1 == IF q.wh = <<>> THEN t0 ELSE TabPick(t0, TrueIds(rw.v.v))
      e1 == [rw.e EXCEPT !.c = e.c]
      n1 == Len1(t1)
      \* by
      rb == EvCols(q.by, 1, TabEnv(t1, e1), <<>>)
      gs == GroupsOf(rb.v, n1)
      heads == [g \in 1..Len(gs) |-> gs[g][1]]
      keyCols == [i \in 1..Len(q.by) |-> Pick(rb.v[i], heads)]
      rcs == [i \in 1..Len(q.cols) |-> EvGroups(q.cols[i].x, t1, gs, e1)]
      badc == {i \in 1..Len(q.cols) : rcs[i].err # <<>>}
      rest == SelectSeq(t1.c, LAMBDA c : ~IsIn(c, Names(q.by)))
      \* no by
      rn == EvCols(q.cols, 1, TabEnv(t1, e1), <<>>)
      res ==
        IF q.by = <<>> /\ q.cols = <<>> THEN t1
        ELSE IF q.by = <<>> THEN (IF rn.err # <<>> THEN rn.err[1] ELSE Broadcast(Names(q.cols), rn.v))
        ELSE IF rb.err # <<>> THEN rb.err[1]
        ELSE IF HasWild(rb.v) THEN Wild
        ELSE IF \E i \in 1..Len(rb.v) : ~IsVec(rb.v[i]) THEN Wild
        ELSE IF \E i \in 1..Len(rb.v) : Len(rb.v[i].v) # n1 THEN Err("*")
        ELSE IF ~GroupKeysOk(rb.v, q) THEN Wild
        ELSE IF q.cols = <<>>
             THEN Table(Names(q.by) \o rest, keyCols \o [i \in 1..Len(rest) |-> HeadsOf(Pick(Col(t1, rest[i]), heads))])
        ELSE IF badc # {} THEN rcs[CHOOSE i \in badc : \A j \in badc : i <= j].err[1]
        ELSE IF n1 = 0 THEN Wild
        ELSE IF \E i \in 1..Len(rcs) : \E j \in 1..Len(rcs[i].v) : rcs[i].v[j] = Wild THEN Wild
        ELSE Table(Names(q.by) \o Names(q.cols),
                   keyCols \o [i \in 1..Len(rcs) |-> IF HasWild(rcs[i].v) THEN Wild ELSE Collapse(rcs[i].v)])
      rt == IF q.tk = <<>> THEN Out(Null, e1) ELSE Ev(q.tk[1], e1)
  IN IF IsErr(t0) \/ t0.t = "ANY" THEN Out(t0, r0.e)
     ELSE IF ~IsTab(t0) THEN Out(Err("*"), r0.e)
     ELSE IF IsErr(rw.v) THEN Out(rw.v, [rw.e EXCEPT !.c = e.c])
     ELSE IF rw.v.t = "ANY" THEN Out(Wild, e1)
     ELSE IF q.wh # <<>> /\ rw.v.t # "B8" THEN Out(Err("*"), e1)
     ELSE IF q.wh # <<>> /\ Len(rw.v.v) # Len1(t0) THEN Out(Wild, e1)
     ELSE IF IsErr(res) \/ res.t = "ANY" THEN Out(res, e1)
     ELSE IF q.tk = <<>> THEN Out(res, e1)
     ELSE IF IsErr(rt.v) THEN rt
     ELSE Out(TakeTab(res, rt.v), e1)

\* assign values nv (a sequence, one per listed row, of element type vt; "" if unknown) to rows ids of column c.
\* part: only some rows are addressed (where or by), so a column keeps its type
PutCol(t, c, ids, nv, vt, part) ==
  LET n == Len1(t)
      where(r) == FirstIx(r, ids)
      full == Len(ids) = n
      old == Col(t, c)
      nt == IF nv = <<>> THEN vt ELSE nv[1].t
      raw == [r \in 1..n |-> IF where(r) = 0 THEN old.v[r] ELSE nv[where(r)].v]
  IN IF n = 0 THEN Wild
     ELSE IF HasWild(nv) \/ nt = "" \/ \E i \in 1..Len(nv) : ~IsAtom(nv[i]) \/ nv[i].t # nt THEN Wild
     ELSE IF HasCol(t, c)
     THEN IF IsVec(old) /\ ET(old) = nt THEN SetCol(t, c, Vec(old.t, raw))
          ELSE IF ~part /\ full THEN SetCol(t, c, Vec(VecT[nt], [r \in 1..n |-> nv[r].v]))
          ELSE IF ~IsVec(old) \/ nt = "f64" THEN Wild
          ELSE Err("*")
     ELSE IF nt \in {"b8", "u8", "c8", "guid"} /\ ~full THEN Wild
     ELSE SetCol(t, c, Vec(VecT[nt], [r \in 1..n |-> IF where(r) = 0 THEN NullOf(nt) ELSE nv[where(r)].v]))

RECURSIVE PutCols(_, _, _, _, _, _, _)
PutCols(t, cs, ids, vals, vts, part, i) ==
  IF i > Len(cs) \/ t.t = "ANY" \/ IsErr(t) THEN t
  ELSE PutCols(PutCol(t, cs[i].k, ids, vals[i], vts[i], part), cs, ids, vals, vts, part, i + 1)

EvUpdate(q, e) ==
  LET r0 == IF q.q THEN Out(Lookup(q.s, e), e) ELSE Ev(q.from, e)
      t0 == r0.v
      rw == IF q.wh = <<>> THEN Out(Null, r0.e) ELSE Ev(q.wh[1], TabEnv(t0, r0.e))
      ids == IF q.wh = <<>> THEN Range1(Len1(t0)) ELSE TrueIds(rw.v.v)
      t1 == TabPick(t0, ids)
      e1 == [rw.e EXCEPT !.c = e.c]
      rb == EvCols(q.by, 1, TabEnv(t1, e1), <<>>)
      gs == GroupsOf(rb.v, Len(ids))
      rn == EvCols(q.cols, 1, TabEnv(t1, e1), <<>>)
      rcs == [i \in 1..Len(q.cols) |-> EvGroups(q.cols[i].x, t1, gs, e1)]
      badc == {i \in 1..Len(q.cols) : rcs[i].err # <<>>}
      spread(v) == IF IsAtom(v) THEN [j \in 1..Len(ids) |-> v]
                   ELSE IF IsSeq(v) /\ Len(v.v) = Len(ids) THEN Elems(v) ELSE <<Wild>>
      grp(vs) == [j \in 1..Len(ids) |-> vs[CHOOSE g \in 1..Len(gs) : IsIn(j, gs[g])]]
      nt == IF q.by = <<>>
            THEN IF rn.err # <<>> THEN rn.err[1]
                 ELSE PutCols(t0, q.cols, ids, [i \in 1..Len(rn.v) |-> spread(rn.v[i])],
                              [i \in 1..Len(rn.v) |-> IF IsAtom(rn.v[i]) THEN rn.v[i].t ELSE IF IsVec(rn.v[i]) THEN ET(rn.v[i]) ELSE ""],
                              q.wh # <<>>, 1)
            ELSE IF rb.err # <<>> THEN rb.err[1]
            ELSE IF HasWild(rb.v) \/ \E i \in 1..Len(rb.v) : ~IsVec(rb.v[i]) \/ Len(rb.v[i].v) # Len(ids) THEN Wild
            ELSE IF badc # {} THEN rcs[CHOOSE i \in badc : \A j \in badc : i <= j].err[1]
            ELSE PutCols(t0, q.cols, ids, [i \in 1..Len(rcs) |-> grp(rcs[i].v)], [i \in 1..Len(rcs) |-> ""], TRUE, 1)
  IN IF IsErr(t0) \/ t0.t = "ANY" THEN Out(t0, r0.e)
     ELSE IF ~IsTab(t0) THEN Out(Err("*"), r0.e)
     ELSE IF IsErr(rw.v) THEN Out(rw.v, e1)
     ELSE IF q.wh # <<>> /\ rw.v.t # "B8" THEN Out(IF rw.v.t = "ANY" THEN Wild ELSE Err("*"), e1)
     ELSE IF q.wh # <<>> /\ Len(rw.v.v) # Len1(t0) THEN Out(Wild, e1)
     ELSE IF IsErr(nt) THEN Out(nt, e1)
     ELSE IF q.q THEN Out(IF nt.t = "ANY" THEN Wild ELSE Sym(q.s), [e1 EXCEPT !.g = Bind(@, q.s, nt)])
     ELSE Out(nt, e1)

\* an operation on a quoted variable replaces the variable; on a value it yields the new value
InPlace(q, e, F(_)) ==
  LET r0 == IF q.q THEN Out(Lookup(q.s, e), e) ELSE Ev(q.x, e)
      nv == F(r0.v)
  IN IF IsErr(r0.v) THEN r0
     ELSE IF IsErr(nv) THEN Out(nv, r0.e)
     ELSE IF q.q THEN Out(IF nv.t = "ANY" THEN Wild ELSE Sym(q.s), [r0.e EXCEPT !.g = Bind(@, q.s, nv)])
     ELSE Out(nv, r0.e)

Ev(a, e) ==
  CASE a.n = "lit" -> Out(a.v, e)
    [] a.n = "var" -> Out(Lookup(a.s, e), e)
    [] a.n = "fref" -> Out([t |-> "FN", f |-> a.f], e)
    [] a.n = "fn" -> Out(Lambda(a.p, a.b), e)
    [] a.n = "op" -> LET r == EvSeq(a.a, 1, e, <<>>)
                     IN IF r.err # <<>> THEN Out(r.err[1], r.e) ELSE Out(Op(a.f, r.v), r.e)
    [] a.n = "call" -> LET r == EvSeq(a.a, 1, e, <<>>)
                           rf == Ev(a.f, r.e)
                       IN IF r.err # <<>> THEN Out(r.err[1], r.e)
                          ELSE IF IsErr(rf.v) THEN rf ELSE Apply(rf.v, r.v, rf.e)
    [] a.n = "set" -> LET r == Ev(a.x, e)
                      IN IF IsErr(r.v) THEN r ELSE Out(r.v, [r.e EXCEPT !.g = Bind(@, a.s, r.v)])
    [] a.n = "let" -> LET r == Ev(a.x, e)
                      IN IF IsErr(r.v) THEN r ELSE Out(r.v, [r.e EXCEPT !.l = Bind(@, a.s, r.v)])
    [] a.n = "if" -> LET r == Ev(a.a[1], e)
                     IN IF IsErr(r.v) THEN r
                        ELSE IF r.v.t = "ANY" \/ Truth(r.v) = "o" THEN Out(Wild, r.e)
                        ELSE IF Truth(r.v) = "y" THEN Ev(a.a[2], r.e)
                        ELSE IF Len(a.a) = 3 THEN Ev(a.a[3], r.e) ELSE Out(Null, r.e)
    [] a.n = "do" -> EvDo(a.a, 1, e)
    [] a.n = "try" -> LET r == Ev(a.a[1], e)
                      IN IF ~IsErr(r.v) THEN r
                         ELSE LET h == Ev(a.a[2], [r.e EXCEPT !.l = e.l, !.c = e.c])
                              IN IF h.v.t = "LAMBDA" THEN Apply(h.v, <<Wild>>, h.e)
                                 ELSE IF h.v.t = "FN" THEN Out(Wild, h.e) ELSE h
    [] a.n \in {"and", "or"} -> EvBool(a.a, 1, e, a.n)
    [] a.n \in {"map", "pmap"} ->
         LET rf == Ev(a.f, e)  r == EvSeq(a.a, 1, rf.e, <<>>)
             ss == {i \in 1..Len(r.v) : IsSeq(r.v[i])}
             n == Len(r.v[CHOOSE i \in ss : TRUE].v)
             args == [k \in 1..Len(r.v) |-> IF IsSeq(r.v[k]) THEN Elems(r.v[k]) ELSE [i \in 1..n |-> r.v[k]]]
         IN IF r.err # <<>> THEN Out(r.err[1], r.e)
            ELSE IF HasWild(r.v) \/ ~IsFn(rf.v) THEN Out(Wild, r.e)
            ELSE IF \E k \in 1..Len(r.v) : ~IsSeq(r.v[k]) /\ ~IsAtom(r.v[k]) THEN Out(Wild, r.e)
            ELSE IF ss = {} THEN Apply(rf.v, r.v, r.e)
            ELSE IF \E i \in ss : Len(r.v[i].v) # n THEN Out(Err("*"), r.e)
            ELSE IF n = 0 THEN Out(Wild, r.e)
            ELSE LET m == MapRows(rf.v, args, 1, r.e, <<>>)
                 IN IF m.err # <<>> THEN Out(m.err[1], m.e)
                    ELSE IF HasWild(m.v) THEN Out(Wild, m.e) ELSE Out(Collapse(m.v), m.e)
    [] a.n \in {"mapl", "mapr"} ->    \* one side fixed, the other element by element
         LET rf == Ev(a.f, e)  r == EvSeq(a.a, 1, rf.e, <<>>)
         IN IF r.err # <<>> THEN Out(r.err[1], r.e)
            ELSE IF HasWild(r.v) \/ Len(r.v) # 2 THEN Out(Wild, r.e)
            ELSE LET it == IF a.n = "mapl" THEN r.v[1] ELSE r.v[2]
                     fx == IF a.n = "mapl" THEN r.v[2] ELSE r.v[1]
                     n == Len(it.v)
                     el == Elems(it)
                     fxs == [i \in 1..n |-> fx]
                 IN IF ~IsSeq(it) THEN Out(Wild, r.e)
                    ELSE IF n = 0 THEN Out(Wild, r.e)
                    ELSE LET m == MapRows(rf.v, IF a.n = "mapl" THEN <<el, fxs>> ELSE <<fxs, el>>, 1, r.e, <<>>)
                         IN IF m.err # <<>> THEN Out(m.err[1], m.e)
                            ELSE IF HasWild(m.v) THEN Out(Wild, m.e) ELSE Out(Collapse(m.v), m.e)
    [] a.n = "fold" ->
         LET rf == Ev(a.f, e)  r == EvSeq(a.a, 1, rf.e, <<>>)
         IN IF r.err # <<>> THEN Out(r.err[1], r.e)
            ELSE IF HasWild(r.v) \/ rf.v.t # "LAMBDA" THEN Out(Wild, r.e)
            ELSE LET s == r.v[Len(r.v)]
                 IN IF ~IsSeq(s) THEN Out(Wild, r.e)
                    ELSE IF s.v = <<>> THEN Out(Wild, r.e)
                    ELSE IF Len(r.v) = 1 THEN FoldV(rf.v, ElemAt(s, 1), Tail(Elems(s)), r.e)
                    ELSE FoldV(rf.v, r.v[1], Elems(s), r.e)
    [] a.n \in {"foldl", "foldr", "scan", "scanl", "scanr"} ->
         \* fold-left f seq init: f(element, accumulated); fold-right f init seq: f(accumulated, element) of a user
         \* function, f(element, accumulated) of a builtin; scan f seq: f(accumulated, element), starting with the
         \* first element; scan-left f seq init and scan-right f init seq: f(element, accumulated).  Scans give the list of all accumulations.
         LET rf == Ev(a.f, e)  r == EvSeq(a.a, 1, rf.e, <<>>)
         IN IF r.err # <<>> THEN Out(r.err[1], r.e)
            ELSE IF HasWild(r.v) \/ ~IsFn(rf.v) \/ Len(r.v) # (IF a.n = "scan" THEN 1 ELSE 2) THEN Out(Wild, r.e)
            ELSE IF a.n = "scan" /\ rf.v.t # "LAMBDA" THEN Out(Wild, r.e)
            ELSE LET s == IF a.n \in {"foldr", "scanr"} THEN r.v[2] ELSE r.v[1]
                 IN IF ~IsSeq(s) THEN Out(Wild, r.e)
                    ELSE LET el == Elems(s)
                             first == a.n \in {"foldl", "scanl", "scanr"} \/ (a.n = "foldr" /\ rf.v.t # "LAMBDA")
                             scan == a.n \in {"scan", "scanl", "scanr"}
                             init == IF a.n \in {"foldr", "scanr"} THEN r.v[1] ELSE r.v[2]
                         IN IF scan /\ el = <<>> THEN Out(Wild, r.e)
                            ELSE LET m == IF a.n = "scan" THEN ScanV(rf.v, el[1], Tail(el), r.e, first, <<el[1]>>)
                                          ELSE ScanV(rf.v, init, el, r.e, first, <<init>>)
                                 IN IF m.err # <<>> THEN Out(m.err[1], m.e)
                                    ELSE IF ~scan THEN Out(m.v[Len(m.v)], m.e)
                                    ELSE IF HasWild(m.v) THEN Out(Wild, m.e)
                                    ELSE Out([t |-> "LIST", v |-> m.v], m.e)
    [] a.n = "apply" ->
         LET rf == Ev(a.f, e)  r == EvSeq(a.a, 1, rf.e, <<>>)
         IN IF r.err # <<>> THEN Out(r.err[1], r.e) ELSE Apply(rf.v, r.v, r.e)
    [] a.n = "sel" -> EvSelect(a, e)
    [] a.n = "upd" -> EvUpdate(a, e)
    [] a.n = "wj" -> LET rr == EvSeq(a.a, 1, e, <<>>)
                     IN IF rr.err # <<>> THEN Out(rr.err[1], rr.e)
                        ELSE IF HasWild(rr.v) THEN Out(Wild, rr.e)
                        ELSE WindowJoin(a.f, rr.v[1], rr.v[2], rr.v[3], rr.v[4], a.cols, rr.e)
    [] a.n = "ins" -> LET rr == Ev(a.r, e)
                      IN IF IsErr(rr.v) THEN rr
                         ELSE InPlace(a, rr.e, LAMBDA t : IF IsErr(t) \/ t.t = "ANY" THEN t
                                                          ELSE IF rr.v.t = "ANY" THEN Wild
                                                          ELSE IF ~IsTab(t) THEN Wild ELSE InsertRows(t, rr.v))
    [] a.n = "ups" -> LET rr == Ev(a.r, e)
                      IN IF IsErr(rr.v) THEN rr
                         ELSE InPlace(a, rr.e, LAMBDA t : IF IsErr(t) \/ t.t = "ANY" THEN t
                                                          ELSE IF rr.v.t = "ANY" THEN Wild
                                                          ELSE IF ~IsTab(t) THEN Wild ELSE UpsertRows(t, a.k, rr.v))
    [] a.n = "alt" -> LET ri == IF a.i = <<>> THEN Out(Null, e) ELSE Ev(a.i[1], e)
                          rv == Ev(a.v, ri.e)
                      IN IF IsErr(ri.v) THEN ri
                         ELSE IF IsErr(rv.v) THEN rv
                         ELSE InPlace(a, rv.e, LAMBDA x : IF IsErr(x) \/ x.t = "ANY" THEN x
                                                         ELSE IF ri.v.t = "ANY" \/ rv.v.t = "ANY" THEN Wild
                                                         ELSE IF a.i = <<>> THEN (IF a.f = "concat" THEN PushOne(x, rv.v) ELSE Op(a.f, <<x, rv.v>>))
                                                         ELSE Alter(x, a.f, ri.v, rv.v))
    [] OTHER -> Out(Wild, e)
=============================================================================
