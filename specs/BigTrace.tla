------------------------------ MODULE BigTrace ------------------------------
(***************************************************************************)
(* Conformance on columns of any length.  A long variable is p, then q     *)
(* copies of t, then s (vectors, or tables of such columns).  The          *)
(* specification gives the outcome of a program on the long variable from  *)
(* its outcomes on short ones:                                             *)
(*   row    programs that work row by row: the outcome on p, q outcomes on *)
(*          t and the outcome on s, one after another                      *)
(*   aff    aggregates: the outcome on p t^k s for k = 1, 2 determines the *)
(*          one for k = q: constant ("C") or growing by the same amount    *)
(*          with every copy ("A"); k = 3 is evaluated to check that        *)
(*   sort, index, where, group: the defining property of the outcome,      *)
(*          element by element                                             *)
(* so a million rows cost no more than the comparison.                     *)
(***************************************************************************)
EXTENDS SessionTrace, SequencesExt

VARIABLE bigs
O1(f, x) == [n |-> "op", f |-> f, a |-> <<x>>]
bvars == <<vars, bigs>>

CatV(a, b) == [a EXCEPT !.v = a.v \o b.v]
Cat(a, b) == IF IsTab(a) THEN Table(a.c, [k \in 1..Len(a.v) |-> CatV(a.v[k], b.v[k])]) ELSE CatV(a, b)
RECURSIVE Rep(_, _)
Rep(x, k) == IF k = 1 THEN x ELSE Cat(x, Rep(x, k - 1))
Val(b, k) == Cat(b.p, Cat(Rep(b.t, k), b.s))

With(f(_)) == LET e == [n \in DOMAIN bigs |-> f(bigs[n])] IN e @@ glob
On(x, f(_)) == Ev(x, Env(With(f), Empty, Empty)).v
EvK(x, k) == On(x, LAMBDA b : Val(b, k))

\* element j (from 0) of P T^q S
Elt(P, T, S, q, j) == IF j < Len(P) THEN P[j + 1]
                      ELSE IF j < Len(P) + q * Len(T) THEN T[((j - Len(P)) % Len(T)) + 1]
                      ELSE S[j - Len(P) - q * Len(T) + 1]
RowVec(a, b, c, q, g) ==
  LET P == a.v  T == b.v  S == c.v  G == g.v
      lp == Len(P)  lt == Len(T)  ls == Len(S)  m == lp + q * lt
  IN \/ "ANY" \in {a.t, b.t, c.t}
     \/ /\ IsSeq(g) /\ Len(G) = m + ls
        /\ IF a.t = b.t /\ b.t = c.t /\ a.t = g.t
           THEN LET eq(e, h) == CASE g.t = "F64" -> Near(e, h) [] g.t = "LIST" -> Same(e, h) [] OTHER -> e = h
                IN /\ \A j \in 1..lp : eq(P[j], G[j])
                   /\ \A j \in 1..lt : \A k \in 0..q - 1 : eq(T[j], G[lp + k * lt + j])
                   /\ \A j \in 1..ls : eq(S[j], G[m + j])
           ELSE \* lists of one type collapse to vectors, part by part: compare the elements
                /\ \A j \in 1..lp : Same(ElemAt(a, j), ElemAt(g, j))
                /\ \A j \in 1..lt : LET w == ElemAt(b, j) IN \A k \in 0..q - 1 : Same(w, ElemAt(g, lp + k * lt + j))
                /\ \A j \in 1..ls : Same(ElemAt(c, j), ElemAt(g, m + j))
SetOf(s) == {s[k] : k \in 1..Len(s)}
RowOk(a, b, c, q, g) ==
  IF "ANY" \in {a.t, b.t, c.t} THEN TRUE
  ELSE IF "ERR" \in {a.t, b.t, c.t} THEN g.t = "ERR"
  ELSE IF IsTab(a) THEN /\ g.t = "TABLE" /\ Len(g.c) = Len(a.c) /\ SetOf(g.c) = SetOf(a.c) /\ b.c = a.c /\ c.c = a.c
                        /\ \A k \in 1..Len(a.v) : RowVec(a.v[k], b.v[k], c.v[k], q, g.v[ColIx(g, a.c[k])])
  ELSE RowVec(a, b, c, q, g)

\* growth
Ext(e1, e2, q) == IF e1 = NI \/ e2 = NI THEN (IF e1 = e2 THEN NI ELSE IF e1 = NI THEN (q - 1) * e2 ELSE e1) ELSE e1 + (q - 1) * (e2 - e1)
RECURSIVE Grow(_, _, _, _)
Grow(kind, a, b, q) ==
  IF "ANY" \in {a.t, b.t} THEN Wild
  ELSE IF kind = "C" THEN a
  ELSE IF IsAtom(a) THEN Atom(a.t, Ext(a.v, b.v, q))
  ELSE [a EXCEPT !.v = [k \in 1..Len(a.v) |-> IF IsVec(a) THEN Ext(a.v[k], b.v[k], q) ELSE Grow(kind, a.v[k], b.v[k], q)]]
Aff(kinds, r1, r2, q) ==
  IF "ANY" \in {r1.t, r2.t} THEN Wild
  ELSE IF IsErr(r1) THEN r1
  ELSE IF IsTab(r1) THEN Table(r1.c, [k \in 1..Len(r1.c) |-> Grow(kinds[k], r1.v[k], r2.v[k], q)])
  ELSE Grow(kinds[1], r1, r2, q)
AffLaw(kinds, r1, r2, r3) == LET w == Aff(kinds, r1, r2, 3) IN w.t = "ANY" \/ Same(w, r3)

-----------------------------------------------------------------------------
Leq(t, a, b) == IF t = "SYM" THEN SymRank(a) <= SymRank(b) ELSE IF t = "B8" THEN (~a \/ b) ELSE a <= b
\* order of x: idx are all positions, by value and then by position
IndexOk(b, up, g) ==
  LET n == Len(b.p.v) + b.q * Len(b.t.v) + Len(b.s.v)
      P == b.p.v  T == b.t.v  S == b.s.v
      x(j) == Elt(P, T, S, b.q, j)
      ty == b.t.t
  IN /\ g.t = "I64" /\ Len(g.v) = n
     /\ \A k \in 1..n : g.v[k] \in 0..n - 1
     /\ \A k \in 1..n - 1 : LET u == x(g.v[k])  w == x(g.v[k + 1])
                            IN IF u = w THEN g.v[k] < g.v[k + 1]
                               ELSE IF up THEN Leq(ty, u, w) ELSE Leq(ty, w, u)
\* sorted values: in order, each as often as in x
SortOk(b, up, g) ==
  LET n == Len(b.p.v) + b.q * Len(b.t.v) + Len(b.s.v)
      vals == {b.p.v[k] : k \in 1..Len(b.p.v)} \cup {b.t.v[k] : k \in 1..Len(b.t.v)} \cup {b.s.v[k] : k \in 1..Len(b.s.v)}
      cnt(v) == CountIn(v, b.p.v) + b.q * CountIn(v, b.t.v) + CountIn(v, b.s.v)
      ord == SetToSortSeq(vals, LAMBDA u, w : u # w /\ (IF up THEN Leq(b.t.t, u, w) ELSE Leq(b.t.t, w, u)))
      at[k \in 0..Len(ord)] == IF k = 0 THEN 0 ELSE at[k - 1] + cnt(ord[k])
  IN /\ g.t = b.t.t /\ Len(g.v) = n
     /\ \A k \in 1..Len(ord) : \A j \in at[k - 1] + 1..at[k] : g.v[j] = ord[k]
\* positions of the true elements of a mask
WhereOk(a, b, c, q, g) ==
  IF "ANY" \in {a.t, b.t, c.t} THEN TRUE
  ELSE LET P == a.v  T == b.v  S == c.v
           cnt == CountIn(TRUE, P) + q * CountIn(TRUE, T) + CountIn(TRUE, S)
           n == Len(P) + q * Len(T) + Len(S)
       IN /\ g.t = "I64" /\ Len(g.v) = cnt
          /\ \A k \in 1..cnt : g.v[k] \in 0..n - 1 /\ Elt(P, T, S, q, g.v[k]) /\ (k = 1 \/ g.v[k - 1] < g.v[k])
\* positions of each value
GroupOk(b, r1, g) ==
  LET P == b.p.v  T == b.t.v  S == b.s.v
      n == Len(P) + b.q * Len(T) + Len(S)
      cnt(v) == CountIn(v, P) + b.q * CountIn(v, T) + CountIn(v, S)
  IN IF r1.t = "ANY" THEN TRUE
     ELSE /\ g.t = "DICT" /\ Same(r1.k, g.k) /\ g.v.t = "LIST" /\ Len(g.v.v) = Len(g.k.v)
          /\ \A h \in 1..Len(g.k.v) :
               LET w == g.v.v[h].v  v == g.k.v[h]
               IN /\ g.v.v[h].t = "I64" /\ Len(w) = cnt(v)
                  /\ \A k \in 1..Len(w) : w[k] \in 0..n - 1 /\ Elt(P, T, S, b.q, w[k]) = v /\ (k = 1 \/ w[k - 1] < w[k])

RowParts(x) == <<On(x, LAMBDA b : b.p), On(x, LAMBDA b : b.t), On(x, LAMBDA b : b.s)>>

\* what is specified, for reports, and whether the outcome is right
Judge(ev) ==
  LET q == ev.q
      m == ev.m
  IN CASE m = "row" -> LET w == RowParts(ev.x) IN [ok |-> RowOk(w[1], w[2], w[3], q, ev.r), law |-> TRUE, open |-> w[2].t = "ANY", w |-> w]
       [] m \in {"aff", "affrows", "affset"} ->
            LET r1 == EvK(ev.x, 1)  r2 == EvK(ev.x, 2)  r3 == EvK(ev.x, 3)
                w == Aff(ev.kinds, r1, r2, q)
            IN [ok |-> Matches(CASE m = "aff" -> "eq" [] m = "affrows" -> "rows" [] m = "affset" -> "perm", w, ev.r), law |-> AffLaw(ev.kinds, r1, r2, r3), open |-> w.t = "ANY", w |-> w]
       [] m \in {"iasc", "idesc"} -> [ok |-> IndexOk(bigs[ev.x.s], m = "iasc", ev.r), law |-> TRUE, open |-> FALSE, w |-> m]
       [] m \in {"asc", "desc"} -> [ok |-> SortOk(bigs[ev.x.s], m = "asc", ev.r), law |-> TRUE, open |-> FALSE, w |-> m]
       [] m = "where" -> LET w == RowParts(ev.x) IN [ok |-> WhereOk(w[1], w[2], w[3], q, ev.r), law |-> TRUE, open |-> w[2].t = "ANY", w |-> w]
       [] m = "group" -> LET r1 == EvK(O1("group", ev.x), 1) IN [ok |-> GroupOk(bigs[ev.x.s], r1, ev.r), law |-> TRUE, open |-> r1.t = "ANY", w |-> r1]

BSet == /\ Trace[i].k = "bset"
        /\ LET ev == Trace[i]
               n == (IF IsTab(ev.t) THEN Len1(ev.p) + ev.q * Len1(ev.t) + Len1(ev.s) ELSE Len(ev.p.v) + ev.q * Len(ev.t.v) + Len(ev.s.v))
               ok == skip \/ Same(Lng(n), ev.r)
           IN /\ bigs' = (ev.s1 :> [p |-> ev.p, t |-> ev.t, s |-> ev.s, q |-> ev.q]) @@ bigs
              /\ skip' = (skip \/ ~ok)
              /\ nbad' = IF ok THEN nbad ELSE nbad + 1
              /\ (IF ok THEN TRUE ELSE PrintT(<<"REJECTED", ev.id, "length", n>>))
        /\ UNCHANGED <<glob, nwild>>

Big == /\ Trace[i].k = "big"
       /\ UNCHANGED <<glob, bigs>>
       /\ IF skip THEN UNCHANGED <<skip, nbad, nwild>>
          ELSE LET ev == Trace[i]
                   j == Judge(ev)
               IN /\ Assert(j.law, <<"the law of growth fails on", ev.id, ev.x>>)
                  /\ skip' = FALSE
                  /\ nbad' = IF j.ok THEN nbad ELSE nbad + 1
                  /\ nwild' = IF j.open THEN nwild + 1 ELSE nwild
                  /\ (IF j.ok THEN TRUE ELSE PrintT(<<"REJECTED", ev.id, "specified", j.w>>))
                  /\ (IF j.open THEN PrintT(<<"OPEN", ev.id>>) ELSE TRUE)

BInit == Init /\ bigs = Empty
BReset == Reset /\ bigs' = Empty
BStep == Step /\ UNCHANGED bigs
BNext == /\ i <= Len(Trace)
         /\ i' = i + 1
         /\ BReset \/ BStep \/ BSet \/ Big
BSpec == BInit /\ [][BNext]_bvars
=============================================================================
