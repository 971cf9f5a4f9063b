---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Conformance of recorded engine sessions with the evaluator: each event  *)
(* is one program fragment evaluated by the engine, with the value it      *)
(* yielded and the contents of some variables right after.  The session    *)
(* specification takes the same steps; an event is accepted when the       *)
(* engine's value and variables are the specified ones.                    *)
(*                                                                         *)
(* A rejected event is reported and the rest of its session is skipped (the*)
(* environments have parted); checking goes on with the next session.      *)
(***************************************************************************)
EXTENDS Eval, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Syms  == Trace[1].v
SymTab == [x \in {Syms[i] : i \in 1..Len(Syms)} |-> CHOOSE i \in 1..Len(Syms) : Syms[i] = x]
TraceSymRank(s) == IF s = "0Ns" THEN 0 ELSE SymTab[s]

VARIABLES i, glob, skip, nbad, nwild
vars == <<i, glob, skip, nbad, nwild>>

Init == i = 2 /\ glob = Empty /\ skip = FALSE /\ nbad = 0 /\ nwild = 0

\* how an event compares: exactly, or up to the order of elements
CountIn(v, s) == Cardinality({k \in 1..Len(s) : s[k] = v})
CellEq(t, a, b) == CASE t = "F64" -> Near(a, b) [] t = "LIST" -> Same(a, b) [] OTHER -> a = b
CountLike(t, v, s) == Cardinality({k \in 1..Len(s) : CellEq(t, v, s[k])})
SamePerm(e, g) == IF e.t # g.t THEN e.t = "ANY"
                  ELSE IF IsVec(e) \/ (IsList(e) /\ \A k \in 1..Len(e.v) : e.v[k].t # "ANY")
                  THEN Len(e.v) = Len(g.v) /\ \A k \in 1..Len(e.v) : CountLike(e.t, e.v[k], e.v) = CountLike(e.t, e.v[k], g.v)
                  ELSE IF IsTab(e)        \* the same columns, in any order
                  THEN Len(e.c) = Len(g.c)
                       /\ \A k \in 1..Len(e.c) : \E j \in 1..Len(g.c) : g.c[j] = e.c[k] /\ Same(e.v[k], g.v[j])
                  ELSE Same(e, g)
\* the same table up to the order of its rows
SameRows(e, g) == IF e.t # "TABLE" \/ g.t # "TABLE" THEN Same(e, g)
                  ELSE /\ e.c = g.c
                       /\ \A k \in 1..Len(e.c) : e.v[k].t = "ANY" \/ (e.v[k].t = g.v[k].t /\ Len(e.v[k].v) = Len(g.v[k].v))
                       /\ LET ks == SelectSeq([k \in 1..Len(e.c) |-> k], LAMBDA k : e.v[k].t # "ANY")
                          IN ks = <<>> \/
                             LET n == Len(e.v[ks[1]].v)
                                 same(x, i1, j1) == \A j \in 1..Len(ks) : CellEq(e.v[ks[j]].t, e.v[ks[j]].v[i1], x.v[ks[j]].v[j1])
                                 cnt(x, i1) == Cardinality({j1 \in 1..n : same(x, i1, j1)})
                             IN \A i1 \in 1..n : cnt(e, i1) = cnt(g, i1)
Matches(m, e, g) == IF m = "none" THEN TRUE ELSE IF g.t = "CRASH" THEN FALSE ELSE CASE m = "eq" -> Same(e, g)
                      [] m = "perm" -> SamePerm(e, g)
                      [] m = "rows" -> SameRows(e, g)
                      [] m = "any" -> TRUE

Lookup0(s, g) == IF s \in DOMAIN g THEN g[s] ELSE [t |-> "UNDEF"]
DumpOk(d, g) == \A k \in 1..Len(d) : LET w == Lookup0(d[k].k, g)
                                     IN w.t = "ANY" \/ (w.t = d[k].v.t /\ Same(w, d[k].v)) \/ (IsWideT(w.t) /\ Same(w, d[k].v))

Reset == /\ Trace[i].k = "reset"
         /\ glob' = Empty /\ skip' = FALSE
         /\ UNCHANGED <<nbad, nwild>>

Step == /\ Trace[i].k = "ev"
        /\ IF skip THEN UNCHANGED <<glob, skip, nbad, nwild>>
           ELSE LET ev == Trace[i]
                    r == Ev(ev.x, Env(glob, Empty, Empty))
                    g2 == r.e.l @@ r.e.g        \* at top level let binds a global
                    ok == Matches(ev.m, r.v, ev.r) /\ DumpOk(ev.d, g2)
                IN /\ glob' = g2
                   /\ skip' = ~ok
                   /\ nbad' = IF ok THEN nbad ELSE nbad + 1
                   /\ nwild' = IF r.v.t = "ANY" /\ ev.m # "none" THEN nwild + 1 ELSE nwild
                   /\ (IF ok THEN TRUE ELSE PrintT(<<"REJECTED", ev.id, "value ok", Matches(ev.m, r.v, ev.r), "specified", r.v,
                                     "variables", [k \in 1..Len(ev.d) |-> Lookup0(ev.d[k].k, g2)]>>))
                   /\ (IF r.v.t = "ANY" /\ ev.m # "none" THEN PrintT(<<"OPEN", ev.id>>) ELSE TRUE)

Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ Reset \/ Step

Spec == Init /\ [][Next]_vars

\* the whole trace is consumed (checked by the driver through the state count too)
Done == i = Len(Trace) + 1 => PrintT(<<"CONSUMED", Len(Trace) - 1, "rejected", nbad, "open", nwild>>)
=============================================================================
