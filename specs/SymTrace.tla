------------------------------ MODULE SymTrace ------------------------------
(***************************************************************************)
(* What the symbol table promises, whoever interns what when: a text is    *)
(* the same symbol for every thread and forever, different texts are       *)
(* different symbols, the name and the length of a symbol are those of its *)
(* text from the moment somebody has it, the empty text is the null        *)
(* symbol, and symbols are numbered without gaps. Every call returns.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, sym, txt, skip, nbad      \* text |-> symbol, symbol |-> text
vars == <<i, sym, txt, skip, nbad>>
None == [x \in {} |-> 0]
Init == i = 1 /\ sym = None /\ txt = None /\ skip = FALSE /\ nbad = 0
Ok(e) == CASE e.k = "sym" -> IF e.wl = 0 THEN e.id = -1 /\ e.name = "" /\ e.len = 0
                             ELSE /\ e.id >= 0 /\ e.name = e.w /\ e.len = e.wl
                                  /\ (e.w \in DOMAIN sym => sym[e.w] = e.id)
                                  /\ (e.id \in DOMAIN txt => txt[e.id] = e.w)
           [] e.k = "name" -> IF e.id = -1 THEN e.name = "" /\ e.len = 0
                              ELSE e.id \in DOMAIN txt /\ e.name = txt[e.id] /\ e.len = e.nl
           [] e.k = "count" -> e.id = Cardinality(DOMAIN sym) /\ DOMAIN txt = 0..(e.id - 1)
           [] e.k = "end" -> TRUE
           [] OTHER -> FALSE                     \* hang, crash
Eff(e) == IF e.k = "sym" /\ e.wl > 0 /\ e.w \notin DOMAIN sym
          THEN sym' = (e.w :> e.id) @@ sym /\ txt' = (e.id :> e.w) @@ txt
          ELSE UNCHANGED <<sym, txt>>
Step == LET e == Trace[i]
        IN /\ i' = i + 1
           /\ IF e.k = "reset" THEN sym' = None /\ txt' = None /\ skip' = FALSE /\ UNCHANGED nbad
              ELSE IF skip THEN UNCHANGED <<sym, txt, skip, nbad>>
              ELSE IF Ok(e) THEN Eff(e) /\ UNCHANGED <<skip, nbad>>
              ELSE skip' = TRUE /\ nbad' = nbad + 1 /\ UNCHANGED <<sym, txt>> /\ PrintT(<<"REJECTED", i, e>>)
Next == i <= Len(Trace) /\ Step
Spec == Init /\ [][Next]_vars
Done == i = Len(Trace) + 1 => PrintT(<<"CONSUMED", Len(Trace), "rejected", nbad>>)
=============================================================================
