----------------------------- MODULE HeapTrace ------------------------------
(***************************************************************************)
(* What any allocator must do, whatever its lists: recorded operations of  *)
(* the engine's allocator are accepted when every block handed out lies    *)
(* apart from all blocks in use, is aligned, keeps its contents until it   *)
(* is given back, and carries them along when reallocated.  Addresses are  *)
(* ranks of the end points among all end points of the session.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, live, skip, nbad
vars == <<i, live, skip, nbad>>

Init == i = 1 /\ live = <<>> /\ skip = FALSE /\ nbad = 0

Apart(e, but) == \A s \in DOMAIN live \ but : e.hi <= live[s].lo \/ live[s].hi <= e.lo
Given(e, but) == /\ e.lo > 0 /\ e.al /\ Apart(e, but)
Hold(e) == (e.s :> [lo |-> e.lo, hi |-> e.hi]) @@ live
Intact(e) == e.bad = <<>>

Ok(e) == /\ Intact(e)
         /\ CASE e.k = "a" -> e.s \notin DOMAIN live /\ Given(e, {})
              [] e.k = "f" -> e.s \in DOMAIN live
              [] e.k = "r" -> e.s \in DOMAIN live /\ Given(e, {e.s}) /\ e.keep
              [] e.k = "end" -> TRUE
              [] OTHER -> TRUE
Eff(e) == CASE e.k \in {"a", "r"} -> Hold(e)
            [] e.k = "f" -> [x \in DOMAIN live \ {e.s} |-> live[x]]
            [] OTHER -> live

Step == LET e == Trace[i]
        IN /\ i' = i + 1
           /\ IF e.k = "reset" THEN live' = <<>> /\ skip' = FALSE /\ UNCHANGED nbad
              ELSE IF skip THEN UNCHANGED <<live, skip, nbad>>
              ELSE IF e.k # "crash" /\ Ok(e) THEN live' = Eff(e) /\ UNCHANGED <<skip, nbad>>
              ELSE live' = live /\ skip' = TRUE /\ nbad' = nbad + 1 /\ PrintT(<<"REJECTED", i, e>>)
Next == i <= Len(Trace) /\ Step
Spec == Init /\ [][Next]_vars
Done == i = Len(Trace) + 1 => PrintT(<<"CONSUMED", Len(Trace), "rejected", nbad>>)
=============================================================================
