----------------------------- MODULE FrameTrace -----------------------------
(***************************************************************************)
(* Values are immutable (the frame rule), for every program: the contents  *)
(* of the globals change only by assignment, an assignment changes only    *)
(* its own variable and leaves there what it answered, a failed one        *)
(* changes nothing; and what an expression yields is a function of its text*)
(* and of what the globals hold.                                           *)
(* What a program computes is left open: an event carries the values the   *)
(* engine showed (as text). An alias is an assignment whose expression is  *)
(* another variable.                                                       *)
(*   init  d           the globals, once they are set                      *)
(*   eval  x r d       expression x yielded r; the globals are then d      *)
(*   set   x r d s bad (set v_s ...) answered r                            *)
(*   alter x r d s bad v_s changed through its name                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, mem, known, skip, nbad
vars == <<i, mem, known, skip, nbad>>
Init == i = 1 /\ mem = <<>> /\ known = <<>> /\ skip = FALSE /\ nbad = 0

Key(e) == <<e.x, mem>>
Pure(e) == Key(e) \in DOMAIN known => known[Key(e)] = e.r
Frame(e, s) == Len(e.d) = Len(mem) /\ \A j \in 1..Len(mem) : j # s => e.d[j] = mem[j]

Ok(e) == CASE e.k = "init" -> TRUE
           [] e.k = "eval" -> Frame(e, 0) /\ Pure(e)
           [] e.k = "set" -> IF e.bad THEN Frame(e, 0) /\ Pure(e)
                             ELSE Frame(e, e.s) /\ e.d[e.s] = e.r /\ Pure(e)
           [] e.k = "alter" -> Frame(e, IF e.bad THEN 0 ELSE e.s) /\ Pure(e)
           [] OTHER -> FALSE              \* the engine crashed, or did not answer

Step == LET e == Trace[i]
        IN /\ i' = i + 1
           /\ IF e.k = "reset" THEN mem' = <<>> /\ known' = <<>> /\ skip' = FALSE /\ UNCHANGED nbad
              ELSE IF skip THEN UNCHANGED <<mem, known, skip, nbad>>
              ELSE IF Ok(e) THEN /\ mem' = e.d
                                 /\ known' = IF e.k = "init" THEN known ELSE (Key(e) :> e.r) @@ known
                                 /\ UNCHANGED <<skip, nbad>>
              ELSE skip' = TRUE /\ nbad' = nbad + 1 /\ UNCHANGED <<mem, known>>
                   /\ PrintT(<<"REJECTED", i, e, "globals before", mem, "yielded before",
                               IF e.k \in {"eval", "set", "alter"} /\ Key(e) \in DOMAIN known THEN known[Key(e)] ELSE "-">>)
Next == i <= Len(Trace) /\ Step
Spec == Init /\ [][Next]_vars
Done == i = Len(Trace) + 1 => PrintT(<<"CONSUMED", Len(Trace), "rejected", nbad>>)
=============================================================================
