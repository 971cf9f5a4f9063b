------------------------------ MODULE MemTrace ------------------------------
(***************************************************************************)
(* Memory in use between statements is a function of what the globals hold *)
(* (Rc!Reached): a program whose result is dropped, run again and again,   *)
(* whether it succeeds or fails, leaves as many bytes in use as it found   *)
(* whenever the globals hold what they held. An event is a batch of runs   *)
(* of program p: v stands for the contents of the globals, live for the    *)
(* bytes in use. (Equal contents may be shared differently, so contents    *)
(* are told apart by the program that left them.)                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, known, skip, nbad
vars == <<i, known, skip, nbad>>
Init == i = 1 /\ known = <<>> /\ skip = FALSE /\ nbad = 0
Key(e) == <<e.p, e.v>>
Ok(e) == e.k = "run" /\ (Key(e) \in DOMAIN known => known[Key(e)] = e.live)
Step == LET e == Trace[i]
        IN /\ i' = i + 1
           /\ IF e.k = "reset" THEN known' = <<>> /\ skip' = FALSE /\ UNCHANGED nbad
              ELSE IF skip THEN UNCHANGED <<known, skip, nbad>>
              ELSE IF Ok(e) THEN known' = (Key(e) :> e.live) @@ known /\ UNCHANGED <<skip, nbad>>
              ELSE skip' = TRUE /\ nbad' = nbad + 1 /\ UNCHANGED known
                   /\ PrintT(<<"REJECTED", i, e, IF e.k = "run" /\ Key(e) \in DOMAIN known THEN known[Key(e)] ELSE 0>>)
Next == i <= Len(Trace) /\ Step
Spec == Init /\ [][Next]_vars
Done == i = Len(Trace) + 1 => PrintT(<<"CONSUMED", Len(Trace), "rejected", nbad>>)
=============================================================================
