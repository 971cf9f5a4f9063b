------------------------------ MODULE PoolTrace ------------------------------
(***************************************************************************)
(* What the task pool promises its callers, whatever the schedule: in a    *)
(* run every task added is executed exactly once, between the start of the *)
(* run and its return; the results come back in the order the tasks were   *)
(* added; a run with a failing task returns the error; every run returns,  *)
(* and so does destroying the pool. References held for tasks are given    *)
(* back once.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, ph, n, done, runs, skip, nbad
vars == <<i, ph, n, done, runs, skip, nbad>>
Init == i = 1 /\ ph = "idle" /\ n = 0 /\ done = {} /\ runs = 0 /\ skip = FALSE /\ nbad = 0
Fails(e) == e.fail # <<>>
Ok(e) == CASE e.k = "prep" -> ph = "idle"
           [] e.k = "run" -> ph = "prep" /\ e.id = runs + 1
           [] e.k = "exec" -> ph = "run" /\ e.id \in (0..(n - 1)) \ done
           [] e.k = "res" -> /\ ph = "run" /\ done = 0..(n - 1) /\ ~Fails(e) /\ e.rc = 1
                             /\ e.v = [k \in 1..n |-> runs * 1000000 + k - 1]
           [] e.k = "err" -> ph = "run" /\ done = 0..(n - 1) /\ Fails(e) /\ e.rc = 1
           [] e.k = "gone" -> ph = "idle"
           [] e.k = "end" -> ph \in {"idle", "gone"}
           [] OTHER -> FALSE                     \* hang, crash
Eff(e) == CASE e.k = "prep" -> ph' = "prep" /\ n' = e.id /\ done' = {} /\ runs' = runs
            [] e.k = "run" -> ph' = "run" /\ runs' = runs + 1 /\ UNCHANGED <<n, done>>
            [] e.k = "exec" -> done' = done \cup {e.id} /\ UNCHANGED <<ph, n, runs>>
            [] e.k \in {"res", "err"} -> ph' = "idle" /\ UNCHANGED <<n, done, runs>>
            [] e.k = "gone" -> ph' = "gone" /\ UNCHANGED <<n, done, runs>>
            [] OTHER -> UNCHANGED <<ph, n, done, runs>>
Step == LET e == Trace[i]
        IN /\ i' = i + 1
           /\ IF e.k = "reset" THEN ph' = "idle" /\ n' = 0 /\ done' = {} /\ runs' = 0 /\ skip' = FALSE /\ UNCHANGED nbad
              ELSE IF skip THEN UNCHANGED <<ph, n, done, runs, skip, nbad>>
              ELSE IF Ok(e) THEN Eff(e) /\ UNCHANGED <<skip, nbad>>
              ELSE skip' = TRUE /\ nbad' = nbad + 1 /\ UNCHANGED <<ph, n, done, runs>> /\ PrintT(<<"REJECTED", i, e>>)
Next == i <= Len(Trace) /\ Step
Spec == Init /\ [][Next]_vars
Done == i = Len(Trace) + 1 => PrintT(<<"CONSUMED", Len(Trace), "rejected", nbad>>)
=============================================================================
