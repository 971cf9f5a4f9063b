----------------------------- MODULE TextTrace ------------------------------
(* every recorded operation on text gave what the specification says *)
EXTENDS Text, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, nbad
Init == i = 1 /\ nbad = 0
Ok(e) == e.k = "op" /\ Agrees(Result(e.op, e.a), e.r)
Step == LET e == Trace[i]
        IN /\ i' = i + 1
           /\ IF e.k = "reset" \/ Ok(e) THEN UNCHANGED nbad
              ELSE nbad' = nbad + 1 /\ PrintT(<<"REJECTED", i, e.x, "expected", IF e.k = "op" THEN Result(e.op, e.a) ELSE "-", "observed", e.r>>)
Next == i <= Len(Trace) /\ Step
Spec == Init /\ [][Next]_<<i, nbad>>
Done == i = Len(Trace) + 1 => PrintT(<<"CONSUMED", Len(Trace), "rejected", nbad>>)
=============================================================================
