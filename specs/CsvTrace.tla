------------------------------ MODULE CsvTrace ------------------------------
(* every table read from a text, and every text written for a table, is what the specification says *)
EXTENDS Csv, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, nbad
Init == i = 1 /\ nbad = 0
Ok(e) == e.k = "op" /\ Holds(e)
Says(e) == IF e.k # "op" THEN "-" ELSE CASE e.op = "read" -> ReadCsv(e.a[1], e.a[2], e.a[3]) [] e.op = "written" -> ReadCsv(e.a[1].types, e.a[2], e.a[3]) [] OTHER -> e.a[1]
Step == LET e == Trace[i]
        IN /\ i' = i + 1
           /\ IF e.k = "reset" \/ Ok(e) THEN UNCHANGED nbad
              ELSE nbad' = nbad + 1 /\ PrintT(<<"REJECTED", i, e.x, "expected", Says(e), "observed", e.r>>)
Next == i <= Len(Trace) /\ Step
Spec == Init /\ [][Next]_<<i, nbad>>
Done == i = Len(Trace) + 1 => PrintT(<<"CONSUMED", Len(Trace), "rejected", nbad>>)
=============================================================================
