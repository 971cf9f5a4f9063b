------------------------------- MODULE PoolGen -------------------------------
(* Schedules of Pool as found: who steps next. Replayed on the real pool under its deterministic scheduler. *)
EXTENDS Pool, Json
CONSTANT Depth
VARIABLE hist
GRuns == <<2, 3, 4>>
GInit == Init /\ hist = <<>>
GNext == \/ \E t \in T : Step(t) /\ hist' = Append(hist, t)
         \/ Ended /\ UNCHANGED vars /\ hist' = Append(hist, 0)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Out == Len(hist) = Depth => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
