------------------------------ MODULE SymbolsGen ------------------------------
(* Schedules of Symbols: who steps next. Replayed on the real table under its deterministic scheduler. *)
EXTENDS MCSymbols, Json
CONSTANT Depth
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == \/ \E t \in Threads : Step(t) /\ hist' = Append(hist, t)
         \/ Ended /\ UNCHANGED vars /\ hist' = Append(hist, 0)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Out == Len(hist) = Depth => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
