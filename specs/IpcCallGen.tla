------------------------------ MODULE IpcCallGen ------------------------------
(* Behaviours of IpcCall: what the peer of a calling engine does, and when. Replayed on the real caller by a scripted peer. *)
EXTENDS IpcCall, Json
CONSTANT Depth
VARIABLE stp
Calm == Call \/ Respond \/ Speak("push") \/ Speak("req") \/ Wake
GNext == stp' = stp + 1 /\ (Calm \/ (stp > 24 /\ (Drop \/ GiveUp)) \/ (~ENABLED Calm /\ UNCHANGED vars))
GSpec == Init /\ stp = 0 /\ [][GNext]_<<vars, stp>>
Out == stp = Depth => PrintT(<<"BEHAVIOUR", ToJson(acts)>>)
=============================================================================
