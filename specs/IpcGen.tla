-------------------------------- MODULE IpcGen --------------------------------
(* Behaviours of Ipc: what the clients do, and when. Replayed on the real server over loopback. *)
EXTENDS Ipc, Json
CONSTANT Depth
VARIABLES hist, stp
GInit == Init /\ hist = <<>> /\ stp = 0
GNext == /\ stp' = stp + 1
         /\ \/ Server /\ UNCHANGED hist
            \/ \E c \in Clients : \/ Open(c) /\ hist' = Append(hist, <<"open", c>>)
                                  \/ CSend(c) /\ hist' = Append(hist, <<"send", c>>)
                                  \/ CShut(c) /\ hist' = Append(hist, <<"shut", c>>)
                                  \/ CRecv(c) /\ hist' = Append(hist, <<"recv", c>>)
            \/ ~ENABLED Next /\ UNCHANGED <<vars, hist>>
GSpec == GInit /\ [][GNext]_<<vars, hist, stp>>
Out == stp = Depth => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
