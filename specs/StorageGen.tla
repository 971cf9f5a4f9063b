----------------------------- MODULE StorageGen -----------------------------
(* Behaviours of Storage for replay: which process writes, reads, copies and restarts. *)
EXTENDS MCStorage, Json
VARIABLE hist
gvars == <<vars, hist>>
GInit == Init /\ hist = <<>>
F(f) == f[1]
GNext == /\ ops < MaxOps
         /\ \E p \in Procs :
              \/ \E a \in Paths : \E n \in {RandomElement(1..MaxLen)} : \E v \in {[j \in 1..n |-> RandomElement(Syms)]} :
                   \E f \in {RandomElement({Own(a), Shared})} : Write(p, a, v, f) /\ hist' = Append(hist, <<"write", p, a, v, F(f)>>)
              \/ \E x \in Slots : \E a \in {RandomElement(Paths)} : \E f \in {RandomElement({Own(a), Shared})} :
                   Copy(p, x, a, f) /\ hist' = Append(hist, <<"copy", p, x, a, F(f)>>)
              \/ \E a \in Paths : \E x \in {RandomElement(Slots)} : Read(p, a, x) /\ hist' = Append(hist, <<"read", p, a, x, F(mode[a])>>)
              \/ RandomElement(1..4) = 1 /\ Restart(p) /\ hist' = Append(hist, <<"restart", p>>)
GSpec == GInit /\ [][GNext]_gvars
Out == ops = MaxOps => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
