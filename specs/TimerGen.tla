------------------------------ MODULE TimerGen ------------------------------
(* Behaviours of Timers for replay: what a program does from outside and from the callbacks. *)
EXTENDS Timers, Json
CONSTANT Depth
VARIABLE hist
gvars == <<vars, hist>>
GInit == Init /\ hist = <<>>
H(e) == hist' = Append(hist, e)
Ev == IF ctr' > ctr THEN LET t == live'[Len(live')] IN <<"add", t.tic, t.num, t.name>>
      ELSE IF now' > now THEN <<"wait", now' - now>>
      ELSE IF cur = None /\ cur' # None THEN <<"fire", cur'.id>>
      ELSE IF cur # None /\ cur' = None THEN <<"fired", cur.id>>
      ELSE IF Len(live') < Len(live) THEN <<"del", CHOOSE n \in {live[k].name : k \in DOMAIN live} : \A k \in DOMAIN live' : live'[k].name # n>>
      ELSE <<"idle">>
GNext == Next /\ H(Ev)
GSpec == GInit /\ [][GNext]_gvars
Out == Len(hist) = Depth => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
