----------------------------- MODULE TimerTrace -----------------------------
(***************************************************************************)
(* What timers promise: a timer runs its callback when its interval has    *)
(* passed, and again after each further interval, as often as was asked    *)
(* (0: without end) or until it is removed; of several that have expired   *)
(* the earliest runs first; the callback gets the current time; the number *)
(* a timer is given names it and no other, and removing it ends it; the    *)
(* loop never waits past the next expiry, nor while one is due. (Times are *)
(* relative to the start, in units of the session.)                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, ts, now, skip, nbad
vars == <<i, ts, now, skip, nbad>>
Init == i = 1 /\ ts = {} /\ now = 0 /\ skip = FALSE /\ nbad = 0
With(l) == {t \in ts : t.l = l}
Min == CHOOSE m \in {t.exp : t \in ts} : \A t \in ts : m <= t.exp
Ok(e) == CASE e.k = "new" -> e.id \notin {t.id : t \in ts} /\ With(e.l) = {}
           [] e.k = "fire" -> /\ With(e.l) # {}
                              /\ \A t \in With(e.l) : t.exp = Min /\ t.exp <= now
                              /\ e.arg = now
           [] e.k = "del" -> TRUE
           [] e.k = "wait" -> IF ts = {} THEN e.timeout # 0
                              ELSE Min > now /\ 0 < e.timeout /\ e.timeout <= Min - now
           [] e.k = "adv" -> TRUE
           [] e.k = "end" -> TRUE
           [] OTHER -> FALSE                     \* crash, hang, an unexpected result
Eff(e) == CASE e.k = "new" -> ts' = ts \cup {[l |-> e.l, id |-> e.id, tic |-> e.tic, num |-> e.num, exp |-> now + e.tic]} /\ UNCHANGED now
            [] e.k = "fire" -> ts' = (ts \ With(e.l)) \cup {[t EXCEPT !.exp = @ + t.tic, !.num = IF @ = 0 THEN 0 ELSE @ - 1] : t \in {t \in With(e.l) : t.num # 1}} /\ UNCHANGED now
            [] e.k = "del" -> ts' = {t \in ts : t.id # e.id} /\ UNCHANGED now
            [] e.k = "adv" -> now' = now + e.d /\ UNCHANGED ts
            [] OTHER -> UNCHANGED <<ts, now>>
Step == LET e == Trace[i]
        IN /\ i' = i + 1
           /\ IF e.k = "reset" THEN ts' = {} /\ now' = 0 /\ skip' = FALSE /\ UNCHANGED nbad
              ELSE IF skip THEN UNCHANGED <<ts, now, skip, nbad>>
              ELSE IF Ok(e) THEN Eff(e) /\ UNCHANGED <<skip, nbad>>
              ELSE skip' = TRUE /\ nbad' = nbad + 1 /\ UNCHANGED <<ts, now>> /\ PrintT(<<"REJECTED", i, e, now, ts>>)
Next == i <= Len(Trace) /\ Step
Spec == Init /\ [][Next]_vars
Done == i = Len(Trace) + 1 => PrintT(<<"CONSUMED", Len(Trace), "rejected", nbad>>)
=============================================================================
