-------------------------------- MODULE IpcCall --------------------------------
(***************************************************************************)
(* The calling side: a request is sent and the caller waits for its        *)
(* response on a connection that also brings messages of the peer, which   *)
(* it evaluates (answering those that want an answer) while it waits. It   *)
(* may give up waiting. The flags are corrections to the design as found.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Calls, Pushes,
          TellApart,   \* a message that is not a response is not taken for it
          CloseLate    \* giving up ends the connection
VARIABLES conn,  \* "up" "down"
          k,     \* calls made
          waiting,
          res,   \* what the calls returned: the number of the response, 0 for an error
          todo,  \* requests the peer has still to answer
          chan,  \* from the peer: <<kind, number>>
          np,    \* messages the peer has sent by itself
          ev,    \* messages of the peer evaluated by the caller
          ans,   \* answers that reached the peer
          acts   \* what the peer and the caller's patience did (for replay)
vars == <<conn, k, waiting, res, todo, chan, np, ev, ans, acts>>
Init == conn = "up" /\ k = 0 /\ waiting = FALSE /\ res = <<>> /\ todo = <<>> /\ chan = <<>> /\ np = 0 /\ ev = <<>> /\ ans = <<>> /\ acts = <<>>
Call == /\ ~waiting /\ k < Calls /\ k' = k + 1
        /\ IF conn = "up" THEN waiting' = TRUE /\ todo' = Append(todo, k + 1) /\ res' = res
           ELSE waiting' = FALSE /\ res' = Append(res, 0) /\ todo' = todo
        /\ acts' = Append(acts, <<"call", k + 1>>)
        /\ UNCHANGED <<conn, chan, np, ev, ans>>
Respond == /\ todo # <<>> /\ chan' = Append(chan, <<"resp", Head(todo)>>) /\ todo' = Tail(todo)
           /\ acts' = Append(acts, <<"resp", Head(todo)>>)
           /\ UNCHANGED <<conn, k, waiting, res, np, ev, ans>>
Speak(kind) == /\ np < Pushes /\ conn = "up" /\ np' = np + 1 /\ chan' = Append(chan, <<kind, np + 1>>)
               /\ acts' = Append(acts, <<kind, np + 1>>)
               /\ UNCHANGED <<conn, k, waiting, res, todo, ev, ans>>
Drop == /\ conn = "up" /\ conn' = "down" /\ chan' = <<>> /\ todo' = <<>> /\ waiting' = FALSE
        /\ res' = IF waiting THEN Append(res, 0) ELSE res
        /\ acts' = Append(acts, <<"drop", 0>>)
        /\ UNCHANGED <<k, np, ev, ans>>
Wake == /\ waiting /\ chan # <<>> /\ conn = "up"
        /\ LET m == Head(chan) IN
           IF m[1] = "resp" \/ ~TellApart
           THEN res' = Append(res, IF m[1] = "resp" THEN m[2] ELSE -m[2]) /\ waiting' = FALSE /\ UNCHANGED <<ev, ans>>
           ELSE ev' = Append(ev, m[2]) /\ ans' = (IF m[1] = "req" THEN Append(ans, m[2]) ELSE ans) /\ UNCHANGED <<res, waiting>>
        /\ chan' = Tail(chan)
        /\ UNCHANGED <<conn, k, todo, np, acts>>
GiveUp == /\ waiting /\ chan = <<>> /\ todo # <<>> /\ waiting' = FALSE /\ res' = Append(res, 0)
          /\ IF CloseLate THEN conn' = "down" /\ todo' = <<>> ELSE UNCHANGED <<conn, todo>>
          /\ acts' = Append(acts, <<"late", 0>>)
          /\ UNCHANGED <<k, chan, np, ev, ans>>
Next == Call \/ Respond \/ Speak("push") \/ Speak("req") \/ Drop \/ Wake \/ GiveUp
Spec == Init /\ [][Next]_vars
Right == \A j \in 1..Len(res) : res[j] \in {0, j}
InOrder == \A j \in 1..Len(ev) : ev[j] = j
View == <<conn, k, waiting, res, todo, chan, np, ev, ans>>
=============================================================================
