----------------------------- MODULE IpcCallTrace -----------------------------
(***************************************************************************)
(* What a calling engine promises: the result of each call is the response *)
(* to that call, or an error when the connection ended; messages of the    *)
(* peer that came before a response are evaluated, in order, exactly once, *)
(* and answered if they ask; what is sent arrives complete and in order.   *)
(*                                                                         *)
(*   call id n v m   a request of length n was written; it returned v, of  *)
(*                   length m                                              *)
(*   cast id n v m   an asynchronous message was written                   *)
(*   resp push req   the peer wrote a response, a message, a request       *)
(*   drop late       the peer closed, did not answer in time               *)
(*   end log got     the messages evaluated; the frames the peer received  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, up, ret,     \* connection; the call waiting and what it will return
          said, must,     \* messages of the peer, how many of them have certainly been evaluated
          reqs,           \* those that want an answer
          sent, msent,    \* frames the peer is to receive; how many certainly
          cans, mans,     \* answers due when the last request was written, answers certainly received
          skip, nbad
vars == <<i, up, ret, said, must, reqs, sent, msent, cans, mans, skip, nbad>>
Init == i = 1 /\ up = TRUE /\ ret = <<>> /\ said = <<>> /\ must = 0 /\ reqs = {} /\ sent = <<>> /\ msent = 0 /\ cans = 0 /\ mans = 0 /\ skip = FALSE /\ nbad = 0
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Err == <<-1, 0>>
EndOk(e) == LET ans == SelectSeq(e.got, LAMBDA g : g[1] = "ans")
                rest == SelectSeq(e.got, LAMBDA g : g[1] # "ans")
                want == SelectSeq(e.log, LAMBDA x : x \in reqs)
            IN /\ Prefix(e.log, said) /\ Len(e.log) >= must
               /\ Prefix(rest, sent) /\ Len(rest) >= msent
               /\ Prefix(ans, [k \in 1..Len(want) |-> <<"ans", want[k] * 7, 1>>])
               /\ Len(ans) >= mans
               /\ Len(e.log) = Cardinality({e.log[k] : k \in 1..Len(e.log)})
Ok(e) == CASE e.k = "call" -> ret = <<>> /\ (~up => <<e.v, e.m>> = Err)
           [] e.k = "cast" -> (e.v = 0 /\ e.m = 0) \/ (~up /\ <<e.v, e.m>> = Err)
           [] e.k = "resp" -> up => Len(ret) = 1 /\ ret[1] = (IF e.n = 0 THEN Err ELSE <<1000 + e.id, e.n>>)
           [] e.k \in {"push", "req"} -> TRUE
           [] e.k \in {"drop", "late"} -> (up /\ ret # <<>>) => ret[1] = Err
           [] e.k = "end" -> EndOk(e)
           [] OTHER -> FALSE
Eff(e) == CASE e.k = "call" -> /\ ret' = (IF up THEN <<<<e.v, e.m>>>> ELSE <<>>)
                               /\ sent' = (IF up THEN Append(sent, <<"call", e.id, e.n>>) ELSE sent)
                               /\ cans' = Cardinality({k \in 1..must : said[k] \in reqs}) /\ UNCHANGED <<up, said, must, reqs, msent, mans>>
            [] e.k = "cast" -> sent' = (IF up THEN Append(sent, <<"cast", e.id, e.n>>) ELSE sent) /\ UNCHANGED <<up, ret, said, must, reqs, msent, cans, mans>>
            [] e.k = "resp" -> ret' = <<>> /\ must' = (IF up THEN Len(said) ELSE must) /\ msent' = (IF up THEN Len(sent) ELSE msent) /\ mans' = (IF up THEN cans ELSE mans) /\ UNCHANGED <<up, said, reqs, sent, cans>>
            [] e.k \in {"push", "req"} -> /\ said' = (IF up THEN Append(said, e.id) ELSE said)
                                          /\ reqs' = (IF up /\ e.k = "req" THEN reqs \cup {e.id} ELSE reqs)
                                          /\ UNCHANGED <<up, ret, must, sent, msent, cans, mans>>
            [] e.k \in {"drop", "late"} -> up' = FALSE /\ ret' = <<>> /\ UNCHANGED <<said, must, reqs, sent, msent, cans, mans>>
            [] OTHER -> UNCHANGED <<up, ret, said, must, reqs, sent, msent, cans, mans>>
Step == LET e == Trace[i]
        IN /\ i' = i + 1
           /\ IF e.k = "reset" THEN up' = TRUE /\ ret' = <<>> /\ said' = <<>> /\ must' = 0 /\ reqs' = {} /\ sent' = <<>> /\ msent' = 0 /\ cans' = 0 /\ mans' = 0 /\ skip' = FALSE /\ UNCHANGED nbad
              ELSE IF skip THEN UNCHANGED <<up, ret, said, must, reqs, sent, msent, cans, mans, skip, nbad>>
              ELSE IF Ok(e) THEN Eff(e) /\ UNCHANGED <<skip, nbad>>
              ELSE skip' = TRUE /\ nbad' = nbad + 1 /\ UNCHANGED <<up, ret, said, must, reqs, sent, msent, cans, mans>> /\ PrintT(<<"REJECTED", i, e>>)
Next == i <= Len(Trace) /\ Step
Spec == Init /\ [][Next]_vars
Done == i = Len(Trace) + 1 => PrintT(<<"CONSUMED", Len(Trace), "rejected", nbad>>)
=============================================================================
