------------------------------- MODULE IpcTrace -------------------------------
(***************************************************************************)
(* What a server promises the peers connected to it. Each message that     *)
(* counts appends its number to one log in the server; the log read at the *)
(* end opens the trace, and says in which order messages were evaluated.   *)
(*                                                                         *)
(*   sent c id kind a   the last byte of a message was handed to the kernel*)
(*   resp c v n         a response was read: its value, its length         *)
(*   push c v n         another message was read                           *)
(*   eof c, closed c    the server, the client ended the connection        *)
(*   end                the server answers; nothing is left to read        *)
(*                                                                         *)
(* Kinds: call cast who big push bigpush bye kill err junk busy (see Wants)*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, log, pos,   \* position in the log, by message
          conns,         \* by connection: sent messages, responses and pushes read, handle, state
          floor,         \* by message: what was known to be evaluated when it was sent
          seen, skip, nbad
vars == <<i, log, pos, conns, floor, seen, skip, nbad>>
Init == i = 1 /\ log = <<>> /\ pos = <<>> /\ conns = <<>> /\ floor = <<>> /\ seen = 0 /\ skip = FALSE /\ nbad = 0

NewConn == [sent |-> <<>>, nr |-> 0, np |-> 0, h |-> 0, st |-> "open", grace |-> FALSE]
Wants(m) == m.kind \in {"call", "who", "big", "push", "kill", "err", "junk", "fin"}      \* a response
Logged(m) == m.kind # "junk"
Pos(id) == IF id \in DOMAIN pos THEN pos[id] ELSE 0
Reqs(c) == SelectSeq(conns[c].sent, Wants)
IsPush(m, c) == m.kind \in {"push", "bigpush"} /\ m.a[1] = c
\* pushes to a connection, in the order of the log: <<position, message>>
AllSent == UNION {{conns[d].sent[k] : k \in 1..Len(conns[d].sent)} : d \in DOMAIN conns}
PushedTo(c) == LET ms == {m \in AllSent : IsPush(m, c) /\ Pos(m.id) > 0}
               IN {Pos(m.id) : m \in ms}
MsgAt(p) == CHOOSE m \in AllSent : m.id = log[p]
\* connections the server may have closed already
Ended(d) == conns[d].grace \/ \E m \in AllSent : Pos(m.id) > 0 /\ ((m.kind = "bye" /\ \E k \in 1..Len(conns[d].sent) : conns[d].sent[k].id = m.id)
                                                               \/ (m.kind = "kill" /\ m.a[1] = d))
Handles(c) == {conns[d].h : d \in {d \in DOMAIN conns \ {c} : conns[d].st = "open" /\ ~Ended(d)}}

RespOk(e) == /\ e.c \in DOMAIN conns /\ conns[e.c].st \in {"open", "bad"}
             /\ conns[e.c].nr < Len(Reqs(e.c))
             /\ LET m == Reqs(e.c)[conns[e.c].nr + 1] p == Pos(m.id)
                IN /\ Logged(m) => p > 0 /\ Cardinality({q \in PushedTo(e.c) : q <= p}) = conns[e.c].np
                   /\ CASE m.kind \in {"call", "push", "kill", "fin"} -> e.v = p /\ e.n = 1
                        [] m.kind = "who" -> IF conns[e.c].h = 0 THEN e.v > 0 /\ e.v \notin Handles(e.c) ELSE e.v = conns[e.c].h
                        [] m.kind = "big" -> e.v = p /\ e.n = m.a[1]
                        [] m.kind \in {"err", "junk"} -> e.v = -1 /\ e.n = 0
PushOk(e) == /\ e.c \in DOMAIN conns /\ conns[e.c].st \in {"open", "bad"}
             /\ LET ps == PushedTo(e.c)
                    q == {x \in ps : Cardinality({y \in ps : y < x}) = conns[e.c].np}
                IN /\ q # {}
                   /\ LET m == MsgAt(CHOOSE x \in q : TRUE) IN e.v = m.id /\ e.n = (IF m.kind = "bigpush" THEN m.a[2] ELSE 1)
\* a connection ended by the server: by its own message, another's, or because it sent nonsense
EofOk(e) == e.c \in DOMAIN conns /\ (Ended(e.c) \/ conns[e.c].st = "bad")
\* messages of a connection are evaluated in the order they were sent, none left out
Done1(c) == LET s == SelectSeq(conns[c].sent, Logged) ps == [k \in 1..Len(s) |-> Pos(s[k].id)]
                n == Cardinality({k \in 1..Len(s) : ps[k] > 0})
            IN /\ \A k \in 1..Len(s) : (ps[k] > 0) = (k <= n)
               /\ \A k \in 1..(n - 1) : ps[k] < ps[k + 1]
               /\ \A k \in 1..n : ps[k] > floor[s[k].id]
               /\ (conns[c].st = "open" \/ conns[c].grace) => n = Len(s)
Callbacks(e) == LET hs == {e.cb[k] : k \in 1..Len(e.cb)}
                    abs == {IF x < 0 THEN -x ELSE x : x \in hs}
                IN \A h \in abs \cup {conns[c].h : c \in DOMAIN conns} :
                      LET s == SelectSeq(e.cb, LAMBDA x : x = h \/ x = -h)
                      IN h = 0 \/ (/\ \A k \in 1..Len(s) : s[k] = (IF k % 2 = 1 THEN h ELSE -h)
                                   /\ (Len(s) % 2 = 1) = (h = e.ctl \/ \E c \in DOMAIN conns : conns[c].h = h /\ conns[c].st = "open")
                                   /\ Cardinality({c \in DOMAIN conns : conns[c].h = h}) <= (Len(s) + 1) \div 2)
EndOk(e) == /\ \A c \in DOMAIN conns : Done1(c)
            /\ \A c \in DOMAIN conns : conns[c].st = "open" =>
                  conns[c].nr = Len(Reqs(c)) /\ conns[c].np = Cardinality(PushedTo(c))
            /\ Len(log) = Cardinality({log[k] : k \in 1..Len(log)})
            /\ \A k \in 1..Len(log) : \E m \in AllSent : m.id = log[k]
            /\ e.fds = Cardinality({c \in DOMAIN conns : conns[c].st = "open"})
            /\ e.badhs > 0 \/ Callbacks(e)

Ok(e) == CASE e.k = "log" -> log = <<>>
           [] e.k = "open" -> e.c \notin DOMAIN conns
           [] e.k \in {"sent", "shut"} -> e.c \in DOMAIN conns
           [] e.k = "bad" -> e.c \in DOMAIN conns
           [] e.k = "resp" -> RespOk(e)
           [] e.k = "push" -> PushOk(e)
           [] e.k = "eof" -> EofOk(e)
           [] e.k = "closed" -> e.c \in DOMAIN conns
           [] e.k = "end" -> EndOk(e)
           [] OTHER -> FALSE                   \* dead, stuck, garbled
C(c, f, v) == conns' = [conns EXCEPT ![c] = [@ EXCEPT ![f] = v]]
Eff(e) == CASE e.k = "log" -> /\ log' = e.v /\ pos' = [x \in {e.v[k] : k \in 1..Len(e.v)} |-> CHOOSE k \in 1..Len(e.v) : e.v[k] = x]
                              /\ UNCHANGED <<conns, floor, seen>>
            [] e.k = "open" -> conns' = (e.c :> NewConn) @@ conns /\ UNCHANGED <<log, pos, floor, seen>>
            [] e.k = "sent" -> /\ C(e.c, "sent", Append(conns[e.c].sent, [id |-> e.id, kind |-> e.kind, a |-> e.a]))
                               /\ floor' = (e.id :> seen) @@ floor /\ UNCHANGED <<log, pos, seen>>
            [] e.k = "resp" -> LET m == Reqs(e.c)[conns[e.c].nr + 1]
                               IN /\ conns' = [conns EXCEPT ![e.c] = [@ EXCEPT !.nr = @ + 1, !.h = IF m.kind = "who" THEN e.v ELSE @]]
                                  /\ seen' = (IF Pos(m.id) > seen THEN Pos(m.id) ELSE seen) /\ UNCHANGED <<log, pos, floor>>
            [] e.k = "push" -> C(e.c, "np", conns[e.c].np + 1) /\ UNCHANGED <<log, pos, floor, seen>>
            [] e.k = "shut" -> C(e.c, "grace", TRUE) /\ UNCHANGED <<log, pos, floor, seen>>
            [] e.k = "bad" -> C(e.c, "st", "bad") /\ UNCHANGED <<log, pos, floor, seen>>
            [] e.k \in {"eof", "closed"} -> C(e.c, "st", "gone") /\ UNCHANGED <<log, pos, floor, seen>>
            [] OTHER -> UNCHANGED <<log, pos, conns, floor, seen>>
Step == LET e == Trace[i]
        IN /\ i' = i + 1
           /\ IF e.k = "reset" THEN log' = <<>> /\ pos' = <<>> /\ conns' = <<>> /\ floor' = <<>> /\ seen' = 0 /\ skip' = FALSE /\ UNCHANGED nbad
              ELSE IF skip THEN UNCHANGED <<log, pos, conns, floor, seen, skip, nbad>>
              ELSE IF Ok(e) THEN Eff(e) /\ UNCHANGED <<skip, nbad>>
              ELSE skip' = TRUE /\ nbad' = nbad + 1 /\ UNCHANGED <<log, pos, conns, floor, seen>> /\ PrintT(<<"REJECTED", i, e>>)
Next == i <= Len(Trace) /\ Step
Spec == Init /\ [][Next]_vars
Done == i = Len(Trace) + 1 => PrintT(<<"CONSUMED", Len(Trace), "rejected", nbad>>)
=============================================================================
