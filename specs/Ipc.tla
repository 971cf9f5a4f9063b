---------------------------------- MODULE Ipc ----------------------------------
(***************************************************************************)
(* The server side of message passing: connections, the edge-triggered     *)
(* event loop, reading requests, queueing and sending replies.             *)
(*                                                                         *)
(* A message and a reply travel as chunks; a socket holds at most Cap      *)
(* chunks of replies. The kernel reports an event only when something      *)
(* becomes readable or, after a send found the socket full, writable; what *)
(* the loop is told is then everything the connection is ready for.        *)
(*                                                                         *)
(* Message m of a client: odd ones are synchronous (a reply of Rep chunks),*)
(* even ones asynchronous; clients in Closers close their own handle,      *)
(* twice, with their last message.                                         *)
(*                                                                         *)
(* The four flags are the corrections made to the design as found; with    *)
(* any of them FALSE a property fails.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Clients, N, MsgLen, Rep, Cap, Closers, Shutters,
          Flush,      \* output is tried also when the same event brought input
          KeepQueue,  \* queueing a reply keeps the ones queued before
          ReadHup,    \* input is read before a hang-up is obeyed
          OnceFree    \* closing a closed handle does nothing
VARIABLES ph,      \* of a connection: "new" "open" "shut" (client is through) "gone" (server closed it)
          scnt,    \* chunks the client has sent
          net,     \* chunks on their way to the server
          sock,    \* chunks of replies in the server's socket
          got,     \* chunks of replies the client has read
          h, free, nexth, \* handles: of a connection (0: none), the free ones (a stack), the next new one
          edge,    \* the kernel has something to report
          nospace, \* a send found the socket full
          rx,      \* chunks of the message being read
          tx,      \* queued replies: <<message, chunks already sent>>
          pc,      \* what the loop does: <<"wait">>, <<"read", c, mask>>, <<"write", c, mask>>
          log      \* the messages evaluated: <<client, message>>
vars == <<ph, scnt, net, sock, got, h, free, nexth, edge, nospace, rx, tx, pc, log>>

Init == /\ ph = [c \in Clients |-> "new"] /\ scnt = [c \in Clients |-> 0] /\ net = [c \in Clients |-> 0]
        /\ sock = [c \in Clients |-> <<>>] /\ got = [c \in Clients |-> <<>>]
        /\ h = [c \in Clients |-> 0] /\ free = <<>> /\ nexth = 1
        /\ edge = [c \in Clients |-> FALSE] /\ nospace = [c \in Clients |-> FALSE]
        /\ rx = [c \in Clients |-> 0] /\ tx = [c \in Clients |-> <<>>] /\ pc = <<"wait">> /\ log = <<>>

Sync(m) == m % 2 = 1
Live(c) == ph[c] \in {"open", "shut"}

Open(c) == /\ ph[c] = "new" /\ pc[1] = "wait"
           /\ ph' = [ph EXCEPT ![c] = "open"]
           /\ IF free # <<>> THEN h' = [h EXCEPT ![c] = free[Len(free)]] /\ free' = SubSeq(free, 1, Len(free) - 1) /\ UNCHANGED nexth
              ELSE h' = [h EXCEPT ![c] = nexth] /\ nexth' = nexth + 1 /\ UNCHANGED free
           /\ UNCHANGED <<scnt, net, sock, got, edge, nospace, rx, tx, pc, log>>

CSend(c) == /\ ph[c] = "open" /\ scnt[c] < N * MsgLen
            /\ scnt' = [scnt EXCEPT ![c] = @ + 1] /\ net' = [net EXCEPT ![c] = @ + 1]
            /\ edge' = [edge EXCEPT ![c] = TRUE]
            /\ UNCHANGED <<ph, sock, got, h, free, nexth, nospace, rx, tx, pc, log>>
CShut(c) == /\ ph[c] = "open" /\ c \in Shutters /\ scnt[c] % MsgLen = 0
            /\ ph' = [ph EXCEPT ![c] = "shut"] /\ edge' = [edge EXCEPT ![c] = TRUE]
            /\ UNCHANGED <<scnt, net, sock, got, h, free, nexth, nospace, rx, tx, pc, log>>
CRecv(c) == /\ sock[c] # <<>>
            /\ got' = [got EXCEPT ![c] = Append(@, Head(sock[c]))] /\ sock' = [sock EXCEPT ![c] = Tail(@)]
            /\ edge' = [edge EXCEPT ![c] = @ \/ (nospace[c] /\ Live(c))] /\ nospace' = [nospace EXCEPT ![c] = FALSE]
            /\ UNCHANGED <<ph, scnt, net, h, free, nexth, rx, tx, pc, log>>

\* sending as much of a queue as the socket takes: <<socket, queue, full>>
RECURSIVE Pump(_, _)
Pump(s, q) == IF q = <<>> THEN <<s, q, FALSE>>
              ELSE IF Len(s) >= Cap THEN <<s, q, TRUE>>
              ELSE LET m == q[1][1] k == q[1][2] + 1
                   IN Pump(Append(s, <<m, k>>), IF k = Rep THEN Tail(q) ELSE <<<<m, k>>>> \o Tail(q))
Enqueue(q, m) == IF KeepQueue \/ Len(q) < 2 THEN Append(q, <<m, 0>>) ELSE <<q[1], <<m, 0>>>>

\* the server ends a connection: its handle becomes free (again, if it was before)
Dereg(c) == /\ ph' = [ph EXCEPT ![c] = "gone"] /\ free' = Append(free, h[c]) /\ h' = [h EXCEPT ![c] = 0]
            /\ tx' = [tx EXCEPT ![c] = <<>>] /\ net' = [net EXCEPT ![c] = 0] /\ rx' = [rx EXCEPT ![c] = 0]
            /\ edge' = [edge EXCEPT ![c] = FALSE] /\ nospace' = [nospace EXCEPT ![c] = FALSE]

SWait(c) == /\ pc[1] = "wait" /\ Live(c) /\ edge[c]
            /\ edge' = [edge EXCEPT ![c] = FALSE]
            /\ LET in == net[c] > 0 \/ ph[c] = "shut"
                   out == Len(sock[c]) < Cap
                   hup == ph[c] = "shut"
               IN pc' = <<IF hup /\ ~ReadHup THEN "hup" ELSE IF in THEN "read" ELSE "write", c, out>>
            /\ UNCHANGED <<ph, scnt, net, sock, got, h, free, nexth, nospace, rx, tx, log>>
SHup == /\ pc[1] = "hup" /\ Dereg(pc[2]) /\ pc' = <<"wait">>
        /\ UNCHANGED <<scnt, sock, got, nexth, log>>
SRead == /\ pc[1] = "read" /\ net[pc[2]] > 0
         /\ LET c == pc[2] IN
            IF rx[c] + 1 < MsgLen
            THEN /\ rx' = [rx EXCEPT ![c] = @ + 1] /\ net' = [net EXCEPT ![c] = @ - 1]
                 /\ UNCHANGED <<ph, scnt, sock, got, h, free, nexth, edge, nospace, tx, pc, log>>
            ELSE LET m == Cardinality({k \in 1..Len(log) : log[k][1] = c}) + 1
                 IN /\ log' = Append(log, <<c, m>>)
                    /\ IF c \in Closers /\ m = N
                       THEN /\ Dereg(c) /\ pc' = <<"wait">>
                            /\ UNCHANGED <<scnt, sock, got, nexth>>
                       ELSE /\ rx' = [rx EXCEPT ![c] = 0] /\ net' = [net EXCEPT ![c] = @ - 1]
                            /\ IF Sync(m)
                               THEN LET p == Pump(sock[c], Enqueue(tx[c], m))
                                    IN sock' = [sock EXCEPT ![c] = p[1]] /\ tx' = [tx EXCEPT ![c] = p[2]]
                                       /\ nospace' = [nospace EXCEPT ![c] = @ \/ p[3]]
                               ELSE UNCHANGED <<sock, tx, nospace>>
                            /\ UNCHANGED <<ph, scnt, got, h, free, nexth, edge, pc>>
SReadEnd == /\ pc[1] = "read" /\ net[pc[2]] = 0
            /\ LET c == pc[2] IN
               IF ph[c] = "shut" THEN Dereg(c) /\ pc' = <<"wait">> /\ UNCHANGED <<scnt, sock, got, nexth, log>>
               ELSE /\ pc' = IF Flush THEN <<"write", c, pc[3]>> ELSE <<"wait">>
                    /\ UNCHANGED <<ph, scnt, net, sock, got, h, free, nexth, edge, nospace, rx, tx, log>>
SWrite == /\ pc[1] = "write"
          /\ LET c == pc[2] p == Pump(sock[c], tx[c])
             IN IF pc[3] THEN sock' = [sock EXCEPT ![c] = p[1]] /\ tx' = [tx EXCEPT ![c] = p[2]] /\ nospace' = [nospace EXCEPT ![c] = @ \/ p[3]]
                ELSE UNCHANGED <<sock, tx, nospace>>
          /\ pc' = <<"wait">>
          /\ UNCHANGED <<ph, scnt, net, got, h, free, nexth, edge, rx, log>>
\* the closing message closes its handle once more, through its number
CloseAgain(c) == /\ ~OnceFree /\ pc[1] = "wait" /\ c \in Closers /\ ph[c] = "gone" /\ Len(free) = 1
                 /\ free' = Append(free, free[1])
                 /\ UNCHANGED <<ph, scnt, net, sock, got, h, nexth, edge, nospace, rx, tx, pc, log>>

Server == (\E c \in Clients : SWait(c)) \/ SHup \/ SRead \/ SReadEnd \/ SWrite
Next == Server \/ \E c \in Clients : Open(c) \/ CSend(c) \/ CShut(c) \/ CRecv(c) \/ CloseAgain(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Server)
        /\ \A c \in Clients : WF_vars(Open(c)) /\ WF_vars(CSend(c)) /\ WF_vars(CRecv(c)) /\ WF_vars(SWait(c))

\* ------------------------------------------------------------------ properties
Of(c) == SelectSeq(log, LAMBDA e : e[1] = c)
Ordered == \A c \in Clients : LET s == Of(c) IN Len(s) * MsgLen <= scnt[c] /\ \A k \in 1..Len(s) : s[k][2] = k
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE [k \in 1..(Rep - q[1][2]) |-> <<q[1][1], q[1][2] + k>>] \o Flat(Tail(q))
Replies(c) == LET ms == SelectSeq([k \in 1..Len(Of(c)) |-> k], LAMBDA m : Sync(m) /\ ~(c \in Closers /\ m = N))
              IN Flat([k \in 1..Len(ms) |-> <<ms[k], 0>>])
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Stream == \A c \in Clients : LET o == got[c] \o sock[c]
                             IN IF Live(c) THEN o \o Flat(tx[c]) = Replies(c) ELSE Prefix(o, Replies(c))
Handles == \A c, d \in Clients : c # d /\ Live(c) /\ Live(d) => h[c] # h[d]
Processed == \A c \in Clients : ph[c] = "gone" => Len(Of(c)) * MsgLen = scnt[c] \/ c \in Closers
\* everything sent is evaluated; a client that stays gets every reply
Delivered == <>[](\A c \in Clients : /\ Len(Of(c)) * MsgLen = scnt[c]
                                     /\ (ph[c] = "open" => got[c] = Replies(c)))
=============================================================================
