------------------------------- MODULE Timers -------------------------------
(***************************************************************************)
(* Timers (core/chrono.c, the loop of core/epoll.c): a binary heap in an   *)
(* array ordered by expiry time. The loop runs the callbacks of expired    *)
(* timers, earliest first, and then waits until the next expires. A timer  *)
(* is taken out of the heap while its callback runs, and put back with its *)
(* next expiry time; a callback may add and remove timers, its own also.   *)
(*                                                                         *)
(* Repairs names what was repaired in the code: without one of them the    *)
(* invariants fail ("up": after a removal the timer moved into the gap may *)
(* have to rise; "id": the number returned is the timer's; "self": a timer *)
(* removed by its own callback is not put back; "inf": a timer without an  *)
(* end is put back; "grow": the array grows).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Tics, Nums, MaxAdds, MaxNow, Cap0, Repairs
None == [id |-> -1, tic |-> 0, exp |-> 0, num |-> 0]
VARIABLES heap, cap, cur, now, ctr,     \* the code's state
          live                          \* what was promised: the timers that exist
vars == <<heap, cap, cur, now, ctr, live>>
Swap(h, i, j) == [h EXCEPT ![i] = h[j], ![j] = h[i]]
RECURSIVE Up(_, _), Down(_, _)
Up(h, i) == IF i > 1 /\ h[i \div 2].exp > h[i].exp THEN Up(Swap(h, i, i \div 2), i \div 2) ELSE h
Down(h, i) == LET l == 2 * i
                  r == 2 * i + 1
                  a == IF l <= Len(h) /\ h[l].exp < h[i].exp THEN l ELSE i
                  m == IF r <= Len(h) /\ h[r].exp < h[a].exp THEN r ELSE a
              IN IF m = i THEN h ELSE Down(Swap(h, i, m), m)
Room(h) == Len(h) < cap \/ "grow" \in Repairs
Push(h, t) == IF Room(h) THEN Up(Append(h, t), Len(h) + 1) ELSE h
Pop(h) == LET g == [h EXCEPT ![1] = h[Len(h)]] IN IF Len(h) = 1 THEN <<>> ELSE Down(SubSeq(g, 1, Len(h) - 1), 1)
Remove(h, i) == LET g == SubSeq([h EXCEPT ![i] = h[Len(h)]], 1, Len(h) - 1)
                IN IF i > Len(g) THEN g
                   ELSE IF "up" \in Repairs THEN Down(Up(g, i), i) ELSE Down(g, i)
At(h, id) == {i \in DOMAIN h : h[i].id = id}
Init == heap = <<>> /\ cap = Cap0 /\ cur = None /\ now = 0 /\ ctr = 0 /\ live = <<>>
Add == \E tic \in Tics, num \in Nums :
          LET t == [id |-> ctr, tic |-> tic, exp |-> now + tic, num |-> num]
              h == Push(heap, t)
              \* without "id" the position before rising is what was returned
              name == IF "id" \in Repairs THEN ctr ELSE Len(heap)
          IN /\ ctr < MaxAdds
             /\ (tic = 0 => num > 0)
             /\ heap' = h /\ cap' = (IF Len(heap) = cap /\ "grow" \in Repairs THEN 2 * cap ELSE cap)
             /\ ctr' = ctr + 1
             /\ live' = Append(live, [name |-> name, tic |-> tic, exp |-> now + tic, num |-> num])
             /\ UNCHANGED <<cur, now>>
Names == {live[k].name : k \in DOMAIN live}
Drop(k) == SubSeq(live, 1, k - 1) \o SubSeq(live, k + 1, Len(live))
Del == \E k \in DOMAIN live :
          LET id == live[k].name
          IN /\ IF cur # None /\ cur.id = id /\ "self" \in Repairs
                THEN cur' = [cur EXCEPT !.num = 0, !.tic = -1] /\ UNCHANGED heap
                ELSE /\ heap' = (IF At(heap, id) = {} \/ ("id" \notin Repairs /\ id >= Len(heap)) THEN heap ELSE Remove(heap, CHOOSE i \in At(heap, id) : TRUE))
                     /\ UNCHANGED cur
             /\ live' = Drop(k)
             /\ UNCHANGED <<cap, now, ctr>>
\* the loop: an expired timer's callback begins ...
Fire == /\ cur = None /\ heap # <<>> /\ heap[1].exp <= now
        /\ cur' = heap[1] /\ heap' = Pop(heap)
        /\ UNCHANGED <<cap, now, ctr, live>>
\* ... and ends
Again(t) == IF "inf" \in Repairs THEN t.tic # -1 /\ (t.num = 0 \/ t.num > 1) ELSE t.num > 1
Fired == /\ cur # None
         /\ LET n == [cur EXCEPT !.num = IF @ = 0 THEN 0 ELSE @ - 1, !.exp = @ + cur.tic]
                ks == {k \in DOMAIN live : live[k].name = cur.id}
            IN /\ heap' = (IF Again(cur) THEN Push(heap, n) ELSE heap)
               /\ cap' = (IF Again(cur) /\ Len(heap) = cap /\ "grow" \in Repairs THEN 2 * cap ELSE cap)
               /\ live' = (IF ks = {} THEN live
                           ELSE LET k == CHOOSE k \in ks : TRUE
                                IN IF live[k].num = 1 THEN Drop(k)
                                   ELSE [live EXCEPT ![k].exp = @ + live[k].tic, ![k].num = IF @ = 0 THEN 0 ELSE @ - 1])
         /\ cur' = None
         /\ UNCHANGED <<now, ctr>>
\* nothing has expired: the loop waits, and is woken at the time or earlier (by input)
Wait == /\ cur = None /\ (heap # <<>> => heap[1].exp > now) /\ now < MaxNow
        /\ \E d \in 0..2 : now + d <= MaxNow /\ now' = now + d
        /\ UNCHANGED <<heap, cap, cur, ctr, live>>
Next == Add \/ Del \/ Fire \/ Fired \/ Wait
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Bag(s, f(_)) == {<<f(s[i]), Cardinality({j \in DOMAIN s : f(s[j]) = f(s[i])})>> : i \in DOMAIN s}
Full == heap \o (IF cur # None /\ cur.tic # -1 THEN <<cur>> ELSE <<>>)
\* exactly the timers that exist are waiting, with their times
Same == cur = None => Bag(heap, LAMBDA t : <<t.exp, t.tic, t.num>>) = Bag(live, LAMBDA t : <<t.exp, t.tic, t.num>>)
\* the array is a heap; so the timer run next, and the time waited for, is the earliest
Ordered == \A i \in DOMAIN heap : i > 1 => heap[i \div 2].exp <= heap[i].exp
Earliest == heap # <<>> => \A i \in DOMAIN heap : heap[1].exp <= heap[i].exp
\* a number names one timer
Unique == \A i, j \in DOMAIN live : live[i].name = live[j].name => i = j
NamesIt == \A k \in DOMAIN live : \E i \in DOMAIN Full : Full[i].id = live[k].name /\ Full[i].tic = live[k].tic
=============================================================================
