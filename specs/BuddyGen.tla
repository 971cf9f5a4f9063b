------------------------------ MODULE BuddyGen ------------------------------
(* Behaviours of Buddy as sequences of operations, for replay on the real allocator. *)
EXTENDS Buddy, Json
CONSTANT Depth
VARIABLE hist
Rec(x) == hist' = Append(hist, x)
GInit == Init /\ hist = <<>>
\* one operation of each kind, drawn at random, is on offer at every step; which is taken is drawn by the simulator
Pick1(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Act == {h \in Heaps : Active(h)}
GNext == \/ \E n \in 1..2 : \E h \in Pick1(Act) : \E o \in Pick1(Orders) : Alloc(h, o) /\ Rec([k |-> "a", h |-> h, s |-> NewSlot, o |-> o])
         \/ \E h \in Pick1(Act) : \E s \in Pick1(DOMAIN live) : Free(h, s) /\ Rec([k |-> "f", h |-> h, s |-> s, o |-> 0])
         \/ \E h \in Pick1(Act) : \E s \in Pick1(DOMAIN live) : \E o \in Pick1(Orders) : Shrink(h, s, o) /\ Rec([k |-> "r", h |-> h, s |-> s, o |-> o])
         \/ RandomElement(1..6) = 1 /\ Borrow /\ Rec([k |-> "b", h |-> 0, s |-> 0, o |-> 0])
         \/ RandomElement(1..6) = 1 /\ Merge /\ Rec([k |-> "m", h |-> 0, s |-> 0, o |-> 0])
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Out == Len(hist) = Depth => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
