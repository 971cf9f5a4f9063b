------------------------------- MODULE Buddy --------------------------------
(***************************************************************************)
(* Design of the allocator (core/heap.c): one heap per thread, each with   *)
(* free lists by order and stacks of small blocks; a thread works on its   *)
(* own heap only.  The main heap lends blocks to the others before a run   *)
(* (Borrow) and takes everything back after it (Merge).  Blocks are split  *)
(* and merged with their buddies; every block starts with a header, which  *)
(* stays behind, stale, when the block is merged into its left buddy.      *)
(*                                                                         *)
(* CheckOwner = FALSE is the allocator as it was found: a freed block is   *)
(* merged with a free buddy whichever heap lists it.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS K,          \* order of a pool
          Big,        \* largest order (its blocks are pools of their own)
          Slabs,      \* orders below this have stacks of freed blocks
          SlabCap,    \* depth of these stacks
          Workers,    \* number of other heaps
          MaxPools, MaxLive, CheckOwner

VARIABLES hdr,        \* address -> header, where one was ever written
          free,       \* heap -> order -> list of addresses
          slab,       \* heap -> order -> stack of addresses
          foreign,    \* heap -> blocks of other heaps freed here
          live,       \* slot -> [a: address, o: order]: what the program holds
          pools,      \* sequence of orders
          phase,      \* "main" or "run"
          corrupt     \* a block was taken out of a list of another heap

vars == <<hdr, free, slab, foreign, live, pools, phase, corrupt>>

Heaps == 0..Workers
Orders == 0..Big
Pow(o) == 2 ^ o
Span == Pow(Big)
Base(p) == (p - 1) * Span
PoolOf(a) == (a \div Span) + 1
PoolOrder(a) == pools[PoolOf(a)]
BuddyOf(a, o) == LET off == a % Span IN IF (off \div Pow(o)) % 2 = 0 THEN a + Pow(o) ELSE a - Pow(o)
NoHdr == [used |-> FALSE, o |-> -1, h |-> 0]
Hdr(f, a) == IF a \in DOMAIN f THEN f[a] ELSE NoHdr
Remove(s, x) == SelectSeq(s, LAMBDA y : y # x)
Has(s, x) == \E k \in 1..Len(s) : s[k] = x

Init == /\ hdr = <<>> /\ live = <<>> /\ pools = <<>>
        /\ free = [h \in Heaps |-> [o \in Orders |-> <<>>]]
        /\ slab = [h \in Heaps |-> [o \in Orders |-> <<>>]]
        /\ foreign = [h \in Heaps |-> <<>>]
        /\ phase = "main" /\ corrupt = FALSE

\* the pieces cut off when a block of order i at a is split down to order o
RECURSIVE Split(_, _, _, _, _)
Split(f, hd, h, a, io) ==
  LET o == io[1]  i == io[2]
  IN IF i = o THEN <<f, hd>>
     ELSE LET b == a + Pow(i - 1)
          IN Split([f EXCEPT ![h][i - 1] = <<b>> \o @], (b :> [used |-> FALSE, o |-> i - 1, h |-> h]) @@ hd, h, a, <<o, i - 1>>)

NewSlot == CHOOSE s \in 1..MaxLive : s \notin DOMAIN live
Give(s, a, o) == live' = (s :> [a |-> a, o |-> o]) @@ live
Taken(hd, h, a, o) == (a :> [used |-> TRUE, o |-> o, h |-> h]) @@ hd

\* allocation of order o on heap h into slot s (of the slots free in lv)
Fit(h, o) == {i \in o..Big : free[h][i] # <<>>}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

Alloc(h, o) ==
  /\ Cardinality(DOMAIN live) < MaxLive
  /\ UNCHANGED <<foreign, phase, corrupt>>
  /\ IF o < Slabs /\ slab[h][o] # <<>>
     THEN LET a == slab[h][o][Len(slab[h][o])]
          IN /\ slab' = [slab EXCEPT ![h][o] = SubSeq(@, 1, Len(@) - 1)]
             /\ hdr' = Taken(hdr, h, a, o) /\ Give(NewSlot, a, o)
             /\ UNCHANGED <<free, pools>>
     ELSE /\ UNCHANGED slab
          /\ IF Fit(h, o) # {}
             THEN LET i == Min(Fit(h, o))
                      a == free[h][i][1]
                      sp == Split([free EXCEPT ![h][i] = Tail(@)], hdr, h, a, <<o, i>>)
                  IN /\ free' = sp[1] /\ hdr' = Taken(sp[2], h, a, o) /\ Give(NewSlot, a, o)
                     /\ UNCHANGED pools
             ELSE /\ Len(pools) < MaxPools
                  /\ LET po == IF o >= K THEN o ELSE K
                         a == Base(Len(pools) + 1)
                         sp == Split(free, hdr, h, a, <<o, po>>)
                     IN /\ pools' = Append(pools, po)
                        /\ free' = sp[1] /\ hdr' = Taken(sp[2], h, a, o) /\ Give(NewSlot, a, o)

\* merging a freed block upwards: the lists, the headers, whether a foreign list was touched
Insert(st, h, a, o) == [st EXCEPT !.f[h][o] = <<a>> \o @, !.hd = (a :> [used |-> FALSE, o |-> o, h |-> h]) @@ @]
RECURSIVE Coalesce(_, _, _, _)
Coalesce(st, h, a, o) ==
  IF o = PoolOrder(a) THEN Insert(st, h, a, o)
  ELSE LET b == BuddyOf(a, o)
           hb == Hdr(st.hd, b)
       IN IF hb.used \/ hb.o # o \/ (CheckOwner /\ hb.h # h) THEN Insert(st, h, a, o)
          ELSE Coalesce([st EXCEPT !.f[h][o] = Remove(@, b), !.c = @ \/ ~Has(st.f[h][o], b)], h, IF b < a THEN b ELSE a, o + 1)
St == [f |-> free, hd |-> hdr, c |-> corrupt]

FreeBlock(h, a, o) ==
  IF o < Slabs /\ (h = 0 \/ hdr[a].h = h) /\ Len(slab[h][o]) < SlabCap
  THEN /\ slab' = [slab EXCEPT ![h][o] = Append(@, a)] /\ UNCHANGED <<free, hdr, foreign, corrupt>>
  ELSE IF h # 0 /\ hdr[a].h # h
  THEN /\ foreign' = [foreign EXCEPT ![h] = <<a>> \o @] /\ UNCHANGED <<free, hdr, slab, corrupt>>
  ELSE LET r == Coalesce(St, h, a, o)
       IN /\ free' = r.f /\ hdr' = r.hd /\ corrupt' = r.c /\ UNCHANGED <<slab, foreign>>

Without(s) == [x \in DOMAIN live \ {s} |-> live[x]]
Free(h, s) == /\ s \in DOMAIN live
              /\ FreeBlock(h, live[s].a, live[s].o)
              /\ live' = Without(s)
              /\ UNCHANGED <<pools, phase>>

\* shrinking in place (growing is an allocation, a copy and a free)
Shrink(h, s, o) == /\ s \in DOMAIN live /\ o < live[s].o
                   /\ h = 0 \/ hdr[live[s].a].h = h
                   /\ LET a == live[s].a
                          sp == Split(free, hdr, h, a, <<o, live[s].o>>)
                      IN /\ free' = sp[1]
                         /\ hdr' = (a :> [sp[2][a] EXCEPT !.o = o]) @@ sp[2]
                         /\ live' = [live EXCEPT ![s].o = o]
                   /\ UNCHANGED <<slab, foreign, pools, phase, corrupt>>

RECURSIVE Lend(_, _)
Lend(st, ws) ==
  IF ws > Workers THEN st
  ELSE LET can(o) == Len(st.f[0][o]) >= 2 /\ (o < K \/ PoolOrder(st.f[0][o][1]) = o)
           half(o) == Len(st.s[0][o]) \div 2
           n(o) == IF half(o) < SlabCap - Len(st.s[ws][o]) THEN half(o) ELSE SlabCap - Len(st.s[ws][o])
           m0 == [o \in Orders |-> IF can(o) THEN Tail(st.f[0][o]) ELSE st.f[0][o]]
           mw == [o \in Orders |-> IF can(o) THEN <<st.f[0][o][1]>> \o st.f[ws][o] ELSE st.f[ws][o]]
           s0 == [o \in Orders |-> SubSeq(st.s[0][o], 1, Len(st.s[0][o]) - n(o))]
           sw == [o \in Orders |-> st.s[ws][o] \o SubSeq(st.s[0][o], Len(st.s[0][o]) - n(o) + 1, Len(st.s[0][o]))]
           lent == {st.f[0][o][1] : o \in {p \in Orders : can(p)}}
       IN Lend([f |-> [st.f EXCEPT ![0] = m0, ![ws] = mw], s |-> [st.s EXCEPT ![0] = s0, ![ws] = sw],
                hd |-> [a \in DOMAIN st.hd |-> IF a \in lent THEN [st.hd[a] EXCEPT !.h = ws] ELSE st.hd[a]]], ws + 1)
Borrow == /\ phase = "main" /\ phase' = "run"
          /\ LET r == Lend([f |-> free, s |-> slab, hd |-> hdr], 1)
             IN free' = r.f /\ slab' = r.s /\ hdr' = r.hd
          /\ UNCHANGED <<foreign, live, pools, corrupt>>

\* taking back: small blocks (as far as they fit), foreign blocks (freed), free lists (put in front)
RECURSIVE TakeForeign(_, _)
TakeForeign(st, fs) ==
  IF fs = <<>> THEN st
  ELSE LET a == fs[1]
           o == st.hd[a].o
           st2 == [st EXCEPT !.hd = (a :> [st.hd[a] EXCEPT !.h = 0]) @@ @]
       IN TakeForeign(IF o < Slabs /\ Len(st2.s[0][o]) < SlabCap THEN [st2 EXCEPT !.s[0][o] = Append(@, a)]
                      ELSE Coalesce(st2, 0, a, o), Tail(fs))
RECURSIVE TakeBack(_, _)
TakeBack(st, w) ==
  IF w > Workers THEN st
  ELSE LET room(o) == SlabCap - Len(st.s[0][o])
           keep(o) == IF Len(st.s[w][o]) < room(o) THEN Len(st.s[w][o]) ELSE room(o)
           sw(o) == st.s[w][o]
           up(o) == [k \in 1..keep(o) |-> sw(o)[Len(sw(o)) - k + 1]]
           rest(o) == [k \in 1..Len(sw(o)) - keep(o) |-> sw(o)[k]]
           flushed == UNION {{rest(o)[k] : k \in 1..Len(rest(o))} : o \in 0..Slabs - 1}
           s1 == [st EXCEPT !.s[0] = [o \in Orders |-> IF o < Slabs THEN st.s[0][o] \o up(o) ELSE <<>>],
                            !.s[w] = [o \in Orders |-> <<>>],
                            !.f[0] = [o \in Orders |-> IF o < Slabs THEN rest(o) \o st.f[0][o] ELSE st.f[0][o]],
                            !.hd = [a \in DOMAIN st.hd |-> IF a \in flushed THEN [st.hd[a] EXCEPT !.used = FALSE, !.h = 0] ELSE st.hd[a]]]
           s2 == TakeForeign(s1, st.r[w])
           mine == UNION {{s2.f[w][o][k] : k \in 1..Len(s2.f[w][o])} : o \in Orders}
           s3 == [s2 EXCEPT !.f[0] = [o \in Orders |-> s2.f[w][o] \o s2.f[0][o]],
                            !.f[w] = [o \in Orders |-> <<>>],
                            !.r[w] = <<>>,
                            !.hd = [a \in DOMAIN s2.hd |-> IF a \in mine THEN [s2.hd[a] EXCEPT !.h = 0] ELSE s2.hd[a]]]
       IN TakeBack(s3, w + 1)
Merge == /\ phase = "run" /\ phase' = "main"
         /\ LET r == TakeBack([f |-> free, s |-> slab, hd |-> hdr, r |-> foreign, c |-> corrupt], 1)
            IN free' = r.f /\ slab' = r.s /\ hdr' = r.hd /\ foreign' = r.r /\ corrupt' = r.c
         /\ UNCHANGED <<live, pools>>

Active(h) == h = 0 \/ phase = "run"
Next == \/ \E h \in Heaps, o \in Orders : Active(h) /\ Alloc(h, o)
        \/ \E h \in Heaps, s \in DOMAIN live : Active(h) /\ Free(h, s)
        \/ \E h \in Heaps, s \in DOMAIN live, o \in Orders : Active(h) /\ Shrink(h, s, o)
        \/ Borrow \/ Merge
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Units(a, o) == a..a + Pow(o) - 1
LiveBlocks == {[a |-> live[s].a, o |-> live[s].o, w |-> <<"live", s>>] : s \in DOMAIN live}
IdleBlocks == UNION {{[a |-> free[h][o][k], o |-> o, w |-> <<"free", h, o, k>>] : k \in 1..Len(free[h][o])} : h \in Heaps, o \in Orders}
         \cup UNION {{[a |-> slab[h][o][k], o |-> o, w |-> <<"slab", h, o, k>>] : k \in 1..Len(slab[h][o])} : h \in Heaps, o \in Orders}
         \cup UNION {{[a |-> foreign[h][k], o |-> Hdr(hdr, foreign[h][k]).o, w |-> <<"foreign", h, k>>] : k \in 1..Len(foreign[h])} : h \in Heaps}
Blocks == LiveBlocks \cup IdleBlocks

\* no unit of memory is in two places, and none is lost
Disjoint == \A x, y \in Blocks : x.w = y.w \/ Units(x.a, x.o) \cap Units(y.a, y.o) = {}
RECURSIVE SumUnits(_)
SumUnits(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Pow(x.o) + SumUnits(S \ {x})
Complete == SumUnits(Blocks) = LET t[p \in 0..Len(pools)] == IF p = 0 THEN 0 ELSE t[p - 1] + Pow(pools[p]) IN t[Len(pools)]
InPool == \A x \in Blocks : x.a + Pow(x.o) <= Base(PoolOf(x.a)) + Pow(PoolOrder(x.a))
Owned == \A h \in Heaps, o \in Orders : \A k \in 1..Len(free[h][o]) :
           LET d == hdr[free[h][o][k]] IN ~d.used /\ d.o = o /\ d.h = h
NotCorrupt == ~corrupt
\* slots are interchangeable
View == <<hdr, free, slab, foreign, {live[s] : s \in DOMAIN live}, pools, phase, corrupt>>
Home == phase = "main" => \A w \in 1..Workers : /\ foreign[w] = <<>>
                                                /\ \A o \in Orders : free[w][o] = <<>> /\ slab[w][o] = <<>>
=============================================================================
