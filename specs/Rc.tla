--------------------------------- MODULE Rc ---------------------------------
(***************************************************************************)
(* Values and who owns them (core/rayforce.c clone_obj, drop_obj, cow_obj; *)
(* core/eval.c's stack; core/env.c's globals).  A value is a cell with a   *)
(* count of its owners; a list owns its items, the stack and the globals   *)
(* own the values they hold.  An operation owns what it takes off the      *)
(* stack; one that fails gives up everything it holds.  A modification     *)
(* works in place on a value with one owner and on a copy otherwise.       *)
(*                                                                         *)
(* Counts: a count is the number of owners.  Reached: a live cell is       *)
(* reached from the stack or a global - hence, between statements, memory  *)
(* in use is a function of what the globals hold: NoLeak, which MemTrace   *)
(* checks on the engine.  Frame: a statement changes no other global.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Cells, Names, Depth,
          DropsOnFail,      \* FALSE: a failing operation forgets what it holds
          CopiesShared,     \* FALSE: a modification works in place on a shared value
          CountsLoads       \* FALSE: reading a global does not count as an owner
None == 0
VARIABLES cell, stack, globals, did
vars == <<cell, stack, globals, did>>
Free == [rc |-> 0, ver |-> 0, kids |-> <<>>]
Live(c) == {x \in Cells : c[x].rc > 0}
Init == cell = [c \in Cells |-> Free] /\ stack = <<>> /\ globals = [n \in Names |-> None] /\ did = <<"init">>

RECURSIVE DropC(_, _)
RECURSIVE DropAll(_, _)
DropC(h, c) == IF c = None THEN h
               ELSE IF h[c].rc > 1 THEN [h EXCEPT ![c].rc = @ - 1]
               ELSE DropAll([h EXCEPT ![c] = Free], h[c].kids)
DropAll(h, s) == IF s = <<>> THEN h ELSE DropAll(DropC(h, Head(s)), Tail(s))
Inc(h, c) == IF c = None THEN h ELSE [h EXCEPT ![c].rc = @ + 1]
RECURSIVE IncAll(_, _)
IncAll(h, s) == IF s = <<>> THEN h ELSE IncAll(Inc(h, Head(s)), Tail(s))
Fresh == {CHOOSE c \in Cells \ Live(cell) : TRUE}
Room == Cells # Live(cell)
Top == stack[Len(stack)]
Front(k) == SubSeq(stack, 1, Len(stack) - k)

New == /\ Room /\ Len(stack) < Depth
       /\ \E c \in Fresh : cell' = [cell EXCEPT ![c] = [rc |-> 1, ver |-> 1, kids |-> <<>>]] /\ stack' = Append(stack, c)
       /\ did' = <<"new">> /\ UNCHANGED globals
Load(n) == /\ globals[n] # None /\ Len(stack) < Depth
           /\ cell' = IF CountsLoads THEN Inc(cell, globals[n]) ELSE cell
           /\ stack' = Append(stack, globals[n]) /\ did' = <<"load", n>> /\ UNCHANGED globals
Store(n) == /\ stack # <<>>
            /\ cell' = DropC(cell, globals[n]) /\ globals' = [globals EXCEPT ![n] = Top]
            /\ stack' = Front(1) /\ did' = <<"store", n>>
Pack == /\ Len(stack) >= 2 /\ Room
        /\ \E c \in Fresh : /\ cell' = [cell EXCEPT ![c] = [rc |-> 1, ver |-> 1, kids |-> <<stack[Len(stack) - 1], Top>>]]
                            /\ stack' = Append(Front(2), c)
        /\ did' = <<"pack">> /\ UNCHANGED globals
Item == /\ stack # <<>> /\ cell[Top].kids # <<>>
        /\ LET k == cell[Top].kids[1] IN cell' = DropC(Inc(cell, k), Top) /\ stack' = Append(Front(1), k)
        /\ did' = <<"item">> /\ UNCHANGED globals
Modify == /\ stack # <<>>
          /\ IF cell[Top].rc = 1 \/ ~CopiesShared
             THEN cell' = [cell EXCEPT ![Top].ver = 1 - @] /\ UNCHANGED stack
             ELSE /\ Room
                  /\ \E c \in Fresh : /\ cell' = DropC([IncAll(cell, cell[Top].kids) EXCEPT ![c] = [rc |-> 1, ver |-> 1 - cell[Top].ver, kids |-> cell[Top].kids]], Top)
                                      /\ stack' = Append(Front(1), c)
          /\ did' = <<"modify">> /\ UNCHANGED globals
Fail == /\ stack # <<>>
        /\ cell' = IF DropsOnFail THEN DropAll(cell, stack) ELSE cell
        /\ stack' = <<>> /\ did' = <<"fail">> /\ UNCHANGED globals
Discard == /\ stack # <<>> /\ cell' = DropC(cell, Top) /\ stack' = Front(1) /\ did' = <<"discard">> /\ UNCHANGED globals
Next == New \/ Pack \/ Item \/ Modify \/ Fail \/ Discard \/ \E n \in Names : Load(n) \/ Store(n)
Spec == Init /\ [][Next]_vars

Refs(c) == Cardinality({j \in 1..Len(stack) : stack[j] = c}) + Cardinality({n \in Names : globals[n] = c})
           + Cardinality({<<x, j>> \in Live(cell) \X (1..2) : j <= Len(cell[x].kids) /\ cell[x].kids[j] = c})
Counts == \A c \in Cells : cell[c].rc = Refs(c)
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {{cell[c].kids[j] : j \in 1..Len(cell[c].kids)} : c \in S} IN IF T = S THEN S ELSE Reach(T)
Roots == ({stack[j] : j \in 1..Len(stack)} \cup {globals[n] : n \in Names}) \ {None}
Reached == Live(cell) = Reach(Roots)
RECURSIVE Val(_, _)
Val(h, c) == IF c = None THEN <<>> ELSE <<h[c].ver, [j \in 1..Len(h[c].kids) |-> Val(h, h[c].kids[j])]>>
Frame == [][\A n \in Names : did' # <<"store", n>> => Val(cell', globals'[n]) = Val(cell, globals[n])]_vars
View == <<cell, stack, globals>>
=============================================================================
