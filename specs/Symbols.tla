------------------------------ MODULE Symbols ------------------------------
(* The symbol table of core/symbols.c: any number of threads intern texts at once. A chain's head is read, the chain
   is searched, and the head is exchanged for a lock if it is still the one that was read; the new node is put in
   front of it. Names live in a pool that grows by pages, its cursor and its committed end moved by atomic steps.
   Dev names a design error: "none" is the design of the engine. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads,
          Work,       \* of every thread: the texts it interns (a text is a number, its length)
          Chains,     \* chains of the table
          Page,       \* by which the pool grows
          Dev         \* "none", "store" (lock without comparing), "count" (number taken in two steps),
                      \* "cursor" (cursor moved in two steps), "early" (node shown before its name), "short" (page too few)
VARIABLES pc, k,      \* of every thread: where, and which of its texts
          head,       \* of every chain: its nodes, newest first
          lock,       \* of every chain
          cnt, cur, end, grow,   \* symbols so far, cursor of the pool, its committed end, whether somebody extends it
          exp, id, pos,          \* of every thread: head read, number and place taken
          mem,        \* place |-> the text stored there
          name,       \* symbol |-> place
          res,        \* answers: <<thread, text, symbol>>
          bad
vars == <<pc, k, head, lock, cnt, cur, end, grow, exp, id, pos, mem, name, res, bad>>
Size(w) == w + 1
Chain(w) == w % Chains
W(t) == Work[t][k[t]]
C(t) == Chain(W(t))
Nothing == [w |-> 0, id |-> -1]
Init == /\ pc = [t \in Threads |-> "load"] /\ k = [t \in Threads |-> 1]
        /\ head = [c \in 0..(Chains - 1) |-> <<>>] /\ lock = [c \in 0..(Chains - 1) |-> FALSE]
        /\ cnt = 0 /\ cur = 0 /\ end = Page /\ grow = FALSE
        /\ exp = [t \in Threads |-> <<>>] /\ id = [t \in Threads |-> -1] /\ pos = [t \in Threads |-> -1]
        /\ mem = [p \in {} |-> 0] /\ name = [i \in {} |-> 0] /\ res = {} /\ bad = "no"
Go(t, x) == pc' = [pc EXCEPT ![t] = x]
\* a text is answered: on to the next one
Answer(t, i) == /\ res' = res \cup {<<t, W(t), i>>}
                /\ k' = [k EXCEPT ![t] = @ + 1]
                /\ pc' = [pc EXCEPT ![t] = IF k[t] = Len(Work[t]) THEN "done" ELSE "load"]
Load(t) == /\ pc[t] = "load" /\ ~lock[C(t)]
           /\ exp' = [exp EXCEPT ![t] = head[C(t)]] /\ Go(t, "scan")
           /\ UNCHANGED <<k, head, lock, cnt, cur, end, grow, id, pos, mem, name, res, bad>>
At(s, w) == {j \in 1..Len(s) : s[j].w = w}
Scan(t) == /\ pc[t] = "scan"
           /\ IF At(exp[t], W(t)) # {} THEN \E j \in At(exp[t], W(t)) : Answer(t, exp[t][j].id)
              ELSE Go(t, "exchange") /\ UNCHANGED <<k, res>>
           /\ UNCHANGED <<head, lock, cnt, cur, end, grow, exp, id, pos, mem, name, bad>>
Exchange(t) == /\ pc[t] = "exchange"
               /\ IF ~lock[C(t)] /\ (Dev = "store" \/ head[C(t)] = exp[t])
                  THEN lock' = [lock EXCEPT ![C(t)] = TRUE] /\ Go(t, "number")
                  ELSE Go(t, "load") /\ UNCHANGED lock
               /\ UNCHANGED <<k, head, cnt, cur, end, grow, exp, id, pos, mem, name, res, bad>>
Number(t) == /\ pc[t] = "number"
             /\ id' = [id EXCEPT ![t] = cnt]
             /\ IF Dev = "count" THEN Go(t, "number2") /\ UNCHANGED cnt ELSE cnt' = cnt + 1 /\ Go(t, IF Dev = "early" THEN "show" ELSE "place")
             /\ UNCHANGED <<k, head, lock, cur, end, grow, exp, pos, mem, name, res, bad>>
Number2(t) == /\ pc[t] = "number2" /\ cnt' = id[t] + 1 /\ Go(t, "place")
              /\ UNCHANGED <<k, head, lock, cur, end, grow, exp, id, pos, mem, name, res, bad>>
Place(t) == /\ pc[t] = "place"
            /\ pos' = [pos EXCEPT ![t] = cur]
            /\ IF Dev = "cursor" THEN Go(t, "place2") /\ UNCHANGED cur ELSE cur' = cur + Size(W(t)) /\ Go(t, "room")
            /\ UNCHANGED <<k, head, lock, cnt, end, grow, exp, id, mem, name, res, bad>>
Place2(t) == /\ pc[t] = "place2" /\ cur' = pos[t] + Size(W(t)) /\ Go(t, "room")
             /\ UNCHANGED <<k, head, lock, cnt, end, grow, exp, id, pos, mem, name, res, bad>>
Fits(t) == (IF Dev = "short" THEN pos[t] ELSE pos[t] + Size(W(t))) < end
Room(t) == /\ pc[t] = "room" /\ ~grow
           /\ IF Fits(t) THEN Go(t, "write") /\ UNCHANGED grow ELSE grow' = TRUE /\ Go(t, "extend")
           /\ UNCHANGED <<k, head, lock, cnt, cur, end, exp, id, pos, mem, name, res, bad>>
Extend(t) == /\ pc[t] = "extend" /\ end' = end + Page /\ grow' = FALSE /\ Go(t, "room")
             /\ UNCHANGED <<k, head, lock, cnt, cur, exp, id, pos, mem, name, res, bad>>
Cells(t) == pos[t]..(pos[t] + Size(W(t)) - 1)
Write(t) == /\ pc[t] = "write"
            /\ mem' = [p \in DOMAIN mem \cup Cells(t) |-> IF p \in Cells(t) THEN W(t) ELSE mem[p]]
            /\ bad' = IF pos[t] + Size(W(t)) > end THEN "beyond the pool" ELSE IF Cells(t) \cap DOMAIN mem # {} THEN "over another name" ELSE bad
            /\ Go(t, "name")
            /\ UNCHANGED <<k, head, lock, cnt, cur, end, grow, exp, id, pos, name, res>>
Name(t) == /\ pc[t] = "name"
           /\ name' = [i \in DOMAIN name \cup {id[t]} |-> IF i = id[t] THEN pos[t] ELSE name[i]]
           /\ IF Dev = "early" THEN Answer(t, id[t]) ELSE Go(t, "show") /\ UNCHANGED <<k, res>>
           /\ UNCHANGED <<head, lock, cnt, cur, end, grow, exp, id, pos, mem, bad>>
Show(t) == /\ pc[t] = "show"
           /\ head' = [head EXCEPT ![C(t)] = <<[w |-> W(t), id |-> id[t]]>> \o exp[t]]
           /\ lock' = [lock EXCEPT ![C(t)] = FALSE]
           /\ IF Dev = "early" THEN Go(t, "place") /\ UNCHANGED <<k, res>> ELSE Answer(t, id[t])
           /\ UNCHANGED <<cnt, cur, end, grow, exp, id, pos, mem, name, bad>>
Step(t) == Load(t) \/ Scan(t) \/ Exchange(t) \/ Number(t) \/ Number2(t) \/ Place(t) \/ Place2(t) \/ Room(t) \/ Extend(t) \/ Write(t) \/ Name(t) \/ Show(t)
Ended == \A t \in Threads : pc[t] = "done"
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
------------------------------------------------------------------------------
\* a text is the same symbol everywhere, and no other text is
Agree == \A a, b \in res : (a[2] = b[2]) <=> (a[3] = b[3])
\* from the moment somebody has a symbol, its name is the text
Named == \A a \in res : a[3] \in DOMAIN name /\ \A p \in name[a[3]]..(name[a[3]] + Size(a[2]) - 1) : p \in DOMAIN mem /\ mem[p] = a[2]
NotBad == bad = "no"
\* numbers are handed out without gaps
Dense == Ended => cnt = Cardinality({a[3] : a \in res}) /\ {a[3] : a \in res} = 0..(cnt - 1)
Finishes == <>Ended
=============================================================================
