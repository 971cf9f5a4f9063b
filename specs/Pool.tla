-------------------------------- MODULE Pool --------------------------------
(* The task pool of core/pool.c: a main thread that adds tasks and runs them together with its workers.
   A critical section of the pool's mutex is one step; the lock-free queues are stepped through separately:
   a thread first takes a reference to the queue, then operates on it (the queue may be replaced in between).
   Fixed = FALSE is the design as found: workers wait without a predicate and work whenever they wake. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W,          \* workers
          Runs,       \* tasks of each run
          Cap,        \* capacity of the queues at first
          Fixed,
          Spurious    \* whether condition variables wake by themselves
VARIABLES pc,         \* of every thread, main = 0
          run,        \* run being prepared or run
          tasks, done,\* the pool's counters
          tq, rq, cap, gen,   \* queues: contents, capacity, generation
          open, stopped, active, seen, serial,
          lim, n, cur, ref,   \* of every thread: bound of its loop, tasks of this loop, task at hand, queue referred to
          execd,      \* task |-> how often it was executed, in this run
          res,        \* results collected per run
          bad
vars == <<pc, run, tasks, done, tq, rq, cap, gen, open, stopped, active, seen, serial, lim, n, cur, ref, execd, res, bad>>
T == W \cup {0}
Size(r) == Runs[r]
None == -1
Init == /\ pc = [t \in T |-> IF t = 0 THEN "prepare" ELSE "start"]
        /\ run = 1 /\ tasks = 0 /\ done = 0 /\ tq = <<>> /\ rq = <<>> /\ cap = Cap /\ gen = 0
        /\ open = FALSE /\ stopped = FALSE /\ active = {} /\ seen = [w \in W |-> 0] /\ serial = 0
        /\ lim = [t \in T |-> 0] /\ n = [t \in T |-> 0] /\ cur = [t \in T |-> None] /\ ref = [t \in T |-> 0]
        /\ execd = [i \in {} |-> 0] /\ res = <<>> /\ bad = "no"
Worse(x) == bad' = IF bad = "no" THEN x ELSE bad
Go(t, x) == pc' = [pc EXCEPT ![t] = x]

(* ---- main *)
Prepare == /\ pc[0] = "prepare"
           /\ IF run > Len(Runs) THEN Go(0, "destroy") /\ UNCHANGED <<tasks, done, execd>>
              ELSE Go(0, "add") /\ tasks' = 0 /\ done' = 0 /\ execd' = [i \in 0..(Size(run) - 1) |-> 0]
           /\ UNCHANGED <<run, tq, rq, cap, gen, open, stopped, active, seen, serial, lim, n, cur, ref, res, bad>>
Add == /\ pc[0] = "add"
       /\ IF tasks = Size(run) THEN Go(0, "signal") /\ UNCHANGED <<tasks, tq, rq, cap, gen>>
          ELSE /\ tasks' = tasks + 1 /\ tq' = Append(tq, tasks) /\ UNCHANGED pc
               /\ IF Len(tq) < cap THEN UNCHANGED <<rq, cap, gen>>
                  ELSE cap' = 2 * (tasks + 1) /\ rq' = <<>> /\ gen' = gen + 1     \* both queues replaced
       /\ UNCHANGED <<run, done, open, stopped, active, seen, serial, lim, n, cur, ref, execd, res, bad>>
Wake(s) == [t \in T |-> IF t \in s THEN "awake" ELSE pc[t]]
Sleeping == {w \in W : pc[w] = "sleep"}
Signal == /\ pc[0] = "signal"
          /\ open' = TRUE /\ serial' = serial + 1
          /\ \E s \in SUBSET Sleeping :
               /\ IF Cardinality(W) + 1 < tasks /\ ~Fixed THEN Cardinality(s) = IF Cardinality(Sleeping) < Cardinality(W) + 1 THEN Cardinality(Sleeping) ELSE Cardinality(W) + 1
                  ELSE s = Sleeping
               /\ pc' = [Wake(s) EXCEPT ![0] = "loop"]
          /\ lim' = [lim EXCEPT ![0] = tasks] /\ n' = [n EXCEPT ![0] = 0]
          /\ UNCHANGED <<run, tasks, done, tq, rq, cap, gen, stopped, active, seen, cur, ref, execd, res, bad>>
MainDone == /\ pc[0] = "fin"
            /\ done' = done + n[0] /\ Go(0, "join")
            /\ UNCHANGED <<run, tasks, tq, rq, cap, gen, open, stopped, active, seen, serial, lim, n, cur, ref, execd, res, bad>>
Collect == /\ pc[0] = "join"
           /\ done >= tasks /\ (Fixed => active = {})
           /\ open' = FALSE
           /\ LET got == SubSeq(rq, 1, IF Len(rq) < tasks THEN Len(rq) ELSE tasks)
                  ok == Len(rq) >= tasks /\ {got[i] : i \in 1..Len(got)} = 0..(tasks - 1)
              IN /\ IF ok THEN UNCHANGED bad ELSE Worse("results")
                 /\ rq' = SubSeq(rq, Len(got) + 1, Len(rq))
           /\ res' = Append(res, execd)
           /\ run' = run + 1 /\ Go(0, "prepare")
           /\ UNCHANGED <<tasks, done, tq, cap, gen, stopped, active, seen, serial, lim, n, cur, ref, execd>>
Destroy == /\ pc[0] = "destroy" /\ stopped' = TRUE
           /\ pc' = [Wake(Sleeping) EXCEPT ![0] = "end"]
           /\ UNCHANGED <<run, tasks, done, tq, rq, cap, gen, open, active, seen, serial, lim, n, cur, ref, execd, res, bad>>

(* ---- workers *)
May(w) == open /\ seen[w] # serial
Enter(w) == /\ lim' = [lim EXCEPT ![w] = tasks] /\ n' = [n EXCEPT ![w] = 0]
            /\ seen' = [seen EXCEPT ![w] = serial] /\ active' = active \cup {w} /\ Go(w, "loop")
(* at the head of its loop a worker takes the mutex and waits; the fixed design tests first *)
Start(w) == /\ pc[w] = "start"
            /\ IF Fixed /\ stopped THEN Go(w, "exit") /\ UNCHANGED <<lim, n, seen, active>>
               ELSE IF Fixed /\ May(w) THEN Enter(w)
               ELSE Go(w, "sleep") /\ UNCHANGED <<lim, n, seen, active>>
            /\ UNCHANGED <<run, tasks, done, tq, rq, cap, gen, open, stopped, serial, cur, ref, execd, res, bad>>
Awake(w) == /\ pc[w] = "awake"
            /\ IF stopped THEN Go(w, "exit") /\ UNCHANGED <<lim, n, seen, active>>
               ELSE IF ~Fixed \/ May(w) THEN Enter(w)
               ELSE Go(w, "sleep") /\ UNCHANGED <<lim, n, seen, active>>
            /\ UNCHANGED <<run, tasks, done, tq, rq, cap, gen, open, stopped, serial, cur, ref, execd, res, bad>>
Spur(w) == /\ Spurious /\ pc[w] = "sleep" /\ Go(w, "awake")
           /\ UNCHANGED <<run, tasks, done, tq, rq, cap, gen, open, stopped, active, seen, serial, lim, n, cur, ref, execd, res, bad>>
Fin(w) == /\ pc[w] = "fin" /\ done' = done + n[w] /\ active' = active \ {w} /\ Go(w, "start")
          /\ UNCHANGED <<run, tasks, tq, rq, cap, gen, open, stopped, seen, serial, lim, n, cur, ref, execd, res, bad>>

(* ---- the loop of every thread: take a task, execute it, push its result *)
Loop(t) == /\ pc[t] = "loop"
           /\ IF n[t] = lim[t] THEN Go(t, "fin") /\ UNCHANGED ref
              ELSE Go(t, "take") /\ ref' = [ref EXCEPT ![t] = gen]
           /\ UNCHANGED <<run, tasks, done, tq, rq, cap, gen, open, stopped, active, seen, serial, lim, n, cur, execd, res, bad>>
Take(t) == /\ pc[t] = "take"
           /\ IF ref[t] # gen THEN Worse("queue used after it was unmapped") /\ UNCHANGED <<tq, cur>> /\ Go(t, "fin")
              ELSE IF tq = <<>> THEN Go(t, "fin") /\ UNCHANGED <<tq, cur, bad>>
              ELSE tq' = Tail(tq) /\ cur' = [cur EXCEPT ![t] = Head(tq)] /\ Go(t, "exec") /\ UNCHANGED bad
           /\ UNCHANGED <<run, tasks, done, rq, cap, gen, open, stopped, active, seen, serial, lim, n, ref, execd, res>>
Exec(t) == /\ pc[t] = "exec"
           /\ execd' = [execd EXCEPT ![cur[t]] = @ + 1]
           /\ IF open THEN UNCHANGED bad ELSE Worse("task executed outside its run")
           /\ ref' = [ref EXCEPT ![t] = gen] /\ Go(t, "push")
           /\ UNCHANGED <<run, tasks, done, tq, rq, cap, gen, open, stopped, active, seen, serial, lim, n, cur, res>>
Push(t) == /\ pc[t] = "push"
           /\ IF ref[t] # gen THEN Worse("queue used after it was unmapped") /\ UNCHANGED rq ELSE rq' = Append(rq, cur[t]) /\ UNCHANGED bad
           /\ n' = [n EXCEPT ![t] = @ + 1] /\ Go(t, "loop")
           /\ UNCHANGED <<run, tasks, done, tq, cap, gen, open, stopped, active, seen, serial, lim, cur, ref, execd, res>>

Ended == pc[0] = "end" /\ \A w \in W : pc[w] = "exit"
MainStep == Prepare \/ Add \/ Signal \/ MainDone \/ Collect \/ Destroy
Step(t) == Loop(t) \/ Take(t) \/ Exec(t) \/ Push(t) \/ (t = 0 /\ MainStep) \/ (t \in W /\ (Start(t) \/ Awake(t) \/ Fin(t)))
Next == (\E t \in T : Step(t)) \/ (\E w \in W : Spur(w)) \/ (Ended /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Step(t))

(* ---- what the pool guarantees *)
NotBad == bad = "no"
Once == \A i \in DOMAIN execd : execd[i] <= 1
Whole == \A k \in 1..Len(res) : \A i \in DOMAIN res[k] : res[k][i] = 1
Capacity == Len(rq) <= cap
Finishes == <>Ended            \* every run returns and destroying the pool ends every worker
=============================================================================
