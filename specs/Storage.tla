------------------------------ MODULE Storage ------------------------------
(***************************************************************************)
(* Tables on disk (core/io.c, core/fs.c, core/vary.c): splayed tables with *)
(* a symbol column, read and written by several processes in turn. A file  *)
(* is an inode: a value read from a file is a mapping of it, and stays one *)
(* when the path is written again. A symbol column is stored as indices in *)
(* a file of symbols - the table's own or one shared by a whole database - *)
(* and enumerations in memory all refer to one variable of the process,    *)
(* sym.                                                                    *)
(*                                                                         *)
(* What is promised: a path read gives what was last written to it, by     *)
(* whichever process, and a value read keeps its elements whatever is      *)
(* written or read afterwards.                                             *)
(*                                                                         *)
(* Care names what the code takes care of; without one of them the promise *)
(* fails ("inode": writing makes a new file; "grow": a shared symbol file  *)
(* only grows; "bind": sym is replaced only by one that begins with it;    *)
(* "value": an enumeration written again is written as its symbols).       *)
(* Writers take turns: nothing coordinates two processes writing at once,  *)
(* and no promise is made for that.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Procs, Slots, Paths, Syms, MaxLen, MaxOps, Care
Nil == <<"nil">>                 \* no file, no symbols bound
Own(p) == <<"own", p>>
Shared == <<"shared">>
Col(p) == <<"col", p>>
Files == {Own(p) : p \in Paths} \cup {Col(p) : p \in Paths} \cup {Shared}
VARIABLES dir,      \* file -> inode (0: none)
          ino,      \* inode -> contents
          sym,      \* process -> the symbols bound to sym
          held,     \* process -> slot -> [k: "none"; "enum": a mapped column of indices; "plain": symbols]
          mode,     \* path -> the symbol file its column refers to
          want,     \* path -> what was last written (promise)
          keep,     \* process -> slot -> what the value was when read (promise)
          ops
vars == <<dir, ino, sym, held, mode, want, keep, ops>>
Seqs == UNION {[1..n -> Syms] : n \in 1..MaxLen}
RECURSIVE Distinct(_, _)
Distinct(s, acc) == IF s = <<>> THEN acc
                    ELSE Distinct(Tail(s), IF \E i \in DOMAIN acc : acc[i] = Head(s) THEN acc ELSE Append(acc, Head(s)))
At(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* element i of an enumeration over s: an index past the end means nothing
Elem(s, i) == IF s = Nil \/ i \notin DOMAIN s THEN "?" ELSE s[i]
Value(p, h) == IF h.k = "plain" THEN h.v ELSE IF h.k = "none" THEN <<>> ELSE [j \in DOMAIN ino[h.i] |-> Elem(sym[p], ino[h.i][j])]
None == [k |-> "none", i |-> 0, v |-> <<>>]
Init == /\ dir = [f \in Files |-> 0] /\ ino = <<>> /\ sym = [p \in Procs |-> Nil]
        /\ held = [p \in Procs |-> [s \in Slots |-> None]]
        /\ mode = [a \in Paths |-> Nil] /\ want = [a \in Paths |-> Nil]
        /\ keep = [p \in Procs |-> [s \in Slots |-> <<>>]] /\ ops = 0
\* put contents v to file f: <<dir, ino>>
Put(d, n, f, v) == IF d[f] # 0 /\ "inode" \notin Care THEN <<d, [n EXCEPT ![d[f]] = v]>>
                   ELSE <<[d EXCEPT ![f] = Len(n) + 1], Append(n, v)>>
\* sym of a process that has the symbols s of a file
Bind(cur, s) == IF cur = Nil THEN s
                ELSE IF "bind" \notin Care THEN s
                ELSE IF Prefix(cur, s) THEN s ELSE cur
Usable(cur, s) == cur = Nil \/ "bind" \notin Care \/ Prefix(cur, s) \/ Prefix(s, cur)
Store(p, a, v, f, idx) ==
  LET old == IF f = Shared /\ dir[f] # 0 /\ "grow" \in Care THEN ino[dir[f]] ELSE <<>>
      s == Distinct(v, old)
      w1 == Put(dir, ino, f, s)
      w2 == Put(w1[1], w1[2], Col(a), IF idx # <<>> THEN idx ELSE [j \in DOMAIN v |-> At(s, v[j])])
  IN /\ dir' = w2[1] /\ ino' = w2[2]
     /\ sym' = [sym EXCEPT ![p] = Bind(@, s)]
     /\ mode' = [mode EXCEPT ![a] = f]
     /\ want' = [want EXCEPT ![a] = v]
     /\ ops' = ops + 1
\* a new table
Write(p, a, v, f) == Store(p, a, v, f, <<>>) /\ UNCHANGED <<held, keep>>
\* a table read before is written again, to this or another path
Copy(p, x, a, f) == /\ held[p][x].k # "none"
                    /\ LET v == Value(p, held[p][x])
                       IN /\ Store(p, a, v, f, IF held[p][x].k = "enum" /\ "value" \notin Care THEN ino[held[p][x].i] ELSE <<>>)
                          /\ UNCHANGED <<held, keep>>
Read(p, a, x) ==
  /\ want[a] # Nil
  /\ LET s == ino[dir[mode[a]]]
         c == ino[dir[Col(a)]]
     IN /\ sym' = [sym EXCEPT ![p] = Bind(@, s)]
        /\ held' = [held EXCEPT ![p][x] = IF Usable(sym[p], s) THEN [k |-> "enum", i |-> dir[Col(a)], v |-> <<>>]
                                         ELSE [k |-> "plain", i |-> 0, v |-> [j \in DOMAIN c |-> Elem(s, c[j])]]]
  /\ keep' = [keep EXCEPT ![p][x] = want[a]]
  /\ ops' = ops + 1
  /\ UNCHANGED <<dir, ino, mode, want>>
\* a process ends and another takes its place
Restart(p) == /\ sym[p] # Nil
              /\ sym' = [sym EXCEPT ![p] = Nil] /\ held' = [held EXCEPT ![p] = [x \in Slots |-> None]]
              /\ keep' = [keep EXCEPT ![p] = [x \in Slots |-> <<>>]]
              /\ ops' = ops + 1 /\ UNCHANGED <<dir, ino, mode, want>>
Next == /\ ops < MaxOps
        /\ \E p \in Procs :
             \/ \E a \in Paths, v \in Seqs : \E f \in {Own(a), Shared} : Write(p, a, v, f)
             \/ \E a \in Paths, x \in Slots : \E f \in {Own(a), Shared} : Copy(p, x, a, f)
             \/ \E a \in Paths, x \in Slots : Read(p, a, x)
             \/ Restart(p)
Spec == Init /\ [][Next]_vars
\* a value read keeps its elements
Kept == \A p \in Procs, x \in Slots : Value(p, held[p][x]) = keep[p][x]
\* a file refers to the symbols that were written
Stored == \A a \in Paths : want[a] # Nil => LET s == ino[dir[mode[a]]] IN [j \in DOMAIN ino[dir[Col(a)]] |-> Elem(s, ino[dir[Col(a)]][j])] = want[a]
\* a shared symbol file only grows, so indices stored elsewhere keep their meaning
Grows == [][dir[Shared] # 0 => Prefix(ino[dir[Shared]], ino'[dir'[Shared]])]_vars
=============================================================================
