------------------------------- MODULE MCCsv --------------------------------
(***************************************************************************)
(* Laws of the specification of csv texts over finite domains: what is     *)
(* written is read back (the separator and quotes inside fields, empty     *)
(* fields); line ends do not matter; every text has one outcome; adding a  *)
(* row adds a row.                                                         *)
(***************************************************************************)
EXTENDS Csv
CONSTANTS Deep, Kinds
VARIABLE x
TextsOf(al, n) == UNION {[1..k -> al] : k \in 0..n}
Head2 == <<97, 44, 98>>        \* a,b
Init == \/ "fields" \in Kinds /\ \E a \in TextsOf({34, 44, 59, 97}, 3), b \in TextsOf({34, 44, 97}, IF Deep THEN 3 ELSE 2), sep \in {44, 59} : x = [k |-> "fields", f |-> <<a, b>>, sep |-> sep]
        \/ "text" \in Kinds /\ \E s \in TextsOf({34, 44, 97, 49, 10, 13}, IF Deep THEN 6 ELSE 5) : x = [k |-> "text", s |-> s]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x

WrittenIsRead == x.k = "fields" =>
  LET l == WriteLine(x.f, x.sep)
  IN /\ Fields(l, x.sep, 1) = x.f
     /\ LET t == ReadCsv(<<"C8", "SYMBOL">>, x.sep, <<97, x.sep, 98, 10>> \o l \o <<10>>)
        IN t.t = "CSV" /\ t.cols = <<<<Str(x.f[1])>>, <<IF x.f[2] = <<>> THEN NullField("SYMBOL") ELSE Atom("sym", x.f[2])>>>>
R2(s) == ReadCsv(<<"C8", "I64">>, 44, Head2 \o <<10>> \o s)
OneOutcome == x.k = "text" => LET r == R2(x.s) IN r.t \in {"CSV", "ERR", "OPEN"}
RECURSIVE CrLf(_)
CrLf(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] = 10 THEN <<13, 10>> ELSE <<s[1]>>) \o CrLf(Tail(s))
LineEnds == x.k = "text" =>
  /\ 13 \notin {x.s[i] : i \in 1..Len(x.s)} => R2(CrLf(x.s)) = R2(x.s)
  /\ (x.s # <<>> /\ x.s[Len(x.s)] # 10 /\ x.s[Len(x.s)] # 13) => R2(x.s \o <<10>>) = R2(x.s)
  /\ (R2(x.s).t = "CSV" /\ (x.s = <<>> \/ x.s[Len(x.s)] = 10)) =>
        LET t == R2(x.s \o <<97, 44, 49>>)
        IN t.t = "CSV" /\ Len(t.cols[1]) = Len(R2(x.s).cols[1]) + 1 /\ t.cols[2][Len(t.cols[2])] = Atom("i64w", <<0, 0, 1>>)
=============================================================================
