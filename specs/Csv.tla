-------------------------------- MODULE Csv ---------------------------------
(***************************************************************************)
(* Csv: tables as text with one line per row (RFC 4180 without line breaks *)
(* inside fields).  ReadCsv says which table a text means for given column *)
(* types and separator; what write-csv wrote must mean the table it was    *)
(* given.                                                                  *)
(*                                                                         *)
(* A table is [names, cols]: every column a sequence of atoms.             *)
(***************************************************************************)
EXTENDS Text

\* lines end with LF or CR LF; the last one may end with the text
RECURSIVE LineEnd(_, _)
LineEnd(s, p) == IF p > Len(s) \/ s[p] = 10 THEN p ELSE LineEnd(s, p + 1)
RECURSIVE Lines(_, _)
Lines(s, p) == IF p > Len(s) THEN <<>> ELSE LET z == LineEnd(s, p) IN <<Cut(s, p, z)>> \o Lines(s, z + 1)
Chomp(l) == IF l # <<>> /\ l[Len(l)] = 13 THEN Cut(l, 1, Len(l)) ELSE l

\* fields: a quoted one ends at the first quote that is not doubled
RECURSIVE FieldEnd(_, _, _)
FieldEnd(l, sep, p) == IF p > Len(l) \/ l[p] = sep THEN p ELSE FieldEnd(l, sep, p + 1)
RECURSIVE Quoted(_, _, _)
Quoted(l, p, acc) == IF p > Len(l) THEN [ok |-> FALSE]
                     ELSE IF l[p] # 34 THEN Quoted(l, p + 1, Append(acc, l[p]))
                     ELSE IF C(l, p + 1) = 34 THEN Quoted(l, p + 2, Append(acc, 34))
                     ELSE [ok |-> TRUE, s |-> acc, p |-> p + 1]
Damaged == <<-1>>
RECURSIVE Fields(_, _, _)
Fields(l, sep, p) ==
  IF C(l, p) = 34
  THEN LET b == Quoted(l, p + 1, <<>>)
       IN IF ~b.ok THEN <<Damaged>>
          ELSE IF b.p > Len(l) THEN <<b.s>>
          ELSE IF l[b.p] = sep THEN <<b.s>> \o Fields(l, sep, b.p + 1)
          ELSE <<Damaged>>
  ELSE LET z == FieldEnd(l, sep, p) IN <<Cut(l, p, z)>> \o (IF z > Len(l) THEN <<>> ELSE Fields(l, sep, z + 1))
RECURSIVE Plain(_, _, _)
Plain(l, sep, p) == LET z == FieldEnd(l, sep, p) IN <<Cut(l, p, z)>> \o (IF z > Len(l) THEN <<>> ELSE Plain(l, sep, z + 1))

\* the value of a field
NullField(t) ==
  CASE t = "B8" -> Bool(FALSE) [] t = "U8" -> Atom("u8", 0) [] t = "I16" -> Atom("i16", NI) [] t = "I32" -> Atom("i32", NI)
    [] t = "I64" -> Atom("i64w", WNull) [] t = "F64" -> Atom("f64", NI) [] t = "DATE" -> Atom("date", NI) [] t = "TIME" -> Atom("time", NI)
    [] t = "TIMESTAMP" -> Atom("tsw", WNull) [] t = "SYMBOL" -> Atom("sym", <<48, 78, 115>>) [] t = "C8" -> Str(<<>>)
    [] OTHER -> Atom("guid", [i \in 1..32 |-> 48])
NoDigit(s) == \A i \in 1..Len(s) : ~IsDigit(s[i])
IntField(t, s) ==
  LET neg == s[1] = 45   a == IF neg THEN 2 ELSE 1   m == Mag(s, a, Len(s) + 1, <<0, 0, 0>>)   w == IF neg THEN Neg(m) ELSE m
      n == Small(w)   within(k) == Fits(w) /\ n >= -k /\ n <= k
  IN IF a > Len(s) \/ RunEnd(s, a) # Len(s) + 1 THEN IF NoDigit(s) /\ t # "U8" THEN NullField(t) ELSE Open
     ELSE IF m = <<>> THEN Open
     ELSE CASE t = "I64" -> Atom("i64w", w)
            [] t = "I32" -> IF Fits(w) THEN Atom("i32", n) ELSE Open
            [] t = "I16" -> IF within(32767) THEN Atom("i16", n) ELSE Open
            [] OTHER -> IF ~neg /\ within(255) THEN Atom("u8", n) ELSE Open
FloatField(s) ==
  LET neg == s[1] = 45   a == IF neg THEN 2 ELSE 1   q == RunEnd(s, a)
      r == IF C(s, q) = 46 THEN RunEnd(s, q + 1) ELSE q
      hasE == C(s, r) \in {101, 69}
      x0 == IF hasE /\ C(s, r + 1) \in {43, 45} THEN r + 2 ELSE r + 1
      x1 == RunEnd(s, x0)
      e == IF hasE THEN IF x1 - x0 > 3 THEN 1000 ELSE Val(s, x0, x1, 0) * (IF C(s, r + 1) = 45 THEN -1 ELSE 1) ELSE 0
      whole == q > a /\ IF hasE THEN x1 > x0 /\ x1 = Len(s) + 1 ELSE r = Len(s) + 1
  IN IF whole THEN IF q - a > 200 \/ r - q > 200 \/ e > 300 \/ e < -300 THEN Open ELSE Atom("f64", Frac(s, a, q, r, e, neg))
     ELSE IF NoDigit(s) /\ \A i \in 1..Len(s) : s[i] # 46 THEN NullField("F64") ELSE Open
BoolField(s) == IF s \in {TRUE_, <<84, 114, 117, 101>>, <<84, 82, 85, 69>>} THEN Bool(TRUE)
                ELSE IF s[1] \in {116, 84, 49, 121, 89} THEN Open ELSE Bool(FALSE)
Low(c) == IF 65 <= c /\ c <= 70 THEN c + 32 ELSE c
Dashes == {9, 14, 19, 24}
GuidField(s) ==
  IF Len(s) # 36 THEN NullField("GUID")
  ELSE IF \A i \in 1..36 : IF i \in Dashes THEN s[i] = 45 ELSE IsHex(s[i])
       THEN Atom("guid", LET h == SubSeq(s, 1, 8) \o SubSeq(s, 10, 13) \o SubSeq(s, 15, 18) \o SubSeq(s, 20, 23) \o SubSeq(s, 25, 36) IN [i \in 1..32 |-> Low(h[i])])
       ELSE Open
Field(t, s) ==
  IF s = <<>> THEN NullField(t)
  ELSE CASE t = "B8" -> BoolField(s) [] t \in {"U8", "I16", "I32", "I64"} -> IntField(t, s) [] t = "F64" -> FloatField(s)
         [] t = "DATE" -> AsDate(s) [] t = "TIME" -> AsTime(s) [] t = "TIMESTAMP" -> AsStamp(s)
         [] t = "SYMBOL" -> Atom("sym", s) [] t = "C8" -> Str(s) [] OTHER -> GuidField(s)

\* names keep the characters a name can have
NameOf(s) == SelectSeq(s, IsName)

ReadCsv(types, sep, s) ==
  LET n == Len(types)
      ls == LET all == Lines(s, 1) IN [i \in 1..Len(all) |-> Chomp(all[i])]
      head == Plain(ls[1], sep, 1)
      names == [j \in 1..n |-> NameOf(head[j])]
      rows == [i \in 1..(Len(ls) - 1) |-> Fields(ls[i + 1], sep, 1)]
      bad(r) == Len(r) < n \/ \E j \in 1..n : r[j] = Damaged
  IN IF ls = <<>> THEN Bad
     ELSE IF Len(head) < n THEN Bad
     ELSE IF 34 \in {ls[1][i] : i \in 1..Len(ls[1])} /\ Len(Fields(ls[1], sep, 1)) # Len(head) THEN Open
     ELSE IF n > 1 /\ \E i \in 2..Len(ls) : ls[i] = <<>> THEN Open
     ELSE IF \E i \in 1..Len(rows) : bad(rows[i]) THEN Bad
     ELSE IF (\E j \in 1..n : names[j] = <<>>) \/ Cardinality({names[j] : j \in 1..n}) < n THEN Open
     ELSE [t |-> "CSV", names |-> names, types |-> types, cols |-> [j \in 1..n |-> [i \in 1..Len(rows) |-> Field(types[j], rows[i][j])]]]

\* the vector types a column of type t may have
ColTypes(t) == CASE t = "I64" -> {"I64", "I64w"} [] t = "TIMESTAMP" -> {"TS", "TSw"} [] t = "SYMBOL" -> {"SYM"} [] t = "C8" -> {"LIST"} [] OTHER -> {t}
At(v, i) == IF v.t = "LIST" THEN v.v[i] ELSE Atom(AtomT[v.t], v.v[i])
Eq(a, b) == Agrees(a, b)

\* the observed table g is the table e
Matches(e, g) ==
  CASE e.t = "OPEN" -> TRUE
    [] e.t = "ERR" -> g.t = "ERR"
    [] OTHER -> /\ g.t = "TABLE" /\ g.c = e.names /\ Len(g.v) = Len(e.cols)
                /\ \A j \in 1..Len(e.cols) : /\ g.v[j].t \in ColTypes(e.types[j])
                                             /\ Len(g.v[j].v) = Len(e.cols[j])
                                             /\ \A i \in 1..Len(e.cols[j]) : Eq(e.cols[j][i], At(g.v[j], i))

\* the text s means the table [names, types, cols]
Means(s, sep, tab) ==
  LET e == ReadCsv(tab.types, sep, s)
  IN e.t = "OPEN" \/ (/\ e.t = "CSV" /\ e.names = tab.names
                      /\ \A j \in 1..Len(tab.cols) : /\ Len(e.cols[j]) = Len(tab.cols[j])
                                                     /\ \A i \in 1..Len(tab.cols[j]) : Eq(e.cols[j][i], tab.cols[j][i]))

\* one text for a field, as it may be written (used to check the specification itself)
RECURSIVE Doubled(_)
Doubled(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] = 34 THEN <<34, 34>> ELSE <<s[1]>>) \o Doubled(Tail(s))
Write1(s, sep) == IF \E i \in 1..Len(s) : s[i] \in {sep, 34, 10, 13} THEN <<34>> \o Doubled(s) \o <<34>> ELSE s
WriteLine(fs, sep) == Sep([i \in 1..Len(fs) |-> Write1(fs[i], sep)], <<sep>>)

\* does the recorded operation satisfy the specification?
Holds(e) ==
  CASE e.op = "read" -> Matches(ReadCsv(e.a[1], e.a[2], e.a[3]), e.r)
    [] e.op = "count" -> e.r = e.a[1]
    [] e.op = "written" -> e.r.t = "NULL" /\ Means(e.a[3], e.a[2], e.a[1])
    [] e.op = "back" -> Matches([e.a[1] EXCEPT !.t = "CSV"], e.r)
    [] OTHER -> FALSE
=============================================================================
