------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* Laws of the specification of texts, checked over finite domains: the    *)
(* calendar, reading back what was printed, reading in context, patterns,  *)
(* splitting.                                                              *)
(***************************************************************************)
EXTENDS Text
CONSTANTS Deep, Kinds
VARIABLE x

TextsOf(al, n) == UNION {[1..k -> al] : k \in 0..n}
\* ( ) [ ] { } : ' " \ 1 . - a space
Al == IF Deep THEN {40, 41, 91, 93, 123, 125, 58, 39, 34, 92, 49, 46, 45, 97, 32} ELSE {40, 41, 91, 93, 58, 39, 34, 49, 46, 45, 97, 32}
Days0 == IF Deep THEN -150000..150000 ELSE UNION {(Days(y, 2, 26) - 2)..(Days(y, 3, 1) + 2) \cup (Days(y, 12, 30)..(Days(y, 12, 31) + 3)) : y \in {1, 4, 100, 400, 1600, 1700, 1752, 1899, 1900, 1970, 1999, 2000, 2004, 2023, 2024, 2100, 2400, 9998}}
Stamps == {Stamp(d, s, n) : d \in {-100000, -36525, -731, -366, -1, 0, 1, 59, 60, 365, 8825, 100000}, s \in {0, 1, 59, 60, 3599, 3600, 43200, 86399}, n \in {0, 1, 999, 1000000, 123456789, 999999999}}
Wides == {<<h, m, l>> : h \in {-32767, -1, 0, 1, 32767}, m \in {0, 1, 127, 128, B24 - 128, B24 - 1}, l \in {0, 1, 9, 10, 99, B24 - 1}}
Atoms == {Atom("i64w", w) : w \in Wides} \cup {Atom("i64w", WNull), Null, Bool(TRUE), Bool(FALSE)} \cup {Atom("u8", n) : n \in {0, 1, 9, 10, 15, 16, 255}}
         \cup {Atom("time", n) : n \in {NI, 0, 1, -1, 999, 1000, 86399999, -86399999, 359999999}} \cup {Atom("date", n) : n \in {NI, 0, -1, 59, 365, 8825}}
         \cup {Atom("tsw", w) : w \in Stamps \cup {WNull}}
         \cup {Atom("f64", n * 256) : n \in {1, 2, 3, 5, 400, -1, -7, 200000}} \cup {Atom("f64", NI)}
Vecs == {Vec(VecT[a.t], <<a.v, a.v>>) : a \in {a \in Atoms : a.t # "NULL"}} \cup {Vec("SYM", <<<<97>>, <<98, 49>>>>)}
PAl == {97, 98, 42, 63, 91, 93, 94}

Init == \/ "day" \in Kinds /\ \E n \in Days0 : x = [k |-> "day", n |-> n]
        \/ "value" \in Kinds /\ \E a \in Atoms \cup Vecs : x = [k |-> "value", v |-> a]
        \/ "text" \in Kinds /\ \E s \in TextsOf(Al, 4) : x = [k |-> "text", s |-> s]
        \/ "like" \in Kinds /\ \E s \in TextsOf({97, 98}, IF Deep THEN 4 ELSE 3), p \in TextsOf(PAl, IF Deep THEN 4 ELSE 3) : x = [k |-> "like", s |-> s, p |-> p]
        \/ "split" \in Kinds /\ \E s \in TextsOf({97, 98, 44}, IF Deep THEN 7 ELSE 5), d \in TextsOf({97, 44}, 3) \ {<<>>} : x = [k |-> "split", s |-> s, d |-> d]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x

Calendar == x.k = "day" =>
  LET c == Civil(x.n)  e == Civil(x.n + 1)
  IN /\ Days(c.y, c.m, c.d) = x.n
     /\ c.y \in 0..9999 /\ c.m \in 1..12 /\ c.d \in 1..MDays(c.y, c.m)
     /\ IF c.d < MDays(c.y, c.m) THEN e = [c EXCEPT !.d = @ + 1]
        ELSE IF c.m < 12 THEN e = [y |-> c.y, m |-> c.m + 1, d |-> 1] ELSE e = [y |-> c.y + 1, m |-> 1, d |-> 1]
     /\ c.y \in 1..9998 => /\ Read(ShowDate(x.n)) = Atom("date", x.n)
                           /\ AsDate(ShowDate(x.n)) = Atom("date", x.n)
\* what is printed without loss is read back
RoundTrip == x.k = "value" => /\ Read(Show(x.v)) = (IF x.v = Null THEN Atom("name", <<78, 117, 108, 108>>) ELSE x.v)
                              /\ x.v.t = "tsw" /\ x.v.v # WNull => AsStamp(Show(x.v)) = x.v
                              /\ x.v.t = "time" /\ x.v.v # NI => AsTime(Show(x.v)) = x.v
HasQuote(s) == \E i \in 1..Len(s) : s[i] \in {34, 39, 92}
\* space around a text does not matter; a text that reads as one value reads as the same one inside brackets
Context == x.k = "text" =>
  LET r == Read(x.s)
  IN /\ r.t \notin {"TOK", "NO"}
     /\ Read(<<32>> \o x.s) = r
     /\ ~HasQuote(x.s) => Read(x.s \o <<32>>) = r
     /\ (r.t \notin {"ERR", "OPEN", "NULL"} /\ ~HasQuote(x.s)) =>
          LET l == Read(<<40>> \o x.s \o <<41>>)
          IN IF r.t = "LIST" /\ r.v[1] = Atom("name", DO_) THEN l = Lst(Tail(r.v)) ELSE l = Lst(<<r>>)
Chars(s) == {s[i] : i \in 1..Len(s)}
Patterns == x.k = "like" =>
  /\ Like(x.s, <<42>>)
  /\ Chars(x.p) \subseteq {97, 98} => (Like(x.s, x.p) <=> x.s = x.p)
  /\ Chars(x.p) \subseteq {63} => (Like(x.s, x.p) <=> Len(x.s) = Len(x.p))
  /\ Like(x.s, x.p) => Like(x.s \o <<97>>, x.p \o <<42>>) /\ Like(<<98>> \o x.s, <<42>> \o x.p)
  /\ Like(x.s, x.p) => Like(<<97>> \o x.s, <<97>> \o x.p) /\ Like(<<97>> \o x.s, <<63>> \o x.p) /\ Like(<<97>> \o x.s, <<91, 98, 97, 93>> \o x.p)
Parts == x.k = "split" =>
  LET ps == Split(x.s, 1, 1, x.d)
  IN /\ Sep(ps, x.d) = x.s
     /\ \A i \in 1..Len(ps) : \A p \in 1..Len(ps[i]) : ~Here(ps[i], p, x.d)
=============================================================================
