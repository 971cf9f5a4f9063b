------------------------------ MODULE MCSerde ------------------------------
(***************************************************************************)
(* The laws of serialization over every value built from a few atoms and   *)
(* vectors by up to two levels of lists, dictionaries and tables.          *)
(***************************************************************************)
EXTENDS Serde, SequencesExt

Atoms == {Bool(TRUE), Bool(FALSE), Atom("u8", 0), Atom("u8", 255), Atom("i16", -2), Atom("i16", NI), Atom("i32", 65536),
          Atom("i32", NI), Lng(0), Lng(-1), Lng(NI), Lng(1073741824), Lng(-1073741825), Sym("ab"), Sym("0Ns"), Atom("date", 7),
          Atom("time", NI), Atom("ts", 300), Atom("f64", 1536), Atom("f64", -1), Atom("f64", NI), Atom("f64", 0),
          Atom("c8", 97), Null}
Vecs == {Vec(VecT[a.t], s) : a \in Atoms \ {Null}, s \in {<<>>}}
        \cup {Vec(VecT[a.t], <<a.v>>) : a \in Atoms \ {Null}}
        \cup {Vec("SYM", <<"a", "0Ns", "bc">>), Vec("I64", <<1, NI, -256>>), Vec("I16", <<1, -1, 2>>), Str(<<104, 105>>)}
V0 == Atoms \cup Vecs
Few == {Lng(5), Sym("ab"), Vec("I64", <<1, 2>>), Vec("SYM", <<"a">>), Lst(<<>>), Null, Atom("f64", 1536)}
Compound(S) == {Lst(<<a>>) : a \in S} \cup {Lst(<<a, b>>) : a \in Few, b \in S}
               \cup {Dict(Vec("SYM", <<"k", "l">>), Lst(<<a, b>>)) : a \in S, b \in Few}
               \cup {Dict(Lst(<<a>>), Vec("I64", <<3>>)) : a \in S}
               \cup {Table(<<"c", "d">>, <<a, b>>) : a \in {x \in S : IsSeq(x) /\ Len(x.v) = 1}, b \in {x \in S : IsSeq(x) /\ Len(x.v) = 1}}
V1 == V0 \cup Compound(V0)
V2 == V1 \cup Compound(Few \cup Compound(Few))

CONSTANTS PARTS, DEEP
VS == SetToSeq(IF DEEP THEN V2 ELSE V0 \cup Compound(Few))
VARIABLES x, k
Init == x = Null /\ k \in 1..PARTS
Next == k > 0 /\ k' = 0 /\ \E i \in {j \in 1..Len(VS) : (j % PARTS) + 1 = k} : x' = VS[i]
Spec == Init /\ [][Next]_<<x, k>>

Inv == RoundTrip(x) /\ PrefixFree(x)
Bytes == LET m == Ser(x).v IN \A i \in 1..Len(m) : m[i] \in 0..255
\* injective against a fixed sample
Sample == {<<y, Ser(y)>> : y \in V0 \cup Compound(Few)}
Inj == LET m == Ser(x) IN \A y \in Sample : y[2] = m => y[1] = x
=============================================================================
