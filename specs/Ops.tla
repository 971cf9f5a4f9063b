-------------------------------- MODULE Ops --------------------------------
(***************************************************************************)
(* The builtin operations of Rayfall as mathematical functions on values:  *)
(* typed element-wise arithmetic and comparison with nulls and promotion,  *)
(* whole-vector aggregates, ordering, searching, set operations, grouping, *)
(* indexing and reshaping, joins.                                          *)
(***************************************************************************)
EXTENDS Serde

\* rank of a symbol in the text order (the symbol table of the trace / model)
CONSTANT SymRank(_)

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Range1(n) == [i \in 1..n |-> i]

-----------------------------------------------------------------------------
(* Scalars *)
NumRank(t) == CASE t = "u8" -> 1 [] t = "i16" -> 2 [] t = "i32" -> 3
                [] t = "i64" -> 4 [] t = "f64" -> 5 [] OTHER -> 0
Num(t)   == NumRank(t) > 0
IntT(t)  == NumRank(t) \in 1..4
IdxT(t)  == t \in {"i32", "i64"}
Tmp(t)   == t \in {"date", "time", "ts"}

MaxT(a, b) == IF NumRank(a) >= NumRank(b) THEN a ELSE b
NumPair(a, b) == Num(a) /\ Num(b) /\ {a, b} # {"u8", "i16"}

BinType(f, a, b) ==
  CASE f = "+" -> IF NumPair(a, b) THEN MaxT(a, b)
                  ELSE IF Tmp(a) /\ IdxT(b) THEN a
                  ELSE IF Tmp(b) /\ IdxT(a) THEN b
                  ELSE IF <<a, b>> \in {<<"date", "time">>, <<"time", "date">>} THEN "tsw"
                  ELSE IF <<a, b>> \in {<<"time", "ts">>, <<"ts", "time">>} THEN "ts"
                  ELSE IF a = "time" /\ b = "time" THEN "time"
                  ELSE "ERR"
    [] f = "-" -> IF NumPair(a, b) THEN MaxT(a, b)
                  ELSE IF Tmp(a) /\ IdxT(b) THEN a
                  ELSE IF a = "date" /\ b = "date" THEN "i32"
                  ELSE IF a = "time" /\ b = "time" THEN "time"
                  ELSE IF a = "ts" /\ b = "ts" THEN "i64"
                  ELSE IF <<a, b>> = <<"date", "time">> THEN "tsw"
                  ELSE IF <<a, b>> = <<"ts", "time">> THEN "ts"
                  ELSE IF IdxT(a) /\ b = "time" THEN "time"
                  ELSE "ERR"
    [] f = "*" -> IF NumPair(a, b) THEN MaxT(a, b)
                  ELSE IF a = "time" /\ IdxT(b) THEN "time"
                  ELSE IF b = "time" /\ IdxT(a) THEN "time"
                  ELSE "ERR"
    [] f = "/" -> IF NumPair(a, b) THEN (IF a \in {"u8", "i16"} THEN MaxT(a, b) ELSE a)
                  ELSE IF a = "time" /\ (IdxT(b) \/ b = "f64") THEN "time"
                  ELSE "ERR"
    [] f = "%" -> IF NumPair(a, b) /\ ~(MaxT(a, b) = "f64" /\ {a, b} \cap {"u8", "i16"} # {})
                  THEN (IF a = "i64" /\ b = "i32" THEN "i32" ELSE MaxT(a, b))
                  ELSE IF a = "time" /\ IdxT(b) THEN "time"
                  ELSE "ERR"
    [] f = "div" -> IF NumRank(a) >= 3 /\ NumRank(b) >= 3 THEN "f64" ELSE "ERR"
    [] f = "xbar" -> IF NumRank(a) >= 3 /\ NumRank(b) >= 3 THEN MaxT(a, b)
                     ELSE IF Tmp(a) /\ IdxT(b) THEN a
                     ELSE IF a = "time" /\ b = "time" THEN "time"
                     ELSE IF a = "ts" /\ b = "time" THEN "i64w"        \* left open
                     ELSE "ERR"
    [] OTHER -> "ERR"

Unscale == 1024
\* value v of type t as a value of type u
Conv(v, t, u) == IF t = u \/ v = NI THEN v
                 ELSE IF u = "f64" THEN v * Unscale
                 ELSE IF t = "f64" THEN (IF v >= 0 THEN v \div Unscale ELSE -((-v) \div Unscale))
                 ELSE v

FDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
FMod(a, b) == a - b * FDiv(a, b)

\* products and quotients of scaled numbers without leaving 32 bits
MulS(a, b) == LET s == IF (a < 0) = (b < 0) THEN 1 ELSE -1
                  x == Abs(a)  y == Abs(b)
              IN s * ((x \div 1024) * y + ((x % 1024) * y) \div 1024)
DivS(a, b) == LET s == IF (a < 0) = (b < 0) THEN 1 ELSE -1
                  x == Abs(a)  y == Abs(b)
              IN s * ((x \div y) * 1024 + ((x % y) * 1024) \div y)

DateMs == 86400000
TimeToTs(v) == v * 1000000           \* only small times
\* a day and a time of day as nanoseconds (three 24-bit limbs)
DayTime(d, t, s) == LET ns(w) == WMul(WMul(WMul(w, 40), 50), 500)          \* ms to ns
                        day == WMul(WMul(WMul(WMul(WMul(WOf(d), 60), 60), 24), 10), 100)
                    IN IF s > 0 THEN WAdd(ns(day), ns(WOf(t))) ELSE WSub(ns(day), ns(WOf(t)))
\* the element-wise function, on values already known to have types a and b, with result type r
BinV(f, a, b, r, x, y) ==
  IF (x = NI /\ a # "u8") \/ (y = NI /\ b # "u8") THEN (IF r = "tsw" THEN <<-32768, 0, 0>> ELSE NI)
  ELSE IF r = "tsw" THEN (IF a = "date" THEN DayTime(x, y, IF f = "+" THEN 1 ELSE -1) ELSE DayTime(y, x, 1))
  ELSE LET fl == r = "f64" \/ a = "f64" \/ b = "f64"
           p  == IF fl THEN Conv(x, a, "f64") ELSE x
           q  == IF fl THEN Conv(y, b, "f64") ELSE y
           out(z) == IF z = NI THEN NI
                     ELSE IF fl /\ r # "f64" THEN Conv(z, "f64", r)
                     ELSE IF r = "u8" THEN z % 256 ELSE z
       IN CASE f = "+" -> IF r = "ts" /\ a = "time" THEN TimeToTs(x) + y
                          ELSE IF r = "ts" /\ b = "time" THEN x + TimeToTs(y)
                          ELSE out(p + q)
            [] f = "-" -> IF r = "ts" /\ b = "time" THEN x - TimeToTs(y)
                          ELSE out(p - q)
            [] f = "*" -> out(IF fl THEN MulS(p, q) ELSE p * q)
            [] f = "/" -> IF q = 0 THEN (IF r = "u8" THEN 0 ELSE NI)
                          ELSE out(IF fl THEN FDiv(p, q) * 1024 ELSE FDiv(p, q))
            [] f = "%" -> IF q = 0 THEN (IF r = "u8" THEN 0 ELSE NI) ELSE out(FMod(p, q))
            [] f = "div" -> IF q = 0 THEN NI ELSE DivS(p, q)
            [] f = "xbar" -> IF q = 0 THEN NI
                             ELSE out(IF fl THEN FDiv(p, q) * q ELSE FDiv(p, q) * q)
            [] OTHER -> NI

\* types whose arithmetic is left open
Unspec == {"b8", "c8", "tsw", "i64w"}
BinScalar(f, x, y) ==
  LET r == BinType(f, x.t, y.t)
  IN IF {x.t, y.t, r} \cap (Unspec \ (IF r = "tsw" THEN {"tsw"} ELSE {})) # {} THEN Wild
     ELSE IF r = "ERR" THEN Err("*")
     ELSE IF f = "xbar" /\ y.v < 0 /\ y.v # NI THEN Wild ELSE Atom(r, BinV(f, x.t, y.t, r, x.v, y.v))

\* comparable pairs of types
CmpPair(a, b) == \/ a \in {"i16", "i32", "i64", "f64"} /\ b \in {"i16", "i32", "i64", "f64"}
                 \/ a = b /\ a \in {"c8", "sym", "date", "time", "ts", "guid"}
B2I(b) == IF b THEN 1 ELSE 0
CmpV(f, a, b, x, y) ==
  LET fl == a = "f64" \/ b = "f64"
      p == IF a = "b8" THEN B2I(x) ELSE IF fl THEN Conv(x, a, "f64") ELSE x
      q == IF b = "b8" THEN B2I(y) ELSE IF fl THEN Conv(y, b, "f64") ELSE y
  IN CASE f = "==" -> p = q
       [] f = "!=" -> p # q
       [] f = "<"  -> p < q
       [] f = ">"  -> p > q
       [] f = "<=" -> p <= q
       [] f = ">=" -> p >= q

CmpScalar(f, x, y) ==
  IF ~CmpPair(x.t, y.t) THEN Wild
  ELSE IF x.t \in {"sym", "guid"} /\ f \notin {"==", "!="} THEN Wild
  ELSE Bool(CmpV(f, x.t, y.t, x.v, y.v))

ArithF == {"+", "-", "*", "/", "%", "div", "xbar"}
CmpF   == {"==", "!=", "<", ">", "<=", ">="}

\* first error among a sequence of values, or the fallback
FirstErr(s, d) == LET E == {i \in 1..Len(s) : IsErr(s[i])}
                  IN IF E = {} THEN d ELSE s[CHOOSE i \in E : \A j \in E : i <= j]

\* typed vector fast path; lists element by element
RECURSIVE Bin(_, _, _)
Bin(f, x, y) ==
  IF IsAtom(x) /\ IsAtom(y)
  THEN IF f \in ArithF THEN BinScalar(f, x, y) ELSE CmpScalar(f, x, y)
  ELSE IF IsSeq(x) /\ IsSeq(y) /\ Len1(x) # Len1(y) THEN Err("*")
  ELSE IF (IsVec(x) \/ IsAtom(x)) /\ (IsVec(y) \/ IsAtom(y))
  THEN LET a == ET(x)  b == ET(y)
           n == IF IsVec(x) THEN Len(x.v) ELSE Len(y.v)
           xs == IF IsVec(x) THEN x.v ELSE [i \in 1..n |-> x.v]
           ys == IF IsVec(y) THEN y.v ELSE [i \in 1..n |-> y.v]
       IN IF f \in ArithF
          THEN LET r == BinType(f, a, b)
               IN IF {a, b, r} \cap (Unspec \ (IF r = "tsw" THEN {"tsw"} ELSE {})) # {} THEN Wild
                  ELSE IF r = "ERR" THEN Err("*")
                  ELSE IF f = "xbar" /\ \E i \in 1..n : ys[i] < 0 /\ ys[i] # NI THEN Wild
                  ELSE Vec(VecT[r], [i \in 1..n |-> BinV(f, a, b, r, xs[i], ys[i])])
          ELSE IF ~CmpPair(a, b) \/ (a \in {"sym", "guid"} /\ f \notin {"==", "!="}) THEN Wild
          ELSE IF a = "c8" THEN Wild
          ELSE Vec("B8", [i \in 1..n |-> CmpV(f, a, b, xs[i], ys[i])])
  ELSE IF (IsList(x) /\ (IsSeq(y) \/ IsAtom(y))) \/ (IsList(y) /\ (IsVec(x) \/ IsAtom(x)))
  THEN LET n == IF IsList(x) THEN Len(x.v) ELSE Len(y.v)
           xi(i) == IF IsSeq(x) THEN ElemAt(x, i) ELSE x
           yi(i) == IF IsSeq(y) THEN ElemAt(y, i) ELSE y
           s == [i \in 1..n |-> Bin(f, xi(i), yi(i))]
       IN IF \E i \in 1..n : s[i].t = "ANY" THEN Wild
          ELSE IF n = 0 THEN Wild
          ELSE FirstErr(s, Collapse(s))
  ELSE Wild

-----------------------------------------------------------------------------
(* Unary element-wise *)
RECURSIVE Un(_, _)
Un(f, x) ==
  IF IsList(x)
  THEN LET s == [i \in 1..Len(x.v) |-> Un(f, x.v[i])]
       IN IF s = <<>> \/ \E i \in 1..Len(s) : s[i].t = "ANY" THEN Wild ELSE FirstErr(s, Collapse(s))
  ELSE IF ~(IsAtom(x) \/ IsVec(x)) THEN Wild
  ELSE LET a == ET(x)
           mk(t, F(_)) == IF IsAtom(x) THEN Atom(t, F(x.v))
                          ELSE Vec(VecT[t], [i \in 1..Len(x.v) |-> F(x.v[i])])
           neg(v) == IF v = NI THEN NI ELSE -v
           rnd(v) == IF v = NI THEN NI
                     ELSE IF v >= 0 THEN ((v + 512) \div 1024) * 1024 ELSE -(((-v) + 512) \div 1024) * 1024
           flr(v) == IF v = NI THEN NI ELSE (v \div 1024) * 1024
           cel(v) == IF v = NI THEN NI ELSE -(((-v) \div 1024) * 1024)
           nt(v)  == ~v
       IN CASE f = "neg" -> IF a \in {"i64", "f64"} \/ (a = "i32" /\ IsAtom(x)) THEN mk(a, neg)
                             ELSE IF a \in {"i16", "i32"} /\ IsVec(x) THEN mk("i64", neg) ELSE Wild
            [] f = "round" -> IF a = "f64" THEN mk("f64", rnd) ELSE Wild
            [] f = "floor" -> IF a = "f64" THEN mk("f64", flr) ELSE Wild
            [] f = "ceil"  -> IF a = "f64" THEN mk("f64", cel) ELSE Wild
            [] f = "not"   -> IF a = "b8" THEN mk("b8", nt) ELSE Wild
            [] OTHER -> Wild

-----------------------------------------------------------------------------
(* Aggregates *)
SumSeq(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i-1] + s[i] IN F[Len(s)]
NonNull(s) == SelectSeq(s, LAMBDA v : v # NI)
MinSeq(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : m <= s[i]
MaxSeq(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : m >= s[i]

\* floor(sqrt(n)) and floor(1024*sqrt(n)) for 0 <= n < 1000000
RECURSIVE ISqrt(_, _, _)
ISqrt(n, lo, hi) == IF hi - lo <= 1 THEN lo
                    ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN ISqrt(n, m, hi) ELSE ISqrt(n, lo, m)
RECURSIVE FracSqrt(_, _, _, _)
FracSqrt(a, rem, lo, hi) ==      \* largest f in [lo,hi) with 2*a*f*1024 + f*f <= rem*2^20
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF 2048 * a * m + m * m <= rem * 1048576 THEN FracSqrt(a, rem, m, hi) ELSE FracSqrt(a, rem, lo, m)
Sqrt1024(n) == LET a == ISqrt(n, 0, 1001) IN a * 1024 + FracSqrt(a, n - a * a, 0, 1024)

MulDiv1024(s, n) == \* 1024*s/n rounded toward zero, |s| up to 2^30
  LET p == Abs(s) r == (p \div n) * 1024 + ((p % n) * 1024) \div n IN IF s >= 0 THEN r ELSE -r

\* a row of a table
RowDict(t, i) == Dict(Vec("SYM", t.c), Lst([j \in 1..Len(t.v) |-> ElemAt(t.v[j], i)]))

Agg(f, x) ==
  IF f = "count" THEN Lng(Len1(x))
  ELSE IF f \in {"first", "last"}
  THEN CASE IsSeq(x) -> IF Len(x.v) = 0 THEN (IF IsList(x) THEN Wild
                                              ELSE IF x.t \in {"B8", "U8", "C8"} THEN Wild
                                              ELSE Atom(AtomT[x.t], NullOf(AtomT[x.t])))
                        ELSE ElemAt(x, IF f = "first" THEN 1 ELSE Len(x.v))
         [] IsAtom(x) -> x
         [] IsTab(x) -> IF Len1(x) = 0 THEN Wild
                        ELSE LET i == IF f = "first" THEN 1 ELSE Len1(x)
                             IN RowDict(x, i)
         [] OTHER -> Wild
  ELSE IF ~(IsVec(x) \/ IsAtom(x)) THEN Wild
  ELSE LET a == ET(x)
           s == IF IsAtom(x) THEN <<x.v>> ELSE x.v
           nn == IF a = "u8" THEN s ELSE NonNull(s)
       IN CASE f = "sum" -> CASE a \in {"u8", "i16"} -> IF IsVec(x) THEN Lng(SumSeq(nn)) ELSE Wild
                              [] a \in {"i32", "i64", "f64", "time"} -> IF IsAtom(x) THEN x ELSE Atom(a, SumSeq(nn))
                              [] a \in {"b8", "ts", "c8"} -> Wild
                              [] OTHER -> Err("*")
            [] f = "avg" -> IF a \in {"i16", "i32", "i64"} /\ IsVec(x)
                            THEN Atom("f64", IF nn = <<>> THEN NI ELSE MulDiv1024(SumSeq(nn), Len(nn)))
                            ELSE IF a = "f64" /\ IsVec(x)
                            THEN Atom("f64", IF nn = <<>> THEN NI
                                             ELSE LET t == SumSeq(nn) n == Len(nn) IN IF t >= 0 THEN t \div n ELSE -((-t) \div n))
                            ELSE Wild
            [] f \in {"min", "max"} ->
                 IF a \in {"i16", "i32", "i64", "f64", "date", "time", "ts"}
                 THEN IF nn = <<>> THEN Atom(a, NI)
                      ELSE Atom(a, IF f = "min" THEN MinSeq(nn) ELSE MaxSeq(nn))
                 ELSE IF a = "u8" /\ s # <<>> /\ IsVec(x) THEN Atom(a, IF f = "min" THEN MinSeq(s) ELSE MaxSeq(s))
                 ELSE IF a = "sym" THEN Err("*") ELSE Wild
            [] f = "dev" -> IF a \in {"i16", "i32", "i64"} /\ IsVec(x)
                            THEN IF nn = <<>> THEN Atom("f64", NI)
                                 ELSE LET n == Len(nn)  S == SumSeq(nn)
                                          Q == SumSeq([i \in 1..n |-> nn[i] * nn[i]])
                                      IN IF n * Q - S * S > 999999 THEN Wild
                                         ELSE Atom("f64", Sqrt1024(n * Q - S * S) \div n)
                            ELSE Wild
            [] f = "med" -> IF a \in {"i16", "i64"} /\ IsVec(x) /\ nn # <<>>
                            THEN LET n == Len(nn)
                                     o == SortSeq(nn, LAMBDA p, q : p < q)
                                 IN Atom("f64", IF n % 2 = 1 THEN o[(n + 1) \div 2] * 1024
                                                ELSE (o[n \div 2] + o[n \div 2 + 1]) * 512)
                            ELSE Wild
            [] OTHER -> Wild
AggF == {"sum", "avg", "min", "max", "count", "first", "last", "dev", "med"}

-----------------------------------------------------------------------------
(* Ordering *)
Sortable(a) == a \in {"b8", "u8", "i16", "i32", "i64", "f64", "sym", "date", "time", "ts", "c8"}
SortKey(a, v) == CASE a = "sym" -> SymRank(v) [] a = "b8" -> B2I(v) [] OTHER -> v

\* stable sorting permutation of keys (1-based positions)
SortPerm(ks, asc) ==
  LET p == SortSeq([i \in 1..Len(ks) |-> <<ks[i], i>>],
                   LAMBDA x, y : IF x[1] = y[1] THEN x[2] < y[2]
                                 ELSE IF asc THEN x[1] < y[1] ELSE x[1] > y[1])
  IN [i \in 1..Len(ks) |-> p[i][2]]
Keys(x) == LET a == ET(x) IN [i \in 1..Len(x.v) |-> SortKey(a, x.v[i])]

Order(f, x) ==
  IF ~IsVec(x) THEN Wild
  ELSE IF ~Sortable(ET(x)) \/ IsWideT(x.t) THEN Wild
  ELSE LET p == SortPerm(Keys(x), f \in {"asc", "iasc"})
       IN IF f \in {"asc", "desc"} THEN Pick(x, p)
          ELSE Vec("I64", [i \in 1..Len(p) |-> p[i] - 1])

RankOf(x) ==
  IF ~IsVec(x) \/ ~Sortable(ET(x)) THEN Wild
  ELSE LET p == SortPerm(Keys(x), TRUE)
       IN Vec("I64", [i \in 1..Len(p) |-> (CHOOSE j \in 1..Len(p) : p[j] = i) - 1])

\* xrank: the ranks cut into n buckets of equal size
XRank(x, n) ==
  IF n.t # "i64" THEN Wild
  ELSE IF n.v <= 0 THEN Err("*")
  ELSE IF n.v > 100000 \/ Len(x.v) > 20000 THEN Wild
  ELSE LET rk == RankOf(x)
       IN IF rk.t # "I64" THEN rk ELSE Vec("I64", [i \in 1..Len(rk.v) |-> (rk.v[i] * n.v) \div Len(rk.v)])

\* sort a table by one or more columns
RECURSIVE LexLT(_, _, _, _)
LexLT(a, b, i, asc) == IF i > Len(a) THEN FALSE
                       ELSE IF a[i] = b[i] THEN LexLT(a, b, i + 1, asc)
                       ELSE IF asc THEN a[i] < b[i] ELSE a[i] > b[i]
SortTab(t, cols, asc) ==
  IF \E i \in 1..Len(cols) : ~HasCol(t, cols[i]) THEN Err("*")
  ELSE IF \E i \in 1..Len(cols) : ~IsVec(Col(t, cols[i])) \/ ~Sortable(ET(Col(t, cols[i]))) THEN Wild
  ELSE LET n == Len1(t)
           ks == [i \in 1..Len(cols) |-> Keys(Col(t, cols[i]))]
           p == SortSeq([r \in 1..n |-> <<[i \in 1..Len(cols) |-> ks[i][r]], r>>],
                        LAMBDA x, y : IF x[1] = y[1] THEN x[2] < y[2] ELSE LexLT(x[1], y[1], 1, asc))
       IN TabPick(t, [i \in 1..n |-> p[i][2]])

-----------------------------------------------------------------------------
(* Searching and sets *)
IsIn(v, s) == \E i \in 1..Len(s) : s[i] = v
FirstIx(v, s) == IF IsIn(v, s) THEN CHOOSE i \in 1..Len(s) : s[i] = v /\ \A j \in 1..(i-1) : s[j] # v ELSE 0

RECURSIVE DistinctSeq(_)
DistinctSeq(s) == LET P == {i \in 1..Len(s) : \A j \in 1..(i-1) : s[j] # s[i]}
                      p == SortSeq([i \in 1..Cardinality(P) |-> 0], LAMBDA a, b : a < b)
                      F[i \in 0..Len(s)] == IF i = 0 THEN <<>>
                                            ELSE IF i \in P THEN Append(F[i-1], s[i]) ELSE F[i-1]
                  IN F[Len(s)]

InInts == {"U8", "B8", "I16", "I32", "I64"}
SetOp(f, x, y) ==
  IF ~(IsVec(x) /\ IsVec(y)) THEN Wild
  ELSE IF f = "in" /\ x.t \in InInts /\ y.t \in InInts \ {"B8"} /\ ~(x.t # y.t /\ "B8" \in {x.t, y.t}) THEN Vec("B8", [i \in 1..Len(x.v) |-> IsIn(x.v[i], y.v)])
  ELSE IF x.t # y.t THEN Wild
  ELSE CASE f \in {"except", "sect"} /\ x.t \notin {"I64", "SYM"} -> Wild
         [] f = "union" /\ (x.t \in {"F64", "GUID", "B8", "TIME", "I16"} \/ (x.t \notin {"U8", "C8"} /\ IsIn(NullOf(ET(x)), x.v \o y.v))) -> Wild
         [] f \in {"in", "find"} /\ x.t \notin ({"I64", "SYM", "I32", "DATE", "TIME", "TS", "U8", "C8"} \cup IF f = "in" THEN {"B8"} ELSE {"F64", "B8"}) -> Wild
         [] f = "in" -> Vec("B8", [i \in 1..Len(x.v) |-> IsIn(x.v[i], y.v)])
         [] f = "find" -> Vec("I64", [i \in 1..Len(x.v) |-> LET k == FirstIx(y.v[i], x.v) IN IF k = 0 THEN NI ELSE k - 1])
         [] f = "except" -> [x EXCEPT !.v = SelectSeq(x.v, LAMBDA v : ~IsIn(v, y.v))]
         [] f = "sect" -> [x EXCEPT !.v = SelectSeq(x.v, LAMBDA v : IsIn(v, y.v))]
         [] f = "union" -> [x EXCEPT !.v = DistinctSeq(x.v \o y.v)]
         [] OTHER -> Wild

In(x, y) ==
  IF IsVec(x) /\ IsVec(y) THEN SetOp("in", x, y)
  ELSE IF IsAtom(x) /\ IsVec(y) /\ ET(x) = ET(y) THEN Bool(IsIn(x.v, y.v))
  ELSE Wild
Find(x, y) ==
  IF ~IsVec(x) THEN Wild ELSE IF x.v = <<>> \/ x.t \notin {"I64", "SYM", "I32", "DATE", "TIME", "TS", "U8", "C8", "F64", "B8"} THEN Wild
  ELSE IF IsAtom(y) /\ x.t \notin {"I64", "SYM", "TS", "F64", "C8", "B8"} THEN Wild
  ELSE IF IsVec(x) /\ IsVec(y) /\ x.t = y.t
  THEN Vec("I64", [i \in 1..Len(y.v) |-> LET k == FirstIx(y.v[i], x.v) IN IF k = 0 THEN NI ELSE k - 1])
  ELSE IF IsVec(x) /\ IsAtom(y) /\ ET(x) = y.t
  THEN Lng(LET k == FirstIx(y.v, x.v) IN IF k = 0 THEN NI ELSE k - 1)
  ELSE Wild
Except(x, y) ==
  IF IsVec(x) /\ IsAtom(y) /\ x.t \notin {"I64", "SYM"} THEN Wild
  ELSE IF IsVec(x) /\ IsAtom(y) /\ ET(x) = y.t THEN [x EXCEPT !.v = SelectSeq(x.v, LAMBDA v : v # y.v)]
  ELSE SetOp("except", x, y)
Within(x, y) ==
  IF IsVec(x) /\ IsVec(y) /\ x.t = y.t /\ Len(y.v) = 2 /\ x.t = "I64"
  THEN Vec("B8", [i \in 1..Len(x.v) |-> x.v[i] >= y.v[1] /\ x.v[i] <= y.v[2]])
  ELSE Wild
\* items of a list that differ from all the ones before
FirstsOf(v) == SelectSeq(Range1(Len(v)), LAMBDA i : ~\E j \in 1..i - 1 : Same(v[j], v[i]))
DistinctItems(v) == LET ix == FirstsOf(v) IN [k \in 1..Len(ix) |-> v[ix[k]]]
Distinct(x) == IF IsList(x) THEN (IF x.v = <<>> \/ "ANY" \in {x.v[i].t : i \in 1..Len(x.v)} THEN Wild ELSE Lst(DistinctItems(x.v)))
               ELSE IF IsVec(x) /\ x.t \notin {"F64", "B8", "GUID", "TIME", "I16"} /\ (x.t \in {"U8", "C8"} \/ ~IsIn(NullOf(ET(x)), x.v)) THEN [x EXCEPT !.v = DistinctSeq(x.v)] ELSE Wild

\* bin: index of the last element <= v (or -1); binr: index of the first element >= v
Binsearch(f, x, y) ==
  IF ~(IsVec(x) /\ x.t \in {"I64", "I32", "DATE", "TIME", "TS"}) THEN Wild
  ELSE IF ~((IsVec(y) /\ x.t = y.t) \/ (IsAtom(y) /\ ET(x) = y.t)) THEN Wild
  ELSE LET lo(v) == Cardinality({i \in 1..Len(x.v) : x.v[i] <= v}) - 1
           hi(v) == Cardinality({i \in 1..Len(x.v) : x.v[i] < v})
           g(v) == IF f = "bin" THEN lo(v) ELSE hi(v)
       IN IF IsAtom(y) THEN Lng(g(y.v)) ELSE Vec("I64", [i \in 1..Len(y.v) |-> g(y.v[i])])

\* group: distinct elements in first-occurrence order, and the positions of each
GroupDict(x) ==
  IF IsList(x) /\ x.v # <<>> /\ ~ "ANY" \in {x.v[i].t : i \in 1..Len(x.v)}
  THEN LET d == DistinctItems(x.v)
       IN Dict(Lst(d), Lst([i \in 1..Len(d) |-> LET q == SelectSeq(Range1(Len(x.v)), LAMBDA j : Same(d[i], x.v[j])) IN Vec("I64", [j \in 1..Len(q) |-> q[j] - 1])]))
  ELSE IF ~IsVec(x) THEN Wild
  ELSE LET d == DistinctSeq(x.v)
           pos(v) == SelectSeq(Range1(Len(x.v)), LAMBDA i : x.v[i] = v)
       IN Dict(Vec(x.t, d), Lst([i \in 1..Len(d) |-> Vec("I64", [j \in 1..Len(pos(d[i])) |-> pos(d[i])[j] - 1])]))

-----------------------------------------------------------------------------
(* Indexing and reshaping *)
\* 1-based position of a Rayfall index in a sequence of length n; 0 when out of range
Pos(i, n) == IF i = NI THEN 0 ELSE IF i >= 0 THEN (IF i < n THEN i + 1 ELSE 0)
             ELSE (IF -i <= n THEN n + i + 1 ELSE 0)
OutOf(x) == IF IsList(x) THEN Null ELSE Atom(AtomT[x.t], NullOf(AtomT[x.t]))
At(x, i) ==
  CASE i.t = "I64" /\ i.v = <<>> -> Wild
    [] IsSeq(x) /\ i.t \in {"i64"} ->
         LET p == Pos(i.v, Len(x.v)) IN IF p = 0 THEN (IF x.t \in {"U8", "B8", "C8", "GUID"} \/ IsList(x) THEN Wild ELSE OutOf(x)) ELSE ElemAt(x, p)
    [] IsVec(x) /\ i.t = "I64" ->
         IF x.t \in {"U8", "B8", "C8", "GUID"} /\ \E k \in 1..Len(i.v) : Pos(i.v[k], Len(x.v)) = 0 THEN Wild
         ELSE Vec(x.t, [k \in 1..Len(i.v) |-> LET p == Pos(i.v[k], Len(x.v))
                                          IN IF p = 0 THEN NullOf(AtomT[x.t]) ELSE x.v[p]])
    [] IsList(x) /\ i.t = "I64" ->
         IF \E k \in 1..Len(i.v) : Pos(i.v[k], Len(x.v)) = 0 THEN Wild
         ELSE Collapse([k \in 1..Len(i.v) |-> x.v[Pos(i.v[k], Len(x.v))]])
    [] IsTab(x) /\ i.t = "sym" -> IF HasCol(x, i.v) THEN Col(x, i.v) ELSE Wild
    [] IsTab(x) /\ i.t = "i64" ->
         LET p == Pos(i.v, Len1(x))
         IN IF p = 0 THEN Wild
            ELSE RowDict(x, p)
    [] IsTab(x) /\ i.t = "I64" ->
         IF \E k \in 1..Len(i.v) : Pos(i.v[k], Len1(x)) = 0 THEN Wild
         ELSE Lst([k \in 1..Len(i.v) |->
                     RowDict(x, Pos(i.v[k], Len1(x)))])
    [] IsDict(x) /\ IsVec(x.k) /\ IsAtom(i) /\ ET(x.k) = i.t ->
         LET p == FirstIx(i.v, x.k.v) IN IF p = 0 THEN Wild ELSE ElemAt(x.v, p)
    [] OTHER -> Wild

\* positions taken by (take x n)
TakeIds(m, n) ==   \* m = length, n = request; m > 0 unless n = 0
  IF n >= 0 THEN [i \in 1..n |-> ((i - 1) % m) + 1]
  ELSE [i \in 1..(-n) |-> (((m - ((-n) % m)) + i - 1) % m) + 1]
\* (take x [start count]): a window, clipped to x
RangeIds(m, st, c) == LET s0 == IF st < 0 THEN Max2(0, m + st) ELSE Min2(st, m)
                      IN [i \in 1..Max2(0, Min2(c, m - s0)) |-> s0 + i]
Take(x, n) ==
  IF n.t = "I64" /\ Len(n.v) = 2 /\ ~IsIn(NI, n.v)
  THEN IF n.v[2] < 0 THEN Err("*")
       ELSE IF IsSeq(x) THEN Pick(x, RangeIds(Len(x.v), n.v[1], n.v[2]))
       ELSE IF IsTab(x) THEN TabPick(x, RangeIds(Len1(x), n.v[1], n.v[2]))
       ELSE Wild
  ELSE IF n.t # "i64" \/ n.v = NI THEN Wild
  ELSE IF IsAtom(x) THEN (IF n.v >= 0 THEN Vec(VecT[x.t], [i \in 1..n.v |-> x.v]) ELSE Wild)
  ELSE IF IsSeq(x) THEN (IF n.v = 0 THEN (IF IsList(x) THEN Lst(<<>>) ELSE Vec(x.t, <<>>))
                         ELSE IF Len(x.v) = 0 THEN x
                         ELSE Pick(x, TakeIds(Len(x.v), n.v)))
  ELSE IF IsTab(x) THEN (IF Len1(x) = 0 THEN x ELSE TabPick(x, TakeIds(Len1(x), n.v)))
  ELSE Wild

Rev(x) == IF x.t = "I16" THEN Wild ELSE IF IsSeq(x) THEN Pick(x, [i \in 1..Len(x.v) |-> Len(x.v) + 1 - i])
          ELSE Wild

Concat(x, y) ==
  CASE IsVec(x) /\ IsVec(y) -> IF x.t = y.t THEN Vec(x.t, x.v \o y.v)
                               ELSE IF x.v = <<>> \/ y.v = <<>> THEN Wild
                               ELSE Lst(<<x, y>>)
    [] IsVec(x) /\ IsAtom(y) -> IF ET(x) = y.t THEN Vec(x.t, Append(x.v, y.v)) 
                                ELSE IF x.v = <<>> THEN Wild ELSE Lst(<<x, y>>)
    [] IsAtom(x) /\ IsVec(y) -> IF ET(y) = x.t THEN Vec(y.t, <<x.v>> \o y.v) 
                                ELSE IF y.v = <<>> THEN Wild ELSE Lst(<<x, y>>)
    [] IsAtom(x) /\ IsAtom(y) -> IF x.t = y.t THEN Vec(VecT[x.t], <<x.v, y.v>>) ELSE Lst(<<x, y>>)
    [] IsList(x) /\ IsList(y) -> Lst(x.v \o y.v)
    [] IsList(x) /\ (IsAtom(y) \/ IsVec(y)) /\ x.v # <<>> -> Lst(Append(x.v, y))
    [] IsVec(x) /\ IsList(y) /\ y.v # <<>> -> Lst(<<x>> \o y.v)
    [] IsTab(x) /\ IsTab(y) ->
         IF x.c # y.c THEN Wild
         ELSE IF \E j \in 1..Len(x.c) : x.v[j].t # y.v[j].t THEN Wild
         ELSE Table(x.c, [j \in 1..Len(x.c) |-> [x.v[j] EXCEPT !.v = x.v[j].v \o y.v[j].v]])
    [] OTHER -> Wild

Where(x) == IF x.t = "B8" THEN Vec("I64", LET p == SelectSeq(Range1(Len(x.v)), LAMBDA i : x.v[i]) IN [i \in 1..Len(p) |-> p[i] - 1])
            ELSE Wild
TrueIds(m) == SelectSeq(Range1(Len(m)), LAMBDA i : m[i])
FilterV(x, m) == IF m.t # "B8" THEN Wild
                 ELSE IF IsTab(x) THEN (IF Len(m.v) = Len1(x) THEN TabPick(x, TrueIds(m.v)) ELSE Err("*"))
                 ELSE IF IsSeq(x) THEN (IF Len(m.v) = Len(x.v) THEN Pick(x, TrueIds(m.v)) ELSE Err("*"))
                 ELSE Wild
RemoveIx(x, i) == IF (IsList(x) \/ x.t \in {"I64", "I32", "F64", "SYM", "TS", "C8"}) /\ i.t = "i64" /\ i.v >= 0 /\ i.v < Len(x.v)
                  THEN Pick(x, SelectSeq(Range1(Len(x.v)), LAMBDA k : k # i.v + 1)) ELSE Wild
Raze(x) == IF IsList(x) /\ x.v # <<>> /\ \A i \in 1..Len(x.v) : IsVec(x.v[i]) /\ x.v[i].t = x.v[1].t
           THEN LET F[i \in 0..Len(x.v)] == IF i = 0 THEN <<>> ELSE F[i-1] \o x.v[i].v
                IN Vec(x.v[1].t, F[Len(x.v)])
           ELSE IF IsVec(x) THEN x ELSE Wild
Til(n) == IF n.t \in {"i64"} /\ n.v >= 0 THEN Vec("I64", [i \in 1..n.v |-> i - 1]) ELSE Wild

MkTable(k, v) ==
  IF k.t # "SYM" THEN Wild
  ELSE IF ~IsSeq(v) THEN Wild
  ELSE IF ~IsList(v) THEN Wild
  ELSE IF Len(k.v) # Len(v.v) THEN Err("*")
  ELSE IF v.v = <<>> THEN Wild
  ELSE IF \E i \in 1..Len(v.v) : ~IsSeq(v.v[i]) /\ ~IsAtom(v.v[i]) THEN Wild
  ELSE LET q == {i \in 1..Len(v.v) : IsSeq(v.v[i])}
           n == IF q = {} THEN 1 ELSE Len(v.v[CHOOSE i \in q : TRUE].v)
       IN IF \E i \in q : Len(v.v[i].v) # n THEN Err("*")
          ELSE Table(k.v, [i \in 1..Len(v.v) |-> IF i \in q THEN v.v[i] ELSE Vec(VecT[v.v[i].t], [j \in 1..n |-> v.v[i].v])])

\* types of casts exercised: numbers between themselves, symbols and strings
CastV(t, u, v) == Conv(v, t, u)
Cast(ty, x) ==
  IF ty.t # "sym" THEN Wild
  ELSE LET vt == ty.v
           up == vt \in DOMAIN AtomT
       IN IF IsAtom(x) /\ vt \in DOMAIN VecT /\ x.t \in {"i32", "i64", "f64"} /\ vt \in {"i32", "i64", "f64"}
          THEN (IF x.v = NI /\ x.t # vt THEN Wild ELSE Atom(vt, Conv(x.v, x.t, vt)))
          ELSE IF IsVec(x) /\ up /\ x.t \in {"I32", "I64", "F64"} /\ vt \in {"I32", "I64", "F64"}
          THEN (IF x.t # vt /\ IsIn(NI, x.v) THEN Wild
                ELSE Vec(vt, [i \in 1..Len(x.v) |-> Conv(x.v[i], AtomT[x.t], AtomT[vt])]))
          ELSE Wild

\* glob matching of strings (character codes): * ? [set] [^set]
RECURSIVE Glob(_, _, _, _)
Glob(s, i, p, j) ==
  IF j > Len(p) THEN i > Len(s)
  ELSE IF p[j] = 42 THEN Glob(s, i, p, j + 1) \/ (i <= Len(s) /\ Glob(s, i + 1, p, j))
  ELSE IF i > Len(s) THEN FALSE
  ELSE IF p[j] = 63 THEN Glob(s, i + 1, p, j + 1)
  ELSE s[i] = p[j] /\ Glob(s, i + 1, p, j + 1)
Like(x, p) == IF x.t = "C8" /\ p.t = "C8" THEN Bool(Glob(x.v, 1, p.v, 1))
              ELSE IF IsList(x) /\ p.t = "C8" /\ x.v # <<>> /\ (\A i \in 1..Len(x.v) : x.v[i].t = "C8")
              THEN Vec("B8", [i \in 1..Len(x.v) |-> Glob(x.v[i].v, 1, p.v, 1)])
              ELSE Wild

\* split a string on a separator character / string
RECURSIVE SplitAt(_, _, _, _)
SplitAt(s, sep, i, start) ==     \* s[start..] being scanned at i
  IF i + Len(sep) - 1 > Len(s) THEN << SubSeq(s, start, Len(s)) >>
  ELSE IF SubSeq(s, i, i + Len(sep) - 1) = sep
       THEN << SubSeq(s, start, i - 1) >> \o SplitAt(s, sep, i + Len(sep), i + Len(sep))
       ELSE SplitAt(s, sep, i + 1, start)
Split(x, p) == IF x.t = "C8" /\ x.v # <<>> /\ (p.t = "c8" \/ (p.t = "C8" /\ p.v # <<>>))
               THEN LET r == SplitAt(x.v, IF p.t = "c8" THEN <<p.v>> ELSE p.v, 1, 1)
                    IN Lst([i \in 1..Len(r) |-> Str(r[i])])
               ELSE Wild

-----------------------------------------------------------------------------
(* Joins *)
RowKey(t, ks, r) == [i \in 1..Len(ks) |-> Col(t, ks[i]).v[r]]
Cols(t) == {t.c[i] : i \in 1..Len(t.c)}
KeysOk(ks, l, r) == ks.t = "SYM" /\ IsTab(l) /\ IsTab(r)
                    /\ \A i \in 1..Len(ks.v) : HasCol(l, ks.v[i]) /\ HasCol(r, ks.v[i]) 
                         /\ Col(l, ks.v[i]).t = Col(r, ks.v[i]).t

InnerJoin(ks, l, r) ==
  IF ~KeysOk(ks, l, r) \/ Len1(l) = 0 \/ Len1(r) = 0 THEN Wild
  ELSE LET nl == Len1(l)  nr == Len1(r)
           rk == [j \in 1..nr |-> RowKey(r, ks.v, j)]
           m == [i \in 1..nl |-> FirstIx(RowKey(l, ks.v, i), rk)]
           ids == SelectSeq(Range1(nl), LAMBDA i : m[i] # 0)
           rest(t) == SelectSeq(t.c, LAMBDA c : ~IsIn(c, ks.v))
           rc == rest(r)
           lc == SelectSeq(rest(l), LAMBDA c : ~HasCol(r, c))
           names == ks.v \o rest(l) \o SelectSeq(rc, LAMBDA c : ~HasCol(l, c))
           val(c) == IF IsIn(c, ks.v) \/ ~HasCol(r, c) THEN Pick(Col(l, c), ids)
                     ELSE Pick(Col(r, c), [i \in 1..Len(ids) |-> m[ids[i]]])
       IN Table(names, [j \in 1..Len(names) |-> val(names[j])])

LeftJoin(ks, l, r) ==
  IF ~KeysOk(ks, l, r) \/ Len1(l) = 0 \/ Len1(r) = 0 THEN Wild
  ELSE LET nl == Len1(l)  nr == Len1(r)
           rk == [j \in 1..nr |-> RowKey(r, ks.v, j)]
           m == [i \in 1..nl |-> FirstIx(RowKey(l, ks.v, i), rk)]
           rest(t) == SelectSeq(t.c, LAMBDA c : ~IsIn(c, ks.v))
           names == ks.v \o rest(l) \o SelectSeq(rest(r), LAMBDA c : ~HasCol(l, c))
           val(c) == IF IsIn(c, ks.v) \/ ~HasCol(r, c) THEN Col(l, c)
                     ELSE LET rcol == Col(r, c)
                              s == [i \in 1..nl |-> IF m[i] # 0 THEN ElemAt(rcol, m[i])
                                                    ELSE IF HasCol(l, c) THEN ElemAt(Col(l, c), i)
                                                    ELSE Null]
                          IN IF nl = 0 THEN Wild ELSE Collapse(s)
       IN Table(names, [j \in 1..Len(names) |-> val(names[j])])

\* as-of join: equality on all keys but the last, latest right row with time <= left time
AsofJoin(ks, l, r) ==
  IF ~KeysOk(ks, l, r) THEN Wild
  ELSE LET nl == Len1(l)  nr == Len1(r)
           k == Len(ks.v)
           eq == SubSeq(ks.v, 1, k - 1)
           tc == ks.v[k]
           lt == Col(l, tc).v   rt == Col(r, tc).v
           cand(i) == {j \in 1..nr : rt[j] <= lt[i] /\ RowKey(r, eq, j) = RowKey(l, eq, i)}
           \* right rows are in time order: the last candidate
           m == [i \in 1..nl |-> IF cand(i) = {} THEN 0 ELSE CHOOSE j \in cand(i) : \A h \in cand(i) : h <= j]
           rest(t) == SelectSeq(t.c, LAMBDA c : ~IsIn(c, ks.v))
           names == ks.v \o rest(r) \o SelectSeq(rest(l), LAMBDA c : ~HasCol(r, c))
           val(c) == IF IsIn(c, ks.v) \/ ~HasCol(r, c) THEN Col(l, c)
                     ELSE LET rcol == Col(r, c)
                          IN IF nl = 0 THEN Wild
                             ELSE Collapse([i \in 1..nl |->
                                     IF m[i] # 0 THEN ElemAt(rcol, m[i])
                                     ELSE IF HasCol(l, c) THEN ElemAt(Col(l, c), i) ELSE Null])
       IN Table(names, [j \in 1..Len(names) |-> val(names[j])])

-----------------------------------------------------------------------------
(* Application of a builtin to evaluated arguments *)
Unary == {"neg", "round", "floor", "ceil", "not"}
Op(f, a) ==
  IF \E i \in 1..Len(a) : a[i].t = "ANY" THEN Wild
  ELSE IF \E i \in 1..Len(a) : a[i].t \in {"LAMBDA", "FN"} THEN Wild
  ELSE IF Len(a) = 2 THEN
    CASE f \in ArithF \cup CmpF -> Bin(f, a[1], a[2])
      [] f = "at" -> At(a[1], a[2])
      [] f = "take" -> Take(a[1], a[2])
      [] f = "concat" -> Concat(a[1], a[2])
      [] f = "find" -> Find(a[1], a[2])
      [] f = "in" -> In(a[1], a[2])
      [] f = "xrank" -> IF IsVec(a[1]) THEN XRank(a[1], a[2]) ELSE Wild
      [] f = "within" -> Within(a[1], a[2])
      [] f \in {"sect", "union"} -> SetOp(f, a[1], a[2])
      [] f = "except" -> Except(a[1], a[2])
      [] f = "filter" -> FilterV(a[1], a[2])
      [] f = "remove" -> RemoveIx(a[1], a[2])
      [] f = "dict" -> IF IsSeq(a[1]) /\ IsSeq(a[2]) THEN (IF Len1(a[1]) = Len1(a[2]) THEN Dict(a[1], a[2]) ELSE Err("*")) ELSE Wild
      [] f = "table" -> MkTable(a[1], a[2])
      [] f \in {"bin", "binr"} -> Binsearch(f, a[1], a[2])
      [] f = "xasc" -> IF IsTab(a[1]) /\ a[2].t \in {"sym", "SYM"} THEN SortTab(a[1], IF a[2].t = "sym" THEN <<a[2].v>> ELSE a[2].v, TRUE) ELSE Wild
      [] f = "xdesc" -> IF IsTab(a[1]) /\ a[2].t \in {"sym", "SYM"} THEN SortTab(a[1], IF a[2].t = "sym" THEN <<a[2].v>> ELSE a[2].v, FALSE) ELSE Wild
      [] f = "as" -> Cast(a[1], a[2])
      [] f = "like" -> Like(a[1], a[2])
      [] f = "split" -> Split(a[1], a[2])
      [] f = "list" -> Lst(a)
      [] f = "enlist" -> Collapse(a)
      [] OTHER -> Wild
  ELSE IF Len(a) = 1 THEN
    CASE f \in Unary -> Un(f, a[1])
      [] f \in AggF -> Agg(f, a[1])
      [] f \in {"asc", "desc", "iasc", "idesc"} -> Order(f, a[1])
      [] f = "rank" -> RankOf(a[1])
      [] f = "til" -> Til(a[1])
      [] f = "reverse" -> Rev(a[1])
      [] f = "distinct" -> Distinct(a[1])
      [] f = "group" -> GroupDict(a[1])
      [] f = "where" -> Where(a[1])
      [] f = "raze" -> Raze(a[1])
      [] f = "key" -> IF IsDict(a[1]) THEN a[1].k ELSE IF IsTab(a[1]) THEN Vec("SYM", a[1].c) ELSE Wild
      [] f = "value" -> IF IsDict(a[1]) THEN a[1].v ELSE IF IsTab(a[1]) THEN Lst(a[1].v) ELSE Wild
      [] f = "list" -> Lst(a)
      [] f = "enlist" -> Collapse(a)
      [] f = "nil?" -> IF a[1].t = "NULL" THEN Bool(TRUE) ELSE Wild
      [] f = "raise" -> Err("*")
      [] f = "ser" -> Ser(a[1])
      [] f = "de" -> Deser(a[1])
      [] OTHER -> Wild
  ELSE IF f = "list" THEN Lst(a)
  ELSE IF f = "enlist" THEN Collapse(a)
  ELSE IF Len(a) = 3 THEN
    CASE f = "left-join" -> LeftJoin(a[1], a[2], a[3])
      [] f = "inner-join" -> InnerJoin(a[1], a[2], a[3])
      [] f = "asof-join" -> AsofJoin(a[1], a[2], a[3])
      [] OTHER -> Wild
  ELSE Wild
=============================================================================
