-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text: what the reader makes of a text, what values look like when they  *)
(* are printed, the calendar, patterns and splitting.                      *)
(*                                                                         *)
(* A text is a sequence of character codes (1..255).  Symbols are texts.   *)
(* Integers of 64 bits are three 24-bit limbs (see Values).  A float is a  *)
(* number of 1/1024ths, or QF where only the type is specified.  The value *)
(* OPEN leaves the whole outcome open.                                     *)
(***************************************************************************)
EXTENDS Values

QF      == -2147483647
Open    == [t |-> "OPEN"]
Bad     == [t |-> "ERR"]
Tok(c)  == [t |-> "TOK", c |-> c]
R(v, p) == [v |-> v, p |-> p]

C(s, p) == IF 1 <= p /\ p <= Len(s) THEN s[p] ELSE 0
Eof(s, p) == p > Len(s)
IsDigit(c) == 48 <= c /\ c <= 57
IsAlpha(c) == (97 <= c /\ c <= 122) \/ (65 <= c /\ c <= 90)
IsAlnum(c) == IsDigit(c) \/ IsAlpha(c)
Ops        == {43, 45, 42, 47, 37, 38, 124, 94, 126, 60, 62, 33, 61, 46, 95, 63}   \* +-*/%&|^~<>!=._?
IsName(c)  == IsAlnum(c) \/ c \in Ops
IsTerm(c)  == c \in {41, 93, 125, 58, 32, 13, 10, 0}                               \* ) ] } : space cr lf end
Dig(c)     == c - 48

RECURSIVE RunEnd(_, _)       \* first position at or after p that is not a digit
RunEnd(s, p) == IF IsDigit(C(s, p)) THEN RunEnd(s, p + 1) ELSE p
RECURSIVE NameEnd(_, _)
NameEnd(s, p) == IF ~Eof(s, p) /\ IsName(C(s, p)) THEN NameEnd(s, p + 1) ELSE p
RECURSIVE SkipWs(_, _)
RECURSIVE SkipLine(_, _)
SkipLine(s, p) == IF Eof(s, p) THEN p ELSE IF C(s, p) = 10 THEN p + 1 ELSE SkipLine(s, p + 1)
SkipWs(s, p) == IF Eof(s, p) THEN p
                ELSE IF C(s, p) \in {32, 9, 13, 10} THEN SkipWs(s, p + 1)
                ELSE IF C(s, p) = 59 THEN SkipWs(s, SkipLine(s, p))                \* ; comment
                ELSE p
At2(s, p) == IsDigit(C(s, p)) /\ IsDigit(C(s, p + 1))
N2(s, p)  == Dig(C(s, p)) * 10 + Dig(C(s, p + 1))

-----------------------------------------------------------------------------
(* the calendar: days are counted from 2000.01.01, in the Gregorian calendar extended to all years *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MDays(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
BeforeYear(y) == 365 * (y - 2000) + ((y - 1) \div 4 - 499) - ((y - 1) \div 100 - 19) + ((y - 1) \div 400 - 4)
Cum == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
Days(y, m, d) == BeforeYear(y) + Cum[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1
Civil(n) == LET y0 == 2000 + (n * 4 - (n \div 100) * 0) \div 1461
                y  == CHOOSE y \in (y0 - 30)..(y0 + 30) : BeforeYear(y) <= n /\ n < BeforeYear(y + 1)
                m  == CHOOSE m \in 1..12 : Days(y, m, 1) <= n /\ n < Days(y, m, 1) + MDays(y, m)
            IN [y |-> y, m |-> m, d |-> n - Days(y, m, 1) + 1]
ValidDate(y, m, d) == y >= 1 /\ m \in 1..12 /\ d >= 1 /\ d <= MDays(y, m)

\* nanoseconds since 2000.01.01: limbs
Stamp(days, secs, ns) == LET a == WAdd(WMul(WMul(WMul(WOf(days), 24), 60), 60), WOf(secs))
                             b == WMul(WMul(WMul(a, 10), 10), 10)
                             c == WMul(WMul(WMul(b, 10), 10), 10)
                             d == WMul(WMul(WMul(c, 10), 10), 10)
                         IN WAdd(d, WOf(ns))
\* division of limbs by a small k: quotient (floor) and remainder
WDiv(w, k) == LET h == w[1] \div k  r1 == w[1] % k  a == r1 * B24 + w[2]
                  m == a \div k     r2 == a % k     b == r2 * B24 + w[3]
              IN [q |-> <<h, m, b \div k>>, r |-> b % k]
\* a wide integer that fits 31 bits
Fits(w) == \/ w[1] = 0 /\ w[2] < 128
           \/ w[1] = -1 /\ (w[2] >= B24 - 127 \/ (w[2] = B24 - 128 /\ w[3] > 0))
Small(w) == IF w[1] = 0 THEN w[2] * B24 + w[3] ELSE (w[2] - B24) * B24 + w[3]
Neg(w) == WSub(<<0, 0, 0>>, w)
WNull == <<-32768, 0, 0>>

-----------------------------------------------------------------------------
(* numbers *)
RECURSIVE Mag(_, _, _, _)    \* value of the digits p..q-1; <<>> when it does not fit 63 bits
Mag(s, p, q, acc) == IF p = q THEN acc
                     ELSE IF acc[1] > 3276 THEN <<>>
                     ELSE LET n == WAdd(WMul(acc, 10), WOf(Dig(s[p]))) IN IF n[1] > 32767 THEN <<>> ELSE Mag(s, p + 1, q, n)
RECURSIVE Val(_, _, _, _)    \* value of few digits
Val(s, p, q, acc) == IF p = q THEN acc ELSE Val(s, p + 1, q, acc * 10 + Dig(s[p]))
Pow10(n) == CASE n = 0 -> 1 [] n = 1 -> 10 [] n = 2 -> 100 [] n = 3 -> 1000 [] n = 4 -> 10000 [] n = 5 -> 100000 [] OTHER -> 1000000
RECURSIVE Drop0(_, _, _)     \* skip leading zeros
Drop0(s, p, q) == IF p < q /\ s[p] = 48 THEN Drop0(s, p + 1, q) ELSE p

\* 1/1024ths of the decimal digits (p..q-1).(q+1..r-1) times 10^e
Frac(s, p, q, r, e, neg) ==
  LET p1 == Drop0(s, p, q)  nf == IF r > q + 1 THEN r - q - 1 ELSE 0
      ip == IF q - p1 <= 6 THEN Val(s, p1, q, 0) ELSE -1
      x  == IF ip < 0 \/ nf > 6 \/ e > 3 \/ e < -3 THEN -1
            ELSE LET fp == IF nf = 0 THEN 0 ELSE Val(s, q + 1, r, 0)
                 IN IF e = 0 THEN IF ip > 1000000 THEN -1 ELSE ip * 1024 + (fp * 1024 + Pow10(nf) \div 2) \div Pow10(nf)
                    ELSE IF ip > 999 \/ nf > 3 THEN -1
                    ELSE LET m == ip * Pow10(nf) + fp  k == e - nf             \* m * 10^k, m < 10^6
                         IN IF k >= 0 THEN IF m > 1000 THEN -1 ELSE m * Pow10(k) * 1024
                            ELSE (m * 1024 + Pow10(-k) \div 2) \div Pow10(-k)
  IN IF x < 0 THEN QF ELSE IF neg THEN 0 - x ELSE x
FOfWide(w) == IF w # WNull /\ Fits(w) /\ Small(w) \in -1000000..1000000 THEN Small(w) * 1024 ELSE QF

Suffix(s, p, w) ==           \* an integer w that ends before p
  LET c == C(s, p)  f == Fits(w)  n == IF f THEN Small(w) ELSE 0
  IN CASE c = 120 -> IF w[1] < 0 THEN R(Open, p) ELSE IF ~f \/ n > 255 THEN R(Bad, p) ELSE R(Atom("u8", n), p + 1)
       [] c = 104 -> IF ~f \/ n > 32767 \/ n < -32767 THEN R(Bad, p) ELSE R(Atom("i16", n), p + 1)
       [] c = 105 -> IF ~f THEN R(Bad, p) ELSE R(Atom("i32", n), p + 1)
       [] c = 100 -> IF ~f THEN R(Open, p) ELSE R(Atom("date", n), p + 1)
       [] c = 116 -> IF ~f THEN R(Open, p) ELSE R(Atom("time", n), p + 1)
       [] c = 102 -> R(Atom("f64", FOfWide(w)), p + 1)
       [] c = 108 -> R(Atom("i64w", w), p + 1)
       [] OTHER   -> R(Atom("i64w", w), p)

IsHex(c) == IsDigit(c) \/ (97 <= c /\ c <= 102) \/ (65 <= c /\ c <= 70)
Hex(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55

ReadNumber(s, p) ==
  IF C(s, p) = 48 /\ C(s, p + 1) = 120
  THEN IF IsHex(C(s, p + 2)) /\ IsHex(C(s, p + 3)) THEN R(Atom("u8", Hex(C(s, p + 2)) * 16 + Hex(C(s, p + 3))), p + 4) ELSE R(Bad, p)
  ELSE LET neg == C(s, p) = 45   a == IF neg THEN p + 1 ELSE p   q == RunEnd(s, a)
       IN IF C(s, q) # 46
          THEN LET m == Mag(s, a, q, <<0, 0, 0>>) IN IF m = <<>> THEN R(Open, q) ELSE Suffix(s, q, IF neg THEN Neg(m) ELSE m)
          ELSE LET r  == RunEnd(s, q + 1)
                   hasE == C(s, r) \in {101, 69}
                   sg == hasE /\ C(s, r + 1) \in {43, 45}
                   x0 == IF sg THEN r + 2 ELSE r + 1
                   x1 == RunEnd(s, x0)
                   e  == IF hasE /\ x1 > x0 THEN IF x1 - x0 > 3 THEN 1000 ELSE Val(s, x0, x1, 0) * (IF C(s, r + 1) = 45 THEN -1 ELSE 1) ELSE 0
                   z  == IF hasE /\ x1 > x0 THEN x1 ELSE r
               IN IF hasE /\ sg /\ x1 = x0 THEN R(Open, r)
                  ELSE IF e > 300 \/ e < -300 \/ q - a > 200 \/ r - q > 200 THEN R(Open, r)
                  ELSE IF C(s, z) \in {120, 104, 105, 100, 116, 108} THEN R(Bad, z)
                  ELSE R(Atom("f64", Frac(s, a, q, r, e, neg)), IF C(s, z) = 102 THEN z + 1 ELSE z)

No == [t |-> "NO"]           \* not of this form
ReadNull(s, p) ==
  IF ~(C(s, p) = 48 /\ C(s, p + 1) = 78) THEN R(No, p)
  ELSE LET c == C(s, p + 2)
       IN CASE c = 48  -> R(Null, p + 3)
            [] c = 104 -> R(Atom("i16", NI), p + 3)
            [] c = 105 -> R(Atom("i32", NI), p + 3)
            [] c = 100 -> R(Atom("date", NI), p + 3)
            [] c = 116 -> R(Atom("time", NI), p + 3)
            [] c = 112 -> R(Atom("tsw", WNull), p + 3)
            [] c = 108 -> R(Atom("i64w", WNull), p + 3)
            [] c = 102 -> R(Atom("f64", NI), p + 3)
            [] c = 103 -> R(Atom("guid", NullOf("guid")), p + 3)
            [] c = 115 -> R(Atom("sym", <<48, 78, 115>>), p + 3)
            [] OTHER   -> R(No, p)

ReadTime(s, p) ==
  LET neg == C(s, p) = 45   a == IF neg THEN p + 1 ELSE p
      ok  == At2(s, a) /\ C(s, a + 2) = 58 /\ At2(s, a + 3) /\ C(s, a + 5) = 58 /\ At2(s, a + 6)
      dot == C(s, a + 8) = 46
      z0  == RunEnd(s, a + 9)
      z   == IF z0 > a + 12 THEN a + 12 ELSE z0
      ms  == IF dot THEN Val(s, a + 9, z, 0) ELSE 0
      v   == (N2(s, a) * 3600 + N2(s, a + 3) * 60 + N2(s, a + 6)) * 1000 + ms
  IN IF ~ok \/ (dot /\ z = a + 9) THEN R(No, p)
     ELSE R(Atom("time", IF neg THEN 0 - v ELSE v), IF dot THEN z ELSE a + 8)

ReadStamp(s, p) ==
  IF Len(s) - p + 1 < 10 \/ C(s, p + 4) # 46 \/ C(s, p + 7) # 46 \/ ~At2(s, p) \/ ~At2(s, p + 2) \/ ~At2(s, p + 5) THEN R(No, p)
  ELSE LET y == N2(s, p) * 100 + N2(s, p + 2)   mo == N2(s, p + 5)
       IN IF mo > 12 THEN R(Bad, p)
          ELSE IF ~At2(s, p + 8) THEN R(No, p)
          ELSE LET d == N2(s, p + 8)
               IN IF d > 31 THEN R(Bad, p)
                  ELSE IF C(s, p + 10) # 68
                       THEN IF ValidDate(y, mo, d) THEN R(Atom("date", Days(y, mo, d)), p + 10) ELSE R(Open, p + 10)
                  ELSE IF ~At2(s, p + 11) THEN R(No, p)
                  ELSE IF N2(s, p + 11) > 23 THEN R(Bad, p)
                  ELSE IF C(s, p + 13) # 58 \/ ~At2(s, p + 14) THEN R(No, p)
                  ELSE IF N2(s, p + 14) > 59 THEN R(Bad, p)
                  ELSE IF C(s, p + 16) # 58 \/ ~At2(s, p + 17) THEN R(No, p)
                  ELSE IF N2(s, p + 17) > 59 THEN R(Bad, p)
                  ELSE IF C(s, p + 19) # 46 THEN R(No, p)
                  ELSE IF C(s, p + 20) \in {32, 9, 10, 11, 12, 13, 43, 45} THEN R(Open, p)
                  ELSE LET z == RunEnd(s, p + 20)
                       IN IF z = p + 20 THEN R(No, p)
                          ELSE IF z - p - 20 > 9 \/ ~ValidDate(y, mo, d) \/ y < 1720 \/ y > 2280 THEN R(Open, p)
                          ELSE R(Atom("tsw", Stamp(Days(y, mo, d), N2(s, p + 11) * 3600 + N2(s, p + 14) * 60 + N2(s, p + 17), Val(s, p + 20, z, 0))), z)

-----------------------------------------------------------------------------
(* characters, strings, names *)
IsOct(c) == 48 <= c /\ c <= 55
Oct(s, p) == ((C(s, p) - 48) * 64 + (C(s, p + 1) - 48) * 8 + (C(s, p + 2) - 48)) % 256
\* the escape whose backslash is at p - 1: [c, p] or c = -1
Esc(s, p, quote) ==
  LET c == C(s, p)
  IN CASE c = 110 -> [c |-> 10, p |-> p + 1] [] c = 114 -> [c |-> 13, p |-> p + 1] [] c = 116 -> [c |-> 9, p |-> p + 1]
       [] c = 92 -> [c |-> 92, p |-> p + 1] [] c = quote -> [c |-> quote, p |-> p + 1]
       [] IsOct(c) -> IF IsOct(C(s, p + 1)) /\ IsOct(C(s, p + 2)) THEN [c |-> Oct(s, p), p |-> p + 3] ELSE [c |-> -1, p |-> p]
       [] OTHER -> [c |-> -1, p |-> p]

Cut(s, a, b) == SubSeq(s, a, b - 1)
ReadChar(s, p) ==
  IF p + 1 > Len(s) \/ IsTerm(C(s, p + 1)) THEN R(Atom("sym", <<48, 78, 115>>), p + 1)
  ELSE LET e == IF C(s, p + 1) = 92 THEN Esc(s, p + 2, 39) ELSE [c |-> C(s, p + 1), p |-> p + 2]
       IN IF e.c = -1 THEN R(Bad, p)
          ELSE IF C(s, e.p) = 39 THEN R(Atom("c8", e.c), e.p + 1)
          ELSE LET z == NameEnd(s, e.p) IN IF C(s, z) = 39 THEN R(Bad, p) ELSE R(Atom("sym", Cut(s, p + 1, z)), z)

RECURSIVE StrBody(_, _, _)
StrBody(s, p, acc) ==
  IF Eof(s, p) THEN R(Bad, p)
  ELSE IF C(s, p) = 34 THEN R(Str(acc), p + 1)
  ELSE IF C(s, p) = 92 THEN LET e == Esc(s, p + 1, 34) IN IF e.c = -1 THEN R(Bad, p) ELSE StrBody(s, e.p, Append(acc, e.c))
  ELSE StrBody(s, p + 1, Append(acc, C(s, p)))

TRUE_ == <<116, 114, 117, 101>>  FALSE_ == <<102, 97, 108, 115, 101>>  NULL_ == <<110, 117, 108, 108>>  FN_ == <<102, 110>>  DO_ == <<100, 111>>
\* where a name may be replaced by the function it names, it is a "name"
ReadName(s, p, plain) ==
  LET z == NameEnd(s, p + 1)   w == Cut(s, p, z)
  IN IF w = TRUE_ THEN R(Bool(TRUE), z) ELSE IF w = FALSE_ THEN R(Bool(FALSE), z) ELSE IF w = NULL_ THEN R(Null, z)
     ELSE R(Atom(IF plain THEN "sym" ELSE "name", w), z)

-----------------------------------------------------------------------------
(* one more element of a vector that reads [t, v] so far; "" is the empty vector *)
More(a, x) ==
  LET t == x.t  vt == a.t  add(u) == [t |-> u, v |-> Append(a.v, x.v)]
  IN CASE t \in {"b8", "u8", "i32", "date", "time", "tsw"} -> IF vt \in {"", VecT[t]} THEN add(VecT[t]) ELSE [t |-> "ERR"]
       [] t \in {"sym", "name"} -> IF vt \in {"", "SYM"} THEN add("SYM") ELSE [t |-> "ERR"]
       [] t = "i16" -> IF vt \in {"", "I16"} THEN add("I16")
                       ELSE IF vt = "F64" THEN [t |-> "F64", v |-> Append(a.v, IF x.v = NI THEN QF ELSE x.v * 1024)] ELSE [t |-> "ERR"]
       [] t = "i64w" -> IF vt \in {"", "I64w"} THEN add("I64w")
                        ELSE IF vt = "F64" THEN [t |-> "F64", v |-> Append(a.v, FOfWide(x.v))] ELSE [t |-> "ERR"]
       [] t = "f64" -> IF vt \in {"", "F64"} THEN add("F64")
                       ELSE IF vt = "I64w" THEN [t |-> "F64", v |-> Append([i \in 1..Len(a.v) |-> FOfWide(a.v[i])], x.v)] ELSE [t |-> "ERR"]
       [] OTHER -> [t |-> "ERR"]

RECURSIVE Adv(_, _, _)
RECURSIVE VecBody(_, _, _)
RECURSIVE ListBody(_, _, _)
RECURSIVE DictBody(_, _, _, _)
RECURSIVE Do(_, _, _)

VecBody(s, p, a) ==
  LET r == Adv(s, p, TRUE)
  IN IF r.v.t \in {"ERR", "OPEN"} THEN r
     ELSE IF r.v.t = "TOK" THEN IF r.v.c = 93 THEN R(Vec(IF a.t = "" THEN "I64w" ELSE a.t, a.v), r.p) ELSE R(Bad, r.p)
     ELSE LET b == More(a, r.v) IN IF b.t = "ERR" THEN R(Bad, r.p) ELSE VecBody(s, r.p, b)

ListBody(s, p, items) ==
  LET r == Adv(s, p, FALSE)
  IN IF r.v.t \in {"ERR", "OPEN"} THEN r
     ELSE IF r.v.t = "TOK" THEN IF r.v.c = 41 THEN R(IF items = <<>> THEN Null ELSE Lst(items), r.p) ELSE R(Bad, r.p)
     ELSE IF items = <<>> /\ r.v.t \in {"name", "sym"} /\ r.v.v = FN_
          THEN LET ar == Adv(s, r.p, FALSE)
               IN IF ar.v.t \in {"ERR", "OPEN"} THEN ar
                  ELSE IF ~(ar.v.t = "SYM" \/ (ar.v.t = "I64w" /\ ar.v.v = <<>>)) THEN R(Bad, ar.p)
                  ELSE LET b == Do(s, ar.p, <<>>)
                       IN IF b.v.t \in {"ERR", "OPEN"} THEN b
                          ELSE LET e == Adv(s, b.p, FALSE)
                               IN IF e.v.t = "OPEN" THEN e ELSE IF e.v.t = "TOK" /\ e.v.c = 41 THEN R([t |-> "LAMBDA"], e.p) ELSE R(Bad, e.p)
     ELSE IF Eof(s, r.p) THEN R(Bad, r.p)
     ELSE ListBody(s, r.p, Append(items, r.v))

Keys(ks) == IF ks = <<>> THEN Null
            ELSE IF \A i \in 1..Len(ks) : ks[i].t \in {"sym", "name"} THEN Vec("SYM", [i \in 1..Len(ks) |-> ks[i].v])
            ELSE IF \A i \in 1..Len(ks) : ks[i].t = "i64w" THEN Vec("I64w", [i \in 1..Len(ks) |-> ks[i].v])
            ELSE IF \A i \in 1..Len(ks) : ks[i].t = "C8" THEN Lst(ks)
            ELSE Open
DictBody(s, p, ks, vs) ==
  LET k == Adv(s, p, TRUE)
  IN IF k.v.t \in {"ERR", "OPEN"} THEN k
     ELSE IF k.v.t = "TOK" THEN IF k.v.c = 125 THEN (IF Keys(ks).t = "OPEN" THEN R(Open, k.p) ELSE R(Dict(Keys(ks), Lst(vs)), k.p)) ELSE R(Bad, k.p)
     ELSE IF Eof(s, k.p) THEN R(Bad, k.p)
     ELSE LET c == Adv(s, k.p, FALSE)
          IN IF c.v.t \in {"ERR", "OPEN"} THEN c
             ELSE IF ~(c.v.t = "TOK" /\ c.v.c = 58) THEN R(Bad, c.p)
             ELSE LET v == Adv(s, c.p, FALSE)
                  IN IF v.v.t \in {"ERR", "OPEN"} THEN v
                     ELSE IF v.v.t = "TOK" THEN R(Bad, v.p)
                     ELSE DictBody(s, v.p, Append(ks, k.v), Append(vs, v.v))

Adv(s, p0, plain) ==
  LET p == SkipWs(s, p0)   c == C(s, p)
  IN IF Eof(s, p) THEN R(Tok(0), p)
     ELSE IF c = 91 THEN VecBody(s, p + 1, [t |-> "", v |-> <<>>])
     ELSE IF c = 40 THEN ListBody(s, p + 1, <<>>)
     ELSE IF c = 123 THEN DictBody(s, p + 1, <<>>, <<>>)
     ELSE IF IsDigit(c) \/ (c = 45 /\ IsDigit(C(s, p + 1)))
          THEN LET a == ReadNull(s, p)  b == ReadStamp(s, p)  t == ReadTime(s, p)
               IN IF a.v.t # "NO" THEN a ELSE IF b.v.t # "NO" THEN b ELSE IF t.v.t # "NO" THEN t ELSE ReadNumber(s, p)
     ELSE IF c = 39 THEN ReadChar(s, p)
     ELSE IF c = 34 THEN StrBody(s, p + 1, <<>>)
     ELSE IF IsAlpha(c) \/ c \in Ops THEN ReadName(s, p, plain)
     ELSE IF IsTerm(c) THEN R(Tok(c), p + 1)
     ELSE R(Bad, p)

\* expressions one after the other, up to the end or a closing bracket
Do(s, p, items) ==
  LET done == IF items = <<>> THEN R(Null, p) ELSE IF Len(items) = 1 THEN R(items[1], p) ELSE R(Lst(<<Atom("name", DO_)>> \o items), p)
  IN IF Eof(s, p) THEN done
     ELSE LET r == Adv(s, p, FALSE)
          IN IF r.v.t \in {"ERR", "OPEN"} THEN r
             ELSE IF r.v.t = "TOK" THEN [done EXCEPT !.p = IF r.v.c = 0 THEN r.p ELSE r.p - 1]
             ELSE Do(s, r.p, Append(items, r.v))

\* what a text reads as
Read(s) == LET r == Do(s, 1, <<>>) IN IF r.v.t \in {"ERR", "OPEN"} THEN r.v ELSE IF Eof(s, SkipWs(s, r.p)) THEN r.v ELSE Bad

-----------------------------------------------------------------------------
(* printing; a text with -1 in it is left open *)
Unknown == <<-1>>
RECURSIVE Digits(_, _)       \* decimal digits of a non-negative wide integer
Digits(w, acc) == LET d == WDiv(w, 10)  a == <<48 + d.r>> \o acc IN IF d.q = <<0, 0, 0>> THEN a ELSE Digits(d.q, a)
RECURSIVE Dec(_, _)          \* decimal digits of a small one
Dec(n, acc) == LET a == <<48 + (n % 10)>> \o acc IN IF n < 10 THEN a ELSE Dec(n \div 10, a)
Pad(n, k) == LET d == Dec(n, <<>>) IN [i \in 1..(IF Len(d) < k THEN k - Len(d) ELSE 0) |-> 48] \o d
S(n) == IF n < 0 THEN <<45>> \o Dec(0 - n, <<>>) ELSE Dec(n, <<>>)
N0(c) == <<48, 78, c>>
ShowWide(w) == IF w = WNull THEN N0(108) ELSE IF w[1] < 0 THEN <<45>> \o Digits(Neg(w), <<>>) ELSE Digits(w, <<>>)
ShowDate(n) == IF n = NI THEN N0(100) ELSE LET c == Civil(n) IN IF c.y < 1 \/ c.y > 9999 THEN Unknown ELSE Pad(c.y, 4) \o <<46>> \o Pad(c.m, 2) \o <<46>> \o Pad(c.d, 2)
ShowTime(n) == IF n = NI THEN N0(116)
               ELSE LET a == IF n < 0 THEN 0 - n ELSE n   x == a \div 1000
                    IN IF a >= 360000000 THEN Unknown
                       ELSE (IF n < 0 THEN <<45>> ELSE <<>>) \o Pad(x \div 3600, 2) \o <<58>> \o Pad((x \div 60) % 60, 2) \o <<58>> \o Pad(x % 60, 2) \o <<46>> \o Pad(a % 1000, 3)
\* the parts of a stamp: nanoseconds by nine divisions by ten, then seconds, minutes, hours and days
RECURSIVE Nine(_, _, _)
Nine(w, k, acc) == IF k = 0 THEN [q |-> w, d |-> acc] ELSE LET r == WDiv(w, 10) IN Nine(r.q, k - 1, <<48 + r.r>> \o acc)
ShowStamp(w) == IF w = WNull THEN N0(112)
                ELSE LET n == Nine(w, 9, <<>>)  s == WDiv(n.q, 60)  m == WDiv(s.q, 60)  h == WDiv(m.q, 24)
                     IN IF ~Fits(h.q) THEN Unknown
                        ELSE ShowDate(Small(h.q)) \o <<68>> \o Pad(h.r, 2) \o <<58>> \o Pad(m.r, 2) \o <<58>> \o Pad(s.r, 2) \o <<46>> \o n.d

\* a / b rounded to the nearest, ties to even
Round(a, b) == LET q == a \div b  r == a % b IN IF 2 * r > b \/ (2 * r = b /\ q % 2 = 1) THEN q + 1 ELSE q
\* two decimals; below 1/10 and above 10^6 in exponent form
ShowF(v) ==
  IF v = NI THEN N0(102)
  ELSE IF v = 0 THEN <<48, 46, 48, 48>>
  ELSE LET a == IF v < 0 THEN 0 - v ELSE v   sg == IF v < 0 THEN <<45>> ELSE <<>>
           ip == a \div 1024   fr == Round((a % 1024) * 100, 1024)
           x == IF fr = 100 THEN [i |-> ip + 1, f |-> 0] ELSE [i |-> ip, f |-> fr]
       IN IF a > 1024000000 THEN Unknown
          ELSE IF a >= 103 THEN sg \o Dec(x.i, <<>>) \o <<46>> \o Pad(x.f, 2)
          ELSE LET m == a * 9765625                     \* of 10^-10
                   k == Len(Dec(m, <<>>))               \* digits: the exponent is k - 11
                   d == IF k <= 3 THEN m ELSE Round(m, IF k = 9 THEN 1000000 ELSE IF k = 8 THEN 100000 ELSE 10000)
                   y == IF d >= 1000 THEN [d |-> d \div 10, e |-> 11 - k - 1] ELSE [d |-> d, e |-> 11 - k]
               IN sg \o <<48 + y.d \div 100, 46>> \o Pad(y.d % 100, 2) \o <<101, 45>> \o Pad(y.e, 2)

Escaped(c) == CASE c = 34 -> <<92, 34>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>> [] c = 0 -> <<32>>
                [] c > 0 /\ c < 32 -> <<92>> \o <<48 + c \div 64, 48 + ((c \div 8) % 8), 48 + (c % 8)>>
                [] OTHER -> <<c>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
RECURSIVE Sep(_, _)
Sep(ss, d) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o d \o Sep(Tail(ss), d)

IsNullSym(v) == v = <<48, 78, 115>>
Show1(t, v) ==               \* one element
  CASE t = "b8" -> IF v THEN TRUE_ ELSE FALSE_
    [] t = "u8" -> <<48, 120>> \o (LET h(n) == IF n < 10 THEN 48 + n ELSE 87 + n IN <<h(v \div 16), h(v % 16)>>)
    [] t = "i16" -> IF v = NI THEN N0(104) ELSE S(v)
    [] t = "i32" -> IF v = NI THEN N0(105) ELSE S(v)
    [] t = "i64" -> ShowWide(Widen(v))
    [] t = "i64w" -> ShowWide(v)
    [] t = "f64" -> ShowF(v)
    [] t = "date" -> ShowDate(v)
    [] t = "time" -> ShowTime(v)
    [] t = "ts" -> ShowStamp(Widen(v))
    [] t = "tsw" -> ShowStamp(v)
    [] t = "sym" -> v
    [] t = "c8" -> Escaped(v)
    [] OTHER -> Unknown
RECURSIVE Show(_)
Shown(x) == LET r == Show(x) IN IF (\E i \in 1..Len(r) : r[i] = -1) \/ Len(r) > 70 THEN Unknown ELSE r
Show(x) ==
  CASE x.t = "C8" -> Flat([i \in 1..Len(x.v) |-> Escaped(x.v[i])])
    [] IsAtom(x) -> IF x.t = "sym" /\ IsNullSym(x.v) THEN <<>> ELSE Show1(x.t, x.v)
    [] IsVec(x) -> <<91>> \o Sep([i \in 1..Len(x.v) |-> Show1(AtomT[x.t], x.v[i])], <<32>>) \o <<93>>
    [] x.t = "LIST" -> <<40>> \o Sep([i \in 1..Len(x.v) |-> Shown(x.v[i])], <<32>>) \o <<41>>
    [] x.t = "DICT" -> IF x.k.t \notin {"SYM", "I64", "I64w"} THEN Unknown
                       ELSE <<123>> \o Sep([i \in 1..Len(x.k.v) |-> Show1(AtomT[x.k.t], x.k.v[i]) \o <<58, 32>>
                                                                     \o (IF x.v.t = "LIST" THEN Shown(x.v.v[i]) ELSE Show1(AtomT[x.v.t], x.v.v[i]))], <<32>>) \o <<125>>
    [] x.t = "NULL" -> <<78, 117, 108, 108>>
    [] OTHER -> Unknown

\* (format template values...): as many values as % signs
RECURSIVE Fill(_, _, _)
Fill(f, p, xs) == IF p > Len(f) THEN IF xs = <<>> THEN <<>> ELSE <<-2>>
                  ELSE IF f[p] = 37 THEN IF xs = <<>> THEN <<-2>> ELSE Shown(xs[1]) \o Fill(f, p + 1, Tail(xs))
                  ELSE <<f[p]>> \o Fill(f, p + 1, xs)
Format(f, xs) == LET r == Fill(f, 1, xs)
                 IN IF \E i \in 1..Len(r) : r[i] = -2 THEN Null
                    ELSE IF \E i \in 1..Len(r) : r[i] = -1 THEN Open ELSE Str(r)

-----------------------------------------------------------------------------
(* patterns: * any run, ? any character, [abc] one of, [^abc] none of *)
Close(p, j) == IF \E k \in j..Len(p) : p[k] = 93 THEN CHOOSE k \in j..Len(p) : p[k] = 93 /\ \A l \in j..(k - 1) : p[l] # 93 ELSE 0
RECURSIVE Match(_, _, _, _)
Match(s, i, p, j) ==
  IF j > Len(p) THEN i > Len(s)
  ELSE IF p[j] = 42 THEN Match(s, i, p, j + 1) \/ (i <= Len(s) /\ Match(s, i + 1, p, j))
  ELSE IF i > Len(s) THEN FALSE
  ELSE IF p[j] = 63 THEN Match(s, i + 1, p, j + 1)
  ELSE IF p[j] = 91
       THEN LET inv == C(p, j + 1) = 94   a == IF inv THEN j + 2 ELSE j + 1   k == Close(p, a)
            IN k # 0 /\ ((\E l \in a..(k - 1) : p[l] = s[i]) # inv) /\ Match(s, i + 1, p, k + 1)
  ELSE s[i] = p[j] /\ Match(s, i + 1, p, j + 1)
Like(s, p) == Match(s, 1, p, 1)

(* splitting at the leftmost occurrences of d that do not overlap *)
Here(s, p, d) == p + Len(d) - 1 <= Len(s) /\ \A i \in 1..Len(d) : s[p + i - 1] = d[i]
RECURSIVE Split(_, _, _, _)
Split(s, a, p, d) == IF p > Len(s) THEN <<SubSeq(s, a, Len(s))>>
                     ELSE IF Here(s, p, d) THEN <<SubSeq(s, a, p - 1)>> \o Split(s, p + Len(d), p + Len(d), d)
                     ELSE Split(s, a, p + 1, d)

-----------------------------------------------------------------------------
(* text to date, time, stamp *)
RECURSIVE NonDig(_, _)
NonDig(s, p) == IF Eof(s, p) \/ IsDigit(C(s, p)) THEN p ELSE NonDig(s, p + 1)
\* the digit groups of a text: <<start, end>>, at most n
RECURSIVE Groups(_, _, _)
Groups(s, p, n) == IF n = 0 \/ Eof(s, p) THEN <<>>
                   ELSE LET z == RunEnd(s, p) IN IF z = p THEN <<<<p, p>>>> ELSE <<<<p, z>>>> \o Groups(s, NonDig(s, z), n - 1)
GLen(g) == g[2] - g[1]
AsDate(s) ==
  LET g == Groups(s, 1, 3)
      n(i) == Val(s, g[i][1], g[i][2], 0)
  IN IF s = <<>> THEN Open
     ELSE IF \E i \in 1..Len(g) : GLen(g[i]) > 4 THEN Open
     ELSE IF Len(g) < 3 \/ (\E i \in 1..3 : GLen(g[i]) = 0) \/ n(2) \notin 1..12 \/ n(3) \notin 1..31 THEN Atom("date", NI)
     ELSE IF ValidDate(n(1), n(2), n(3)) THEN Atom("date", Days(n(1), n(2), n(3))) ELSE Open
AsTime(s) ==
  LET neg == C(s, 1) = 45   a == IF neg THEN 2 ELSE 1
      g == Groups(s, a, 4)   n(i) == Val(s, g[i][1], g[i][2], 0)
      v == (n(1) * 3600 + n(2) * 60 + n(3)) * 1000 + (IF Len(g) = 4 THEN n(4) ELSE 0)
      good == /\ Len(g) \in {3, 4} /\ \A i \in 1..Len(g) : GLen(g[i]) \in 1..(IF i = 4 THEN 3 ELSE 2)
              /\ g[1][1] = a /\ g[2][1] = g[1][2] + 1 /\ g[3][1] = g[2][2] + 1 /\ C(s, g[1][2]) = 58 /\ C(s, g[2][2]) = 58
              /\ g[Len(g)][2] = Len(s) + 1 /\ (Len(g) = 4 => C(s, g[3][2]) = 46 /\ g[4][1] = g[3][2] + 1)
  IN IF s = <<>> THEN Open
     ELSE IF good THEN Atom("time", IF neg THEN 0 - v ELSE v)
     ELSE IF \E i \in 1..Len(s) : ~IsDigit(s[i]) /\ s[i] \notin {45, 46, 58} THEN Atom("time", NI)
     ELSE Open
\* YYYY.MM.DD[DHH:MM:SS[.n]] (n: nanoseconds) and YYYY-MM-DD[(T| )HH:MM:SS[.fraction][Z|(+|-)HH[:]MM]]
AsStamp(s) ==
  LET l == Len(s)
      dOk(c) == l >= 10 /\ At2(s, 1) /\ At2(s, 3) /\ C(s, 5) = c /\ At2(s, 6) /\ C(s, 8) = c /\ At2(s, 9)
      y == N2(s, 1) * 100 + N2(s, 3)   mo == N2(s, 6)   d == N2(s, 9)
      tOk == l >= 19 /\ At2(s, 12) /\ C(s, 14) = 58 /\ At2(s, 15) /\ C(s, 17) = 58 /\ At2(s, 18)
      hh == N2(s, 12)   mi == N2(s, 15)   ss == N2(s, 18)
      in == ValidDate(y, mo, d) /\ y >= 1721 /\ y <= 2279
      tin == hh <= 23 /\ mi <= 59 /\ ss <= 59
      sec == hh * 3600 + mi * 60 + ss
      z == RunEnd(s, 21)   nf == z - 21
      frac == C(s, 20) = 46 /\ nf \in 1..9
      e == IF frac THEN z ELSE 20
      zone == IF e = l + 1 \/ (e = l /\ C(s, e) \in {90, 122}) THEN 0
              ELSE IF C(s, e) \in {43, 45} /\ At2(s, e + 1)
                   THEN LET m0 == IF C(s, e + 3) = 58 THEN e + 4 ELSE e + 3
                            mm == IF m0 = l + 1 /\ m0 = e + 3 THEN 0 ELSE IF At2(s, m0) /\ m0 + 1 = l THEN N2(s, m0) ELSE -1
                        IN IF mm < 0 THEN 99999 ELSE (IF C(s, e) = 45 THEN -1 ELSE 1) * (N2(s, e + 1) * 60 + mm)
                   ELSE 99999
      scaled == IF frac THEN Val(s, 21, z, 0) * (CASE nf = 9 -> 1 [] nf = 8 -> 10 [] nf = 7 -> 100 [] nf = 6 -> 1000 [] nf = 5 -> 10000 [] nf = 4 -> 100000 [] nf = 3 -> 1000000 [] nf = 2 -> 10000000 [] OTHER -> 100000000) ELSE 0
  IN IF s = <<>> THEN Open
     ELSE IF dOk(46) /\ in
          THEN IF l = 10 THEN Atom("tsw", Stamp(Days(y, mo, d), 0, 0))
               ELSE IF C(s, 11) = 68 /\ tOk /\ tin /\ l = 19 THEN Atom("tsw", Stamp(Days(y, mo, d), sec, 0))
               ELSE IF C(s, 11) = 68 /\ tOk /\ tin /\ frac /\ z = l + 1 THEN Atom("tsw", Stamp(Days(y, mo, d), sec, Val(s, 21, z, 0)))
               ELSE Open
     ELSE IF dOk(45) /\ in
          THEN IF l = 10 THEN Atom("tsw", Stamp(Days(y, mo, d), 0, 0))
               ELSE IF C(s, 11) \in {84, 32} /\ tOk /\ tin /\ zone # 99999 /\ (C(s, 20) # 46 \/ frac)
                    THEN Atom("tsw", Stamp(Days(y, mo, d), sec - zone * 60, scaled))
               ELSE Open
     ELSE IF ~IsDigit(s[1]) THEN Atom("tsw", WNull)
     ELSE Open

-----------------------------------------------------------------------------
(* does the observed value g agree with the specified e? *)
NearF(e, g) == e = QF \/ Near(e, g)
RECURSIVE Agrees(_, _)
Agrees(e, g) ==
  CASE e.t \in {"OPEN", "ANY"} -> TRUE
    [] e.t = "name" -> (g.t = "sym" /\ g.v = e.v) \/ (g.t = "FN" /\ g.n = e.v)
    [] e.t = "f64" -> g.t = "f64" /\ (e.v = QF \/ Near(e.v, g.v))
    [] e.t = "F64" -> g.t = "F64" /\ Len(e.v) = Len(g.v) /\ \A i \in 1..Len(e.v) : (e.v[i] = QF \/ Near(e.v[i], g.v[i]))
    [] e.t = "LIST" -> g.t = "LIST" /\ Len(e.v) = Len(g.v) /\ \A i \in 1..Len(e.v) : Agrees(e.v[i], g.v[i])
    [] e.t = "DICT" -> g.t = "DICT" /\ Agrees(e.k, g.k) /\ Agrees(e.v, g.v)
    [] e.t = "ERR" -> g.t = "ERR"
    [] OTHER -> Same(e, g)

\* one operation
Result(op, a) ==
  CASE op = "read" -> Read(a[1])
    [] op = "format" -> Format(a[1], Tail(a))
    [] op = "like" -> IF a[1].t = "C8" THEN Bool(Like(a[1].v, a[2])) ELSE Vec("B8", [i \in 1..Len(a[1].v) |-> Like(a[1].v[i].v, a[2])])
    [] op = "split" -> Lst([i \in 1..Len(Split(a[1], 1, 1, a[2])) |-> Str(Split(a[1], 1, 1, a[2])[i])])
    [] op = "date" -> AsDate(a[1])
    [] op = "time" -> AsTime(a[1])
    [] op = "stamp" -> AsStamp(a[1])
    [] OTHER -> Open
=============================================================================
