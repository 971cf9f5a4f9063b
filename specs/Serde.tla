-------------------------------- MODULE Serde --------------------------------
(***************************************************************************)
(* The serialized form of values, as bytes: Encode gives the exact message *)
(* of a value, Decode the value of any sequence of bytes, well formed or   *)
(* not; a sequence that is no message of a value decodes to an error.      *)
(*                                                                         *)
(* A message is a 16 byte header (4 bytes of magic, version, three free    *)
(* bytes, length of the payload as 8 bytes, little endian) and a payload:  *)
(* one byte of type, then the bytes of the atom, or attributes, length and *)
(* elements of a vector, or the two halves of a table or dictionary.       *)
(***************************************************************************)
EXTENDS Values

MAXDEPTH == 4096
Magic == <<250, 222, 250, 206>>
Version == 1

TypeCode == [LIST |-> 0, B8 |-> 1, U8 |-> 2, I16 |-> 3, I32 |-> 4, I64 |-> 5, SYM |-> 6,
             DATE |-> 7, TIME |-> 8, TS |-> 9, F64 |-> 10, GUID |-> 11, C8 |-> 12]
CodeType == [c \in {TypeCode[t] : t \in DOMAIN TypeCode} |-> CHOOSE t \in DOMAIN TypeCode : TypeCode[t] = c]
Width == [b8 |-> 1, u8 |-> 1, c8 |-> 1, i16 |-> 2, i32 |-> 4, date |-> 4, time |-> 4, i64 |-> 8, ts |-> 8,
          f64 |-> 8, guid |-> 16]

Chars == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharAt == [i \in 1..Len(Chars) |-> SubSeq(Chars, i, i)]
CodeOf == [c \in {CharAt[i] : i \in 1..Len(Chars)} |-> 31 + CHOOSE i \in 1..Len(Chars) : CharAt[i] = c]
Hex == "0123456789abcdef"
HexAt == [i \in 1..16 |-> SubSeq(Hex, i, i)]
HexOf == [c \in {HexAt[i] : i \in 1..16} |-> (CHOOSE i \in 1..16 : HexAt[i] = c) - 1]

-----------------------------------------------------------------------------
(* Encoding.  NoBytes stands for "has no serialized form", AnyBytes for a  *)
(* form the specification leaves open.                                     *)
NoBytes  == <<-1>>
AnyBytes == <<-2>>

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1]
           ELSE LET h == Len(s) \div 2 IN Flat(SubSeq(s, 1, h)) \o Flat(SubSeq(s, h + 1, Len(s)))

\* bytes of an integer, least significant first
IntBytes(n, w) ==
  IF n = NI THEN [i \in 1..w |-> IF i = w THEN 128 ELSE 0]
  ELSE LET b == [i \in 1..4 |-> (n \div (256 ^ (i - 1))) % 256]
       IN [i \in 1..w |-> IF i <= 4 THEN b[i] ELSE IF n < 0 THEN 255 ELSE 0]

RECURSIVE Log2(_)
Log2(m) == IF m < 2 THEN 0 ELSE 1 + Log2(m \div 2)
\* a float is m/1024
F64Bytes(m) ==
  IF m = NI THEN <<0, 0, 0, 0, 0, 0, 248, 127>>
  ELSE IF m = 0 THEN <<0, 0, 0, 0, 0, 0, 0, 0>>
  ELSE LET a == IF m < 0 THEN -m ELSE m
           e == Log2(a)
           x == e + 1013
           f == (a - 2 ^ e) * 2 ^ (28 - e)          \* the upper 28 of 52 bits
       IN <<0, 0, 0, f % 256, (f \div 256) % 256, (f \div 65536) % 256,
            (x % 16) * 16 + (f \div 16777216), (IF m < 0 THEN 128 ELSE 0) + x \div 16>>

SymBytes(s) == IF s = "0Ns" THEN <<0>> ELSE [i \in 1..Len(s) + 1 |-> IF i > Len(s) THEN 0 ELSE CodeOf[SubSeq(s, i, i)]]
GuidBytes(s) == [i \in 1..16 |-> HexOf[SubSeq(s, 2 * i - 1, 2 * i - 1)] * 16 + HexOf[SubSeq(s, 2 * i, 2 * i)]]

Raw(t, v) == CASE t = "b8" -> <<IF v THEN 1 ELSE 0>>
               [] t \in {"u8", "c8"} -> <<v>>
               [] t = "f64" -> F64Bytes(v)
               [] t = "sym" -> SymBytes(v)
               [] t = "guid" -> GuidBytes(v)
               [] OTHER -> IntBytes(v, Width[t])

Join(a, b) == IF NoBytes \in {a, b} THEN NoBytes ELSE IF AnyBytes \in {a, b} THEN AnyBytes ELSE a \o b
RECURSIVE Body(_)
Body(x) ==
  CASE x.t = "ENUM" -> NoBytes
    [] x.t = "NULL" -> <<126>>
    [] x.t \in {"i64w", "tsw", "I64w", "TSw", "LAMBDA", "FN", "ANY", "UNDEF"} -> AnyBytes
    [] IsAtom(x) -> <<256 - TypeCode[VecT[x.t]]>> \o Raw(x.t, x.v)
    [] IsVec(x) -> <<TypeCode[x.t], 0>> \o IntBytes(Len(x.v), 8) \o Flat([i \in 1..Len(x.v) |-> Raw(AtomT[x.t], x.v[i])])
    [] IsList(x) -> LET bs == [i \in 1..Len(x.v) |-> Body(x.v[i])]
                    IN IF \E i \in 1..Len(bs) : bs[i] = NoBytes THEN NoBytes
                       ELSE IF \E i \in 1..Len(bs) : bs[i] = AnyBytes THEN AnyBytes
                       ELSE <<0, 0>> \o IntBytes(Len(x.v), 8) \o Flat(bs)
    [] IsDict(x) -> Join(<<99, 0>>, Join(Body(x.k), Body(x.v)))
    [] IsTab(x) -> Join(<<98, 0>>, Join(Body(Vec("SYM", x.c)), Body(Lst(x.v))))
    [] OTHER -> NoBytes

Message(b) == Magic \o <<Version, 0, 0, 0>> \o IntBytes(Len(b), 8) \o b
Ser(x) == IF x.t \in {"ANY", "UNDEF", "ERR"} THEN Wild
          ELSE LET b == Body(x) IN IF b = NoBytes THEN Err("*") ELSE IF b = AnyBytes THEN Wild ELSE Vec("U8", Message(b))

-----------------------------------------------------------------------------
(* Decoding.  Values beyond what the specification represents (wide        *)
(* integers, symbols of unprintable characters, functions) decode to an    *)
(* open value of known type and length.                                    *)
Open(ty, n) == [t |-> "ANY", ty |-> ty, n |-> n]
LenD(x) == IF x.t = "ANY" THEN x.n ELSE Len1(x)
TyD(x)  == IF x.t = "ANY" THEN x.ty ELSE x.t
SeqD(x) == TyD(x) \in VecTypes \cup {"LIST"}

\* <<ok, n>> of the w bytes of b from p
IntOf(b, p, w) ==
  LET top == b[p + w - 1]
      neg == top >= 128
      low(k) == IF p + k <= p + w - 1 THEN b[p + k] ELSE IF neg THEN 255 ELSE 0
      ext == \A k \in 4..w - 1 : b[p + k] = IF b[p + 3] >= 128 THEN 255 ELSE 0
      hi == IF low(3) >= 128 THEN low(3) - 256 ELSE low(3)
  IN IF top = 128 /\ \A k \in 0..w - 2 : b[p + k] = 0 THEN <<TRUE, NI>>
     ELSE IF w = 8 /\ ~ext THEN <<FALSE, 0>>
     ELSE IF w = 8 /\ hi \notin -128..127 THEN <<FALSE, 0>>
     ELSE IF w = 8 /\ (hi = -128 \/ hi = 127) THEN <<FALSE, 0>>
     ELSE <<TRUE, hi * 16777216 + low(2) * 65536 + low(1) * 256 + low(0)>>

F64Of(b, p) ==
  LET x == (b[p + 7] % 128) * 16 + b[p + 6] \div 16
      f == (b[p + 6] % 16) * 16777216 + b[p + 5] * 65536 + b[p + 4] * 256 + b[p + 3]
      e == x - 1013
      sg(n) == IF b[p + 7] >= 128 THEN -n ELSE n
  IN IF x = 2047 THEN (IF f = 0 /\ b[p] = 0 /\ b[p + 1] = 0 /\ b[p + 2] = 0 THEN <<FALSE, 0>> ELSE <<TRUE, NI>>)
     ELSE IF e < -1 THEN <<TRUE, 0>>
     ELSE IF e = -1 THEN <<TRUE, sg(1)>>
     ELSE IF e > 28 THEN <<FALSE, 0>>
     ELSE <<TRUE, sg(2 ^ e + f \div 2 ^ (28 - e))>>

\* position of the terminating zero from p, 0 when there is none
RECURSIVE ZeroAt(_, _)
ZeroAt(b, p) == IF p > Len(b) THEN 0 ELSE IF b[p] = 0 THEN p ELSE ZeroAt(b, p + 1)
RECURSIVE Text(_, _, _)
Text(b, p, q) == IF p >= q THEN "" ELSE CharAt[b[p] - 31] \o Text(b, p + 1, q)
SymOf(b, p, z) == IF z = p THEN <<TRUE, "0Ns">>
                  ELSE IF \E k \in p..z - 1 : b[k] \notin 32..126 THEN <<FALSE, "">>
                  ELSE <<TRUE, Text(b, p, z)>>
GuidOf(b, p) == LET h[k \in 0..16] == IF k = 0 THEN "" ELSE h[k - 1] \o HexAt[(b[p + k - 1] \div 16) + 1] \o HexAt[(b[p + k - 1] % 16) + 1] IN h[16]

RawOf(t, b, p) == CASE t = "b8" -> IF b[p] \in {0, 1} THEN <<TRUE, b[p] = 1>> ELSE <<FALSE, FALSE>>
                    [] t \in {"u8", "c8"} -> <<TRUE, b[p]>>
                    [] t = "f64" -> F64Of(b, p)
                    [] t = "guid" -> <<TRUE, GuidOf(b, p)>>
                    [] OTHER -> IntOf(b, p, Width[t])

Bad == [ok |-> FALSE, v |-> Null, p |-> 0]
Good(v, p) == [ok |-> TRUE, v |-> v, p |-> p]

PairOk(c, k, v) ==
  IF c = 99 THEN SeqD(v) /\ (IF TyD(k) = "NULL" THEN LenD(v) = 0 ELSE SeqD(k) /\ LenD(k) = LenD(v))
  ELSE /\ TyD(k) = "SYM" /\ TyD(v) = "LIST" /\ (LenD(k) = LenD(v) \/ LenD(v) = 0)
       /\ v.t = "LIST" => \A i \in 1..Len(v.v) : SeqD(v.v[i]) /\ LenD(v.v[i]) = LenD(v.v[1])

RECURSIVE De(_, _, _, _), DeSyms(_, _, _, _, _), DeItems(_, _, _, _, _, _)
\* n symbols from position p
DeSyms(b, p, n, acc, ok) ==
  IF n = 0 THEN [ok |-> TRUE, all |-> ok, v |-> acc, p |-> p]
  ELSE LET z == ZeroAt(b, p)
           s == SymOf(b, p, z)
       IN IF z = 0 THEN [ok |-> FALSE, all |-> FALSE, v |-> acc, p |-> p]
          ELSE DeSyms(b, z + 1, n - 1, Append(acc, s[2]), ok /\ s[1])
\* n items
DeItems(b, p, n, d, code, acc) ==
  IF n = 0 THEN Good(Lst(acc), p)
  ELSE LET r == De(b, p, d, code) IN IF ~r.ok THEN Bad ELSE DeItems(b, r.p, n - 1, d, code, Append(acc, r.v))

\* the value whose bytes start at p; d: nesting; code: inside of a function, where (quote symbol) is the symbol
De(b, p, d, code) ==
  LET left == Len(b) - p + 1 IN
  IF left < 1 \/ d > MAXDEPTH THEN Bad
  ELSE LET c == b[p]
           ac == 256 - c
           has(w) == left - 1 >= w
  IN IF c = 126 THEN Good(Null, p + 1)
     ELSE IF c = 127 THEN Bad                       \* an error is an error either way
     ELSE IF c > 127 /\ ac \in 1..12
     THEN LET t == AtomT[CodeType[ac]]
          IN IF t = "sym"
             THEN LET z == ZeroAt(b, p + 1) IN
                  IF z = 0 THEN Bad
                  ELSE LET s == SymOf(b, p + 1, z) IN Good(IF s[1] THEN Sym(s[2]) ELSE Open("sym", 1), z + 1)
             ELSE IF ~has(Width[t]) THEN Bad
             ELSE LET r == RawOf(t, b, p + 1) IN Good(IF r[1] THEN Atom(t, r[2]) ELSE Open(t, 1), p + 1 + Width[t])
     ELSE IF c \in 0..12
     THEN IF ~has(9) THEN Bad
          ELSE LET ln == IntOf(b, p + 2, 8)
                   n == ln[2]
                   q == p + 10
                   rest == Len(b) - q + 1
               IN IF ~ln[1] \/ n < 0 \/ n > rest THEN Bad
                  ELSE IF c = 0
                  THEN LET r == DeItems(b, q, n, d + 1, code, <<>>)
                       IN IF ~r.ok THEN Bad
                          ELSE IF code /\ n = 2 /\ TyD(r.v.v[1]) = "quote" /\ TyD(r.v.v[2]) = "sym" THEN Good(r.v.v[2], r.p)
                          ELSE r
                  ELSE LET T1 == CodeType[c]
                           t == AtomT[T1]
                       IN IF t = "sym"
                          THEN LET r == DeSyms(b, q, n, <<>>, TRUE)
                               IN IF ~r.ok THEN Bad ELSE Good(IF r.all THEN Vec("SYM", r.v) ELSE Open("SYM", n), r.p)
                          ELSE IF rest \div Width[t] < n THEN Bad
                          ELSE LET rs == [i \in 1..n |-> RawOf(t, b, q + (i - 1) * Width[t])]
                               IN Good(IF \A i \in 1..n : rs[i][1] THEN Vec(T1, [i \in 1..n |-> rs[i][2]]) ELSE Open(T1, n),
                                       q + n * Width[t])
     ELSE IF c \in {98, 99, 100}
     THEN IF ~has(1) THEN Bad
          ELSE LET k == De(b, p + 2, d + 1, IF c = 100 THEN FALSE ELSE code)
               IN IF ~k.ok THEN Bad
                  ELSE LET v == De(b, k.p, d + 1, IF c = 100 THEN TRUE ELSE code)
                       IN IF ~v.ok THEN Bad
                          ELSE IF c = 100 THEN (IF TyD(k.v) = "SYM" THEN Good([t |-> "LAMBDA"], v.p) ELSE Bad)
                          ELSE IF k.v.t = "ANY" /\ TyD(k.v) \in {"FN", "quote"} /\ LenD(v.v) = 0 /\ SeqD(v.v) THEN Good(Open("DICT", 0), v.p)
                          ELSE IF ~PairOk(c, k.v, v.v) THEN Bad
                          ELSE IF c = 99 THEN Good(IF k.v.t = "ANY" THEN Open("DICT", LenD(k.v)) ELSE Dict(k.v, v.v), v.p)
                          ELSE Good(IF k.v.t = "ANY" \/ LenD(k.v) # LenD(v.v) THEN Open("TABLE", 0) ELSE Table(k.v.v, v.v.v), v.p)
     ELSE IF c \in {101, 102, 103}
     THEN LET z == ZeroAt(b, p + 1)
          IN IF z = 0 THEN Bad
             ELSE Good(Open(IF z - p = 6 /\ SubSeq(b, p + 1, z - 1) = <<113, 117, 111, 116, 101>> THEN "quote" ELSE "FN", 1), z + 1)
     ELSE Bad

Deser(x) ==
  IF x.t = "ANY" THEN Wild
  ELSE IF x.t # "U8" THEN Err("*")
  ELSE LET b == x.v
           n == IF Len(b) >= 16 THEN IntOf(b, 9, 8) ELSE <<FALSE, 0>>
       IN IF Len(b) < 16 \/ SubSeq(b, 1, 4) # Magic \/ b[5] > Version \/ ~n[1] \/ n[2] + 16 # Len(b) THEN Err("*")
          ELSE LET r == De(b, 17, 0, FALSE) IN IF r.ok THEN (IF r.p = Len(b) + 1 THEN r.v ELSE Wild) ELSE Err("*")

-----------------------------------------------------------------------------
(* Laws of the two directions, checked by MCSerde over a set of values.    *)
RoundTrip(x) == LET m == Ser(x) IN m.t = "U8" /\ Same(x, Deser(m))
\* no proper prefix of a message is a message, whatever length its header claims
PrefixFree(x) == LET m == Ser(x).v
               IN /\ \A k \in 0..Len(m) - 1 : Deser(Vec("U8", SubSeq(m, 1, k))) = Err("*")
                  /\ \A k \in 16..Len(m) - 1 : Deser(Vec("U8", Message(SubSeq(m, 17, k)))) = Err("*")
=============================================================================
