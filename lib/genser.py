"""Serialized values: exact bytes, round trips, and damaged messages."""
import struct
from lib.gen import *

CODE = {"LIST": 0, "B8": 1, "U8": 2, "I16": 3, "I32": 4, "I64": 5, "SYM": 6, "DATE": 7, "TIME": 8, "TS": 9, "F64": 10, "GUID": 11, "C8": 12}
FMT = {"b8": "<B", "u8": "<B", "c8": "<B", "i16": "<h", "i32": "<i", "date": "<i", "time": "<i", "i64": "<q", "ts": "<q", "f64": "<d"}
MINI = {"i16": -2**15, "i32": -2**31, "date": -2**31, "time": -2**31, "i64": -2**63, "ts": -2**63}

def raw(t, v):
    if t == "sym": return (b"" if v == "0Ns" else v.encode()) + b"\0"
    if t == "f64": return struct.pack("<d", float("nan") if v == NI else v / 1024)
    if v == NI and t in MINI: v = MINI[t]
    return struct.pack(FMT[t], int(v))

def enc(x):
    t = x["t"]
    if t == "NULL": return bytes([126])
    if t == "LIST": return bytes([0, 0]) + struct.pack("<q", len(x["v"])) + b"".join(map(enc, x["v"]))
    if t == "DICT": return bytes([99, 0]) + enc(x["k"]) + enc(x["v"])
    if t == "TABLE": return bytes([98, 0]) + enc(SV(x["c"])) + enc(L(*x["v"]))
    if t in ATOM: return bytes([CODE[t], 0]) + struct.pack("<q", len(x["v"])) + b"".join(raw(ATOM[t], v) for v in x["v"])
    return bytes([256 - CODE[VEC[t]]]) + raw(t, x["v"])

def msg(body, ver=1, size=None, pre=b"\xfa\xde\xfa\xce"):
    return pre + bytes([ver, 0, 0, 0]) + struct.pack("<q", len(body) if size is None else size) + body

def u8(b): return V("U8", list(b))

VT = ["b8", "u8", "i16", "i32", "i64", "sym", "date", "time", "ts", "f64", "c8"]

def value(r, d=0):
    k = r.random()
    if k < .25 or d > 2: return atom(r, r.choice(VT))
    if k < .55: return vec(r, r.choice(VT), r.choice([0, 1, 2, 3, 5, 9]), nulls=.2)
    if k < .75: return L(*[value(r, d + 1) for _ in range(r.choice([0, 1, 2, 3, 4]))])
    if k < .85:
        n = r.choice([0, 1, 2, 3])
        return D(vec(r, r.choice(["sym", "i64", "sym", "i32"]), n) if r.random() < .8 else L(*[value(r, d + 2) for _ in range(n)]),
                 vec(r, r.choice(VT), n) if r.random() < .5 else L(*[value(r, d + 1) for _ in range(n)]))
    if k < .97:
        n = r.choice([0, 1, 2, 4])
        cs = r.sample(SYMS, r.randint(1, 3))
        return TB([(c, vec(r, r.choice(VT), n, nulls=.2) if r.random() < .85 or n == 0
                    else L(*[value(r, d + 2) for _ in range(n)])) for c in cs])
    return {"t": "NULL"}

def mutate(r, x):
    b = bytearray(enc(x))
    k = r.random()
    if k < .25: b = b[:r.randint(0, max(0, len(b) - 1))]
    elif k < .5:
        for _ in range(r.choice([1, 1, 2, 4])): b[r.randrange(len(b))] = r.choice([0, 1, 2, 3, 6, 10, 98, 99, 100, 101, 126, 127, 128, 250, 255, r.randrange(256)])
    elif k < .75:      # lengths
        p = [i for i in range(len(b) - 9) if b[i] in range(13) and b[i + 1] == 0]
        if p:
            i = r.choice(p) + 2
            b[i:i + 8] = struct.pack("<q", r.choice([0, 1, 2, 3, 4, 7, 8, 9, 100, 10**6, 10**9, 10**12, -1, -2, -100, -2**63, 2**62, 2**61, 2**60 + 1]))
        else: b[0] = r.randrange(256)
    elif k < .85:
        i = r.randrange(len(b))
        del b[i:i + r.randint(1, 3)]
    else:
        y = enc(value(r, 1))
        i = r.randrange(len(b))
        b[i:i + r.randint(0, 12)] = y
    m = msg(bytes(b))
    k = r.random()
    if k < .04: m = msg(bytes(b), ver=r.choice([0, 2, 255]))
    elif k < .07: m = msg(bytes(b), size=r.choice([len(b) + 1, len(b) - 1, -1, -16, 0, 2**40, -2**63]))
    elif k < .09: m = msg(bytes(b), pre=bytes([250, 222, 250, r.choice([0, 206])]))
    elif k < .12: m = m[:r.randint(0, len(m))]
    return m

LAM = [
    (FN(["x"], O("+", X("x"), I(1))), lambda r: [atom(r, "i64")]),
    (FN(["x"], O("list", X("x"), S("q"))), lambda r: [vec(r, "i64", 3)]),
    (FN(["x", "y"], LET("z", O("*", X("x"), I(2))), O("list", X("z"), X("y"), S("a"))), lambda r: [atom(r, "i64"), vec(r, "sym", 2)]),
    (FN(["x"], IF(O(">", X("x"), I(2)), K(C("big")), S("small"))), lambda r: [I(r.randint(0, 5))]),
    (FN(["t"], SEL(X("t"), wh=O("==", X("s"), S("a")), cols=[("v", X("v"))])), lambda r: [TB([("s", vec(r, "sym", 4)), ("v", vec(r, "i64", 4))])]),
    (FN(["x"], O("sum", MAP(FN(["y"], O("*", X("y"), I(2))), X("x")))), lambda r: [vec(r, "i64", 4, nulls=0)]),
    (FN([], K(L(I(1), C("ab")))), lambda r: []),
    (FN(["x"], RAW("(do (set 'zz x) (+ zz 1))", O("+", X("x"), I(1)))), lambda r: [atom(r, "i64")]),
    (FN(["x"], RAW("(do (let 'zy x) (list zy 'zy))", O("list", X("x"), S("zy")))), lambda r: [vec(r, "i64", 3)]),
    (FN(["x"], RAW("(do (set 'zz x) (alter 'zz concat 7) zz)", O("concat", X("x"), I(7)))), lambda r: [vec(r, "i64", 3)]),
    (FN(["x"], TRY(O("+", X("x"), S("a")), FN(["e"], S("bad")))), lambda r: [I(1)]),
]

def de(x): return RAW("(de (ser %s))" % R(n_(x)), x)

def g_serde(r, n):
    out = []
    while len(out) < n:
        s, k = [], r.random()
        if k < .45:
            x = value(r)
            s += [ev(O("ser", x)), ev(de(x)), ev(O("de", u8(msg(enc(x)))))]
            s += [SET("v", de(L(x, vec(r, r.choice(VT), 3), x))), ev(X("v"), d=["v"])]
        elif k < .85:
            keep = value(r)
            s.append(SET("k", keep))
            for _ in range(r.randint(2, 5)):
                m = mutate(r, value(r))
                s.append(ev(O("de", u8(m))))
            s.append(ev(de(X("k")), d=["k"]))
        elif k < .93:
            f, a = r.choice(LAM)
            args = a(r)
            s.append(SET("f", de(f)))
            s.append(ev(CALL(X("f"), *args)))
            s.append(SET("g", RAW("(at (de (ser (list 1 %s))) 1)" % R(f), f)))
            s.append(ev(CALL(X("g"), *args)))
            s.append(SET("h", f))
            s.append(SET("h", RAW("(de (ser (de (ser h))))", X("h"))))
            s.append(ev(CALL(X("h"), *args)))
        elif k < .97:   # values without a serialized form, alone and inside of others
            s.append(SET("t", TB([("s", SV(["a", "b"]))])))
            s.append(SET("e", RAW("(enum 's ['a 'b 'a])", K({"t": "ENUM", "k": "s", "v": ["a", "b", "a"]}))))
            s = [SET("s", SV(["a", "b"])), s[1]]
            w = r.choice([lambda e: O("ser", e), lambda e: O("ser", O("list", I(1), e)), lambda e: O("ser", O("list", e, vec(r, "i64", 3))),
                          lambda e: O("ser", O("dict", SV(["p", "q"]), O("list", e, I(2)))),
                          lambda e: O("ser", O("list", O("list", e), C("abc")))])
            s.append(ev(w(X("e"))))
            s.append(ev(de(I(5))))
            s.append(ev(O("de", r.choice([I(5), C("abc"), SV(["a"]), vec(r, "i64", 3), L(I(1))]))))
        else:           # nested beyond what the format allows: n dictionaries, or n lists, one in another
            m = r.choice([5000, 20000, 60000])
            if r.random() < .5: unit, reps = [99, 0], m
            else: unit, reps = [0, 0, 1, 0, 0, 0, 0, 0, 0, 0], m
            tot = len(unit) * reps
            hdr = "[" + " ".join("0x%02x" % b for b in msg(b"", size=tot)) + "]"
            s.append(ev(RAW("(de (concat %s (take [%s] %d)))" % (hdr, " ".join("0x%02x" % b for b in unit), tot), O("de", I(0)))))
            s.append(ev(de(I(5))))
        out.append(sess("serde", *s))
    return out
