"""Operations on text: inputs for the specification Text and the results of the real engine.

An operation is {"op", "a": arguments as the specification sees them, "x": the expression for the engine}."""
import json, os, random, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from lib import session as S
from lib.build import build

NI = -2147483648
def codes(s): return [ord(c) for c in s]
def esc(s):
    """a text as a string literal"""
    return '"' + "".join('\\"' if c == '"' else "\\\\" if c == "\\" else c if 32 <= ord(c) < 127 else "\\%03o" % ord(c) for c in s) + '"'

# ------------------------------------------------------------------ execution
def to_codes(v):
    """symbols as character codes"""
    t = v.get("t")
    if t == "sym": return {"t": t, "v": codes(v["v"])}
    if t == "SYM": return {"t": t, "v": [codes(x) for x in v["v"]]}
    if t == "LIST": return {"t": t, "v": [to_codes(x) for x in v["v"]]}
    if t == "DICT": return {"t": t, "k": to_codes(v["k"]), "v": to_codes(v["v"])}
    if t == "FN": return {"t": t, "n": codes(v.get("n", ""))}
    if t in ("i64w", "tsw", "i64", "ts", "I64", "I64w", "TS", "TSw"): return v
    return v

def execute(exe, ops, latin=True):
    work = tempfile.mkdtemp(prefix="tx_", dir="/tmp")
    try:
        sc, out = os.path.join(work, "s"), os.path.join(work, "o")
        with open(sc, "w", encoding="latin-1") as f:
            for o in ops: f.write("E " + o["x"] + "\n")
        recs, st = S._exec(exe, sc, out, work, 1)
        rs = [r["r"] for r in recs if "r" in r]
        evs = []
        for o, r in zip(ops, rs): evs.append({"k": "op", "op": o["op"], "a": o["a"], "x": o["x"], "r": to_codes(r)})
        if len(rs) < len(ops): evs.append({"k": "crash", "x": ops[len(rs)]["x"], "r": {"t": "CRASH", "v": str(st)}})
        return evs
    finally: shutil.rmtree(work, ignore_errors=True)

def execute_all(exe, sessions, jobs=8, limit=6):
    from lib.trace import observe_all
    return observe_all(lambda p: execute(exe, p), sessions, lambda o: bool(o) and o[-1]["k"] == "crash", jobs, limit)

# ------------------------------------------------------------------ generation
def op(name, a, x): return {"op": name, "a": a, "x": x}
NAMES = ["a", "b", "abc", "x1", "add", "count", "sum", "true", "false", "null", "truex", "nullable", "falsey", "true1", "fn", "do", "+", "-", "*", "<=", "!=", "a.b", "_x", "?", "e3", "Nl", "D10", "self", "if", "in"]

class Texts:
    """random texts: mostly well formed, half of them damaged afterwards"""
    def __init__(self, rng): self.r = rng
    def ws(self):
        return self.r.choice([" ", " ", " ", "  ", "\t", "\n", " ; note\n", "\r\n"])
    def num(self):
        r = self.r
        k = r.randrange(12)
        n = r.choice([str(r.randrange(10)), str(r.randrange(1000)), str(r.randrange(1 << r.randrange(1, 62))), "0", "007", "255", "256", "32767", "32768", "2147483647", "2147483648", "9223372036854775807", "-1"])
        n = n.lstrip("-")
        sg = r.choice(["", "", "-"])
        if k < 4: return sg + n
        if k < 6: return sg + n + r.choice("hidtlfx")
        if k == 6: return sg + str(r.randrange(1000)) + r.choice("hidtlfx")
        if k < 9:
            f = sg + str(r.randrange(1 << r.randrange(1, 18))) + "." + r.choice(["", str(r.randrange(1000)), "5", "25", "125", "0625", "000"])
            if r.random() < .3: f += r.choice("eE") + r.choice(["", "-", "+"]) + str(r.randrange(5))
            return f + ("f" if r.random() < .2 else "")
        if k == 9: return "0x%02x" % r.randrange(256) if r.random() < .8 else "0x" + r.choice(["", "1", "G0", "fF", "0g"])
        return "0N" + r.choice("hidtlfpsg0h" + "ax")
    def temporal(self):
        r = self.r
        d = "%04d.%02d.%02d" % (r.choice([2024, 2023, 2000, 1999, 1970, 1900, 2100, 1752, r.randrange(1725, 2275)]), r.randrange(1, 13), r.choice([1, 28, 29, 30, 31, r.randrange(1, 29)]))
        t = "%02d:%02d:%02d" % (r.choice([0, 23, r.randrange(24), 24]), r.choice([0, 59, r.randrange(60), 60]), r.choice([0, 59, r.randrange(60), 60]))
        k = r.randrange(4)
        if k == 0: return d
        if k == 1: return r.choice(["", "", "-"]) + t + r.choice(["", ".%d" % r.randrange(1000), ".%03d" % r.randrange(1000)])
        return d + "D" + t + "." + r.choice(["0", "%09d" % r.randrange(10**9), "%d" % r.randrange(10**9), "123456789"])
    def char(self):
        return "'" + self.r.choice(["a", "b", "'", "\\n", "\\t", "\\\\", "\\'", "\\101", "\\012", "1", " ", "("]) + "'"
    def string(self):
        r = self.r
        return '"' + "".join(r.choice(["a", "b", "xy", " ", "\\n", "\\t", "\\\"", "\\\\", "\\101", "\\377", "\n", "'", "[", ")", ";", "\xe9", "%"]) for _ in range(r.randrange(5))) + '"'
    def name(self): return self.r.choice(NAMES)
    def sym(self): return "'" + self.r.choice(["", self.name(), self.name(), "abc", "x.y"])
    def atom(self):
        return self.r.choice([self.num, self.num, self.temporal, self.char, self.string, self.name, self.name, self.sym])()
    def vec(self):
        r = self.r
        f = r.choice([lambda: str(r.randrange(-99, 100)), lambda: "%d.%d" % (r.randrange(99), r.choice([0, 5, 25])), lambda: r.choice(["true", "false"]),
                      lambda: "%dh" % r.randrange(99), lambda: "%di" % r.randrange(99), self.name, self.sym, lambda: "0x%02x" % r.randrange(256), self.temporal,
                      lambda: "2024.%02d.%02d" % (r.randrange(1, 13), r.randrange(1, 29)), lambda: "%02d:%02d:%02d" % (r.randrange(24), r.randrange(60), r.randrange(60)), self.num])
        xs = [f() for _ in range(r.randrange(5))]
        if xs and r.random() < .25: xs[r.randrange(len(xs))] = self.num()
        return "[" + self.ws().join(xs) + "]"
    def expr(self, d):
        r = self.r
        if d == 0 or r.random() < .4: return self.atom()
        k = r.randrange(10)
        if k < 4: return "(" + self.ws().join(self.expr(d - 1) for _ in range(r.randrange(4))) + ")"
        if k < 7: return self.vec()
        if k < 9: return "{" + self.ws().join(r.choice([self.name, self.name, lambda: str(r.randrange(9)), self.string])() + ":" + r.choice(["", " "]) + self.expr(d - 1) for _ in range(r.randrange(3))) + "}"
        return "(fn [" + " ".join(r.choice(["x", "y", "acc"]) for _ in range(r.randrange(3))) + "] " + self.expr(d - 1) + ")"
    def text(self):
        r = self.r
        k = r.randrange(6)
        t = self.atom() if k < 2 else self.vec() if k == 2 else " ".join(self.expr(2) for _ in range(r.choice([1, 1, 1, 2, 3])))
        if r.random() < .1: t = self.ws() + t + self.ws()
        if r.random() < .5: t = self.damage(t)
        return t[:70]
    HOT = "()[]{}'\"\\.:;-+0123456789NxhidtlfeEDab truenl\n"
    def damage(self, t):
        r = self.r
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            i = r.randrange(len(t) + 1)
            k = r.randrange(5)
            if k == 0: t = t[:i] + t[i + 1:]
            elif k == 1: t = t[:i] + r.choice(self.HOT) + t[i:]
            elif k == 2: t = t[:i] + r.choice(self.HOT) + t[i + 1:]
            elif k == 3: t = t[:i] if r.random() < .5 else t[i:]
            else:
                j = r.randrange(len(t) + 1)
                t = t[:i] + t[min(i, j):max(i, j)] + t[i:]
        return t

def read(t): return op("read", [codes(t)], "(parse " + esc(t) + ")")

def reads(rng, n):
    g = Texts(rng)
    return [read(g.text()) for _ in range(n)]

# values and their literals
def wide(n): return [n >> 48, (n >> 24) & 0xffffff, n & 0xffffff]
def days_ns(rng): return rng.randrange(-8_000_000_000_000_000_000, 8_000_000_000_000_000_000)
class Values:
    def __init__(self, rng): self.r = rng
    def i64(self):
        r = self.r
        return r.choice([0, 1, -1, 9, 10, 99, 100, 2**63 - 1, -(2**63 - 1), r.randrange(-1000, 1000), r.randrange(-2**40, 2**40), r.randrange(-2**63 + 1, 2**63), 10**r.randrange(19), -10**r.randrange(19)])
    def f64(self):
        r = self.r
        return r.choice([r.randrange(-2048, 2048), r.randrange(-200, 200), r.randrange(-1024000, 1024000), r.randrange(-1000000000, 1000000000), 1024 * r.randrange(-1000, 1000), r.choice([1, 5, 102, 103, 104, 1019, 1023, 1024, 1024 * 999 + 1023, 1024000000])])
    def date(self):
        r = self.r
        return r.choice([r.randrange(-730119, 2921939), r.randrange(-2000, 12000), self.edge_day()])
    def edge_day(self):
        import datetime
        r = self.r
        y = r.choice([1600, 1700, 1800, 1900, 2000, 2100, 2400, 1, 4, 100, 400, 9999, r.randrange(1, 9999)])
        m, d = r.choice([(1, 1), (2, 28), (3, 1), (12, 31), (2, 29), (6, 30), (7, 1)])
        try: x = datetime.date(y, m, d)
        except ValueError: x = datetime.date(y, 3, 1)
        return x.toordinal() - datetime.date(2000, 1, 1).toordinal()
    def time(self): return self.r.choice([0, 86399999, self.r.randrange(86400000), -self.r.randrange(86400000), self.r.randrange(1000), self.r.randrange(359999999)])
    def ts(self):
        r = self.r
        D = 86400 * 10**9
        return r.choice([r.randrange(-8 * 10**18, 8 * 10**18), r.randrange(-100000, 100000) * D, r.randrange(-1000, 9000) * D + r.choice([-1, 1, 0, D - 1]), r.randrange(10**18), self.edge_day() * D if False else r.randrange(-9000, 9000) * D + r.randrange(D)])
    ATOMS = ["i64", "i64", "f64", "f64", "date", "date", "time", "ts", "ts", "b8", "u8", "i16", "i32", "sym", "c8"]
    def lit(self, t):
        """(specified value, literal)"""
        r = self.r
        if t in ("i64", "i16", "i32", "date", "time", "ts", "f64") and r.random() < .08:
            return {"i64": (NI, "0Nl"), "i16": (NI, "0Nh"), "i32": (NI, "0Ni"), "date": (NI, "0Nd"), "time": (NI, "0Nt"), "ts": (NI, "0Np"), "f64": (NI, "0Nf")}[t]
        if t == "i64":
            n = self.i64()
            return wide(n), str(n)
        if t == "f64":
            n = self.f64()
            return n, ("-" if n < 0 else "") + "%d.%s" % (abs(n) // 1024, ("%.10f" % (abs(n) % 1024 / 1024))[2:])
        if t == "date":
            n = self.date()
            return n, "%dd" % n
        if t == "time":
            n = self.time()
            return n, "%dt" % n
        if t == "ts":
            n = self.ts()
            return wide(n), "(as 'timestamp %d)" % n
        if t == "b8":
            b = r.random() < .5
            return b, "true" if b else "false"
        if t == "u8":
            n = r.randrange(256)
            return n, "0x%02x" % n
        if t == "i16":
            n = r.randrange(-32767, 32768)
            return n, "%dh" % n
        if t == "i32":
            n = r.choice([r.randrange(-2147483647, 2147483648), r.randrange(-99, 99)])
            return n, "%di" % n
        if t == "sym":
            s = r.choice(["a", "abc", "x.y", "foo", "a1", "+", "true1"])
            return codes(s), "'" + s
        if t == "c8":
            c = r.choice([97, 98, 34, 10, 9, 13, 65, 32, 1, 31, 233, 92])
            return c, "'\\%03o'" % c
    W = {"i64": "i64w", "ts": "tsw"}
    VT = {"b8": "B8", "u8": "U8", "i16": "I16", "i32": "I32", "i64": "I64", "i64w": "I64w", "tsw": "TSw", "ts": "TS", "sym": "SYM", "date": "DATE", "time": "TIME", "f64": "F64", "c8": "C8"}
    def atom(self, t=None):
        t = t or self.r.choice(self.ATOMS)
        v, l = self.lit(t)
        return {"t": self.W.get(t, t) if isinstance(v, list) and t in self.W else t, "v": v}, l
    def vec(self, t=None, n=None):
        r = self.r
        t = t or r.choice([x for x in self.ATOMS if x not in ("c8",)])
        n = r.randrange(0, 6) if n is None else n
        if t in ("b8", "u8", "sym", "date", "time", "i16", "i32", "f64", "i64", "ts") and n == 0: t = "i64"
        vs = [self.lit(t) for _ in range(n)]
        if t in ("i64", "ts"):
            vs = [(v if isinstance(v, list) else [-32768, 0, 0], l) for v, l in vs]
            lit = "[" + " ".join(l for _, l in vs) + "]" if t == "i64" else "(as 'TIMESTAMP [" + " ".join(l[15:-1] if l.startswith("(") else "0Nl" for _, l in vs) + "])"
            return {"t": self.VT[self.W[t]], "v": [v for v, _ in vs]}, lit
        return {"t": self.VT[t], "v": [v for v, _ in vs]}, "[" + " ".join(l for _, l in vs) + "]"
    def string(self):
        s = "".join(self.r.choice(["a", "b", "x y", "\n", "\t", '"', "\\", "\x01", "\xe9", "%", "0"]) for _ in range(self.r.randrange(6)))
        return {"t": "C8", "v": codes(s)}, esc(s)
    def value(self, d=2):
        r = self.r
        k = r.randrange(10)
        if k < 4 or d == 0: return self.atom()
        if k < 7: return self.vec()
        if k == 7: return self.string()
        if k == 8:
            vs = [self.value(d - 1) for _ in range(r.randrange(1, 4))]
            if len(vs) == 1 or len({v["t"] for v, _ in vs}) == 1: vs.append(self.string() if vs[0][0]["t"] != "C8" else self.atom("i64"))
            return {"t": "LIST", "v": [v for v, _ in vs]}, "(list " + " ".join(l for _, l in vs) + ")"
        vs = [self.atom(r.choice(["i64", "f64", "date", "sym", "b8"])) for _ in range(r.randrange(2, 4))]
        if len({v["t"] for v, _ in vs}) == 1: vs.append(self.string())
        ks = r.sample(["a", "b", "c", "key", "x1"], len(vs))
        return {"t": "DICT", "k": {"t": "SYM", "v": [codes(k) for k in ks]}, "v": {"t": "LIST", "v": [v for v, _ in vs]}}, "(dict [" + " ".join(ks) + "] (list " + " ".join(l for _, l in vs) + "))"

def formats(rng, n):
    g = Values(rng)
    out = []
    for _ in range(n):
        k = rng.randrange(8)
        vs = [g.value() for _ in range(1 if k < 6 else rng.randrange(0, 4))]
        if k < 6: t = "%"
        else:
            t = "".join(rng.choice(["%", "a", " ", "x: ", "%"]) for _ in range(rng.randrange(1, 6)))
            if t.count("%") and rng.random() < .6: vs = [g.value(1) for _ in range(t.count("%"))]
        if not vs: continue
        out.append(op("format", [codes(t)] + [v for v, _ in vs], "(format " + esc(t) + " " + " ".join(l for _, l in vs) + ")"))
    return out

def dates(rng, n, lo=None):
    """calendar: day numbers printed; dates and times read from texts; differences and sums"""
    g = Values(rng)
    out = []
    for i in range(n):
        k = rng.randrange(10)
        if k < 4:
            v, l = g.vec(rng.choice(["date", "date", "ts", "time"]), rng.randrange(1, 3))
            out.append(op("format", [codes("%"), v], '(format "%" ' + l + ")"))
        elif k < 7: out.append(stext(rng, g, "date"))
        elif k == 7: out.append(stext(rng, g, "time"))
        else: out.append(stext(rng, g, "stamp"))
    return out

def stext(rng, g, kind):
    y, m, d = rng.choice([(rng.randrange(1725, 2275), rng.randrange(1, 13), rng.randrange(1, 32)), (rng.choice([1900, 2000, 2024, 2023, 2100]), 2, rng.choice([28, 29])), (rng.randrange(1, 9999), rng.randrange(1, 13), rng.randrange(1, 29))])
    tm = "%02d:%02d:%02d" % (rng.randrange(24), rng.randrange(60), rng.randrange(60))
    if kind == "date":
        sp = rng.choice([".", ".", "-", "/"])
        t = "%04d%s%02d%s%02d" % (y, sp, m, sp, d)
        if rng.random() < .15: t = "%d%s%d%s%d" % (y, sp, m, sp, d)
    elif kind == "time": t = rng.choice(["", "", "-"]) + tm + rng.choice(["", ".%03d" % rng.randrange(1000), ".%d" % rng.randrange(1000)])
    else:
        if rng.random() < .5: t = "%04d.%02d.%02d" % (y, m, d) + rng.choice(["", "D" + tm, "D" + tm + ".%09d" % rng.randrange(10**9), "D" + tm + ".%d" % rng.randrange(1000)])
        else:
            t = "%04d-%02d-%02d" % (y, m, d)
            if rng.random() < .85:
                t += rng.choice("T ") + tm + rng.choice(["", "", ".%d" % rng.randrange(1000), ".%09d" % rng.randrange(10**9), ".%03d" % rng.randrange(1000)])
                t += rng.choice(["", "Z", "+02:00", "-05:30", "+0530", "-12", "+%02d:%02d" % (rng.randrange(15), rng.randrange(60)), "-%02d:%02d" % (rng.randrange(15), rng.randrange(60))])
    if rng.random() < .2: t = Texts(rng).damage(t)
    elif rng.random() < .05: t = t[:rng.randrange(3)]
    return op(kind, [codes(t)], "(as '%s %s)" % ({"date": "date", "time": "time", "stamp": "timestamp"}[kind], esc(t)))

def strings(rng, n):
    out = []
    AB = "ab" if rng.random() < .7 else "abc]"
    w = lambda k, al: "".join(rng.choice(al) for _ in range(rng.randrange(k)))
    for _ in range(n):
        if rng.random() < .6:
            pat = "".join(rng.choice(["a", "b", "c", "*", "*", "?", "[ab]", "[^a]", "[bc]", "**", "[", "]", "[^", "[]", "ab"]) for _ in range(rng.randrange(6)))
            s = w(9, AB)
            if rng.random() < .3: s = pat.replace("*", w(3, AB)).replace("?", "a")
            if rng.random() < .25 and pat:
                ss = [w(7, AB) for _ in range(rng.randrange(1, 6))]
                out.append(op("like", [{"t": "LIST", "v": [{"t": "C8", "v": codes(x)} for x in ss]}, codes(pat)], "(like (list " + " ".join(map(esc, ss)) + ") " + esc(pat) + ")"))
            else: out.append(op("like", [{"t": "C8", "v": codes(s)}, codes(pat)], "(like " + esc(s) + " " + esc(pat) + ")"))
        else:
            d = rng.choice([",", "a", "ab", "aa", "aba", ", "])
            s = w(10, list("ab") + [d, d])
            one = len(d) == 1 and rng.random() < .5
            out.append(op("split", [codes(s), codes(d)], "(split " + esc(s) + " " + ("'%s'" % d if one else esc(d)) + ")"))
    return out

# ------------------------------------------------------------------ exhaustive
import itertools
def all_texts(k, al="()[]{}:'\"\\1.-a ;"):
    return [read("".join(t)) for n in range(k + 1) for t in itertools.product(al, repeat=n)]
def all_patterns(ks, kp, al="ab*?[]^"):
    out = []
    for p in (("".join(t)) for n in range(kp + 1) for t in itertools.product(al, repeat=n)):
        ss = ["".join(t) for n in range(ks + 1) for t in itertools.product("ab", repeat=n)]
        out.append(op("like", [{"t": "LIST", "v": [{"t": "C8", "v": codes(x)} for x in ss]}, codes(p)], "(like (list " + " ".join(map(esc, ss)) + ") " + esc(p) + ")"))
    return out
def all_days(lo, hi):
    out = []
    for n in range(lo, hi, 5):
        v = list(range(n, n + 5))
        out.append(op("format", [codes("%"), {"t": "DATE", "v": v}], '(format "%" [' + " ".join("%dd" % x for x in v) + "])"))
    return out
def chunks(ops, n=400): return [ops[i:i + n] for i in range(0, len(ops), n)]
