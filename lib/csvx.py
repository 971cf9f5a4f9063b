"""Tables as csv texts: files for read-csv, tables for write-csv, what the real engine made of them.

An operation is {"op", "a": what the specification Csv sees, "x": engine expression, "file"/"text": a file to be there before, "out": one to be read afterwards}."""
import os, shutil, tempfile
from lib import session as S
from lib.textx import to_codes, esc, codes, wide, Values, NI
from lib.trace import observe_all

def conv(v):
    """names, symbols and guids as character codes"""
    t = v.get("t")
    if t == "TABLE": return {"t": t, "c": [codes(x) for x in v["c"]], "v": [conv(x) for x in v["v"]]}
    if t == "LIST": return {"t": t, "v": [conv(x) for x in v["v"]]}
    if t == "guid": return {"t": t, "v": codes(v["v"])}
    if t == "GUID": return {"t": t, "v": [codes(x) for x in v["v"]]}
    return to_codes(v)

def execute(exe, session):
    work = tempfile.mkdtemp(prefix="cx_", dir="/tmp")
    ops = session["ops"]
    try:
        sc, out = os.path.join(work, "s"), os.path.join(work, "o")
        for o in ops:
            if "file" in o:
                with open(os.path.join(work, o["file"]), "w", encoding="latin-1", newline="") as f: f.write(o["text"])
        with open(sc, "w", encoding="latin-1") as f:
            for o in ops: f.write("E " + o["x"] + "\n")
        recs, st = S._exec(exe, sc, out, work, session["cores"])
        rs = [r["r"] for r in recs if "r" in r]
        evs = []
        for o, r in zip(ops, rs):
            a = o["a"]
            if "out" in o:
                p = os.path.join(work, o["out"])
                a = a + [list(open(p, "rb").read()) if os.path.exists(p) else []]
            r = conv(r)
            if o["op"] == "count": r = r.get("v", -1)
            evs.append({"k": "op", "op": o["op"], "a": a, "x": o["x"], "r": r})
        if len(rs) < len(ops): evs.append({"k": "crash", "x": ops[len(rs)]["x"], "r": {"t": "CRASH", "v": str(st)}})
        return evs
    finally: shutil.rmtree(work, ignore_errors=True)

def execute_all(exe, sessions, jobs=8, limit=6):
    return observe_all(lambda p: execute(exe, p), sessions, lambda o: bool(o) and o[-1]["k"] == "crash", jobs, limit)

TYPES = ["B8", "U8", "I16", "I32", "I64", "F64", "DATE", "TIME", "TIMESTAMP", "SYMBOL", "C8", "GUID"]
SEPS = [",", ",", ",", ";", "|", "\t"]
NAMES = ["a", "b", "c", "id", "x1", "price", "a_b", "v.w", "Qty", "n2"]

class Fields:
    """texts of fields: well formed for their type, empty, quoted, sometimes damaged"""
    def __init__(self, rng): self.r, self.v = rng, Values(rng)
    def raw(self, t):
        r = self.r
        if t == "B8": return r.choice(["true", "false", "true", "True", "FALSE", "f", "no"])
        if t == "U8": return str(r.choice([0, 1, 9, 10, 255, r.randrange(256)]))
        if t == "I16": return str(r.choice([0, -1, 32767, -32767, r.randrange(-32767, 32768), r.randrange(-99, 99)]))
        if t == "I32": return str(r.choice([0, -1, 2**31 - 1, -(2**31 - 1), r.randrange(-2**31 + 1, 2**31), r.randrange(-10**r.randrange(1, 10), 10**r.randrange(1, 10))]))
        if t == "I64": return str(r.choice([self.v.i64(), r.randrange(10**r.randrange(1, 19)), -r.randrange(10**r.randrange(1, 19))]))
        if t == "F64":
            f = r.choice(["", "-"]) + str(r.choice([0, r.randrange(10), r.randrange(1000000)]))
            if r.random() < .7: f += "." + r.choice(["0", "5", "25", "125", "0625", "000", "%d" % r.randrange(10**r.randrange(1, 7)), ""])
            if r.random() < .15: f = r.choice(["", "-"]) + "%d.%d" % (r.randrange(10), r.randrange(100)) + r.choice("eE") + r.choice(["", "+", "-"]) + str(r.randrange(4))
            return f
        d = "%04d.%02d.%02d" % (r.choice([2024, 2023, 2000, 1999, 1970, 1900, 2100, r.randrange(1725, 2275)]), r.randrange(1, 13), r.randrange(1, 29))
        h = "%02d:%02d:%02d" % (r.choice([0, 23, r.randrange(24)]), r.randrange(60), r.randrange(60))
        if t == "DATE": return d if r.random() < .7 else d.replace(".", "-")
        if t == "TIME": return r.choice(["", "", "-"]) + h + r.choice(["", ".%03d" % r.randrange(1000), ".5"])
        if t == "TIMESTAMP": return r.choice([d + "D" + h + ".%09d" % r.randrange(10**9), d + "D" + h, d.replace(".", "-") + "T" + h + "Z", d.replace(".", "-") + " " + h + ".%03d" % r.randrange(1000)])
        if t == "GUID":
            g = "".join(r.choice("0123456789abcdefABCDEF") for _ in range(32)) if r.random() < .3 else "%032x" % r.getrandbits(128)
            return "-".join((g[:8], g[8:12], g[12:16], g[16:20], g[20:]))
        return self.word()
    def word(self):
        r = self.r
        return "".join(r.choice(["a", "b", "xyz", "1", " ", "_", ".", "-", "'", "A", "0", "\xe9", "/"]) for _ in range(r.choice([1, 1, 2, 3, 5, 9])))
    def text(self, t, sep):
        """(the field as it stands in the file)"""
        r = self.r
        k = r.random()
        if k < .1: return ""
        if t in ("SYMBOL", "C8") and k < .45:
            s = "".join(r.choice(["a", "b", '"', sep, " ", ",", ";", "1", '""']) for _ in range(r.randrange(6)))
            return '"' + s.replace('"', '""') + '"'
        s = self.raw(t)
        if k < .2: return '"' + s.replace('"', '""') + '"'
        if k > .97: s = r.choice(["abc", "x", "n/a", "-", "?"]) if t not in ("B8", "U8") else s
        return s if sep not in s and '"' not in s[:1] else '"' + s.replace('"', '""') + '"'

def table_text(r, g, types, rows, sep, damage=0.0):
    nl = r.choice(["\n", "\n", "\r\n"])
    names = r.sample(NAMES, len(types))
    more = r.random() < .1                                    # more fields than types
    head = [r.choice(["%s", "%s", " %s", '"%s"']) % n for n in names] + (["more"] if more else [])
    lines = [sep.join(head)]
    for _ in range(rows):
        fs = [g.text(t, sep) for t in types] + ([g.text("I64", sep)] if more else [])
        lines.append(sep.join(fs))
    if r.random() < damage and rows:
        i = r.randrange(1, len(lines))
        l = lines[i]
        k = r.randrange(5)
        j = r.randrange(len(l) + 1)
        lines[i] = [l[:j], l[:j] + '"' + l[j:], l[:j] + sep + l[j:], l[:j] + l[j + 1:], l.rsplit(sep, 1)[0]][k]
    return lines, nl, names

def q(types): return "[" + " ".join(types) + "]"
def sepx(sep): return "" if sep == "," else " '" + ("\\t" if sep == "\t" else sep) + "'"

def reads(rng, n):
    g = Fields(rng)
    ops = []
    for k in range(n):
        sep = rng.choice(SEPS)
        types = [rng.choice(TYPES) for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 5]))]
        lines, nl, _ = table_text(rng, g, types, rng.choice([0, 1, 2, 3, 5, 8]), sep, .3)
        text = nl.join(lines) + ("" if rng.random() < .3 else nl)
        if rng.random() < .03: text = text[:rng.randrange(len(text) + 1)]
        ops.append({"op": "read", "a": [types, ord(sep), codes(text)], "x": '(read-csv %s "f%d.csv"%s)' % (q(types), k, sepx(sep)), "file": "f%d.csv" % k, "text": text})
    return {"cores": 1, "ops": ops}

# tables for write-csv: (engine expression of the column, its atoms)
def hexg(r): return "%032x" % r.getrandbits(128)
def column(r, g, t, n):
    v = Values(r)
    null = lambda: r.random() < .15
    def lit(x, suf): return x + suf
    xs, es = [], []
    for _ in range(n):
        z = null() and t not in ("B8", "U8")
        if t == "B8": b = r.random() < .5; xs.append({"t": "b8", "v": b}); es.append("true" if b else "false")
        elif t == "U8": b = r.randrange(256); xs.append({"t": "u8", "v": b}); es.append("0x%02x" % b)
        elif t == "I16": b = NI if z else r.choice([0, 32767, -32767, r.randrange(-999, 999)]); xs.append({"t": "i16", "v": b}); es.append("0Nh" if z else "%dh" % b)
        elif t == "I32": b = NI if z else r.choice([0, 2**31 - 1, -(2**31 - 1), r.randrange(-10**9, 10**9), r.randrange(-99, 99)]); xs.append({"t": "i32", "v": b}); es.append("0Ni" if z else "%di" % b)
        elif t == "I64": b = -2**63 if z else v.i64(); xs.append({"t": "i64w", "v": wide(b)}); es.append("0Nl" if z else str(b))
        elif t == "F64":
            b = NI if z else r.choice([r.randrange(-2048, 2048), r.randrange(-1024000, 1024000), r.randrange(-1000000000, 1000000000), 1024 * r.randrange(-1000000, 1000000), 1536])
            xs.append({"t": "f64", "v": b}); es.append("0Nf" if z else "%.10f" % (b / 1024))
        elif t == "DATE": b = NI if z else r.choice([0, -1, r.randrange(-100000, 100000), r.randrange(-2000, 12000)]); xs.append({"t": "date", "v": b}); es.append(b)
        elif t == "TIME": b = NI if z else r.choice([0, 1, 999, 86399999, r.randrange(86400000), -r.randrange(1, 86400000)]); xs.append({"t": "time", "v": b}); es.append(b)
        elif t == "TIMESTAMP": b = -2**63 if z else r.choice([0, -1, 10**9, r.randrange(-8 * 10**18, 8 * 10**18), r.randrange(10**18)]); xs.append({"t": "tsw", "v": wide(b)}); es.append(b)
        elif t == "SYMBOL":
            s = "0Ns" if z else r.choice(["a", "b,c", 'q"r', "x;y", "s p", "plain", "tab\tx", '"', ",", "it's", '"a"', "|", "end\""])
            xs.append({"t": "sym", "v": codes(s)}); es.append(s)
        elif t == "C8":
            s = "" if z else "".join(r.choice(["a", "b", '"', ",", ";", "|", " ", "1", "\t"]) for _ in range(r.randrange(7)))
            xs.append({"t": "C8", "v": codes(s)}); es.append(s)
        else:
            h = "0" * 32 if z else hexg(r)
            xs.append({"t": "guid", "v": codes(h)}); es.append("-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:])))
    L = lambda ys: "[" + " ".join(ys) + "]"
    if t in ("DATE", "TIME"):
        z = "0Nd" if t == "DATE" else "0Nt"
        # as integers since the epoch; nulls are integer nulls
        ex = "(as '%s %s)" % (t, L(["0Ni" if b == NI else "%di" % b for b in es]))
    elif t == "TIMESTAMP": ex = "(as 'TIMESTAMP %s)" % L(["0Nl" if b == -2**63 else str(b) for b in es])
    elif t == "SYMBOL": ex = "(as 'SYMBOL (list %s))" % " ".join("(as 'symbol %s)" % esc(s) if s != "0Ns" else "0Ns" for s in es)
    elif t == "C8": ex = "(list %s)" % " ".join(esc(s) for s in es)
    elif t == "GUID": ex = "(as 'GUID (list %s))" % " ".join(esc(s) for s in es)
    else: ex = L(es)
    return ex, xs

def writes(rng, n):
    """a table is written, its text is read by the specification and by the engine"""
    g = Fields(rng)
    ops = []
    for k in range(n):
        sep = rng.choice(SEPS)
        rows = rng.choice([1, 2, 3, 3, 5, 8])
        splayed = rng.random() < .1
        types = [rng.choice(["I64", "SYMBOL", "F64", "I32"] if splayed else TYPES) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        if splayed: types.append("SYMBOL")
        names = rng.sample(NAMES, len(types))
        cols = [column(rng, g, t, rows) for t in types]
        tab = {"t": "CSV", "names": [codes(c) for c in names], "types": types, "cols": [c[1] for c in cols]}
        x = "(table [%s] (list %s))" % (" ".join(names), " ".join(c[0] for c in cols))
        if splayed: x = '(do (set-splayed "s%d/" %s) (get-splayed "s%d/"))' % (k, x, k)
        if len(types) == 1 and types[0] == "C8" and rng.random() < .5 and not splayed:
            # a string as a column: its characters
            s = "".join(rng.choice('ab",; 1|') for _ in range(rows))
            x = "(table [%s] (list %s))" % (names[0], esc(s))
            tab["cols"] = [[{"t": "C8", "v": [ord(c)]} for c in s]]
        f = "w%d.csv" % k
        ops.append({"op": "written", "a": [tab, ord(sep)], "x": '(write-csv "%s" %s%s)' % (f, x, sepx(sep)), "out": f})
        ops.append({"op": "back", "a": [tab], "x": '(read-csv %s "%s"%s)' % (q(types), f, sepx(sep))})
    return {"cores": 1, "ops": ops}

def big(rng, cores, n, sample=25):
    """a long file read by several threads: its number of rows and some of them, also next to the places where it may be cut"""
    g = Fields(rng)
    sep = rng.choice(SEPS)
    types = [rng.choice(TYPES) for _ in range(rng.choice([1, 2, 3]))]
    numbered = rng.random() < .6                               # the first column is the number of the row
    if numbered: types[0] = "I64"
    lines, nl, names = table_text(rng, g, types, 0, sep)
    while len(names) < lines[0].count(sep) + 1: types.append("I64"); names.append("more")
    pool = [sep.join(g.text(t, sep) for t in types) for _ in range(200)]
    ending = rng.choice(["mixed", "short"])
    rows = [rng.choice(pool) if ending == "mixed" or i % 7 else pool[0] for i in range(n)]
    if rng.random() < .5:                                      # a long line somewhere
        i = rng.randrange(n)
        rows[i] = sep.join("x" * rng.choice([300, 5000]) if t in ("SYMBOL", "C8") else g.raw(t) for t in types)
    if numbered:
        plain = [x for x in pool if '"' not in x] or [sep.join("1" for t in types)]
        rows = [sep.join([str(i)] + (x if '"' not in x else rng.choice(plain)).split(sep)[1:]) for i, x in enumerate(rows)]
    text = nl.join([lines[0]] + rows) + (nl if rng.random() < .6 or not rows[-1] else "")
    ids = sorted({0, n - 1, n - 2} | {min(n - 1, max(0, i * n // cores + d)) for i in range(1, cores) for d in (-1, 0)} | {rng.randrange(n) for _ in range(sample)})
    ids = [i for i in ids if len(rows[i]) < 400]
    part = nl.join([lines[0]] + [rows[i] for i in ids]) + nl
    ix = "[" + " ".join(map(str, ids)) + "]"
    x = '(do (set t (read-csv %s "big.csv"%s)) (table [%s] (list %s)))' % (q(types), sepx(sep), " ".join(names), " ".join("(at (at t '%s) %s)" % (c, ix) for c in names))
    ops = [{"op": "read", "a": [types, ord(sep), codes(part)], "x": x, "file": "big.csv", "text": text},
           {"op": "count", "a": [n], "x": "(count t)"}]
    if numbered: ops.append({"op": "count", "a": [n], "x": "(count (where (== (at t '%s) (til %d))))" % (names[0], n)})
    if rng.random() < .7:                                      # one damaged line: no table
        i = rng.randrange(n)
        bad = rows[:i] + ['"' + rows[i].replace('"', "")] + rows[i + 1:]
        ops.append({"op": "read", "a": [types, ord(sep), codes(lines[0] + nl + bad[i][:200])], "x": '(read-csv %s "bad.csv"%s)' % (q(types), sepx(sep)), "file": "bad.csv", "text": nl.join([lines[0]] + bad) + nl})
    return {"cores": cores, "ops": ops}

def shape(rng):
    """many short lines: the index of lines grows"""
    n = rng.choice([900, 1023, 1024, 1025, 2047, 2048, 2100, 3000, 4100, 9000])
    w = rng.choice([1, 3, 8, 36])
    rows = [("%0" + str(w) + "d") % (i % 10**min(w, 9)) for i in range(n)]
    ids = sorted({0, 1, n - 1, n // 2, rng.randrange(n)})
    text = "\n".join(["a"] + rows) + rng.choice(["", "\n"])
    x = '(do (set t (read-csv [I64] "s.csv")) (table [a] (list (at (at t \'a) [%s]))))' % " ".join(map(str, ids))
    return {"cores": rng.choice([1, 4]), "ops": [{"op": "read", "a": [["I64"], 44, codes("\n".join(["a"] + [rows[i] for i in ids]))], "x": x, "file": "s.csv", "text": text}, {"op": "count", "a": [n], "x": "(count t)"}]}
