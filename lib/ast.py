"""Rayfall programs as abstract syntax trees shared with the TLA+ evaluator,
their rendering as Rayfall text, and value constructors."""
NI = -2147483648

# ---- values ---------------------------------------------------------------
def A(t, v): return {"t": t, "v": v}
def V(t, v): return {"t": t, "v": list(v)}
def L(*v): return {"t": "LIST", "v": list(v)}
def T(**c): return {"t": "TABLE", "c": list(c), "v": list(c.values())}
def TB(cols): return {"t": "TABLE", "c": [k for k, _ in cols], "v": [v for _, v in cols]}
def D(k, v): return {"t": "DICT", "k": k, "v": v}
def I(n): return A("i64", n)
def S(s): return A("sym", s)
def C(s): return V("C8", [ord(c) for c in s])
def F(x): return A("f64", int(round(x * 1024)))
def FV(xs): return V("F64", [NI if x is None else int(round(x * 1024)) for x in xs])
def IV(xs): return V("I64", xs)
def SV(xs): return V("SYM", xs)
def BV(xs): return V("B8", [bool(x) for x in xs])

VEC = {"b8": "B8", "u8": "U8", "i16": "I16", "i32": "I32", "i64": "I64", "sym": "SYM", "date": "DATE",
       "time": "TIME", "ts": "TS", "f64": "F64", "c8": "C8"}
ATOM = {v: k for k, v in VEC.items()}

def _date(n):
    import datetime
    d = datetime.date(2000, 1, 1) + datetime.timedelta(days=n)
    return "%04d.%02d.%02d" % (d.year, d.month, d.day)

def _time(n):
    s = "-" if n < 0 else ""
    n = abs(n)
    return s + "%02d:%02d:%02d.%03d" % (n // 3600000, n // 60000 % 60, n // 1000 % 60, n % 1000)

def _ts(n):
    d, r = divmod(n, 86400 * 10**9)
    return _date(d) + "D%02d:%02d:%02d.%09d" % (r // 3600 // 10**9, r // 60 // 10**9 % 60, r // 10**9 % 60, r % 10**9)

def lit1(t, v):
    if v == NI and t not in ("b8", "u8", "c8"):
        return {"i64": "0Nl", "i32": "0Ni", "i16": "0Nh", "f64": "0Nf", "date": "0Nd", "time": "0Nt", "ts": "0Np"}[t]
    if t == "i64": return str(v)
    if t == "i32": return "%di" % v
    if t == "i16": return "%dh" % v
    if t == "u8": return "0x%02x" % v
    if t == "b8": return "true" if v else "false"
    if t == "f64":
        s = repr(v / 1024)
        assert "e" not in s
        return s
    if t == "date": return _date(v)
    if t == "time": return _time(v)
    if t == "ts": return _ts(v)
    if t == "sym": return v
    if t == "c8": return "'" + chr(v) + "'"
    raise ValueError(t)

def q(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'

EMPTY1 = {"i64": 0, "i32": 0, "i16": 0, "f64": 1024, "date": 0, "time": 0, "ts": 0, "u8": 1, "b8": True, "sym": "a"}

def lit(x):
    t = x["t"]
    if t == "NULL": return "null"
    if t == "LIST": return "(list" + "".join(" " + lit(y) for y in x["v"]) + ")"
    if t == "DICT": return "(dict %s %s)" % (lit(x["k"]), lit(x["v"]))
    if t == "TABLE": return "(table [%s] (list %s))" % (" ".join(x["c"]), " ".join(lit(y) for y in x["v"]))
    if t == "C8": return q("".join(map(chr, x["v"])))
    if t == "ENUM": return "(enum '%s %s)" % (x["k"], lit(V("SYM", x["v"])))
    if t in ATOM:
        a = ATOM[t]
        if not x["v"]:
            return "(take [%s] 0)" % lit1(a, EMPTY1[a])
        return "[" + " ".join(lit1(a, v) for v in x["v"]) + "]"
    if t == "sym": return ("'" + x["v"]) if x["v"] != "0Ns" else "0Ns"
    return lit1(t, x["v"])

# ---- nodes ----------------------------------------------------------------
def K(v): return {"n": "lit", "v": v}
def X(s): return {"n": "var", "s": s}
def O(f, *a): return {"n": "op", "f": f, "a": [n_(y) for y in a]}
def CALL(f, *a): return {"n": "call", "f": f, "a": [n_(y) for y in a]}
def FN(p, *b): return {"n": "fn", "p": list(p), "b": [n_(y) for y in b]}
def FR(f): return {"n": "fref", "f": f}
def SET(s, x): return {"n": "set", "s": s, "x": n_(x)}
def LET(s, x): return {"n": "let", "s": s, "x": n_(x)}
def IF(*a): return {"n": "if", "a": [n_(y) for y in a]}
def DO(*a): return {"n": "do", "a": [n_(y) for y in a]}
def TRY(a, b): return {"n": "try", "a": [n_(a), n_(b)]}
def AND(*a): return {"n": "and", "a": [n_(y) for y in a]}
def OR(*a): return {"n": "or", "a": [n_(y) for y in a]}
def MAP(f, *a, kind="map"): return {"n": kind, "f": f, "a": [n_(y) for y in a]}
def FOLD(f, *a, kind="fold"): return {"n": kind, "f": f, "a": [n_(y) for y in a]}
def APPLY(f, *a): return {"n": "apply", "f": f, "a": [n_(y) for y in a]}
def SEL(frm, wh=None, by=(), cols=(), tk=None, bydict=False):
    return {"n": "sel", "from": n_(frm), "wh": [n_(wh)] if wh is not None else [],
            "by": [{"k": k, "x": n_(x)} for k, x in by], "cols": [{"k": k, "x": n_(x)} for k, x in cols],
            "tk": [n_(tk)] if tk is not None else [], "bd": bydict}
def WJ(f, ks, iv, l, r, cols):
    return {"n": "wj", "f": f, "a": [n_(ks), n_(iv), n_(l), n_(r)], "cols": [{"k": k, "x": n_(x)} for k, x in cols]}
def UPD(frm, cols, wh=None, by=(), q=False, bydict=False):
    return {"n": "upd", "q": q, "s": frm if q else "", "from": K(I(0)) if q else n_(frm),
            "wh": [n_(wh)] if wh is not None else [], "by": [{"k": k, "x": n_(x)} for k, x in by],
            "cols": [{"k": k, "x": n_(x)} for k, x in cols], "bd": bydict}
def _tgt(t): return {"q": True, "s": t, "x": K(I(0))} if isinstance(t, str) else {"q": False, "s": "", "x": n_(t)}
def INS(t, r): return {"n": "ins", **_tgt(t), "r": n_(r)}
def UPS(t, k, r): return {"n": "ups", **_tgt(t), "k": k, "r": n_(r)}
def ALT(t, f, i, v): return {"n": "alt", **_tgt(t), "f": f, "i": [] if i is None else [n_(i)], "v": n_(v)}
def RAW(text, spec):
    """explicit text for a specified node (literals of unusual form)"""
    d = dict(n_(spec)); d["_txt"] = text
    return d

def n_(y): return y if isinstance(y, dict) and "n" in y else K(y)

MAPN = {"map": "map", "pmap": "pmap", "mapl": "map-left", "mapr": "map-right",
        "foldl": "fold-left", "foldr": "fold-right", "scan": "scan", "scanl": "scan-left", "scanr": "scan-right"}

def R(a):
    """render a node as Rayfall text"""
    if "_txt" in a: return a["_txt"]
    n = a["n"]
    rs = lambda xs: "".join(" " + R(x) for x in xs)
    if n == "lit": return lit(a["v"])
    if n == "var": return a["s"]
    if n == "fref": return a["f"]
    if n == "op": return "(" + a["f"] + rs(a["a"]) + ")"
    if n == "call": return "(" + R(a["f"]) + rs(a["a"]) + ")"
    if n == "fn": return "(fn [" + " ".join(a["p"]) + "]" + rs(a["b"]) + ")"
    if n in ("set", "let"): return "(%s %s %s)" % (n, a["s"], R(a["x"]))
    if n in ("if", "do", "try", "and", "or"): return "(" + n + rs(a["a"]) + ")"
    if n in MAPN: return "(" + MAPN[n] + " " + R(a["f"]) + rs(a["a"]) + ")"
    if n in ("fold", "apply"): return "(" + n + " " + R(a["f"]) + rs(a["a"]) + ")"
    if n in ("sel", "upd"):
        p = []
        for c in a["cols"]: p.append("%s: %s" % (c["k"], R(c["x"])))
        p.append("from: " + ("'" + a["s"] if n == "upd" and a["q"] else R(a["from"])))
        if a["by"]:
            b = a["by"]
            if n == "upd": p.append("by: " + R(b[0]["x"]))
            elif len(b) == 1 and not a.get("bd") and b[0]["x"] == X(b[0]["k"]): p.append("by: " + b[0]["k"])
            else: p.append("by: {" + " ".join("%s: %s" % (c["k"], R(c["x"])) for c in b) + "}")
        if a["wh"]: p.append("where: " + R(a["wh"][0]))
        if n == "sel" and a["tk"]: p.append("take: " + R(a["tk"][0]))
        return "(%s {%s})" % ({"sel": "select", "upd": "update"}[n], " ".join(p))
    if n == "wj": return "(%s%s {%s})" % (a["f"], rs(a["a"]), " ".join("%s: %s" % (c["k"], R(c["x"])) for c in a["cols"]))
    if n in ("ins", "ups", "alt"):
        t = "'" + a["s"] if a["q"] else R(a["x"])
        if n == "ins": return "(insert %s %s)" % (t, R(a["r"]))
        if n == "ups": return "(upsert %s %d %s)" % (t, a["k"], R(a["r"]))
        return "(alter %s %s%s %s)" % (t, a["f"], "".join(" " + R(x) for x in a["i"]), R(a["v"]))
    raise ValueError(n)

def strip(a):
    """the node without rendering hints"""
    if isinstance(a, dict): return {k: strip(v) for k, v in a.items() if k != "_txt"}
    if isinstance(a, list): return [strip(x) for x in a]
    return a

def symbols(x, out):
    """every symbol a program or value mentions"""
    if isinstance(x, dict):
        if x.get("t") in ("sym",): out.add(x["v"])
        elif x.get("t") == "SYM": out.update(x["v"])
        elif x.get("t") == "ENUM": out.update(x["v"])
        elif x.get("t") == "TABLE": out.update(x["c"])
        for v in x.values(): symbols(v, out)
    elif isinstance(x, list):
        for v in x: symbols(v, out)
