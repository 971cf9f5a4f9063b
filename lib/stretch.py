"""Order- and sum-preserving images of sessions.

TLC computes with 32-bit integers, so the generators draw small numbers.  The operations listed in
LIN commute with multiplying every i64 and timestamp by a constant S; those in ORD commute with any
strictly increasing map.  stretch() renders a session's literals multiplied (the specification still
sees the small ones), and unscale() divides what the engine answers, so that wide keys, hash ranges,
radix digits and sign bits are exercised against the same specification."""
import copy
from lib import ast as P
from lib.ast import NI, ATOM

ORD = {"asc", "desc", "iasc", "idesc", "rank", "xasc", "xdesc", "bin", "binr", "find", "distinct", "in", "within", "group", "except",
       "union", "sect", "count", "min", "max", "first", "last", "reverse", "concat", "left-join", "inner-join", "asof-join",
       "==", "!=", "<", ">", "<=", ">=", "not", "enlist", "list"}
LIN = ORD | {"sum", "+", "-", "neg"}
CMP2 = {"==", "!=", "<", ">", "<=", ">=", "+", "-", "in", "within", "find", "bin", "binr", "except", "union", "sect", "concat"}
SCALES = [2**33, 2**33 + 1, 10**10 + 19, 2**40 + 1, 2**42, 3 * 2**37 + 7, 65536 * 65536 + 65536, 2**31 + 11]
FACT = {"i32": [70001, 65537, 2**20, 200003], "i16": [1000, 257, 3277], "date": [1000, 257], "time": [4099, 50021]}

def _walk(x, nodes):
    if isinstance(x, dict):
        if "n" in x: nodes.append(x)
        for v in x.values(): _walk(v, nodes)
    elif isinstance(x, list):
        for v in x: _walk(v, nodes)

def _vals(v, out):
    """typed leaves of a value"""
    t = v["t"]
    if t == "LIST" or t == "TABLE":
        for x in v["v"]: _vals(x, out)
    elif t == "DICT":
        _vals(v["k"], out); _vals(v["v"], out)
    else: out.append(v)

def _map(v, f):
    t = v["t"]
    if t in ("LIST", "TABLE"): return {**v, "v": [_map(x, f) for x in v["v"]]}
    if t == "DICT": return {**v, "k": _map(v["k"], f), "v": _map(v["v"], f)}
    b = ATOM.get(t, t)
    g = f(b)
    if g is None: return v
    h = lambda x: x if x == NI else x * g
    return {**v, "v": [h(x) for x in v["v"]] if t in ATOM else h(v["v"])}

def stretch(r, s):
    """the session stretched, or as it is when it uses operations that do not commute"""
    nodes = []
    _walk([e["x"] for e in s["ev"]], nodes)
    allow = LIN
    if any("_txt" in n for n in nodes) or s.get("S"): return s
    env, cols, scalar = {}, {}, set()
    for n in nodes:
        k = n["n"]
        if k in ("lit", "var", "and", "or"): continue
        if k == "set":
            if n["x"]["n"] == "lit":
                v = n["x"]["v"]
                if v["t"] == "TABLE":
                    for c, y in zip(v["c"], v["v"]):
                        t = ATOM.get(y["t"], y["t"])
                        if cols.setdefault(c, t) != t: return s
                else: env[n["s"]] = ATOM.get(v["t"], v["t"])
            continue
        if k == "sel":
            if n["tk"]: return s
            continue
        if k == "ups" or k == "ins": continue
        if k != "op": return s
        if n["f"] == "at" and n["a"][-1]["n"] == "lit" and n["a"][-1]["v"]["t"] in ("sym", "SYM"): continue
        if n["f"] not in allow: return s
        if n["f"] not in ORD: scalar.add(n["f"])
        if n["f"] in CMP2:
            ts = set()
            for a in n["a"]:
                if a["n"] == "lit":
                    l = []
                    _vals(a["v"], l)
                    ts |= {ATOM.get(x["t"], x["t"]) for x in l}
                elif a["n"] == "var": ts.add(cols.get(a["s"]) or env.get(a["s"]) or "?")
                else: ts.add("op")
            if n["f"] in ("+", "-", "sum", "neg") and "op" in ts: return s
            if len(ts) > 1 and ts & {"i64", "ts", "i32", "i16", "date", "time", "?", "op"}: return s
    leaves = []
    for n in nodes:
        if n["n"] == "lit": _vals(n["v"], leaves)
    leaves = [x for x in leaves if "v" in x]
    types = {ATOM.get(x["t"], x["t"]) for x in leaves}
    flat = [abs(y) for x in leaves for y in (x["v"] if x["t"] in ATOM else [x["v"]])
            if ATOM.get(x["t"], x["t"]) in ("i64", "ts", "i32", "i16", "date", "time") and y != NI]
    big = max(flat or [0])
    S = r.choice(SCALES)
    if big > 2**13: S = r.choice([2**33 + 1, 2**31 + 11])
    if big > 2**24 or not types & {"i64", "ts", "i32", "i16", "date", "time"}: return s
    f = {t: (r.choice(FACT[t]) if not scalar else None) for t in FACT}
    lim = {"i32": 2**31 - 2, "i16": 32767, "date": 60000, "time": 86399999}
    for t in FACT:
        m = max([abs(y) for x in leaves if ATOM.get(x["t"], x["t"]) == t for y in (x["v"] if x["t"] in ATOM else [x["v"]]) if y != NI] or [0])
        neg = any(y < 0 for x in leaves if ATOM.get(x["t"], x["t"]) == t for y in (x["v"] if x["t"] in ATOM else [x["v"]]) if y != NI)
        while f[t] and f[t] * m > lim[t]: f[t] = f[t] // 2 if f[t] > 1 else None
        if t in ("date", "time") and neg: f[t] = None
    s = copy.deepcopy(s)
    nodes = []
    _walk([e["x"] for e in s["ev"]], nodes)
    wide = r.random() < .8
    neg_ts = any(x["t"] in ("ts", "TS") and y != NI and y < 0 for x in leaves for y in (x["v"] if x["t"] in ATOM else [x["v"]]))
    for n in nodes:
        if n["n"] == "lit":
            n["v"] = _map(n["v"], lambda t: f.get(t))
            if wide:
                n["_txt"] = P.lit(_map(n["v"], lambda t: S if t == "i64" or t == "ts" and not neg_ts else None))
    if wide: s["S"] = S
    return s

def _unw(w): return (w[0] << 48) + (w[1] << 24) + w[2]

def unscale(j, S):
    """the value with wide integers that are multiples of S divided by S"""
    if isinstance(j, list): return [unscale(x, S) for x in j]
    if not isinstance(j, dict): return j
    t = j.get("t")
    if t in ("i64w", "tsw", "I64w", "TSw"):
        xs = j["v"] if t[0] in "IT" else [j["v"]]
        xs = [_unw(x) for x in xs]
        ys = [NI if x == -2**63 else x // S if x % S == 0 else None for x in xs]
        if all(y is not None and -2**31 <= y < 2**31 for y in ys):
            return {"t": t[:-1], "v": ys if t[0] in "IT" else ys[0]}
        return j
    return {k: unscale(v, S) for k, v in j.items()}

def some(g, p=.35):
    """generator g with a share p of its sessions stretched"""
    def h(r, n):
        return [stretch(r, s) if r.random() < p else s for s in g(r, n)]
    h.__name__ = g.__name__
    return h
