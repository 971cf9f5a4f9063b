"""Generators of query sessions: select, group-by, update, insert, upsert, alter, joins."""
from lib.gen import *
from lib.gens import rtable

NUMC = ["i64", "i64", "f64", "i32", "i16"]
KEYC = ["sym", "i64", "date", "i32", "sym"]

def qtable(r, n, nk=None, nv=None, nulls=.1, knulls=0):
    """a table with key-like and value-like columns; returns (table, {name: type}, keys, values)"""
    nk = r.randint(1, 3) if nk is None else nk
    nv = r.randint(1, 3) if nv is None else nv
    ks = [("k%d" % i, r.choice(KEYC)) for i in range(nk)]
    vs = [("v%d" % i, r.choice(NUMC + ["sym", "date", "time", "ts", "b8"])) for i in range(nv - 1)] + [("x", r.choice(["i64", "f64"]))]
    cols = []
    for nm, t in ks:
        dom = r.sample(SYMS, 4) if t == "sym" else [r.randint(-3, 12) for _ in range(r.randint(2, 5))]
        if t == "i64" and r.random() < .15: dom = [d * 99991 for d in dom]
        if knulls and t != "sym" and r.random() < knulls: dom.append(NI)
        cols.append((nm, V(VEC[t], [r.choice(dom) for _ in range(n)])))
    for nm, t in vs: cols.append((nm, vec(r, t, n, nulls)))
    if r.random() < .5: r.shuffle(cols)
    return TB(cols), dict(ks + vs), [k for k, _ in ks], [v for v, _ in vs]

def tcol(t, c): return t["v"][t["c"].index(c)]

def const(r, t, ty, c):
    """a constant comparable with column c: often one of its values"""
    v = tcol(t, c)["v"]
    if v and r.random() < .7: return A(ty, r.choice(v))
    return atom(r, ty, .05)

def pred(r, t, ty, d=0):
    c = r.choice(t["c"])
    k = ty[c]
    if d < 2 and r.random() < .3:
        return (AND if r.random() < .5 else OR)(pred(r, t, ty, d + 1), pred(r, t, ty, d + 1))
    if d < 2 and r.random() < .08: return O("not", pred(r, t, ty, d + 1))
    if k == "b8": return X(c)
    if k == "sym":
        if r.random() < .3: return O("in", X(c), SV([r.choice(SYMS) for _ in range(r.randint(1, 3))]))
        return O(r.choice(["==", "!="]), X(c), K(const(r, t, k, c)))
    if k == "i64" and r.random() < .2:
        return O("in", X(c), IV([const(r, t, k, c)["v"] for _ in range(r.randint(1, 4))]))
    if k == "i64" and r.random() < .1:
        a = sorted([r.randint(-5, 12), r.randint(-5, 12)])
        return O("within", X(c), IV(a))
    if k in CMPN and r.random() < .15:
        return O(r.choice(["<", ">", "<=", ">="]), num(r, t, ty), K(const(r, t, k, c)))
    if r.random() < .1: return O(r.choice(["<", ">"]), X(c), O("avg" if k in ("i64", "f64") and r.random() < .5 else "max", X(c)))
    return O(r.choice(["<", ">", "<=", ">=", "==", "!="]), X(c), K(const(r, t, k, c)))

CMPN = ["i16", "i32", "i64", "f64"]
def numcols(t, ty): return [c for c in t["c"] if ty[c] in CMPN]

def num(r, t, ty, d=0):
    """a numeric expression over the columns"""
    nc = numcols(t, ty)
    if not nc: return O("count", X(t["c"][0]))
    c = r.choice(nc)
    if d > 1 or r.random() < .4: return X(c)
    f = r.choice(["+", "-", "*"])
    if f == "*" : return O(f, X(c), I(r.randint(-3, 4)))
    return O(f, X(c), num(r, t, ty, d + 1) if r.random() < .6 else K(atom(r, r.choice(["i64", "f64"]), 0)))

GTYPES = {"sum": ["i64", "f64"], "min": ["i64", "f64", "i16"], "max": ["i64", "f64", "i16"], "avg": CMPN, "med": ["i64"], "dev": ["i64"],
          "count": ["i64", "f64", "i32", "date", "time", "ts", "sym"], "first": ["i64", "f64", "i16", "i32", "date", "time", "ts", "sym"]}
GTYPES["last"] = GTYPES["first"]
def agg(r, t, ty, d=0, g=False):
    """an aggregate over the columns; g: of a kind supported per group"""
    if r.random() < .12 and d == 0: return O(r.choice(["+", "-"]), agg(r, t, ty, 1, g), agg(r, t, ty, 1, g))
    f = r.choice(["sum", "avg", "min", "max", "count", "first", "last", "med", "dev"] if d == 0 else ["sum", "min", "max", "count"])
    cs = [c for c in t["c"] if ty[c] in GTYPES[f]] if g or f in ("med", "dev") or d == 1 else t["c"] if f in ("count", "first", "last") else numcols(t, ty)
    if f in ("min", "max") and r.random() < .3 and d == 0: cs = [c for c in t["c"] if ty[c] in ("date", "time", "ts")] or cs
    if not cs: return O("count", X("x"))
    if f in ("sum", "avg", "min", "max") and r.random() < .3: return O(f, num(r, t, ty, 1))
    return O(f, X(r.choice(cs)))

def qsize(r):
    x = r.random()
    if x < .05: return 0
    if x < .1: return 1
    if x < .8: return r.randint(2, 12)
    return r.randint(13, 60)

def g_select(r, n):
    """select without grouping: where, projection, computed columns, take"""
    out = []
    while len(out) < n:
        t, ty, ks, vs = qtable(r, qsize(r))
        m = len(t["v"][0]["v"])
        wh = pred(r, t, ty) if r.random() < .75 else None
        k = r.random()
        if k < .2: cols = []
        elif k < .55:
            cs = r.sample(t["c"], r.randint(1, len(t["c"])))
            cols = [(c if r.random() < .7 else "r%d" % i, X(c)) for i, c in enumerate(cs)]
        elif k < .8: cols = [("r%d" % i, num(r, t, ty) if r.random() < .7 else X(r.choice(t["c"]))) for i in range(r.randint(1, 3))]
        else: cols = [("r%d" % i, agg(r, t, ty)) for i in range(r.randint(1, 3))]
        tk = I(r.choice([1, 2, -1, -2, 5, r.randint(-m - 2, m + 2)])) if r.random() < .25 else None
        frm = X("t") if r.random() < .85 else SEL(X("t"), wh=pred(r, t, ty))
        e = SEL(frm, wh=wh, cols=cols, tk=tk)
        s = [SET("t", t), ev(e, d=["t"])]
        if r.random() < .2: s = [SET("t", t), SET("u", e), ev(O("count", X("u")), d=["t", "u"])]
        out.append(sess("select", *s))
    return out

def g_groupby(r, n):
    """select by: aggregates per group, several keys, computed keys, where before grouping"""
    out = []
    while len(out) < n:
        t, ty, ks, vs = qtable(r, qsize(r), knulls=.3)
        wh = pred(r, t, ty) if r.random() < .4 else None
        kk = r.sample(ks, r.randint(1, len(ks)))
        if len(kk) == 1 and ty[kk[0]] in ("date", "i32"):      # grouping by these takes several columns
            if len(ks) == 1: continue
            kk = r.sample(ks, 2)
        by = [(k, X(k)) for k in kk]
        if r.random() < .2: by = [("g%d" % i, X(k)) for i, k in enumerate(kk)]
        cols = [("r%d" % i, agg(r, t, ty, 0, True)) for i in range(r.randint(1, 4))] if r.random() < .9 else []
        if r.random() < .1:
            c = [c for c in t["c"] if ty[c] in ("i64",)]
            if c: by = [("b", O("xbar", X(c[0]), I(r.choice([2, 3, 5]))))]
        tk = I(r.choice([1, 2, -1, -2])) if r.random() < .1 else None
        e = SEL(X("t"), wh=wh, by=by, cols=cols, tk=tk, bydict=r.random() < .3)
        out.append(sess("groupby", SET("t", t), ev(e, d=["t"])))
    return out
