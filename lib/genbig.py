"""Sessions over long columns (16384 elements and more, where the engine splits work between threads):
every long variable is a prefix, many copies of a middle and a suffix (specs/BigTrace.tla)."""
from lib.gen import *
from lib.genq import tcol

SIZES = [16384, 16385, 16700, 20011, 32768, 33333, 50000]
HUGE = [65536, 131072, 200003, 300007, 530000]

def big(name, p, t, s, q):
    """event: name becomes p t^q s"""
    m = len(t["v"][0]["v"]) if t["t"] == "TABLE" else len(t["v"])
    def col(a, b, c): return "(concat %s (concat (take %s %d) %s))" % (lit(a), lit(b), m * q, lit(c))
    if t["t"] == "TABLE": x = "(table [%s] (list %s))" % (" ".join(t["c"]), " ".join(col(a, b, c) for a, b, c in zip(p["v"], t["v"], s["v"])))
    else: x = col(p, t, s)
    return {"x": K(I(0)), "m": "eq", "d": [], "k": "bset", "txt": "(count (set %s %s))" % (name, x), "big": {"s1": name, "p": p, "t": t, "s": s, "q": q}}

def bev(x, m, q, kinds=("C",), txt=None):
    e = {"x": n_(x), "m": m, "d": [], "k": "big", "q": q, "kinds": list(kinds)}
    if txt: e["txt"] = txt
    return e

def reps(r, m, huge=False):
    n = r.choice(HUGE if huge else SIZES)
    return max(2, -(-n // m) + r.choice([0, 0, 1]))

def dom(r, t, wide=False):
    """a small set of values of type t"""
    k = r.randint(2, 6)
    if t == "sym": return r.sample(SYMS, k)
    if t == "b8": return [True, False]
    if t == "c8": return [97, 98, 65]
    if t == "u8": return r.sample([0, 1, 2, 7, 100, 200, 255], min(k, 7))
    if t == "f64": return [r.choice([256, 512, 1024]) * r.randint(-3, 3) for _ in range(k)]
    f = r.choice([1, 1, 1, 99991, 1000003, 250007]) if wide and t in ("i64", "i32", "ts", "time") else 1
    return [f * r.randint(-4, 9) for _ in range(k)]

def column(r, t, d, m, nulls):
    nn = nulls if t not in ("b8", "u8", "sym", "c8") else 0
    return V(VEC[t], [NI if r.random() < nn else r.choice(d) for _ in range(m)])

def parts(r, t, m, nulls=.1, wide=False, sizes=None):
    d = dom(r, t, wide)
    a, c = sizes or (r.randint(0, 4), r.randint(0, 4))
    e = dom(r, t, wide) if r.random() < .3 else d       # values that occur at the ends only
    return column(r, t, e, a, nulls), column(r, t, d, m, nulls), column(r, t, e, c, nulls)

def table3(r, cols, m, nulls):
    sz = (r.randint(0, 4), r.randint(0, 4))
    ps = [parts(r, t, m, nulls if not c.startswith("k") else r.choice([0, 0, .1]), wide=c.startswith("k"), sizes=sz) for c, t in cols]
    return tuple(TB([(c, x[k]) for (c, _), x in zip(cols, ps)]) for k in range(3))

AGG = {"sum": ("A", ["i64", "f64", "i32", "i16"]), "count": ("A", ["i64", "f64", "i32", "date", "ts", "sym"]),
       "min": ("C", ["i64", "f64", "i32", "i16", "date", "ts", "time"]), "max": ("C", ["i64", "f64", "i32", "i16", "date", "ts", "time"]),
       "first": ("C", ["i64", "f64", "i32", "i16", "date", "time", "ts", "sym", "b8"]), "last": ("C", ["i64", "f64", "i32", "i16", "date", "time", "ts", "sym", "b8"])}
GAGG = {"sum": ("A", ["i64", "f64"]), "count": ("A", ["i64", "f64", "i32", "date", "time", "ts", "sym"]),
        "min": ("C", ["i64", "f64", "i16"]), "max": ("C", ["i64", "f64", "i16"]),
        "first": ("C", ["i64", "f64", "i16", "i32", "date", "time", "ts", "sym"]), "last": ("C", ["i64", "f64", "i16", "i32", "date", "time", "ts", "sym"])}
SAMEW = {"avg": ["i64", "f64", "i32", "i16"], "med": ["i64"], "dev": ["i64"]}

def expr(r, cs, d=0):
    """numeric expression over i64/f64 columns"""
    c = r.choice(cs)
    if d > 1 or r.random() < .3: return X(c)
    f = r.choice(["+", "-", "*"])
    if f == "*": return O(f, X(c), I(r.randint(-2, 3)))
    return O(f, X(c), expr(r, cs, d + 1) if r.random() < .6 else I(r.randint(-3, 3)))

def aggs(r, ty, table, even):
    """(columns, kinds): even: without prefix and suffix also averages, medians and deviations keep their value"""
    out, kinds = [], []
    nums = [c for c, t in ty.items() if t in ("i64", "f64") and not c.startswith("k")]
    for i in range(r.randint(1, 3)):
        f = r.choice(list(table) + (list(SAMEW) if even else []))
        kind, ts = table[f] if f in table else ("C", SAMEW[f])
        cs = [c for c in ty if ty[c] in ts and not (f not in ("count", "min", "max", "first", "last") and c.startswith("k"))]
        if not cs: f, kind, cs = "count", "A", list(ty)[-1:]
        x = expr(r, nums) if f in ("sum", "min", "max") and nums and r.random() < .3 else X(r.choice(cs))
        out.append(("r%d" % i, O(f, x)))
        kinds.append(kind)
    return out, kinds

def pred(r, ty, tabs, d=0):
    """a condition decided row by row"""
    c = r.choice(list(ty))
    k = ty[c]
    if d < 2 and r.random() < .35: return (AND if r.random() < .5 else OR)(pred(r, ty, tabs, d + 1), pred(r, ty, tabs, d + 1))
    if d < 2 and r.random() < .1: return O("not", pred(r, ty, tabs, d + 1))
    if k == "b8": return X(c)
    v = r.choice(tcol(r.choice(tabs[1:2]), c)["v"])
    if k == "sym":
        if r.random() < .3: return O("in", X(c), SV([r.choice(SYMS) for _ in range(r.randint(1, 3))]))
        return O(r.choice(["==", "!="]), X(c), S(v))
    if k == "i64" and r.random() < .2 and v != NI: return O("in", X(c), IV([v, r.randint(-4, 9)]))
    return O(r.choice(["<", ">", "<=", ">=", "==", "!="]), X(c), A(k, v))

KEYT = ["sym", "i64", "i64", "sym", "i32", "date"]
VALT = ["i64", "f64", "i64", "f64", "i32", "i16", "date", "ts", "time", "sym", "b8"]

def btable(r, m, nk, nv, nulls):
    cols = [("k%d" % i, r.choice(KEYT)) for i in range(nk)] + [("v%d" % i, r.choice(VALT)) for i in range(nv)] + [("x", r.choice(["i64", "f64"]))]
    return dict(cols), table3(r, cols, m, nulls)

def g_bigtab(r, n):
    """queries on long tables"""
    out = []
    while len(out) < n:
        m = r.choice([5, 7, 12, 13, 29])
        even = r.random() < .3
        huge = r.random() < .2
        q = reps(r, m, huge)
        ty, tabs = btable(r, m, r.randint(1, 2), r.randint(1, 2), r.choice([0, .1]))
        if even: tabs = tuple(TB([(c, V(v["t"], [])) for c, v in zip(t["c"], t["v"])]) if k != 1 else t for k, t in enumerate(tabs))
        s = [big("t", *tabs, q)]
        ks = [c for c in ty if c.startswith("k")]
        for _ in range(r.randint(3, 5)):
            wh = pred(r, ty, tabs) if r.random() < .5 else None
            k = r.random()
            if k < .5:
                kk = r.sample(ks, r.randint(1, len(ks)))
                if len(kk) == 1 and ty[kk[0]] in ("date", "i32"):
                    if len(ks) == 1: continue
                    kk = r.sample(ks, 2)
                cols, kinds = aggs(r, ty, GAGG, even)
                s.append(bev(SEL(X("t"), wh=wh, by=[(c, X(c)) for c in kk], cols=cols), "aff" if len(kk) == 1 else "affrows", q, ["C"] * len(kk) + kinds))
            elif k < .7 or huge:
                cols, kinds = aggs(r, ty, AGG, even)
                s.append(bev(SEL(X("t"), wh=wh, cols=cols), "aff", q, kinds))
            else:
                nums = [c for c in ty if ty[c] in ("i64", "f64") and not c.startswith("k")]
                cols = [("r%d" % i, expr(r, nums) if r.random() < .6 else X(r.choice(list(ty)))) for i in range(r.randint(1, 2))]
                s.append(bev(SEL(X("t"), wh=wh, cols=cols), "row", q))
        if r.random() < .25 and not huge:
            c = r.choice(["v0", "x"])
            if ty[c] in ("i64", "f64"): s.append(bev(UPD(X("t"), [(c, O("+", X(c), I(3)))], wh=pred(r, ty, tabs)), "row", q))
        if r.random() < .3 and not huge and "sym" == ty["k0"]:
            d = r.sample(SYMS, r.randint(2, 6))
            right = TB([("k0", SV(d)), ("w", column(r, "i64", [1, 2, 3, 4], len(d), 0))])
            s.append(bev(O(r.choice(["left-join", "inner-join"]), SV(["k0"]), X("t"), right), "row", q))
        out.append(sess("bigtab", *s))
    return out

def g_bigvec(r, n):
    """operations on long vectors"""
    out = []
    VT = ["b8", "u8", "i16", "i32", "i64", "f64", "sym", "date", "time", "ts", "c8"]
    while len(out) < n:
        m = r.choice([5, 7, 12, 13, 29])
        q = reps(r, m)
        nulls = r.choice([0, .12])
        k = r.random()
        if k < .35:         # arithmetic and comparison, element by element
            a, b = r.choice(["i64", "f64", "i32", "i16"]), r.choice(["i64", "f64", "i32"])
            sz = (r.randint(0, 4), r.randint(0, 4))
            s = [big("x", *parts(r, a, m, nulls, sizes=sz), q), big("y", *parts(r, b, m, nulls, sizes=sz), q)]
            for _ in range(4):
                f = r.choice(["+", "-", "*", "/", "%", "div", "xbar", "==", "!=", "<", ">", "<=", ">="])
                w = r.random()
                x = O(f, X("x"), X("y")) if w < .5 and f != "xbar" else O(f, X("x"), atom(r, b, .1, lo=1)) if w < .8 or f == "xbar" else O(f, atom(r, a, .1), X("y"))
                if r.random() < .2: x = O(r.choice(["neg", "not"]), x) if f in ("+", "-", "*") and a != "u8" else x
                s.append(bev(x, "row", q))
        elif k < .55:       # order
            t = r.choice(["i64", "i32", "i16", "f64", "sym", "date", "time", "ts", "u8", "b8"])
            s = [big("x", *parts(r, t, m, nulls, wide=True), q)]
            for f in r.sample(["iasc", "idesc", "asc", "desc"], 2): s.append(bev(X("x"), f, q, txt="(%s x)" % f))
        elif k < .75:       # aggregates
            t = r.choice(["i64", "i32", "i16", "f64", "date", "time", "ts", "u8"])
            p3 = parts(r, t, m, nulls)
            if r.random() < .4: p3 = (V(VEC[t], []), p3[1], V(VEC[t], []))
            s = [big("x", *p3, q)]
            fs = [("count", "A"), ("first", "C"), ("last", "C")]
            if t != "u8" : fs += [("min", "C"), ("max", "C")]
            if t in ("i64", "i32", "f64", "i16"): fs += [("sum", "A")] * 2 + ([("avg", "C"), ("med", "C"), ("dev", "C")] if not p3[0]["v"] and not p3[2]["v"] else [])
            for f, kd in r.sample(fs, 3): s.append(bev(O(f, X("x")), "aff", q, [kd]))
            s.append(bev(O("distinct", X("x")), "affset", q, ["C"]) if t in ("i64", "i32", "date", "ts", "time", "sym") else bev(O("count", X("x")), "aff", q, ["A"]))
        else:               # search, positions, grouping
            t = r.choice(["i64", "i32", "sym", "date", "ts", "i64"])
            p3 = parts(r, t, m, r.choice([0, nulls]), wide=True)
            s = [big("x", *p3, q)]
            c = A(t, r.choice(p3[1]["v"]))
            for _ in range(3):
                w = r.random()
                if w < .3:
                    mk = O(r.choice(["==", "!=", "<", ">="]) if t != "sym" else r.choice(["==", "!="]), X("x"), c)
                    s.append(bev(mk, "where", q, txt="(where %s)" % R(mk)))
                elif w < .5: s.append(bev(O("in", X("x"), column(r, t, p3[1]["v"] + dom(r, t), 3, 0)), "row", q))
                elif w < .65 and t in ("i64", "sym"): s.append(bev(X("x"), "group", q, txt="(group x)"))
                elif w < .8: s.append(bev(O("at", column(r, "i64", [1, 2, 3], 6, 0), X("x")), "row", q) if t == "i64" else bev(O("concat", X("x"), V(VEC[t], [])), "row", q))
                else: s.append(bev(O("find", X("x"), c), "aff", q, ["C"]))
        out.append(sess("bigvec", *s))
    return out
