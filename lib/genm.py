"""Generators of sessions that change tables, vectors and dictionaries, and of joins."""
from lib.genq import *
from lib.gens import rtable
from lib.session import ev, sess

def upd_expr(r, t, ty, c, grouped=False):
    """a value for column c: an expression of the column's type"""
    k = ty[c]
    if grouped:
        cs = [d for d in t["c"] if ty[d] == "i64"]
        if k == "i64" and cs: return O(r.choice(["sum", "min", "max", "count"]), X(r.choice(cs)))
        if k == "f64" and numcols(t, ty): return O("avg", X(r.choice([d for d in numcols(t, ty)])))
        if k in ("sym", "date", "i32"): return O(r.choice(["first", "last"]), X(c))
        return O("first", X(c))
    if k in ("i64", "f64") and r.random() < .6:
        return O(r.choice(["+", "-", "*"]), X(c), I(r.randint(-3, 5)))
    if k == "i64" and r.random() < .4: return O(r.choice(["sum", "max", "count"]), X(c))
    if r.random() < .6: return K(atom(r, k, .1))
    return X(r.choice([d for d in t["c"] if ty[d] == k]))

def g_update(r, n):
    """update: where, by, existing and new columns, of a value and of a variable, with a bystander copy"""
    out = []
    while len(out) < n:
        t, ty, ks, vs = qtable(r, qsize(r))
        wh = pred(r, t, ty) if r.random() < .55 else None
        q = r.random() < .5
        by = []
        if r.random() < .25:
            k = [k for k in ks if ty[k] in ("sym", "i64")]
            if not k: continue
            k = r.choice(k)
            by = [(k, X(k))]
        cols = []
        for c in r.sample(t["c"], r.randint(1, min(3, len(t["c"])))):
            if c in [b for b, _ in by]: continue
            if r.random() < .25:
                src = r.choice([d for d in t["c"] if ty[d] in ("i64", "f64", "sym", "date", "time", "ts")] or ["x"])
                cols.append(("n_" + c, upd_expr(r, t, ty, src, bool(by))))
            else: cols.append((c, upd_expr(r, t, ty, c, bool(by))))
        if not cols: continue
        if r.random() < .12:   # a column that may not take the value: the whole update fails
            c = r.choice(t["c"])
            cols = [x for x in cols if x[0] != c] + [(c, K(atom(r, "i64" if ty[c] == "sym" else "sym", 0)))]
        e = UPD("t" if q else X("t"), cols, wh=wh, by=by, q=q, bydict=True)
        s = [SET("t", t)]
        z = r.random()
        if z < .4: s.append(SET("u", X("t")))
        elif z < .6: s.append(SET("u", K(I(0))))
        else: s.append(SET("u", SEL(X("t"))))
        s.append(ev(e, d=["t", "u"]))
        if r.random() < .3:
            s.append(ev(SEL(X("t"), cols=[("n", O("count", X(t["c"][0])))]), d=["t", "u"]))
        out.append(sess("update", *s))
    return out

def like_row(r, t, ty, ks, dom=.5):
    row = []
    for c in t["c"]:
        v = tcol(t, c)["v"]
        row.append(r.choice(v) if v and r.random() < dom else elem(r, ty[c], .1))
    return row

def rows_value(r, t, ty, rows, kinds=("list", "table", "dict")):
    """rows as an insertable value"""
    k = r.choice(kinds)
    if len(rows) == 1 and r.random() < .6:
        vals = [A(ty[c], rows[0][i]) for i, c in enumerate(t["c"])]
        return {"t": "LIST", "v": vals} if k != "dict" else D(SV(t["c"]), {"t": "LIST", "v": vals})
    vals = [V(VEC[ty[c]], [row[i] for row in rows]) for i, c in enumerate(t["c"])]
    if k == "list": return {"t": "LIST", "v": vals}
    ix = list(range(len(t["c"])))
    if r.random() < .4: r.shuffle(ix)
    if k == "dict": return D(SV([t["c"][i] for i in ix]), {"t": "LIST", "v": [vals[i] for i in ix]})
    return TB([(t["c"][i], vals[i]) for i in ix])

def g_insert(r, n):
    """insert into and upsert of tables, several times, with bystander copies"""
    out = []
    while len(out) < n:
        t, ty, ks, vs = qtable(r, qsize(r))
        m = len(t["v"][0]["v"])
        s = [SET("t", t), SET("u", r.choice([X("t"), SEL(X("t")), O("at", X("t"), K(S(t["c"][0]))), K(I(0))]))]
        for _ in range(r.randint(1, 4)):
            if r.random() < .6 and m == len(t["v"][0]["v"]) or r.random() < .4:
                rows = [like_row(r, t, ty, ks) for _ in range(r.randint(1, 3))]
                if not rows: continue
                v = rows_value(r, t, ty, rows)
                if r.random() < .08:   # a wrong element
                    if v["t"] == "LIST" and v["v"]:
                        j = r.randrange(len(v["v"]))
                        z = v["v"][j]
                        other = "sym" if ty[t["c"][j]] != "sym" else "i64"
                        v["v"][j] = atom(r, other, 0) if z["t"] in VEC else vec(r, other, len(z["v"]), 0)
                q = r.random() < .7
                s.append(ev(INS("t" if q else X("t"), K(v)), d=["t", "u"]))
            else:
                k = r.randint(1, min(2, len(t["c"])))
                rows = [like_row(r, t, ty, ks, .75) for _ in range(r.randint(1, 4))]
                v = rows_value(r, t, ty, rows, ("list", "table"))
                if k > 1 and v["t"] == "LIST" and v["v"][0]["t"] not in ATOM: continue
                q = r.random() < .7
                s.append(ev(UPS("t" if q else X("t"), k, K(v)), d=["t", "u"]))
        out.append(sess("insert", *s))
    return out

ALTT = ["i64", "f64", "i32", "i16", "u8", "b8", "sym", "date", "time", "ts", "c8"]
def g_alter(r, n):
    """alter vectors, lists and dictionaries in place and by value, with bystanders sharing them"""
    out = []
    while len(out) < n:
        k = r.random()
        s = []
        if k < .12:    # of a value nothing else holds
            m = r.randint(1, 12)
            f = O("reverse", O("til", I(m))) if r.random() < .5 else O("+", O("til", I(m)), I(0))
            i = r.randint(0, m - 1) if r.random() < .7 else m + r.randint(0, 2)
            e = ALT(f, r.choice(["set", "+", "*"]), I(i), I(r.randint(-5, 50))) if r.random() < .8 else ALT(f, "concat", None, I(7))
            s = [ev(SET("v", e), d=["v"] if i < m else []), ev(SET("w", O("til", I(m))), d=["w"]), SET("x", O("til", I(m + 1)))]
            s.append(ev(O("list", *([X("v")] if i < m else []), X("w"), X("x")), d=["w", "x"]))
        elif k < .65:
            t = r.choice(ALTT)
            m = max(1, size(r))
            v = vec(r, t, m)
            s = [SET("v", v), SET("w", r.choice([X("v"), O("list", X("v"), I(1)), O("enlist", X("v"))]))]
            for _ in range(r.randint(1, 3)):
                q = r.random() < .7
                tg = "v" if q else X("v")
                z = r.random()
                if z < .45: e = ALT(tg, "set", I(r.randint(0, m - 1) if r.random() < .9 else m + r.randint(0, 3)), K(atom(r, t)))
                elif z < .6 and t in ("i64", "f64"): e = ALT(tg, r.choice(["+", "-", "*"]), I(r.randint(0, m - 1)), K(atom(r, t)))
                elif z < .75:
                    ix = r.sample(range(m), r.randint(1, m))
                    e = ALT(tg, "set", IV(ix), K(vec(r, t, len(ix)) if r.random() < .6 else atom(r, t)))
                elif z < .9 and t not in ("b8", "c8"):
                    e = ALT(tg, "concat", None, K(vec(r, t, r.randint(1, 3)) if r.random() < .5 else atom(r, t)))
                else: e = ALT(tg, "set", I(r.randint(0, m - 1)), K(atom(r, t)))
                s.append(ev(e, d=["v", "w"]))
                if q and e["f"] == "concat": break
        elif k < .8:
            m = r.randint(1, 5)
            s = [SET("v", O("list", *[K(atom(r, r.choice(["i64", "f64", "sym"]))) if r.random() < .5 else K(vec(r, "i64", 3)) for _ in range(m)])), SET("w", X("v"))]
            for _ in range(r.randint(1, 3)):
                s.append(ev(ALT("v" if r.random() < .7 else X("v"), "set", I(r.randint(0, m - 1)), K(atom(r, r.choice(["i64", "sym", "f64"])))), d=["v", "w"]))
                break
        else:
            kt = r.choice(["sym", "i64"])
            m = r.randint(1, 5)
            keys = r.sample(SYMS, m) if kt == "sym" else r.sample(range(-5, 20), m)
            vt = r.choice(["i64", "f64", "sym", "list"])
            vals = {"t": "LIST", "v": [vec(r, "i64", 2) if r.random() < .5 else atom(r, "sym") for _ in range(m)]} if vt == "list" else vec(r, vt, m)
            if vt == "list" and all(x["t"] == "sym" for x in vals["v"]): continue
            s = [SET("v", D(V(VEC[kt], keys), vals)), SET("w", X("v"))]
            for _ in range(r.randint(1, 3)):
                key = r.choice(keys) if r.random() < .6 else elem(r, kt, 0)
                val = atom(r, r.choice(["i64", "sym"])) if vt == "list" else atom(r, vt)
                s.append(ev(ALT("v" if r.random() < .7 else X("v"), "set", K(A(kt, key)), K(val)), d=["v", "w"]))
        out.append(sess("alter", *s))
    return out

def g_join(r, n):
    """left, inner and as-of joins"""
    out = []
    while len(out) < n:
        kind = r.choice(["left-join", "inner-join", "asof-join"])
        nk = r.choice([1, 1, 2, 2, 3])
        kts = [r.choice(["i64", "sym", "i64", "date", "i32", "time", "ts"]) for _ in range(nk)]
        if nk == 1 and kind != "asof-join": kts = [r.choice(["i64", "sym", "ts"])]
        nl, nr = qsize(r), qsize(r)
        doms = []
        for t in kts:
            d = r.sample(SYMS, 4) if t == "sym" else [r.randint(0, 12) for _ in range(r.randint(2, 5))]
            if t == "i64" and r.random() < .15: d = [x * 99991 for x in d]
            doms.append(d)
        def mk(m, pre, tm=False):
            cols = [("k%d" % i, V(VEC[t], [r.choice(doms[i]) for _ in range(m)])) for i, t in enumerate(kts)]
            return cols
        lc, rc = mk(nl, "l"), mk(nr, "r")
        if kind == "asof-join":
            tt = r.choice(["i64", "time", "ts", "date", "i32"])
            lc.append(("tm", V(VEC[tt], [r.randint(0, 30) for _ in range(nl)])))
            rc.append(("tm", V(VEC[tt], sorted(r.randint(0, 30) for _ in range(nr)))))
            keys = ["k%d" % i for i in range(nk)] + ["tm"]
        else: keys = ["k%d" % i for i in range(nk)]
        for i in range(r.randint(0, 2)): lc.append(("l%d" % i, vec(r, r.choice(["i64", "f64", "sym", "date"]), nl, .1)))
        for i in range(r.randint(1, 2)): rc.append(("r%d" % i, vec(r, r.choice(["i64", "f64", "sym", "date"]), nr, .1)))
        if r.random() < .25:
            t = r.choice(["i64", "f64", "sym"])
            lc.append(("c", vec(r, t, nl, .1)))
            rc.append(("c", vec(r, t, nr, .1)))
        l, rt = TB(lc), TB(rc)
        s = [SET("l", l), SET("m", rt), ev(O(kind, K(SV(keys)), X("l"), X("m")), d=["l", "m"], m="perm")]
        out.append(sess("join", *s))
    return out

WAGG = {"sum": ("i64", "f64"), "min": ("i16", "i64", "ts", "f64", "date", "time"), "max": ("i16", "i64", "ts", "f64", "date", "time"),
        "avg": ("i16", "i32", "i64", "f64"), "count": ("i32", "date", "time", "i64", "sym", "ts", "f64"),
        "first": ("i16", "i32", "date", "time", "i64", "sym", "ts", "f64"), "last": ("i16", "i32", "date", "time", "i64", "sym", "ts", "f64"),
        "dev": ("i64",), "med": ("i64",)}

def g_window(r, n):
    """window joins: keys of several types, ties, empty windows, groups without rows, several aggregates"""
    out = []
    while len(out) < n:
        kind = r.choice(["window-join", "window-join1"])
        nk = r.choice([0, 1, 1, 1, 2])
        kts = [r.choice(["sym", "sym", "i64", "date", "i32", "ts"]) for _ in range(nk)]
        nl, nr = max(1, qsize(r)), qsize(r)
        if r.random() < .1: nr = 0
        span = r.choice([4, 12, 30])
        lc, rc = [], []
        for i, t in enumerate(kts):
            d = r.sample(SYMS, 4) if t == "sym" else [r.randint(0, 12) for _ in range(r.randint(1, 4))]
            lc.append(("k%d" % i, V(VEC[t], [r.choice(d) for _ in range(nl)])))
            rc.append(("k%d" % i, V(VEC[t], [r.choice(d) for _ in range(nr)])))
        tt = r.choice(["time", "time", "date", "i32"])
        if r.random() < .06: tt = r.choice(["i64", "ts"])
        lt = [r.randint(0, span) for _ in range(nl)]
        rt = [r.randint(0, span) for _ in range(nr)]
        if r.random() < .4: rt.sort()
        lc.append(("tm", V(VEC[tt], lt)))
        rc.append(("tm", V(VEC[tt], rt)))
        for i in range(r.randint(0, 2)): lc.append(("l%d" % i, vec(r, r.choice(["i64", "f64", "sym", "date"]), nl, .1)))
        rts = [r.choice(["i64", "i64", "f64", "f64", "sym", "date", "i32", "i16", "time", "ts"]) for _ in range(r.randint(1, 3))]
        for i, t in enumerate(rts): rc.append(("r%d" % i, vec(r, t, nr, r.choice([0, .1, .5]))))
        if r.random() < .25: r.shuffle(rc)
        keys = ["k%d" % i for i in range(nk)] + ["tm"]
        cols = []
        for j in range(r.randint(1, 4)):
            i = r.randrange(len(rts))
            c, t = "r%d" % i, rts[i]
            z = r.random()
            if z < .2: x = X(c)
            elif z < .3 and t in ("i64", "f64"): x = O(r.choice(["sum", "min", "max", "avg"]), O(r.choice(["+", "*", "-"]), X(c), I(r.randint(1, 3))))
            elif z < .4 and t in ("i64", "f64"): x = O(r.choice(["+", "*", "-"]), O(r.choice(["sum", "count", "max", "last"]), X(c)), I(r.randint(1, 3)))
            else: x = O(r.choice([f for f, ts in WAGG.items() if t in ts] if r.random() < .97 else list(WAGG)), X(c))
            if r.random() < .02: x = O("sum", X("nope"))
            cols.append(("a%d" % j, x))
        w = VEC[tt] if tt in ("time", "date", "i32") else r.choice(["I32", VEC[tt]])
        if r.random() < .5:
            a, b = r.randint(-6, 3), r.randint(-3, 8)
            iv = L(V(w, [x + a for x in lt]), V(w, [x + b for x in lt]))
        else:
            lo = [r.randint(-3, span) for _ in range(nl)]
            iv = L(V(w, lo), V(w, [x + r.choice([0, 0, 1, 2, 5, -2]) if r.random() < .9 else r.randint(0, span) for x in lo]))
        z = r.random()
        if z < .02: iv = L(*iv["v"][:1])
        elif z < .04 and nl > 1: iv = L(iv["v"][0], V(w, iv["v"][1]["v"][:-1]))
        elif z < .05: iv = iv["v"][0]
        ks = K(SV(keys))
        if r.random() < .2 and len(keys) > 1: ks = O("concat", K(SV(keys[:1])), K(SV(keys[1:])))
        s = [SET("l", TB(lc)), SET("m", TB(rc)), SET("iv", iv), ev(WJ(kind, ks, X("iv"), X("l"), X("m"), cols), d=["l", "m", "iv"])]
        out.append(sess("window", *s))
    return out
