"""Session generators, one per area of the language."""
from lib.gen import *
from lib.session import ev, sess

ARITH = ["+", "-", "*", "/", "%", "div", "xbar"]
CMP = ["==", "!=", "<", ">", "<=", ">="]
CMPT = ["i16", "i32", "i64", "f64"]

def g_arith(r, n):
    """element-wise arithmetic and comparison: every pair of types, atom/vector/list shapes"""
    out = []
    ty = NUMS + TMPS
    while len(out) < n:
        f = r.choice(ARITH) if r.random() < .6 else r.choice(CMP)
        if f in CMP:
            if r.random() < .7: a, b = r.choice(CMPT), r.choice(CMPT)
            else:
                a = b = r.choice(TMPS + ["sym"])
                if a == "sym": f = r.choice(["==", "!="])
        else: a, b = r.choice(ty), r.choice(ty)
        m = size(r)
        x, y = operand(r, a, m), operand(r, b, m)
        k = r.random()
        if k < .06 and m:      # mismatched lengths
            x, y = vec(r, a, m), vec(r, b, m + r.choice([1, 2]))
        elif k < .16 and m:    # lists of mixed elements
            x = L(*[operand(r, r.choice([a, a, "i64"]), r.choice([1, 3])) for _ in range(min(m, 4))])
            y = atom(r, b) if r.random() < .5 else L(*[atom(r, b) for _ in range(len(x["v"]))])
        if k < .3:
            e = O(f, O(r.choice(["+", "*", "-"]), x, atom(r, a)), y)
        else: e = O(f, x, y)
        if r.random() < .3:
            e2 = [SET("x", x), SET("y", y), ev(O(f, X("x"), X("y")), d=["x", "y"]), ev(O(f, X("y"), X("x")), d=["x", "y"])]
            out.append(sess("arith " + f, *e2))
        else: out.append(sess("arith " + f, e))
    return out

def _mixed(r, t, m):
    """m elements with a null among them (where the type has one)"""
    x = vec(r, t, m, 0)
    if t not in ("u8", "b8", "c8", "sym"): x["v"][r.randrange(m)] = NI
    return x

def g_arith_sys(r, n):
    """every operator x pair of types x shape; nulls on either side of every one of them. n is the number of rounds"""
    out = []
    for _ in range(n):
        for f in ARITH + CMP:
            for a in NUMS + TMPS + ["sym"]:
                for b in NUMS + TMPS + ["sym"]:
                    if f in CMP and not (a == b or (a in CMPT and b in CMPT)): continue
                    if "sym" in (a, b) and not (a == b and f in ("==", "!=")): continue
                    for sh in range(4):
                        m = r.randint(3, 6)
                        if sh == 0:
                            for p, q in ((0, 0), (0, 1), (1, 0), (1, 1)):
                                out.append(sess("arith %s atoms" % f, O(f, atom(r, a, p), atom(r, b, q))))
                        elif sh == 1: out += [sess("arith %s" % f, O(f, atom(r, a, p), _mixed(r, b, m))) for p in (0, 1)]
                        elif sh == 2: out += [sess("arith %s" % f, O(f, _mixed(r, a, m), atom(r, b, p))) for p in (0, 1)]
                        else: out.append(sess("arith %s" % f, O(f, _mixed(r, a, m), _mixed(r, b, m))))
    return out

def g_unary(r, n):
    out = []
    while len(out) < n:
        f = r.choice(["neg", "round", "floor", "ceil", "not"])
        t = {"neg": r.choice(["i16", "i32", "i64", "f64"]), "not": "b8"}.get(f, "f64")
        x = operand(r, t, size(r))
        e = O(f, x)
        if f == "neg" and r.random() < .3: e = O("+", x, O("neg", x))
        out.append(sess("unary " + f, e))
    return out

def g_agg(r, n):
    out = []
    fs = ["sum", "avg", "min", "max", "count", "first", "last", "dev", "med"]
    while len(out) < n:
        f = r.choice(fs)
        t = r.choice(["i16", "i32", "i64", "f64", "i64", "date", "time", "ts", "u8", "sym"])
        if f in ("avg",): t = r.choice(["i16", "i32", "i64", "f64"])
        if f == "dev": t = r.choice(["i16", "i32", "i64"])
        if f == "med": t = r.choice(["i16", "i64"])
        nl = 0 if f == "med" else r.choice([0, .15, .15, .5, 1])
        m = size(r, True) + (1 if f == "med" else 0)
        x = vec(r, t, m, nl)
        if f == "dev": x["v"] = [v if v == NI else max(-9, min(9, v)) for v in x["v"]]
        e = O(f, x)
        k = r.random()
        if k < .15: e = O(f, O("reverse", x))
        elif k < .3 and t in NUMS and f in ("sum", "min", "max") and t != "u8": e = O(f, O("+", x, atom(r, t, 0)))
        elif k < .4: e = O(f, O("concat", x, vec(r, t, size(r), nl)))
        elif k < .5: e = O("list", e, O("count", x), O("first", x), O("last", x))
        out.append(sess("agg " + f, e))
    return out

ORD = ["i16", "i32", "i64", "f64", "sym", "date", "time", "ts", "b8", "u8", "c8"]
def rtable(r, n, types=None, keys=None, nulls=.1, names=None):
    """a random table"""
    types = types or [r.choice(["i64", "sym", "f64", "i64", "date", "time", "ts", "i32", "b8"]) for _ in range(r.randint(1, 4))]
    names = names or ["c%d" % i for i in range(len(types))]
    return TB([(nm, vec(r, t, n, nulls)) for nm, t in zip(names, types)])

def g_order(r, n):
    out = []
    while len(out) < n:
        f = r.choice(["asc", "desc", "iasc", "idesc", "rank", "xasc", "xdesc"])
        m = size(r, True)
        if f in ("xasc", "xdesc"):
            t = rtable(r, m, [r.choice(ORD[:9]) for _ in range(r.randint(1, 4))])
            ks = r.sample(t["c"], r.randint(1, min(3, len(t["c"]))))
            out.append(sess(f, SET("t", t), ev(O(f, X("t"), S(ks[0]) if len(ks) == 1 else SV(ks)), d=["t"])))
        else:
            t = r.choice(ORD)
            x = vec(r, t, m, r.choice([0, .1, .4]), **({} if t in ("sym",) else {}))
            if r.random() < .3 and t in ("i64", "i32"):
                x["v"] = [v if v == NI else r.choice([v, v * 1000, v * 100000]) for v in x["v"]]
            if r.random() < .3: x["v"].sort()
            if r.random() < .1: x["v"].sort(reverse=True)
            if r.random() < .2:
                out.append(sess("perm", SET("v", x), O("at", X("v"), O("iasc", X("v"))), O("at", X("v"), O("idesc", X("v"))),
                                ev(O("asc", X("v")), d=["v"])))
            else:          # fresh, or known to the engine as ordered
                mk = lambda: r.choice([K(x), K(x), O("asc", K(x)), O("desc", K(x)), O("reverse", O("asc", K(x)))])
                z = r.random()
                if z < .5: out.append(sess(f, SET("v", mk()), ev(O(f, X("v")), d=["v"])))
                elif z < .6: out.append(sess("xrank", SET("v", mk()), ev(O("xrank", X("v"), K(I(r.choice([1, 2, 3, 4, 7, 10, 100, 0])))), d=["v"])))
                elif z < .75: out.append(sess("two ways", SET("v", mk()), ev(O("iasc", X("v"))), ev(O("idesc", X("v"))), ev(O("rank", X("v"))), ev(O(f, X("v")), d=["v"])))
                else:
                    out.append(sess("ordered column", SET("v", mk()), SET("t", O("table", SV(["a", "b"]), O("list", X("v"), O("til", O("count", X("v")))))),
                                    ev(O(r.choice(["xasc", "xdesc"]), X("t"), S("a") if x["t"] in ("C8", "U8", "B8") else r.choice([S("a"), SV(["a", "b"]), SV(["b", "a"])])), d=["t"])))
    return out

def g_search(r, n):
    out = []
    while len(out) < n:
        f = r.choice(["in", "find", "sect", "except", "union", "distinct", "within", "bin", "binr", "group", "like", "split", "cnt"])
        t = r.choice(["i64", "i64", "sym", "i32", "i64", "date", "ts", "u8", "c8"])
        if f in ("group", "union", "distinct", "cnt"): t = r.choice(["i64", "sym", "i64", "i32"]) if f != "group" else r.choice(["i64", "sym"])
        nl = r.choice([0, 0, .2]) if f in ("in", "find", "except", "sect") else 0
        m = size(r, True)
        if f == "in" and r.random() < .35:      # different widths on the two sides
            t, u = r.choice(["u8", "i16", "i32", "i64"]), r.choice(["u8", "i16", "i32", "i64"])
            e = O(f, vec(r, t, m, r.choice([0, .2])), vec(r, u, size(r), r.choice([0, .3])))
            out.append(sess("search in widths", ev(e))); continue
        if f == "find" and r.random() < .2: t = r.choice(["f64", "time", "b8"])
        if f == "in" and r.random() < .2: t = r.choice(["time", "b8"])
        big = r.random() < .25 and t in ("i64",)
        def mk(k):
            v = vec(r, t, k, nl)
            if big: v["v"] = [x if x == NI else x * 99991 for x in v["v"]]
            return v
        x, y = mk(m), mk(size(r))
        mode = "eq"
        if f == "in": e = O(f, x if r.random() < .7 or not x["v"] else A(t, r.choice(x["v"])), y)
        elif f == "find": e = O(f, x, y if r.random() < .7 else atom(r, t, 0))
        elif f == "except": e = O(f, x, y if r.random() < .7 else atom(r, t, 0))
        elif f == "sect": e = O(f, x, y)
        elif f == "union": e = O(f, x, y); mode = "perm"
        elif f in ("distinct", "group") and r.random() < .3:      # lists of anything
            items = [r.choice([lambda: {"t": "NULL"}, lambda: A("i64", r.randint(0, 3)), lambda: A("c8", r.choice([97, 98])), lambda: A("b8", r.random() < .5),
                               lambda: A("u8", r.randint(0, 2)), lambda: S(r.choice(SYMS[:3])), lambda: A("i32", r.randint(0, 3)), lambda: A("date", r.randint(0, 2)),
                               lambda: C(r.choice(["ab", "abc", "b"])), lambda: IV([r.randint(0, 1) for _ in range(r.randint(1, 2))]), lambda: SV([r.choice(SYMS[:2]) for _ in range(2)]),
                               lambda: V("B8", [r.random() < .5 for _ in range(2)]), lambda: L(A("i64", r.randint(0, 1)), {"t": "NULL"})])() for _ in range(r.randint(1, 6))]
            items = [r.choice(items) for _ in range(r.randint(2, 9))] + [{"t": "NULL"}]
            e = O(f, L(*items)); mode = "perm" if f == "distinct" else "eq"
        elif f == "distinct":
            e = O(f, x); mode = "perm"
            if r.random() < .4: e = O("asc", e); mode = "eq"
        elif f == "cnt": e = O("count", O("distinct", x))
        elif f == "within":
            t = r.choice(["i64", "i32", "date", "ts"])
            e = O(f, vec(r, t, m, .1), vec(r, t, 2, 0))
        elif f in ("bin", "binr"):
            t = r.choice(["i64", "i32", "f64", "date", "time", "ts"])
            xx = vec(r, t, m + 1, 0); xx["v"].sort()
            e = O(f, xx, vec(r, t, size(r), 0))
        elif f == "group": e = O(f, x)
        elif f == "like":
            s = "".join(r.choice("ab") for _ in range(r.randint(0, 7)))
            p = "".join(r.choice("ab*?") for _ in range(r.randint(0, 6)))
            if r.random() < .4: p = "*" + s[1:3] + "*"
            e = O(f, C(s), C(p))
            if r.random() < .3: e = O(f, L(*[C("".join(r.choice("ab") for _ in range(r.randint(1, 5)))) for _ in range(r.randint(1, 5))]), C(p))
        elif f == "split":
            s = "".join(r.choice("ab,;") for _ in range(r.randint(1, 12)))
            e = O(f, C(s), C(r.choice([",", ";", "ab", ",;"])) if r.random() < .6 else A("c8", ord(r.choice(",;"))))
        out.append(sess("search " + f, ev(e, mode)))
    return out

def anyvec(r, m=None, nulls=.1):
    m = size(r) if m is None else m
    t = r.choice(["i64", "i64", "sym", "f64", "i32", "date", "time", "ts", "i16", "u8", "b8", "c8", "LIST"])
    if t == "LIST": return L(*[r.choice([atom(r, "i64"), atom(r, "sym"), C("xy"), vec(r, "i64", 2), S("q")]) for _ in range(m)])
    return vec(r, t, m, nulls)

def g_index(r, n):
    out = []
    while len(out) < n:
        f = r.choice(["at", "take", "reverse", "concat", "where", "filter", "remove", "raze", "til", "enlist", "dict", "table", "first", "as", "attab"])
        x = anyvec(r)
        m = len(x["v"])
        d = ["x"]
        pre = [SET("x", x)]
        V_ = X("x")
        if f == "at":
            e = O("at", V_, I(r.randint(-m - 1, m + 1))) if r.random() < .5 else O("at", V_, IV([r.randint(-m, m - 1) if r.random() < .9 and m else r.randint(-m - 1, m) for _ in range(r.randint(1, 6))]))
        elif f == "take" and r.random() < .35: e = O("take", V_, IV([r.randint(-m - 1, m + 1), r.randint(0, m + 2) if r.random() < .95 else -1]))
        elif f == "take": e = O("take", V_, I(r.choice([r.randint(-m, m), r.randint(-3 * m - 1, 3 * m + 1), 0])))
        elif f == "reverse": e = O("reverse", V_)
        elif f == "concat":
            y = anyvec(r) if r.random() < .3 else (vec(r, ATOM[x["t"]], size(r)) if x["t"] in ATOM else anyvec(r))
            if r.random() < .3 and x["t"] in ATOM: y = atom(r, ATOM[x["t"]])
            pre.append(SET("y", y)); d.append("y")
            e = O("concat", V_, X("y")) if r.random() < .7 else O("concat", X("y"), V_)
        elif f == "where": e = O("where", BV([r.random() < .5 for _ in range(m)]))
        elif f == "filter": e = O("filter", V_, BV([r.random() < .5 for _ in range(m)]))
        elif f == "remove": e = O("remove", V_, I(r.randint(0, max(m - 1, 0))))
        elif f == "raze":
            t = r.choice(["i64", "sym", "f64"])
            e = O("raze", L(*[vec(r, t, r.randint(1, 4)) for _ in range(r.randint(2, 4))]))
        elif f == "til": e = O("til", I(r.randint(0, 40)))
        elif f == "enlist": e = O("enlist", *[r.choice([V_, I(1), S("a")]) for _ in range(r.randint(1, 3))])
        elif f == "dict":
            k = r.sample(SYMS, min(m, len(SYMS)))
            pre.append(SET("dd", D(SV(k), x if len(k) == m else IV(range(len(k))))))
            d.append("dd")
            e = r.choice([O("key", X("dd")), O("value", X("dd")), O("at", X("dd"), S(r.choice(k) if k else "a")), O("count", X("dd")), X("dd")])
        elif f == "table":
            y = vec(r, "i64", m if r.random() < .8 else m + 1) if r.random() < .8 else atom(r, "sym")
            e = O("table", SV(["a", "b"]), O("list", V_, y))
        elif f == "as":
            t = r.choice(["i32", "i64", "f64"]); u = r.choice(["i32", "i64", "f64"])
            e = O("as", S(u), atom(r, t, 0)) if r.random() < .3 else O("as", S(VEC[u]), vec(r, t, size(r), 0))
        elif f == "attab":
            t = rtable(r, m + 1)
            pre.append(SET("t", t)); d.append("t")
            e = r.choice([O("at", X("t"), S(r.choice(t["c"]))), O("at", X("t"), I(r.randint(0, m))), O("at", X("t"), IV([r.randint(0, m) for _ in range(3)])),
                          O("first", X("t")), O("last", X("t")), O("count", X("t")), O("key", X("t")), O("value", X("t")),
                          O("take", X("t"), I(r.randint(-3 * m, 3 * m))), O("concat", X("t"), X("t")), O("filter", X("t"), BV([r.random() < .5 for _ in range(m + 1)]))])
        else: e = O(r.choice(["first", "last", "count"]), V_)
        if r.random() < .2 and f in ("at", "take", "reverse", "concat", "filter"):
            e = O(r.choice(["reverse", "count", "first", "last"]), e)
        out.append(sess("index " + f, *pre, ev(e, d=d)))
    return out

def g_attr(r, n):
    """values the engine knows to be ordered or distinct, changed step by step: what it still believes of them must be true"""
    out = []
    while len(out) < n:
        t = r.choice(["i64", "i64", "i32", "sym", "i16", "date", "ts"])
        m = r.choice([1, 2, 3, 5, 8, 20, 60])
        x = vec(r, t, m, r.choice([0, 0, .1]))
        if t == "i64" and r.random() < .3: s = [SET("v", O("til", K(I(m))))]
        else: s = [SET("v", r.choice([O("asc", K(x)), O("asc", K(x)), O("desc", K(x)), O("reverse", K(x)), O("desc", O("distinct", K(x)))]))]
        wide = ["asc", "desc", "rev", "take", "cc", "at", "set", "push", "where", "filter", "col", "ins", "two"]
        if t in ("i64", "sym"): wide += ["distinct", "except", "sect", "union"]
        if t == "i64": wide += ["+", "neg", "where", "tmp", "tmp"]
        for _ in range(r.randint(1, 4)):
            z = r.choice(wide)
            if z in ("asc", "desc"): s.append(SET("v", O(z, X("v"))))
            elif z == "rev": s.append(SET("v", O("reverse", X("v"))))
            elif z == "distinct": s.append(SET("v", O("asc", O("distinct", X("v")))))
            elif z == "take": s.append(SET("v", O("take", X("v"), K(I(r.choice([1, 2, 3, -2, m, m + 2, 2 * m]))))))
            elif z == "cc": s.append(SET("v", O("concat", *r.choice([(X("v"), X("v")), (X("v"), K(vec(r, t, 2, 0))), (K(atom(r, t, 0)), X("v")), (X("v"), K(atom(r, t, 0)))]))))
            elif z == "at": s.append(SET("v", O("at", X("v"), K(IV([r.randint(0, 2) if m > 2 else 0 for _ in range(r.randint(1, 5))])))))
            elif z == "set": s.append(ALT("v", "set", I(0), K(atom(r, t, 0))))
            elif z == "push": s.append(ALT("v", "concat", None, K(atom(r, t, 0))))
            elif z == "filter": s.append(SET("v", O("filter", X("v"), O(r.choice(["==", "!="]), X("v"), O("first", X("v"))))))
            elif z == "where" and t == "i64": s.append(SET("v", O("where", O(r.choice(["!=", "=="]), X("v"), O("last", X("v"))))))
            elif z in ("except", "sect", "union"): s.append(SET("v", O("asc", O(z, X("v"), K(vec(r, t, 3, 0))))))
            elif z == "+": s.append(SET("v", O(r.choice(["+", "-", "*"]), *r.choice([(X("v"), K(I(r.choice([1, 0, -1])))), (K(I(r.choice([-1, 0, 1]))), X("v")), (X("v"), X("v"))]))))
            elif z == "tmp": s.append(SET("v", r.choice([          # a temporary, known to be ordered, used up by the next operation
                O(r.choice("+-*%"), O("*", O("til", O("count", X("v"))), K(I(r.choice([1, 2, 3, -1])))), K(I(r.choice([2, 3, 7])))),
                O("-", K(I(r.randint(-3, 9))), O("til", O("count", X("v")))), O("neg", O(r.choice(["asc", "desc"]), X("v"))), O("xbar", O("til", O("count", X("v"))), K(I(r.choice([2, 3])))),
                O("-", O("til", O("count", X("v"))), O("*", O("til", O("count", X("v"))), O("til", O("count", X("v"))))), O("-", O("reverse", O("til", O("count", X("v")))), O("asc", X("v"))),
                O("%", O("reverse", O("til", O("count", X("v")))), K(I(r.choice([2, 3, 5]))))])))
            elif z == "neg": s.append(SET("v", O("neg", X("v"))))
            elif z == "ins": s += [SET("t", O("table", SV(["a"]), O("list", X("v")))), r.choice([INS("t", K(L(vec(r, t, 1, 0)))), UPD("t", [("a", K(atom(r, t, 0)))], wh=O("==", X("a"), O("first", X("a"))), q=True)]), SET("v", O("at", X("t"), S("a")))]
            elif z == "two": s += [SET("t", O("table", SV(["a", "b"]), O("list", X("v"), r.choice([O("reverse", O("til", O("count", X("v")))), O("%", O("*", O("til", O("count", X("v"))), K(I(7))), K(I(r.choice([3, 5, 11]))))])))), SET("v", O("at", r.choice([O(r.choice(["xasc", "xdesc"]), X("t"), S("b")), SEL(X("t"), wh=O(">", X("b"), K(I(1))))]), S("a")))]
            elif z == "col": s += [SET("t", O("table", SV(["a"]), O("list", X("v")))), SET("v", O("at", r.choice([X("t"), O(r.choice(["xasc", "xdesc"]), X("t"), S("a"))]), S("a")))]
        obs = ["asc", "desc", "iasc", "idesc", "rank"] + (["distinct", "count", "bin", "find", "group"] if t in ("i64", "sym") else [])
        for o in r.sample(obs, r.randint(1, 3)):
            if o == "distinct": s.append(ev(O("distinct", X("v")), "perm"))
            elif o == "count": s.append(ev(O("count", O("distinct", X("v")))))
            elif o == "group": s.append(ev(O("count", O("group", X("v")))))
            elif o == "find": s.append(ev(O("find", X("v"), K(atom(r, t, 0)))))
            elif o == "bin" and t == "i64": s.append(ev(O("bin", O("asc", X("v")), K(IV([r.randint(-9, 30) for _ in range(3)])))))
            elif o != "bin": s.append(ev(O(o, X("v"))))
        out.append(sess("believed order", *s, ev(X("v"))))
    return out
