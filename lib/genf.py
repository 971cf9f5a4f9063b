"""Generators of programs: functions, scoping, higher-order functions, errors, sharing of values."""
from lib.gen import *
from lib.gens import rtable
from lib import genm as M

class Prog:
    """a typed random program over integers (i), integer vectors of one length (v) and booleans (b)"""
    def __init__(s, r, m=None, errs=0.0, sets=True):
        s.r, s.m, s.errs, s.sets = r, m or r.randint(1, 5), errs, sets
        s.g = {}            # globals: name -> type
        s.f = {}            # functions: name -> (param types, result type)
        s.nl = 0
        s.infn = 0
        s.dyn = False

    def value(s, t):
        r = s.r
        if t == "i": return K(I(r.randint(-9, 9) if r.random() < .95 else NI))
        if t == "v": return K(IV([elem(r, "i64", .08) for _ in range(s.m)]))
        return K(A("b8", r.random() < .5))

    def fail(s):
        r = s.r
        return r.choice([lambda: O("+", K(I(1)), K(S("a"))), lambda: X("undefined_%d" % r.randint(0, 3)), lambda: O("raise", C("boom")),
                         lambda: O("at", K(SV(["a"])), K(S("q"))) if False else O("+", K(SV(["a"])), K(I(1))),
                         lambda: CALL(FN(["p"], X("p"))), lambda: CALL(FN(["p"], X("p")), I(1), I(2)),
                         lambda: O("+", K(IV([1, 2])), K(IV([1, 2, 3]))), lambda: O("concat", O("-", K(S("a")), K(I(1))), K(I(2))),
                         lambda: SEL(K(TB([("c", IV([1, 2]))])), cols=[("x", O("+", X("c"), X("nocolumn")))]),
                         lambda: SEL(K(TB([("c", IV([1, 2]))])), wh=O("+", X("c"), K(S("a")))),
                         lambda: UPD("undefined_t", [("c", K(I(1)))], q=True),
                         lambda: MAP(FN(["q"], O("+", X("q"), K(S("a")))), K(IV([1, 2])))])()

    def expr(s, t, loc, d):
        """an expression of type t; loc: local name -> type"""
        r = s.r
        if r.random() < s.errs: return s.fail()
        vs = [k for k, x in loc.items() if x == t] + [k for k, x in s.g.items() if x == t and k not in loc]
        if d <= 0 or r.random() < .12: return X(r.choice(vs)) if vs and r.random() < .75 else s.value(t)
        k = r.random()
        E = lambda tt, l=loc: s.expr(tt, l, d - 1)
        if k < .13: return IF(s.expr("b", loc, d - 1), E(t), E(t))
        if k < .25:           # a block; its bindings are locals of the function
            b, l = [], dict(loc)
            for _ in range(r.randint(0, 3)):
                z = r.random()
                if z < .55 and s.infn:
                    s.nl += 1; nm = "l%d" % s.nl; tt = r.choice("iiv")
                    b.append(LET(nm, s.expr(tt, l, d - 1))); l[nm] = tt
                elif z < .8 and s.sets and s.g:
                    nm = r.choice(list(s.g))
                    if nm not in l: b.append(SET(nm, s.expr(s.g[nm], l, d - 2)))
                else: b.append(s.expr(r.choice("iv"), l, d - 2))
            return DO(*b, s.expr(t, l, d - 1))
        fs = [n for n, (p, q) in s.f.items() if q == t]
        if k < .4 and fs:
            n = r.choice(fs)
            return CALL(X(n), *[E(p) for p in s.f[n][0]])
        if k < .5:            # an immediate function
            ps = ["p%d_%d" % (d, i) for i in range(r.randint(0, 3))]
            ts = [r.choice("iiv") for _ in ps]
            s.infn += 1
            body = [s.expr(t, {**(loc if s.dyn else {}), **dict(zip(ps, ts))}, d - 1)]
            s.infn -= 1
            return CALL(FN(ps, *body), *[E(x) for x in ts])
        if k < .56:
            h = E(t) if r.random() < .5 else FN(["err"], s.expr(t, dict(loc) if s.dyn else {}, d - 2))
            if h["n"] == "var": h = O("+", h, I(0))
            return TRY(E(t), h)
        if t == "i":
            if k < .75: return O(r.choice(["+", "-"]), E("i"), E("i"))
            if k < .8: return O("*", E("i"), K(I(r.randint(-2, 3))))
            if k < .93: return O(r.choice(["sum", "min", "max", "first", "last", "count"]), E("v"))
            if k < .97: return O("at", E("v"), K(I(r.randint(0, s.m - 1))))
            return FOLD(FN(["a", "x"], O("+", X("a"), O("*", X("x"), K(I(r.randint(-2, 2)))))), E("v"))
        if t == "v":
            if k < .72: return O(r.choice(["+", "-"]), E("v"), E(r.choice("vi")))
            if k < .76: return O("*", E("v"), K(I(r.randint(-2, 3))))
            if k < .82: return O("reverse", E("v"))
            if k < .93:
                s.infn += 1
                f = FN(["x"], s.expr("i", {**(loc if s.dyn else {}), "x": "i"}, d - 2))
                s.infn -= 1
                return MAP(f, E("v"), kind=r.choice(["map", "map", "pmap"]) if not s.sets else "map")
            return O("+", O("til", K(I(s.m))), E("i"))
        return O(r.choice(["<", ">", "==", "!=", "<=", ">="]), E("i"), E("i"))

    def define(s):
        """a global function"""
        r = s.r
        nm = "f%d" % len(s.f)
        ps = ["%s%d" % (r.choice("xyz"), i) for i in range(r.randint(0, 3))]
        ts = [r.choice("iiv") for _ in ps]
        t = r.choice("iiv")
        s.infn += 1
        l = dict(zip(ps, ts))
        b = []
        for _ in range(r.randint(0, 3)):
            s.nl += 1; x = "l%d" % s.nl; tt = r.choice("iv")
            b.append(LET(x, s.expr(tt, l, 2))); l[x] = tt
        b.append(s.expr(t, l, 3))
        s.infn -= 1
        s.f[nm] = (ts, t)
        return SET(nm, FN(ps, *b))

def _globals(p, k):
    out = []
    for i in range(k):
        t = p.r.choice("iiv")
        nm = "g%d" % i
        out.append(SET(nm, p.value(t))); p.g[nm] = t
    return out

def g_fun(r, n):
    """functions: parameters, locals, globals, calls, recursion, redefinition, long bodies"""
    out = []
    while len(out) < n:
        k = r.random()
        p = Prog(r, errs=0)
        if k < .55:
            s = _globals(p, r.randint(0, 3))
            s += [p.define() for _ in range(r.randint(1, 4))]
            for _ in range(r.randint(1, 4)):
                z = r.random()
                if z < .6:
                    f = r.choice(list(p.f))
                    s.append(ev(CALL(X(f), *[p.value(t) if r.random() < .5 else p.expr(t, {}, 2) for t in p.f[f][0]]), d=list(p.g)))
                elif z < .75:      # the same function under another name, passed on, or in a list
                    f = r.choice(list(p.f)); a = [p.value(t) for t in p.f[f][0]]
                    e = r.choice([lambda: CALL(FN(["h"], CALL(X("h"), *a)), X(f)), lambda: APPLY(X(f), *a) if a else CALL(X(f)),
                                  lambda: CALL(O("first", O("list", X(f), K(I(1)))), *a)])()
                    s.append(ev(e, d=list(p.g)))
                elif z < .85:      # redefinition is seen by the callers
                    f = r.choice(list(p.f)); ts, t = p.f[f]
                    ps = ["w%d" % i for i in range(len(ts))]
                    p2 = Prog(r, p.m, 0); p2.g = p.g; p2.infn = 1; p2.nl = 100
                    s.append(SET(f, FN(ps, p2.expr(t, dict(zip(ps, ts)), 2))))
                else: s.append(ev(p.expr(r.choice("iv"), {}, 3), d=list(p.g)))
        elif k < .6:       # conditions of every kind
            cs = [O("list"), O("list", K(I(0))), O("take", IV([1, 2]), K(I(0))), IV([0]), O("take", SV(["a"]), K(I(0))), K(V("C8", [])), K(V("C8", [97])),
                  K(V("B8", [False])), O("take", K(V("B8", [True])), K(I(0))), K(I(0)), K(I(NI)), K(I(5)), K(A("u8", 0)), K(A("u8", 3)), K(A("i32", 7)), K(A("i16", 2)),
                  K(A("date", 5)), K(A("time", 9)), K({"t": "NULL"}), K(S("q")), TB([("a", IV([1]))]), O("distinct", IV([])),
                  K(V("F64", [1024])), K(A("f64", 1024)), O("except", IV([1, 2]), IV([1, 2])), O("except", IV([1, 2]), IV([2])), SEL(TB([("a", IV([1, 2]))]), wh=O(">", X("a"), K(I(1)))),
                  O("==", IV([1]), IV([1])), O("<", K(I(1)), K(I(0)))]
            s = []
            for _ in range(r.randint(2, 4)):
                c = r.choice(cs); f = [lambda c: IF(c, I(1), I(2)), lambda c: IF(c, I(1)), lambda c: DO(LET("h", c), IF(X("h"), I(1), I(2))), lambda c: MAP(FN(["z"], IF(X("z"), I(1), I(2))), O("list", c, I(1)))]
                s.append(r.choice([lambda: CALL(FN(["x"], IF(X("x"), I(1), I(2))), c), lambda: CALL(FN([], r.choice(f[:3])(c))), lambda: r.choice(f[:2])(c),
                                   lambda: CALL(FN(["x"], IF(X("x"), IF(r.choice(cs), I(3), I(4)), I(2))), c)])())
        elif k < .65:      # the same expression at top level, in a function, in a do, after a call
            e = p.expr(r.choice("iv"), {}, 4)
            s = [e, CALL(FN([], e)), DO(e), CALL(FN(["u"], LET("t1", e), X("t1")), I(1))]
            if r.random() < .5: s.append(SET("ff", FN([], e))); s += [CALL(X("ff")), CALL(X("ff"))]
        elif k < .78:      # recursion
            z = r.random()
            if z < .3:
                s = [SET("fac", FN(["n"], IF(O("<", X("n"), I(2)), I(1), O("*", X("n"), CALL(X("fac"), O("-", X("n"), I(1))))))),
                     CALL(X("fac"), I(r.randint(0, 12)))]
            elif z < .6:
                s = [SET("fib", FN(["n"], LET("m", O("-", X("n"), I(1))), IF(O("<", X("n"), I(2)), X("n"), O("+", CALL(X("fib"), X("m")), CALL(X("fib"), O("-", X("m"), I(1))))))),
                     CALL(X("fib"), I(r.randint(0, 9)))]
            elif z < .8:
                s = [CALL(FN(["n", "a"], IF(O("<", X("n"), I(1)), X("a"), CALL(X("self"), O("-", X("n"), I(1)), O("+", X("a"), X("n"))))), I(r.randint(0, 60)), I(0))]
            else:
                s = [SET("ev", FN(["n"], IF(O("==", X("n"), I(0)), K(A("b8", True)), CALL(X("od"), O("-", X("n"), I(1)))))),
                     SET("od", FN(["n"], IF(O("==", X("n"), I(0)), K(A("b8", False)), CALL(X("ev"), O("-", X("n"), I(1)))))),
                     CALL(X("ev"), I(r.randint(0, 30)))]
        elif k < .88:      # names free in a function belong to its callers
            s = [SET("g0", p.value("i")), SET("inner", FN(["x"], O("+", X("x"), X("y")))), SET("y", K(I(100))),
                 SET("out", FN(["y"], CALL(X("inner"), I(r.randint(0, 9))))),
                 SET("out2", FN(["a"], LET("y", O("*", X("a"), I(2))), O("+", CALL(X("inner"), X("a")), X("y")))),
                 CALL(X("out"), I(r.randint(0, 9))), CALL(X("out2"), I(r.randint(0, 9))), CALL(X("inner"), I(1)), ev(X("y"), d=["y"])]
        else:              # long functions: many constants, locals, far jumps
            m = r.choice([20, 60, 130, 200, 300])
            b, l = [], []
            for i in range(m):
                z = r.random()
                if z < .3 and len(l) < 200:
                    b.append(LET("q%d" % i, O("+", K(I(r.randint(0, 10000))), X(r.choice(l + ["x"]))))); l.append("q%d" % i)
                elif z < .6: b.append(SET("acc", O("-", K(I(r.randint(0, 1000))), X("acc")) if z < .45 else O("+", X("acc"), K(I(r.randint(0, 1000))))))
                else: b.append(IF(O("<", X("x"), K(I(r.randint(-5, 5)))), SET("acc", O("+", X("acc"), K(I(i)))), I(0)))
            if r.random() < .5: b = [IF(O(">", X("x"), K(I(0))), DO(*b, X("acc")), K(I(-1)))]
            s = [SET("acc", I(0)), SET("big", FN(["x"], *b, O("+", X("acc"), X("x")))),
                 ev(CALL(X("big"), I(r.randint(-3, 3))), d=["acc"]), ev(CALL(X("big"), I(r.randint(-3, 3))), d=["acc"])]
        out.append(sess("fun", *s))
    return out

def g_err(r, n):
    """errors anywhere in a program: caught by the nearest try, or the whole fragment yields the error; either way
    everything is as it was but for the effects performed before, and the engine goes on working"""
    out = []
    while len(out) < n:
        k = r.random()
        p = Prog(r, errs=r.choice([.03, .06, .12]))
        if k < .75:
            s = _globals(p, r.randint(1, 3))
            for _ in range(r.randint(0, 3)): s.append(p.define())
            for _ in range(r.randint(2, 5)):
                s.append(ev(p.expr(r.choice("iv"), {}, 4), d=list(p.g)))
            p.errs = 0
            s.append(ev(p.expr(r.choice("iv"), {}, 3), d=list(p.g)))
        elif k < .78:     # endless recursion is refused, and nothing is left behind
            bad = X("undefined_zz")
            f = r.choice(["(fn [n] (rec (+ n 1)))", "(fn [n] (+ 1 (rec (+ n 1))))", "(fn [n] (let a n) (do (let b a) (rec (+ b 1))))", "(fn [n] (first (list (rec n))))"])
            s = _globals(p, 2) + [RAW("(set rec %s)" % f, K(I(0)))]
            s[-1] = ev(s[-1], "none")
            for _ in range(r.randint(1, 3)):
                s.append(ev(RAW("(rec %d)" % r.randint(0, 5), bad) if r.random() < .5 else TRY(RAW("(rec 1)", bad), p.expr("i", {}, 2)), d=list(p.g)))
                p2 = Prog(r, p.m); p2.g = p.g
                s.append(ev(p2.expr(r.choice("iv"), {}, 3), d=list(p.g)))
        elif k < .87:     # a loop over rows with an error midway; effects before it stay
            m = r.randint(2, 6); bad = r.randint(0, m)
            body = DO(SET("c", O("+", X("c"), K(I(1)))), IF(O("==", X("x"), K(I(bad))), p.fail(), X("x")))
            hof = r.choice([lambda f: MAP(f, O("til", K(I(m)))), lambda f: MAP(f, O("til", K(I(m))), kind="mapl") if False else MAP(f, O("til", K(I(m))))])
            e = hof(FN(["x"], body))
            s = [SET("c", I(0)), ev(TRY(e, K(S("caught"))) if r.random() < .6 else e, d=["c"]), ev(e, d=["c"]), MAP(FN(["x"], O("+", X("x"), I(1))), O("til", K(I(m))))]
        else:             # table operations that fail leave their tables alone
            m = r.randint(1, 5)
            t = TB([("a", vec(r, "i64", m)), ("b", vec(r, "sym", m)), ("c", vec(r, "f64", m))])
            bad = r.choice([lambda: UPD("t", [("a", O("+", X("a"), I(1))), ("b", O("+", X("b"), I(1)))], q=True),
                            lambda: UPD("t", [("a", O("+", X("a"), K(S("x"))))], wh=O(">", X("a"), I(0)), q=True),
                            lambda: INS("t", O("list", I(1), I(2), I(3))), lambda: INS("t", O("list", I(1), K(S("a")), K(I(3)), K(I(4)))),
                            lambda: UPS("t", 1, O("list", I(1), I(2), K(A("f64", 1024)))),
                            lambda: INS("t", O("list", IV([1, 2]), SV(["a", "b"]), K(V("F64", [1024])))),
                            lambda: SEL(X("t"), cols=[("x", O("sum", X("b")))]) if False else SEL(X("t"), cols=[("x", O("+", X("b"), I(1)))]),
                            lambda: SEL(X("t"), wh=O("+", X("a"), X("b")))])
            s = [SET("t", t), SET("u", X("t")), ev(TRY(bad(), I(7)) if r.random() < .5 else bad(), d=["t", "u"]), ev(bad(), d=["t", "u"]),
                 ev(INS("t", O("list", I(9), K(S("z")), K(A("f64", 512)))), d=["t", "u"]), O("count", X("t"))]
        out.append(sess("err", *s))
    return out

def g_hof(r, n):
    """map, pmap, map-left, map-right, fold, apply with user functions and builtins"""
    out = []
    while len(out) < n:
        p = Prog(r, sets=False)
        m = r.choice([1, 2, 3, 5, 8, 20])
        k = r.random()
        bad = False
        t = r.choice(["i64", "i64", "f64", "i32", "sym", "date", "list"])
        def seq(t, m):
            if t == "list": return K(L(*[K(atom(r, "i64"))["v"] if r.random() < .5 else vec(r, "i64", 2) for _ in range(m)]))
            return K(vec(r, t, m))
        def f1(t):
            z = r.random()
            if t in ("i64", "f64", "i32") and z < .6: return FN(["x"], O(r.choice(["+", "-", "*"]), X("x"), r.choice([X("x"), K(I(r.randint(-3, 3)))])))
            if t == "i64" and z < .66: return FN(["x"], IF(O("<", X("x"), K(I(r.randint(-5, 5)))), X("x"), r.choice([O("list", X("x")), K(S("a")), K(IV([1, 2])), K(A("f64", 512))])))
            if z < .74: return FN(["x"], O("list", X("x"), K(I(1))))
            if z < .8: return FN(["x"], O("enlist", X("x"))) if False else FN(["x"], IF(O("==", X("x"), X("x")), X("x"), X("x")) if t not in ("list", "sym") else X("x"))
            return FN(["x"], K(I(5)))
        kind = r.choice(["map", "map", "pmap"])
        if k < .25: e = MAP(f1(t), seq(t, m), kind=kind)
        elif k < .45:
            t2 = r.choice(["i64", "f64"])
            bad = r.random() < .1
            y = seq(t2, m + 1 if bad else m) if r.random() < .7 else K(atom(r, t2))
            if t in ("sym", "date", "list"): t = "i64"
            f = r.choice([FN(["x", "y"], O(r.choice(["+", "-", "*"]), X("x"), X("y"))), FN(["x", "y"], O("list", X("x"), X("y"))), FR("+"), FR("-")])
            e = MAP(f, seq(t, m), y, kind=kind)
        elif k < .6:
            f = FN(["x", "y"], r.choice([O("-", X("x"), X("y")), O("list", X("x"), X("y")), O("sum", O("+", X("x"), X("y")))]))
            e = MAP(f, K(vec(r, "i64", m)), K(vec(r, "i64", r.randint(1, 4))), kind=r.choice(["mapl", "mapr"]))
        elif k < .64:      # a builtin with one side fixed
            f, fx = FR(r.choice("+-*")), K(vec(r, "i64", r.randint(1, 4)) if r.random() < .6 else atom(r, "i64"))
            it = K(vec(r, "i64", m))
            e = MAP(f, it, fx, kind="mapl") if r.random() < .6 else MAP(f, fx, it, kind="mapr")
        elif k < .7:       # the accumulations with a start value, and all of them
            sq = K(r.choice([IV, IV, lambda z: V("I32", z)])([r.randint(-9, 9) for _ in range(min(m, 8))])) if r.random() < .8 else K(L(*[vec(r, "i64", 2) if r.random() < .5 else I(r.randint(0, 9)) for _ in range(min(m, 5))]))
            f = FN(["x", "y"], r.choice([O("-", X("x"), X("y")), O("list", X("x"), X("y")), O("+", O("*", X("x"), K(I(2))), X("y")), O("concat", X("x"), X("y")), SET("w", O("list", X("x"), X("y")))]))
            kd = r.choice(["foldl", "foldr", "scan", "scanl", "scanr"])
            if kd != "scan" and r.random() < .4: f = FR(r.choice(["+", "-", "concat", "*"]))
            init = K(I(r.randint(-9, 9))) if r.random() < .7 else K(vec(r, "i64", 2))
            if kd in ("foldl", "foldr") and r.random() < .1: sq = K(IV([]))
            e = FOLD(f, sq, kind=kd) if kd == "scan" else FOLD(f, init, sq, kind=kd) if kd in ("foldr", "scanr") else FOLD(f, sq, init, kind=kd)
        elif k < .78:
            f = FN(["a", "x"], r.choice([O("+", O("*", X("a"), K(I(2))), X("x")), O("-", X("a"), X("x")), O("concat", X("a"), X("x")), IF(O("<", X("a"), X("x")), X("x"), X("a"))]))
            e = FOLD(f, K(IV([r.randint(-9, 9) for _ in range(min(m, 8))])))
        elif k < .86:
            f = r.choice([FN(["x", "y"], O("list", X("x"), O("count", X("y")))), FR("+"), FN(["x", "y"], O("+", X("x"), X("y")))])
            e = APPLY(f, K(vec(r, "i64", m)), K(vec(r, "i64", m)) if r.random() < .5 else K(atom(r, "i64")))
        elif k < .93:      # nested
            e = MAP(FN(["x"], O("sum", MAP(FN(["y"], O("*", X("y"), K(I(r.randint(-2, 3))))), O("+", X("x"), O("til", K(I(3))))))), K(vec(r, "i64", m)), kind=kind)
        else:              # over the rows of columns of a table
            tt = TB([("a", vec(r, "i64", m)), ("b", vec(r, "i64", m))])
            e = SEL(K(tt), cols=[("c", MAP(FN(["x", "y"], O("-", X("x"), X("y"))), X("a"), X("b")))])
        if bad: e = TRY(e, K(S("refused")))
        s = [e] if r.random() < .7 else [SET("v", e), ev(X("v"), d=["v"])]
        out.append(sess("hof", *s))
    return out

def g_alias(r, n):
    """a few variables sharing values; every step may change one of them and no other"""
    out = []
    while len(out) < n:
        t = r.choice(["i64", "i64", "f64", "sym", "i32", "date", "list"])
        m = r.randint(1, 6)
        vs = ["a", "b", "c"]
        def val(): return K(L(*[vec(r, "i64", 2) if r.random() < .6 else atom(r, "sym") for _ in range(m - 1)], vec(r, "i64", 3))) if t == "list" else K(vec(r, t, m))
        s = [SET("a", val()), SET("b", X("a") if r.random() < .8 else val()), SET("c", r.choice([O("list", X("a"), X("b")), X("b"), D(SV(["x", "y"]), L(IV([1, 2]), IV([3, 4]))), O("dict", SV(["x", "y"]), O("list", X("a"), X("b")))]))]
        if t != "list": s.append(SET("t", O("table", SV(["p", "q"]), O("list", X("a"), X("a") if r.random() < .5 else O("til", K(I(m))))))); s.append(SET("u", X("t"))); vs += ["t", "u"]
        s.append(SET("f", FN(["v"], r.choice([O("reverse", X("v")), O("concat", X("v"), X("v")), DO(LET("w", X("v")), O("concat", X("w"), X("v"))), X("v")]))))
        num = t in ("i64", "f64", "i32")
        for _ in range(r.randint(2, 7)):
            x, y = r.choice("ab"), r.choice("ab")
            z = r.random()
            at = "sym" if t == "list" else t
            if z < .09: e = SET(x, X(y))
            elif z < .12: e = r.choice([SET(x, RAW("(resolve '%s)" % y, X(y))), RAW("(resolve '%s)" % x, X(x)), RAW("(resolve 'nowhere)", K({"t": "NULL"}))])
            elif z < .3: e = ALT(x, "set", I(0), K(atom(r, at)))
            elif z < .36: e = ALT(x, "concat", None, K(atom(r, at)))
            elif z < .42 and num: e = ALT(x, "+", I(0), K(atom(r, t, 0)))
            elif z < .47: e = ALT(X(x), "set", I(0), K(atom(r, at)))
            elif z < .55 and num: e = r.choice([O("+", X(x), K(atom(r, t))), SET(x, O("+", X(x), K(atom(r, t, 0)))), SET(x, O("neg", X(x))) if t != "i32" else O("-", X(x), X(x))])
            elif z < .65: e = r.choice([O("reverse", X(x)), SET(y, O("reverse", X(x))), SET(x, CALL(X("f"), X(y))), CALL(X("f"), X(x))])
            elif z < .7 and t != "list": e = r.choice([O("asc", X(x)), O("iasc", X(x)), O("desc", X(x)), SET(y, O("asc", X(x)))])
            elif z < .75: e = r.choice([O("take", X(x), I(2)), SET(y, O("take", X(x), I(3))), O("concat", X(x), X(y)), SET(x, O("concat", X(y), K(atom(r, at))))])
            elif z < .8: e = r.choice([O("first", X("c")), O("count", X("c")), O("list", X(x), X(y))])
            elif "t" in vs:
                q = r.choice("tu")
                cs = [("p", K(atom(r, t)))]
                e = r.choice([lambda: UPD(q, cs, q=True), lambda: UPD(X(q), cs), lambda: INS(q, O("list", K(atom(r, t)), K(atom(r, "i64")))), lambda: SET("a", O("at", X(q), S("p"))),
                              lambda: SET("u", X("t")), lambda: SET("u", SEL(X("t"))), lambda: UPD(q, cs, wh=O("==", X("p"), O("first", X("p"))), q=True), lambda: SET("u", SEL(X("t"), cols=[("p", X("p")), ("q", X("q"))])),
                              lambda: SET("u", O("concat", X("t"), X("u"))), lambda: UPS(q, 1, O("list", K(atom(r, t, 0)), K(atom(r, "i64")))), lambda: SET("t", O("xasc", X("u"), S("p")))])()
            else: e = CALL(FN(["v"], SET(x, K(vec(r, "i64", 1))), X("v")), X(x))
            s.append(ev(e, d=vs))
        out.append(sess("alias", *s))
    return out
