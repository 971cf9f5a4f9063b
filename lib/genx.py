"""Random nested programs over (nearly) the whole language, for properties that do not need the value of a
program to be specified: that nothing but the assigned variable changes, that memory is returned, that the
engine survives.  Programs are made as text; what they evaluate to is left open."""
from lib.ast import *
from lib.session import sess

SY = ["a", "b", "c", "zz"]
KINDS = ["iv", "fv", "sv", "ov", "bv", "str", "lst", "dict", "tab", "i", "f", "s", "o", "b"]

class G:
    def __init__(self, r, vars=(), wrong=.04):
        self.r, self.vars, self.wrong, self.loc = r, list(vars), wrong, []

    def x(self, k, d):
        """text of an expression meant to be of kind k"""
        r = self.r
        if k != "fn1" and k != "fn2" and r.random() < self.wrong: k = r.choice(KINDS)
        hit = [v for v, q in self.vars + self.loc if q == k]
        if hit and r.random() < (.35 if d > 0 else .6): return r.choice(hit)
        if d <= 0: return self.leaf(k)
        return getattr(self, "k_" + k)(d - 1)

    def vecl(self, k, n):
        r = self.r
        if k == "iv": return "[" + " ".join(r.choice(["0Nl"] + [str(r.randint(-9, 9))] * 12) for _ in range(n)) + "]" if n else "(take [1] 0)"
        if k == "fv": return "[" + " ".join(r.choice(["0Nf"] + [str(r.randint(-9, 9) / 2)] * 9) for _ in range(n)) + "]" if n else "(take [1.5] 0)"
        if k == "sv": return "[" + " ".join(r.choice(SY) for _ in range(n)) + "]" if n else "(take [a] 0)"
        if k == "bv": return "[" + " ".join(r.choice(["true", "false"]) for _ in range(n)) + "]" if n else "(take [true] 0)"
        t = r.choice(["i", "h", "d", "t", "p", "x"])
        e = {"i": lambda: "%di" % r.randint(-9, 9), "h": lambda: "%dh" % r.randint(-9, 9), "d": lambda: "2001.02.%02d" % r.randint(1, 9),
             "t": lambda: "10:00:0%d.000" % r.randint(0, 9), "p": lambda: "2001.02.0%dD10:00:00.000000000" % r.randint(1, 9), "x": lambda: "0x0%d" % r.randint(0, 9)}[t]
        return "[" + " ".join(e() for _ in range(n)) + "]" if n else "(take [%s] 0)" % e()

    def leaf(self, k):
        r = self.r
        n = r.choice([0, 1, 2, 3, 3, 4, 5])
        if k in ("iv", "fv", "sv", "bv", "ov"): return self.vecl(k, n)
        if k == "str": return r.choice(['"abc"', '"a,b"', '""', '"x"', '"hello world and more text"', '"1"'])
        if k == "lst": return "(list %s)" % " ".join(r.choice(["1", "'a", '"ab"', "[1 2]", "2.5", "[a b]", "null"]) for _ in range(max(n, 1)))
        if k == "dict": return r.choice(["{a: 1 b: 2}", "{a: [1 2] b: 'c}", "(dict [a b c] [1 2 3])", '{a: "x" b: 2.5}'])
        if k == "tab": return "(table [a b] (list [%s] [%s]))" % (" ".join(str(r.randint(0, 3)) for _ in range(3)), " ".join(r.choice(["x", "y"]) for _ in range(3)))
        if k == "i": return str(r.choice([0, 1, 2, 3, -1, -2, 7]))
        if k == "f": return str(r.randint(-6, 6) / 2)
        if k == "s": return "'" + r.choice(SY)
        if k == "b": return r.choice(["true", "false"])
        if k == "o": return r.choice(["1i", "2h", "2001.02.03", "10:00:00.000", "'a'", "0x05", "null", "0Nl", "0Nf", "0Ni"])
        if k == "fn1": return r.choice(["neg", "count", "first", "reverse", "(fn [v] v)", "(fn [v] (concat v v))", "(fn [v] (do (let w v) w))", "(fn [v] (+ v 1))", "(fn [v] (list v v))"])
        if k == "fn2": return r.choice(["+", "concat", "(fn [v w] w)", "(fn [v w] (+ v w))", "(fn [v w] (list w v))", "(fn [v w] (concat v w))", "*"])
        raise ValueError(k)

    def c(self, d, *opts):
        """one of several forms: each a format with kinds as arguments"""
        o = self.r.choice(opts)
        return o[0] % tuple(self.x(k, d) for k in o[1:])

    def vec(self, k, d, *more):
        return self.c(d, ("(concat %s %s)", k, k), ("(concat %s %s)", k, k), ("(reverse %s)", k), ("(take %s %s)", k, "i"), ("(asc %s)", k), ("(desc %s)", k),
                      ("(at %s %s)", k, "iv"), ("(filter %s %s)", k, "bv"), ("(remove %s %s)", k, "i"), ("(distinct %s)", k), ("(except %s %s)", k, k),
                      ("(union %s %s)", k, k), ("(sect %s %s)", k, k), ("(raze (list %s %s))", k, k), ("(unify (list %s %s))", {"iv": "i", "fv": "f", "sv": "s", "ov": "o", "bv": "b"}[k], {"iv": "i", "fv": "f", "sv": "s", "ov": "o", "bv": "b"}[k]),
                      ("(unify (diverse %s))", k), ("(enlist %s)", {"iv": "i", "fv": "f", "sv": "s", "ov": "o", "bv": "b"}[k]), ("(first (list %s %s))", k, "lst"),
                      ("(last (list %s %s))", "lst", k), ("(if %s %s %s)", "b", k, k), ("(do (let q1 %s) q1)", k), ("(try %s %s)", k, k), ("((fn [p1] p1) %s)", k), ("(do (let w1 %s) ((fn [p1] (concat p1 w1)) %s))", k, k),
                      ("(map (fn [e1] e1) %s)", k), ("(de (ser %s))", k), ("(alter %s set 0 %s)", k, {"iv": "i", "fv": "f", "sv": "s", "ov": "o", "bv": "b"}[k]),
                      ("(value (dict %s %s))", "sv", k), ("(at (table [m] (list %s)) 'm)", k), ("(fold (fn [p2 e2] p2) %s %s)", k, "iv"), *more)

    def k_iv(self, d):
        return self.vec("iv", d, ("(til %s)", "i"), ("(iasc %s)", "lst"), ("(iasc %s)", "fv"), ("(idesc %s)", "sv"), ("(rank %s)", "fv"), ("(where %s)", "bv"), ("(+ %s %s)", "iv", "i"),
                        ("(+ %s %s)", "iv", "iv"), ("(* %s %s)", "i", "iv"), ("(neg %s)", "iv"), ("(find %s %s)", "sv", "sv"), ("(bin %s %s)", "iv", "iv"), ("(scan + %s %s)", "i", "iv"), ("(xbar %s %s)", "iv", "i"),
                        ("(as 'I64 %s)", "fv"), ("(map count %s)", "lst"), ("(map-left + %s %s)", "i", "iv"), ("(map %s %s)", "fn1", "iv"), ("(pmap %s %s)", "fn1", "iv"), ("(xrank %s %s)", "iv", "i"), ("(at %s 'a)", "tab"))
    def k_fv(self, d): return self.vec("fv", d, ("(+ %s %s)", "fv", "iv"), ("(as 'F64 %s)", "iv"), ("(* %s %s)", "fv", "f"), ("(round %s)", "fv"), ("(/ %s %s)", "iv", "i"))
    def k_sv(self, d): return self.vec("sv", d, ("(key %s)", "dict"), ("(key %s)", "tab"), ("(at %s 'b)", "tab"))
    def k_ov(self, d): return self.vec("ov", d, ("(as 'I32 %s)", "iv"), ("(+ %s %s)", "ov", "i"), ("(as 'I16 %s)", "iv"), ("(as 'DATE %s)", "iv"), ("(enum 'nosuch %s)", "sv"))
    def k_bv(self, d): return self.vec("bv", d, ("(== %s %s)", "iv", "i"), ("(< %s %s)", "fv", "f"), ("(in %s %s)", "sv", "sv"), ("(in %s %s)", "iv", "iv"), ("(within %s %s)", "iv", "iv"), ("(not %s)", "bv"), ("(and %s %s)", "bv", "bv"), ("(or %s %s)", "bv", "bv"),
                                             ("(!= %s %s)", "sv", "s"), ("(>= %s %s)", "iv", "iv"))
    def k_str(self, d): return self.c(d, ("(concat %s %s)", "str", "str"), ("(format %s %s)", "str", "iv"), ("(format \"%%-%%\" %s %s)", "tab", "lst"), ("(reverse %s)", "str"), ("(take %s %s)", "str", "i"), ("(raze (split %s \",\"))", "str"), ("(as 'C8 %s)", "i"),
                                      ("(as 'String %s)", "s"), ("(remove %s %s)", "str", "i"), ("(at %s %s)", "str", "iv"), ("(first (list %s))", "str"))
    def k_lst(self, d):
        return self.c(d, ("(list %s %s)", "iv", "str"), ("(list %s %s %s)", "lst", "dict", "i"), ("(concat %s %s)", "lst", "lst"), ("(concat %s %s)", "lst", "i"), ("(enlist %s %s)", "iv", "sv"), ("(reverse %s)", "lst"), ("(take %s %s)", "lst", "i"),
                      ("(remove %s %s)", "lst", "i"), ("(diverse %s)", "iv"), ("(diverse %s)", "sv"), ("(split %s \",\")", "str"), ("(value %s)", "tab"), ("(map (fn [e3] (concat e3 e3)) %s)", "lst"), ("(at %s %s)", "lst", "iv"), ("(distinct %s)", "lst"),
                      ("(map-right list %s %s)", "i", "iv"), ("(scan (fn [p4 e4] (concat p4 e4)) %s %s)", "iv", "iv"), ("(filter %s %s)", "lst", "bv"), ("(de (ser %s))", "lst"), ("(unify %s)", "lst"), ("(alter %s set 0 %s)", "lst", "iv"), ("(alter %s concat %s)", "lst", "s"),
                      ("(asc %s)", "lst"), ("(try %s %s)", "lst", "lst"), ("(value (group %s))", "iv"), ("(apply list %s %s)", "iv", "iv"), ("(map %s %s)", "fn1", "lst"), ("(fold %s %s)", "fn2", "lst"), ("(scan %s %s)", "fn2", "lst"), ("(if %s %s %s)", "iv", "lst", "lst"),
                      ("(eval (parse \"(list 1 2 (til 3))\"))",), ("(except %s %s)", "lst", "lst"), ("(union %s %s)", "lst", "lst"), ("(map %s %s %s)", "fn2", "iv", "iv"))
    def k_dict(self, d): return self.c(d, ("(dict %s %s)", "sv", "iv"), ("(dict %s %s)", "iv", "lst"), ("(group %s)", "sv"), ("(group %s)", "iv"), ("(concat %s %s)", "dict", "dict"), ("(at %s %s)", "tab", "i"), ("(first %s)", "tab"), ("(last %s)", "tab"),
                                       ("(asc %s)", "dict"), ("(desc %s)", "dict"), ("(de (ser %s))", "dict"), ("(alter %s set 'a %s)", "dict", "i"), ("(at (list %s %s) 0)", "dict", "i"), ("{a: %s b: %s}", "iv", "str"), ("(+ %s %s)", "dict", "i"), ("(take %s %s)", "dict", "i"), ("(reverse %s)", "dict"),
                                       ("(filter %s %s)", "dict", "bv"), ("(remove %s %s)", "dict", "i"))
    def k_tab(self, d):
        return self.c(d, ("(table [a b] (list %s %s))", "iv", "sv"), ("(table [a b c] (list %s %s %s))", "iv", "sv", "fv"), ("(select {from: %s})", "tab"), ("(select {from: %s where: (> a %s)})", "tab", "i"), ("(select {n: (sum a) from: %s by: b})", "tab"),
                      ("(select {n: (count a) m: (first a) from: %s by: {b: b}})", "tab"), ("(select {a: (+ a %s) b: b from: %s})", "i", "tab"), ("(select {from: %s where: (in b %s)})", "tab", "sv"), ("(update {a: (+ a 1) from: %s})", "tab"),
                      ("(update {c: %s from: %s where: (> a 0)})", "i", "tab"), ("(update {a: (sum a) from: %s by: b})", "tab"), ("(concat %s %s)", "tab", "tab"), ("(xasc %s 'a)", "tab"), ("(xdesc %s [b a])", "tab"), ("(take %s %s)", "tab", "i"), ("(at %s %s)", "tab", "iv"),
                      ("(insert %s (list %s %s))", "tab", "i", "s"), ("(insert %s (list %s %s))", "tab", "iv", "sv"), ("(upsert %s 1 (list %s %s))", "tab", "i", "s"), ("(upsert %s 1 %s)", "tab", "tab"), ("(left-join [b] %s %s)", "tab", "tab"), ("(inner-join [a] %s %s)", "tab", "tab"),
                      ("(inner-join (concat [a] [b]) %s %s)", "tab", "tab"), ("(asof-join (concat [b] [a]) %s %s)", "tab", "tab"), ("(asof-join [b a] %s %s)", "tab", "tab"), ("(de (ser %s))", "tab"), ("(reverse %s)", "tab"), ("(distinct %s)", "tab"), ("(filter %s %s)", "tab", "bv"),
                      ("(select {a: %s from: %s})", "iv", "tab"), ("(meta %s)", "tab"), ("(try %s %s)", "tab", "tab"), ("(table %s %s)", "sv", "lst"), ("(select {n: a from: %s by: b take: %s})", "tab", "i"),
                      ("(window-join [b t] (list %s %s) (select {b: b t: (as 'I32 a) from: %s}) (select {b: b t: (as 'I32 a) v: a from: %s}) {m: (sum v)})", "ov", "ov", "tab", "tab"))
    def k_i(self, d): return self.c(d, ("(count %s)", "lst"), ("(sum %s)", "iv"), ("(first %s)", "iv"), ("(last %s)", "iv"), ("(max %s)", "iv"), ("(+ %s %s)", "i", "i"), ("(at %s %s)", "iv", "i"), ("(find %s %s)", "iv", "i"), ("(count %s)", "str"), ("(fold + %s)", "iv"), ("(fold %s %s %s)", "fn2", "i", "iv"),
                                    ("(if %s %s %s)", "b", "i", "i"), ("(count %s)", "tab"), ("(%s %s)", "fn1", "i"), ("(med %s)", "iv"), ("(apply + %s %s)", "i", "i"), ("(try (raise %s) %s)", "str", "i"), ("(as 'I64 %s)", "str"))
    def k_f(self, d): return self.c(d, ("(avg %s)", "iv"), ("(dev %s)", "fv"), ("(med %s)", "fv"), ("(sum %s)", "fv"), ("(/ %s %s)", "i", "i"), ("(* %s %s)", "f", "i"), ("(as 'F64 %s)", "str"), ("(min %s)", "fv"))
    def k_s(self, d): return self.c(d, ("(first %s)", "sv"), ("(last %s)", "sv"), ("(at %s %s)", "sv", "i"), ("(as 'SYMBOL %s)", "str"), ("(type %s)", "lst"), ("(type %s)", "iv"))
    def k_b(self, d): return self.c(d, ("(== %s %s)", "i", "i"), ("(nil? %s)", "lst"), ("(in %s %s)", "i", "iv"), ("(like %s %s)", "str", "str"), ("(not %s)", "b"), ("(and %s %s)", "b", "b"), ("(== %s %s)", "s", "s"), ("(first %s)", "bv"))
    def k_o(self, d): return self.c(d, ("(first %s)", "ov"), ("(at %s %s)", "ov", "i"), ("(as 'I32 %s)", "i"), ("(first %s)", "lst"), ("(last %s)", "lst"), ("(at %s %s)", "lst", "i"), ("(at %s 'a)", "dict"), ("(first %s)", "str"))
    def k_fn1(self, d): return self.leaf("fn1")
    def k_fn2(self, d): return self.leaf("fn2")

def top(r, vs, d, wrong=.04):
    """(kind, text) of one program"""
    k = r.choice([k for k in KINDS for _ in range(2 if k in ("lst", "tab", "dict") else 1)])
    return k, G(r, vs, wrong).x(k, d)
