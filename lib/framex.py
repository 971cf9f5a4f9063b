"""Programs of any kind, with the globals shown after every step (specs/FrameTrace.tla)."""
import hashlib, json, os, shutil, tempfile
from lib.session import _exec
from lib.trace import observe_all
from lib import genx

# a program: {"cores": n, "init": [text per variable], "steps": [{"k","x","s"}]}
def script(p):
    vs = "D " + " ".join("v%d" % k for k in range(len(p["init"])))
    o = ["Q (set v%d 0)" % k for k in range(len(p["init"]))] + ["Q (set v%d %s)" % (k, t) for k, t in enumerate(p["init"])] + [vs]
    for e in p["steps"]: o += ["E " + e.get("txt", e["x"]), vs]
    return o

def _show(v):
    s = json.dumps(v, separators=(",", ":"))
    return s if len(s) < 160 else s[:100] + "..." + hashlib.md5(s.encode()).hexdigest()

def execute(exe, p):
    d = tempfile.mkdtemp(prefix="fr_", dir="/tmp")
    try:
        open(d + "/s", "w").write("\n".join(script(p)) + "\n")
        recs, st = _exec(exe, d + "/s", d + "/o", d, p["cores"])
    finally: shutil.rmtree(d, ignore_errors=True)
    out, r, n = [], None, -1
    for x in recs:
        if "r" in x: r = x["r"]
        elif "d" in x:
            g = [_show(x["d"]["v%d" % k]) for k in range(len(p["init"]))]
            if n < 0: out.append({"k": "init", "d": g})
            else:
                e = p["steps"][n]
                out.append({"k": e["k"], "x": e["x"], **({"txt": e["txt"]} if "txt" in e else {}), "s": e.get("s", -1) + 1, "bad": r.get("t") == "ERR", "r": _show(r), "d": g})
            n += 1
    if not any("end" in x for x in recs): out.append({"k": "hang" if st == "hang" else "crash"})
    return out

def execute_all(exe, ps): return observe_all(lambda p: execute(exe, p), ps, lambda o: o and o[-1]["k"] in ("hang", "crash"))

def program(r, cores=1, n=14, wrong=(0, .04, .04, .2)):
    vs, init, steps = [], [], []
    for k in range(r.choice([2, 3, 5])):
        kd, t = genx.top(r, vs, 1, 0)
        init.append(t); vs.append(("v%d" % k, kd))
    w = r.choice(wrong)
    fns = {"iv": ["+", "-", "*", "set", "concat"], "fv": ["+", "*", "set"], "sv": ["set", "concat"], "lst": ["set", "concat"], "dict": ["set"], "tab": ["set"]}
    for _ in range(n):
        q = r.random()
        s = r.randrange(len(vs))
        name, kd = vs[s]
        if q < .15:         # an alias
            o = r.choice([v for v, _ in vs])
            steps.append({"k": "set", "x": "(set %s %s)" % (name, o), "s": s}); vs[s] = (name, dict(vs)[o]); continue
        kt, t = (kd, genx.G(r, vs, w).x(kd, r.choice([1, 1, 2]))) if r.random() < .5 else genx.top(r, vs, r.choice([0, 1, 1, 2, 3]), w)
        if q < .4: steps.append({"k": "set", "x": "(set %s %s)" % (name, t), "s": s}); vs[s] = (name, kt)
        elif q < .55:
            f = r.choice(fns.get(kd, ["set", "concat", "+"]))
            ix = r.choice(["0", "1", "[0 1]", "-1", "'a", "[0]", "9"] if kd not in ("dict", "tab") else ["'a", "'b", "'zz", "0", "[a b]"])
            e = genx.top(r, vs, 1, w)[1] if r.random() < .4 else genx.G(r, vs, w).x({"iv": "i", "fv": "f", "sv": "s", "lst": "lst"}.get(kd, "iv"), 1)
            steps.append({"k": "alter", "x": "(alter '%s %s %s %s)" % (name, f, ix, e) if r.random() < .85 else "(alter '%s %s %s)" % (name, f, e), "s": s})
        elif q < .62 and kd in ("lst", "dict", "tab"):
            p = r.choice(["(list 0 1)", "(list 'a 0)", "(list 'b 1)", "[0 0]", "(list 1 'a)", "(list 'zz 0)", "(list 0 9)"])
            steps.append({"k": "alter", "x": "(modify '%s %s %s %s)" % (name, r.choice(["set", "+", "concat"]), p, genx.top(r, vs, 0, w)[1]), "s": s})
        elif q < .68 and kd == "tab":
            e = r.choice(["(insert '%s (list %s %s))" % (name, genx.G(r, vs, w).x("i", 0), genx.G(r, vs, w).x("s", 0)), "(insert '%s %s)" % (name, genx.G(r, vs, w).x("tab", 1)),
                          "(upsert '%s 1 (list %s %s))" % (name, genx.G(r, vs, w).x("iv", 0), genx.G(r, vs, w).x("sv", 0)), "(upsert '%s 2 %s)" % (name, genx.G(r, vs, w).x("tab", 0)),
                          "(update {a: (+ a 1) from: '%s where: (> a 1)})" % name, "(update {a: (sum a) from: '%s by: b})" % name, "(update {c: %s from: '%s})" % (genx.G(r, vs, w).x("iv", 0), name)])
            steps.append({"k": "alter", "x": e, "s": s})
        else:
            if q < .75: t = "((fn [] %s))" % t
            elif q < .8: t = "(map (fn [x] %s) [1 2])" % t
            elif q < .84: t = "(try %s (fn [e] %s))" % (t, genx.top(r, vs, 1, w)[1])
            elif q < .9: t = "(do (let z %s) %s)" % (t, r.choice(["(alter z set 0 1)", "(concat z z)", "(alter z set 'a 1)", "(alter z + 1)", "z", "(modify z set (list 0 0) 1)", "(update {a: 1 from: z})", "(insert z (list 1 'q))"]))
            steps += [{"k": "eval", "x": t}] * 2
    return {"cores": cores, "init": init, "steps": steps}

WRAP = ["%s", "(do %s)", "(do 1 %s)", "((fn [] %s))", "((fn [p] p) %s)", "((fn [p] (do (let z9 p) z9)) %s)", "(do (let z9 %s) z9)", "(if true %s 0)", "(if false 0 %s)", "((fn [] (do (let z9 %s) z9)))",
        "((fn [] (if (== 1 1) %s 'no)))", "((fn [] (do 1 2 (do 3 %s))))", "(first (list %s))", "(at (list 0 %s) 1)", "((fn [p] (if p %s 0)) true)", "((fn [] ((fn [] %s))))", "((fn [p q r] q) 1 %s 3)",
        "(at (map (fn [x9] %s) [1 2]) 1)", "(apply (fn [x9] %s) 1)", "(try (do (raise \"no\") 1) (fn [e9] %s))", "((fn [] (try %s (fn [e9] (raise \"again\")))))", "(last (do (let f9 (fn [] %s)) (f9) (list (f9))))"]

def forms(r, cores=1, n=9):
    """an expression in the many places it can stand: alone, in a block, a function, a branch, ... - it yields the same"""
    vs, init, steps = [], [], []
    for k in range(r.choice([2, 3, 5])):
        kd, t = genx.top(r, vs, 1, 0)
        init.append(t); vs.append(("v%d" % k, kd))
    for _ in range(n):
        t = genx.top(r, vs, r.choice([1, 1, 2, 3]), r.choice([0, 0, .04]))[1]
        w = [x for x in r.sample(WRAP, 4) if "raise \"again" not in x] + ["%s"]
        tx = [x % t for x in w]
        ps = [v for v, _ in vs]
        r.shuffle(ps)
        k = r.randint(1, len(ps))
        tx.append("((fn [%s] %s) %s)" % (" ".join(ps[:k]), t, " ".join(ps[:k])))          # the globals it uses as parameters
        tx.append("((fn [] (do %s %s)))" % (" ".join("(let %s %s)" % (v, v) for v in ps[:k]), t))     # and as locals
        if '"' not in t and "\\" not in t: tx.append('(eval (parse "%s"))' % t)
        r.shuffle(tx)
        steps += [{"k": "eval", "x": t, "txt": y} for y in tx]
    return {"cores": cores, "init": init, "steps": steps}
