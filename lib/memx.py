"""Memory: programs repeated in the real engine, with the bytes in use after each batch (harness/rh.c)."""
import hashlib, json, os, shutil, tempfile
from lib.session import _exec
from lib.trace import observe_all
from lib import genx

# a program: {"cores": n, "init": [text, ...], "steps": [text, ...], "reps": [n, ...]}
def script(p):
    vs = p["vars"]
    o = ["Q (set %s 0)" % v for v in vs] + ["Q " + t for t in p["init"]]
    for t in p["steps"]:
        for n in p["reps"]:
            o += ["R %d %s" % (n, t), "M"]
            if vs: o.append("D " + " ".join(vs))
    return o

def execute(exe, p):
    d = tempfile.mkdtemp(prefix="mem_", dir="/tmp")
    try:
        open(d + "/s", "w").write("\n".join(script(p)) + "\n")
        recs, st = _exec(exe, d + "/s", d + "/o", d, p["cores"])
    finally: shutil.rmtree(d, ignore_errors=True)
    out, live, n = [], None, 0
    for x in recs:
        if "m" in x:
            live = x["m"]["heap"] - x["m"]["free"]
            if not p["vars"]: out.append({"k": "run", "p": n // len(p["reps"]), "v": "", "live": live}); n += 1
        elif "d" in x:
            out.append({"k": "run", "p": n // len(p["reps"]), "v": hashlib.md5(json.dumps(x["d"], sort_keys=True).encode()).hexdigest()[:12], "live": live}); n += 1
    for e in out: e["live"] = min(e["live"], (1 << 31) - 1)
    if not any("end" in x for x in recs): out.append({"k": "hang" if st == "hang" else "crash"})
    return out

def execute_all(exe, ps): return observe_all(lambda p: execute(exe, p), ps, lambda o: o and o[-1]["k"] in ("hang", "crash"))

def program(r, cores=1, n=14):
    """random nested programs; every fourth keeps its result in a global"""
    vs, init = [], []
    for k in range(r.choice([0, 2, 4])):
        kd, t = genx.top(r, vs, 1, 0)
        init.append("(set v%d %s)" % (k, t)); vs.append(("v%d" % k, kd))
    steps = []
    w = r.choice([0, .04, .04, .3])
    for _ in range(n):
        kd, t = genx.top(r, vs, r.choice([0, 1, 1, 2, 3]), w)
        q = r.random()
        free = [v for v, _ in vs if v not in t]            # nothing that grows with every run
        if free and q < .2: t = "(set %s %s)" % (r.choice(free), t)
        elif free and q < .25: t = "(%s %s %s %s)" % (r.choice(["alter", "modify"]), r.choice(free), r.choice(["+", "concat", "set 0", "set", "-"]), t)
        elif q < .3: t = "((fn [] %s))" % t
        elif q < .35: t = "(do (let z %s) z)" % t
        elif q < .4: t = "(try %s (fn [e] %s))" % (t, genx.top(r, vs, 1, w)[1])
        elif q < .45: t = "(map (fn [x] %s) [1 2])" % t
        elif q < .5: t = "(de (ser %s))" % t
        elif q < .55: t = '(format "%%" %s)' % t
        elif q < .57: t = t[:r.randint(1, len(t))]                   # text that may not parse
        steps.append(t)
    return {"cores": cores, "vars": [v for v, _ in vs], "init": init, "steps": steps, "reps": [4, 2, 3]}

def from_session(s, cores=1):
    """the statements of a session of another generator, each repeated"""
    import re
    from lib import session as S
    steps = [t for t in S.text(s)]
    vs = sorted({m for t in steps for m in re.findall(r"\(set '?([A-Za-z]\w*)", t)})
    return {"cores": cores, "vars": vs, "init": [], "steps": steps, "reps": [3, 1, 2]}
