"""Timers: behaviours of specs/Timers.tla and seeded programs, run in the real event loop under a clock of their own (harness/tm.c)."""
import json, os, re, shutil, subprocess, tempfile
from lib.trace import observe_all
from lib.tlc import tlc, TlcError

def behaviours(seed, n):
    r = tlc("TimerGen", workers=1, args=("-simulate", "num=%d" % n, "-depth", "62", "-seed", str(seed)), timeout=300)
    out = [json.loads(json.loads(m)) for m in re.findall(r'<<\s*"BEHAVIOUR",\s*("(?:[^"\\]|\\.)*")\s*>>', r.out)]
    out = list({json.dumps(b[:40]): b for b in out}.values())      # TLC prints each successor of the last state
    if len(out) < n // 2: raise TlcError("TimerGen: %d behaviours\n%s" % (len(out), r.out[-2000:]))
    return out

# a program: {"unit": ms, "timers": {label: [tic, num]}, "steps": [[kind, ...]], "fires": [[action, ...]]}
#   steps: ["add", label] ["del", label] ["bad", label] ["wait", units];  fires[k]: actions of the k-th callback, and ["raise"]
def from_behaviour(b):
    """what is done after a callback began belongs to it: the loop calls the next one at once"""
    p = {"unit": 1, "timers": {}, "steps": [], "fires": []}
    into = p["steps"]
    for e in b:
        if e[0] == "add": p["timers"][e[3]] = e[1:3]; into.append(["add", e[3]])
        elif e[0] == "del": into.append(["del", e[1]])
        elif e[0] == "fire": p["fires"].append([]); into = p["fires"][-1]
        elif e[0] == "wait": p["steps"].append(["wait", e[1]]); into = p["steps"]
    return p

def program(r, n=None):
    n = n or r.choice([3, 6, 10, 16, 24, 40])
    unit = r.choice([1, 1, 1, 7, 1000, 86400000])
    tics = r.choice([[1, 2, 3], [1, 2, 3, 5, 8, 13], [10], [0, 1, 4], list(range(1, 40)), [25, 30, 100]])
    p = {"unit": unit, "timers": {}, "steps": [], "fires": []}
    many = r.random() < .4
    def act(inner):
        k, l = r.random(), len(p["timers"])
        if k < (.75 if many and not inner else .45) and l < n:
            t = r.choice(tics)
            p["timers"][l] = [t, r.choice([1, 1, 2, 3] if t == 0 else [0, 0, 1, 1, 2, 3, 5])]
            return ["add", l]
        if l and k < .9: return ["del", r.randrange(l)]
        return ["bad", 1000000 + r.randrange(9)]
    for _ in range(r.choice([4, 10, 25])):
        for _ in range(r.choice([0, 1, 1, 2, n // 2, n] if many else [0, 1, 2])): p["steps"].append(act(False))
        p["steps"].append(["wait", r.choice([0, 1, 1, 2, 3, r.randint(0, 2 * max(tics))])])
    for _ in range(r.choice([0, 10, 40])):
        a = [act(True) for _ in range(r.choice([0, 0, 1, 1, 2]))]
        if r.random() < .1: a.append(["raise"])
        p["fires"].append(a)
    return p

def expr(p, a):
    log = lambda *v: "(set log " + "(concat " * len(v) + "log" + "".join(" %s)" % x for x in v) + ")"
    if a[0] == "add":
        t, n = p["timers"][a[1]] if a[1] in p["timers"] else p["timers"][str(a[1])]
        return "(do (set i%d (timer %d %d (fn [t] (f %d t)))) %s)" % (a[1], t * p["unit"], n, a[1], log(2, a[1], "i%d" % a[1]))
    if a[0] == "del": return "(if (!= i%d -1) (do %s (timer i%d)))" % (a[1], log(3, "i%d" % a[1], 0), a[1])
    if a[0] == "bad": return "(timer %d)" % a[1]
    return "(raise 'x)"

def script(p):
    o = ["Q (set log (take [0] 0))", "Q (set k 0)"]
    o += ["Q (set i%s -1)" % l for l in p["timers"]]
    o += ["Q (set q (list \"0\"%s))" % "".join(" \"(do 0 %s)\"" % " ".join(expr(p, a) for a in acts) for acts in p["fires"])]
    o += ["Q (set f (fn [l t] (do (set log (concat (concat (concat log 1) l) t)) (set k (+ k 1)) (if (< k (count q)) (eval (parse (at q k)))))))"]
    return o + [("A %d" % (s[1] * p["unit"])) if s[0] == "wait" else "E " + expr(p, s) for s in p["steps"]]

def execute(exe, p):
    d = tempfile.mkdtemp(prefix="tm_", dir="/tmp")
    try:
        open(d + "/s", "w").write("\n".join(script(p)) + "\n")
        try: rc = subprocess.run([exe, d + "/s", d + "/o"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20).returncode
        except subprocess.TimeoutExpired: rc = "hang"
        evs = []
        if os.path.exists(d + "/o"):
            for l in open(d + "/o", errors="replace"):
                try: evs.append(json.loads(l))
                except ValueError: pass
    finally: shutil.rmtree(d, ignore_errors=True)
    out, u, waits, base = [], p["unit"], iter([s[1] for s in p["steps"] if s[0] == "wait"]), 1000000000
    tm = {int(l): v for l, v in p["timers"].items()}
    small = lambda x: max(-(1 << 30), min(1 << 30, x))
    for e in evs:
        if e["k"] == "log":
            v = e["v"]
            for j in range(0, len(v), 3):
                if v[j] == 1:
                    a = v[j + 2] - base
                    out.append({"k": "fire", "l": v[j + 1], "arg": small(a // u) if a % u == 0 else -1})
                elif v[j] == 2: out.append({"k": "new", "l": v[j + 1], "id": small(v[j + 2]), "tic": tm[v[j + 1]][0], "num": tm[v[j + 1]][1]})
                elif v[j] == 3: out.append({"k": "del", "id": small(v[j + 1])})
                else: out.append({"k": "strange", "v": v[j:j + 3]})
        elif e["k"] == "wait":
            out.append({"k": "wait", "timeout": e["timeout"] if e["timeout"] <= 0 else -(-e["timeout"] // u)})
        elif e["k"] == "adv": out.append({"k": "adv", "d": next(waits)})
        else: out.append(e)
    if not out or out[-1]["k"] != "end": out.append({"k": "crash", "rc": str(rc)})
    return out

def execute_all(exe, ps):
    return observe_all(lambda q: execute(exe, q), ps, lambda o: o[-1]["k"] != "end")
