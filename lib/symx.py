"""The symbol table: schedules of specs/Symbols.tla and seeded ones, replayed on core/symbols.c (harness/sy.c)."""
import json, os, re, shutil, subprocess, tempfile
from lib.trace import observe_all
from lib.tlc import tlc, TlcError

def schedules(seed, n):
    r = tlc("SymbolsGen", workers=1, args=("-simulate", "num=%d" % n, "-depth", "62", "-seed", str(seed)), timeout=300)
    out = [json.loads(json.loads(m)) for m in re.findall(r'<<\s*"BEHAVIOUR",\s*("(?:[^"\\]|\\.)*")\s*>>', r.out)]
    if len(out) < n: raise TlcError("SymbolsGen: %d behaviours\n%s" % (len(out), r.out[-2000:]))
    return out

L = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-"
def word(r, long):
    n = r.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 33]) if not long else r.choice([100, 500, 1000, 1019, 1020, 1021, 2040, 3000, 4080, 4087, 4088, 4091, 4092, 4093, 4096, 5000, 8190, 9000])
    return "".join(r.choice(L) for _ in range(n))

def program(r, sched=None):
    """threads, schedule, chains, what every thread does: a text, or None to ask for the names"""
    big = r.random() < .3
    ws = [word(r, big and r.random() < .4) for _ in range(r.choice([1, 2, 3, 5, 8, 12, 20]))]
    ws += [w[:-1] for w in ws if r.random() < .3] + [w + "x" for w in ws if r.random() < .2] + [""]
    n = r.choice([2, 3, 3, 4, 6, 8])
    work = []
    for _ in range(n):
        k = r.randint(1, max(2, min(len(ws) + 2, 14)))
        work.append([None if r.random() < .08 else r.choice(ws) if r.random() < .6 else ws[j % len(ws)] for j in range(k)])
    if sched: sched = [t for t in sched for _ in range(r.choice([1, 2, 3, 4, 6]))]
    return {"threads": n, "seed": r.randrange(1 << 30), "permille": r.choice([5, 20, 60, 150, 300, 600, 1000]),
            "sched": sched or [], "chains": r.choice([1, 1, 2, 3, 64, 4096]), "work": work}

def crowd(r):
    """texts enough for the pool of names to grow again and again, and for long chains"""
    p = program(r)
    base = [word(r, r.random() < .3) for _ in range(60)]
    p["work"] = [[r.choice(base) for _ in range(40)] + [None] for _ in range(p["threads"])]
    p["chains"] = r.choice([1, 7, 64])
    p["permille"] = r.choice([5, 20, 60])
    return p

def execute(exe, p):
    d = tempfile.mkdtemp(prefix="sy_", dir="/tmp")
    try:
        open(d + "/s", "w").write("%d %d %s\n%d\n" % (p["seed"], p["permille"], " ".join(map(str, p["sched"])), p["chains"]) +
                                  "".join("p %d\n" % (t + 1) if w is None else "t %d %s\n" % (t + 1, w) for t, x in enumerate(p["work"]) for w in x) + "g\n")
        try: rc = subprocess.run([exe, str(p["threads"]), d + "/s", d + "/o"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=40).returncode
        except subprocess.TimeoutExpired: rc = "hang"
        evs = []
        if os.path.exists(d + "/o"):
            for l in open(d + "/o", errors="replace"):
                try: evs.append(json.loads(l))
                except ValueError: evs.append({"k": "garbage", "id": 0, "line": l[:200]})
    finally: shutil.rmtree(d, ignore_errors=True)
    for e in evs:
        if "w" in e: e["wl"] = len(e["w"]); e["nl"] = len(e["name"])
    if not evs or evs[-1]["k"] not in ("end", "hang"): evs.append({"k": "crash", "id": 0, "rc": str(rc)})
    return evs

def execute_all(exe, ps):
    return observe_all(lambda q: execute(exe, q), ps, lambda o: o[-1]["k"] != "end")
