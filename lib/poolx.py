"""The task pool: schedules of specs/Pool.tla and seeded ones, replayed on core/pool.c (harness/pl.c)."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from lib.trace import observe_all
from lib.tlc import tlc, TlcError

def schedules(seed, n):
    r = tlc("PoolGen", workers=1, args=("-simulate", "num=%d" % n, "-depth", "72", "-seed", str(seed)), timeout=300)
    out = [json.loads(json.loads(m)) for m in re.findall(r'<<\s*"BEHAVIOUR",\s*("(?:[^"\\]|\\.)*")\s*>>', r.out)]
    if len(out) < n: raise TlcError("PoolGen: %d behaviours\n%s" % (len(out), r.out[-2000:]))
    return out

def program(r, sched=None):
    """threads, schedule, runs (tasks, failing)"""
    runs = []
    for _ in range(r.randint(1, 6)):
        n = r.choice([0, 1, 2, 3, 4, 5, 8, 13, r.randint(1, 40)])
        runs.append([n, sorted(r.sample(range(n), r.randint(1, min(n, 3)))) if n and r.random() < .25 else []])
    if sched: sched = [t for t in sched for _ in range(r.choice([1, 1, 2, 3, 5]))]
    return {"threads": r.choice([2, 3, 4, 4, 8]), "seed": r.randrange(1 << 30), "permille": r.choice([0, 5, 20, 60, 150, 300, 600, 1000]),
            "sched": sched or [], "runs": runs}

def overflow(r):
    """more tasks than the queues hold at first, after runs that leave workers behind"""
    p = program(r)
    p["runs"] = [[r.randint(1, 5), []] for _ in range(r.randint(0, 3))] + [[r.choice([2047, 2048, 2049, 2500, 5000]), []]] + [[r.randint(1, 60), []]]
    p["permille"] = r.choice([20, 60, 150, 300])
    return p

def execute(exe, p):
    d = tempfile.mkdtemp(prefix="pl_", dir="/tmp")
    try:
        open(d + "/s", "w").write("%d %d %s\n" % (p["seed"], p["permille"], " ".join(map(str, p["sched"]))) +
                                  "".join("r %d %s\n" % (n, " ".join(map(str, f))) for n, f in p["runs"]) + "d\n")
        try: rc = subprocess.run([exe, str(p["threads"]), d + "/s", d + "/o"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=40).returncode
        except subprocess.TimeoutExpired: rc = "hang"
        evs = []
        if os.path.exists(d + "/o"):
            for l in open(d + "/o", errors="replace"):
                try: evs.append(json.loads(l))
                except ValueError: pass
    finally: shutil.rmtree(d, ignore_errors=True)
    k = -1
    for e in evs:
        if e["k"] == "prep": k += 1
        if e["k"] in ("res", "err"): e["fail"] = p["runs"][k][1]
        if e["k"] == "end": e["id"] = 0
    if not evs or evs[-1]["k"] not in ("end", "hang"): evs.append({"k": "crash", "id": 0, "rc": str(rc)})
    return evs

def execute_all(exe, ps):
    return observe_all(lambda q: execute(exe, q), ps, lambda o: o[-1]["k"] != "end")
