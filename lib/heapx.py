"""The allocator: behaviours of specs/Buddy.tla and seeded histories, replayed on core/heap.c (harness/hp.c)."""
import json, os, random, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from lib.trace import observe_all
from lib.tlc import tlc, TlcError

NH = 4

def behaviours(seed, n):
    """op sequences generated by TLC from the design specification"""
    r = tlc("BuddyGen", workers=1, args=("-simulate", "num=%d" % n, "-depth", "152", "-seed", str(seed)), timeout=300)
    out = [json.loads(json.loads(m)) for m in re.findall(r'<<"BEHAVIOUR", ("(?:[^"\\]|\\.)*")>>', r.out)]
    if len(out) < n: raise TlcError("BuddyGen: %d behaviours\n%s" % (len(out), r.out[-2000:]))
    return out, r

def concrete(r, b):
    """orders of the model become real ones: sizes in bytes"""
    lo = r.choice([5, 7, 9, 14, 19, 20, 20, 21])
    real = sorted(r.sample(range(lo, lo + 8), 7)) if lo < 19 else [lo + k for k in range(7)]
    def size(o):
        hi = (1 << real[o]) - 16
        return hi if r.random() < .3 else r.randint((1 << (real[o] - 1)) - 15, hi)
    return [dict(e, n=size(e["o"])) if e["k"] in "ar" else e for e in b]

def history(r, n):
    """long seeded histories: bursts of small blocks, blocks freed by other heaps, runs, reallocation, returns to the system"""
    ops, live, run = [], {}, False
    def act(): return r.randrange(NH) if run else 0
    style = r.choice(["small", "mixed", "large"])
    def size():
        k = r.random()
        if style == "small" or (style == "mixed" and k < .7): return r.choice([1, 8, 16, 17, 40, 48, 100, 112, 113, 240, 496, 497, 1000, r.randint(1, 2000)])
        if style == "mixed" and k < .95: return r.randint(2000, 200000)
        return r.choice([1 << 20, (1 << 20) - 16, 3 << 20, 15 << 20, 33554432 - 16, 33554432 - 15, 40 << 20, r.randint(1 << 19, 1 << 25)])
    cap = 24 if style == "large" else 600
    while len(ops) < n:
        k = r.random()
        free = [s for s in range(cap) if s not in live]
        if k < .05: ops.append({"k": "m" if run else "b", "h": 0, "s": 0}); run = not run
        elif k < .06 and not run: ops.append({"k": "g", "h": 0, "s": 0})
        elif k < .12 and len(free) > 80:      # a burst of equal blocks
            z, h = size(), act()
            for s in free[:r.randint(5, 80)]: ops.append({"k": "a", "h": h, "s": s, "n": z}); live[s] = z
        elif k < .18 and len(live) > 80:      # given back in a burst
            h = act()
            for s in r.sample(sorted(live), r.randint(5, 80)): ops.append({"k": "f", "h": h, "s": s}); del live[s]
        elif k < .55 and free:
            s = r.choice(free); live[s] = size()
            ops.append({"k": "a", "h": act(), "s": s, "n": live[s]})
        elif k < .72 and live:
            s = r.choice(sorted(live)); z = size() if r.random() < .5 else max(1, int(live[s] * r.choice([.3, .5, .9, 1.2, 2, 3]))); live[s] = z
            ops.append({"k": "r", "h": act(), "s": s, "n": z})
        elif live:
            s = r.choice(sorted(live)); del live[s]
            ops.append({"k": "f", "h": act(), "s": s})
    if run: ops.append({"k": "m", "h": 0, "s": 0})
    return ops

def execute(exe, ops):
    """the recorded session: events for HeapTrace"""
    d = tempfile.mkdtemp(prefix="hp_", dir="/tmp")
    try:
        open(d + "/s", "w").write("".join("%s %d %d %d\n" % (o["k"], o["h"], o["s"], o.get("n", 0)) for o in ops))
        try: rc = subprocess.run([exe, str(NH), d + "/s", d + "/o"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=40).returncode
        except subprocess.TimeoutExpired: rc = "hang"
        recs = []
        if os.path.exists(d + "/o"):
            for l in open(d + "/o"):
                try: recs.append(json.loads(l))
                except ValueError: pass
    finally: shutil.rmtree(d, ignore_errors=True)
    whole = bool(recs) and "end" in recs[-1]
    if whole: recs.pop()
    ends = sorted({x for o, g in zip(ops, recs) if g["p"] for x in (g["p"], g["p"] + o.get("n", 0))})
    rank = {x: k + 1 for k, x in enumerate(ends)}
    out = []
    for o, g in zip(ops, recs):
        e = {"k": o["k"], "s": o["s"], "keep": g["keep"], "bad": g["bad"], "lo": 0, "hi": 0, "al": g["p"] % 16 == 0}
        if g["p"]: e["lo"], e["hi"] = rank[g["p"]], rank[g["p"] + o["n"]]
        out.append(e)
    if not whole: out.append({"k": "crash", "s": 0, "bad": [], "rc": str(rc)})
    return out

def execute_all(exe, seqs):
    return observe_all(lambda q: execute(exe, q), seqs, lambda o: o[-1]["k"] == "crash", 6)
