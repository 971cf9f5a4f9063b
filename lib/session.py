"""Sessions: programs given both to the engine and to the TLA+ evaluator.

A session is {"name":str, "ev":[event...]}; an event is
{"x":AST, "m":"eq"|"perm"|"any", "d":[variable names]}.  run() executes the sessions in the engine,
hands the recorded traces to TLC (SessionTrace) and returns the rejected
events, each confirmed by running it again."""
import json, os, re, subprocess, tempfile, shutil, time, threading
from concurrent.futures import ThreadPoolExecutor
from lib import ast as P
from lib.stretch import unscale
from lib.tlc import tlc, TlcError

NPROC = int(os.environ.get("VERIF_JOBS", "8"))
HANG_S = 25

def ev(x, m="eq", d=()):
    return {"x": x, "m": m, "d": list(d)}

def sess(name, *evs):
    return {"name": name, "ev": [e if "m" in e else ev(e) for e in evs]}

def _exec(exe, script, out, cwd, cores, setup=None, env=None):
    """run the harness; returns (records, status)"""
    e = dict(os.environ)
    if env: e.update(env)
    p = subprocess.Popen([exe, "-c", str(cores), script, out], cwd=cwd, stdout=subprocess.DEVNULL,
                         stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, start_new_session=True, env=e)
    last, t0 = -1, time.time()
    status = None
    while True:
        try:
            status = p.wait(timeout=0.05 if last < 0 else 0.2)
            break
        except subprocess.TimeoutExpired:
            pass
        sz = os.path.getsize(out) if os.path.exists(out) else 0
        if sz != last:
            last, t0 = sz, time.time()
        elif time.time() - t0 > HANG_S:
            try: os.killpg(p.pid, 9)
            except ProcessLookupError: pass
            p.wait()
            status = "hang"
            break
    recs = []
    if os.path.exists(out):
        with open(out, errors="replace") as f:
            for l in f:
                try: recs.append(json.loads(l))
                except ValueError: pass
                except RecursionError: recs.append({"r": {"t": "CRASH", "v": "nested without end"}, "d": {}})
    return recs, status

def execute(exe, sessions, cores=1, cwd=None, env=None):
    """observed results: per session a list of {"r":value,"d":[{"k","v"}]}"""
    own = cwd is None
    work = tempfile.mkdtemp(prefix="rh_", dir="/tmp")
    if own: cwd = work
    obs = [[] for _ in sessions]
    s0 = 0
    crashes = 0
    try:
        while s0 < len(sessions):
            script, out = os.path.join(work, "s.rf"), os.path.join(work, "o.ndjson")
            if os.path.exists(out): os.unlink(out)
            plan = []
            with open(script, "w") as f:
                for si in range(s0, len(sessions)):
                    for ei, e in enumerate(sessions[si]["ev"]):
                        txt = e.get("txt") or P.R(e["x"])
                        assert "\n" not in txt
                        f.write("E " + txt + "\n")
                        plan.append((si, ei, "r"))
                        if e["d"]:
                            f.write("D " + " ".join(e["d"]) + "\n")
                            plan.append((si, ei, "d"))
            recs, status = _exec(exe, script, out, cwd, cores, env=env)
            ended = any("end" in r for r in recs)
            recs = [r for r in recs if "end" not in r]
            for (si, ei, k), r in zip(plan, recs):
                if k == "r": obs[si].append({"r": r["r"], "d": []})
                else: obs[si][-1]["d"] = [{"k": n, "v": r["d"][n]} for n in sessions[si]["ev"][ei]["d"]]
            if len(recs) >= len(plan):
                break
            si, ei, k = plan[len(recs)]
            crashes += 10 if status == "hang" else 1
            c = {"t": "CRASH", "v": str(status)}
            if k == "r": obs[si].append({"r": c, "d": []})
            else: obs[si][-1]["r"] = c
            s0 = si + 1
            if crashes > 40:      # hopeless; the rest is unobserved
                break
        for s, o in zip(sessions, obs):
            if s.get("S"): o[:] = unscale(o, s["S"])
        return obs
    finally:
        shutil.rmtree(work, ignore_errors=True)

def trace_lines(sessions, obs, base=0):
    syms = set()
    for s in sessions:
        for e in s["ev"]: P.symbols(P.strip([e["x"], e.get("big", 0)]), syms)
    syms.discard("0Ns")
    out = [json.dumps({"k": "syms", "v": sorted(syms, key=lambda s: s.encode())})]
    ids = {}
    n = base
    for si, s in enumerate(sessions):
        out.append('{"k":"reset"}')
        for ei, o in enumerate(obs[si]):
            e = s["ev"][ei]
            n += 1
            ids[n] = (si, ei)
            k = e.get("k", "ev")
            rec = {"k": k, "id": n}
            if k == "bset": rec.update(e["big"])
            else: rec.update(m=e["m"], x=P.strip(e["x"]))
            if k == "big": rec.update(q=e["q"], kinds=e["kinds"])
            rec["r"] = o["r"]
            if k == "ev": rec["d"] = o["d"]
            out.append(json.dumps(rec, separators=(",", ":")))
    return out, ids

def validate(sessions, obs, module="SessionTrace", timeout=800, heap="2g"):
    """TLC verdict on recorded sessions: (rejected [(si,ei,text)], open ids, stats).
    When TLC cannot evaluate an event (arithmetic beyond its 32-bit integers), that session is
    left out; when it cannot even compare the engine's value with the specified one, the event
    is rejected."""
    lines, ids = trace_lines(sessions, obs)
    blind, gone, extra = {}, set(), []
    for attempt in range(12):
        r, m, bad = _validate1(lines, module, timeout, heap)
        if m: break
        if bad is None: raise TlcError("trace not consumed by %s:\n%s\n%s" % (module, "\n".join(l for l in r.out.splitlines() if not l.startswith("Parsing"))[-1500:], ""))
        ev = json.loads(lines[bad])
        si, ei = ids[ev["id"]]
        why = r.out[r.out.find("Error:"):][:300]
        if si in blind:
            gone.add(si)
            blind.pop(si)
        else: blind[si] = (ei, why)
        for k in range(1, len(lines)):
            d = json.loads(lines[k])
            if d["k"] == "ev" and ids[d["id"]][0] == si:
                if d["k"] != "bset":
                    if si in gone: d["x"] = {"n": "lit", "v": {"t": "NULL"}}
                    d["k"], d["m"], d["d"] = "ev", "none", []
                lines[k] = json.dumps(d, separators=(",", ":"))
    else:
        last = list(blind)[-1:]      # not yet known whether the specification could evaluate these
        for si in last: blind.pop(si)
        if not blind: raise TlcError("too many events beyond the evaluator in %s" % module)
        return [(si, ei, "cannot be compared: " + why) for si, (ei, why) in blind.items()], [], \
            {"states": 0, "generated": 0, "events": len(ids), "wall": 0, "beyond": len(gone)}
    for si, (ei, why) in blind.items(): extra.append((si, ei, "cannot be compared: " + why))
    rej = []
    parts = re.split(r'(?=<<\s*"(?:REJECTED|OPEN|CONSUMED)")', r.out)
    opens = []
    for p in parts:
        k = re.match(r'<<\s*"(REJECTED|OPEN)",\s*(\d+)', p)
        if k and k.group(1) == "REJECTED":
            rej.append(ids[int(k.group(2))] + (" ".join(p.split())[:4000],))
        elif k:
            opens.append(ids[int(k.group(2))])
    assert len(rej) == int(m.group(2)), r.out[-2000:]
    return rej + extra, opens, {"states": r.distinct, "generated": r.generated, "events": len(ids), "wall": r.wall, "beyond": len(gone)}

def _validate1(lines, module, timeout, heap):
    fd, path = tempfile.mkstemp(prefix="tr_", suffix=".ndjson", dir="/tmp")
    with os.fdopen(fd, "w") as f: f.write("\n".join(lines) + "\n")
    try:
        r = tlc(module, env={"TRACE": path}, timeout=timeout, heap=heap)
    finally:
        keep = os.environ.get("VERIF_KEEP")
        if keep: shutil.copy(path, keep)
        os.unlink(path)
    m = re.search(r'<<\s*"CONSUMED",\s*(\d+),\s*"rejected",\s*(\d+),\s*"open",\s*(\d+)\s*>>', r.out)
    if m and r.ok and int(m.group(1)) == len(lines) - 1: return r, m, None
    n = re.findall(r"/\\ i = (\d+)", r.out)
    if r.rc == -1 or not n or int(n[-1]) > len(lines) or '"ev"' not in lines[int(n[-1]) - 1]: return r, None, None
    return r, None, int(n[-1]) - 1

def chunks(xs, n):
    """n nearly equal interleaved parts"""
    n = max(1, min(n, len(xs)))
    return [xs[i::n] for i in range(n)]

def run(exe, sessions, cores=1, jobs=NPROC, module="SessionTrace", per=400, env=None, confirm=True):
    """execute and validate; returns (rejections, stats).  A rejection is
    {"session":s, "event":i, "observed":…, "why":text}, confirmed by a second run."""
    k = max(1, min(len(sessions), max(jobs if len(sessions) >= 4 * jobs else 1, -(-len(sessions) // per))))
    parts = chunks(sessions, k)
    stats = {"events": 0, "open": 0, "states": 0, "generated": 0, "sessions": len(sessions), "crashes": 0, "sample": []}
    out = []
    lk = threading.Lock()

    def one(part):
        obs = execute(exe, part, cores, env=env)
        rej, opens, st = validate(part, obs, module)
        with lk:
            stats["events"] += st["events"]
            stats["states"] += st["states"]
            stats["generated"] += st["generated"]
            stats["open"] += len(opens)
            stats["beyond"] = stats.get("beyond", 0) + st["beyond"]
        res = []
        for si, ei, why in rej:
            res.append((part, si, ei, why, obs[si][ei]["r"]))
        return res

    with ThreadPoolExecutor(jobs) as ex:
        allrej = [r for rs in ex.map(one, parts) for r in rs]
    if not confirm:
        return [{"session": p[si], "event": ei, "observed": o, "why": why, "alone": None} for p, si, ei, why, o in allrej], stats
    # confirm: first each alone (one TLC run for all), then within its part
    pend = allrej[:20]
    if pend:
        ss = [p[si] for p, si, _, _, _ in pend]
        with ThreadPoolExecutor(jobs) as ex:
            obs = list(ex.map(lambda s: execute(exe, [s], cores, env=env)[0], ss))
        rj, _, _ = validate(ss, obs, module)
        hit = {}
        for k, ei, why in rj: hit.setdefault(k, (ei, why))
        for k, (ei, why) in hit.items():
            out.append({"session": ss[k], "event": ei, "observed": obs[k][ei]["r"], "why": why, "alone": True,
                        "context": None, "cores": cores})
        rest = [p for k, p in enumerate(pend) if k not in hit]
        for part, si, ei, why, o in rest[:6]:
            if out: break
            for _ in range(3):
                ob = execute(exe, part, cores, env=env)
                rj, _, _ = validate(part, ob, module)
                if rj:
                    hsi, hei, hwhy = rj[0]
                    out.append({"session": part[hsi], "event": hei, "observed": ob[hsi][hei]["r"], "why": hwhy,
                                "alone": False, "context": part, "cores": cores})
                    break
        stats["unconfirmed"] = len(pend) - len(out)
    return out, stats

def text(s):
    return [e.get("txt") or P.R(e["x"]) for e in s["ev"]]
