"""Tables on disk: sessions over several processes, in which a file stands for a variable of the specification."""
import json, os, re, select, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from lib import ast as P, session as S
from lib.session import ev
from lib.tlc import tlc, TlcError

def raw(x, txt, m="none", d=(), p=None):
    """the engine is given txt, the specification x"""
    e = ev(x, m, d)
    e["txt"] = txt
    if p is not None: e["p"] = p
    return e

class Live:
    """an engine that is given one line at a time"""
    def __init__(self, exe, d, name, cores):
        self.i, self.o = [os.path.join(d, "%s.%s" % (name, k)) for k in "io"]
        for f in (self.i, self.o): os.mkfifo(f)
        e = dict(os.environ, RH_PLAIN="1")
        self.p = subprocess.Popen([exe, "-c", str(cores), self.i, self.o], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=e, start_new_session=True)
        self.out, self.inp = None, None
        t0 = time.time()
        while self.inp is None:
            try: self.inp = os.open(self.i, os.O_WRONLY | os.O_NONBLOCK)
            except OSError:
                if time.time() - t0 > 20 or self.p.poll() is not None: raise
                time.sleep(.002)
        self.out = os.open(self.o, os.O_RDONLY | os.O_NONBLOCK)
        os.set_blocking(self.inp, True)
        self.buf = b""
    def ask(self, line):
        """the record of one line, or None when the engine is gone or silent"""
        try: os.write(self.inp, (line + "\n").encode())
        except BrokenPipeError: return None
        t0 = time.time()
        while b"\n" not in self.buf:
            if time.time() - t0 > S.HANG_S: return None
            if not select.select([self.out], [], [], .05)[0]:
                if self.p.poll() is not None: return None
                continue
            try: k = os.read(self.out, 1 << 20)
            except BlockingIOError: continue
            if not k:
                if self.p.poll() is not None: return None
                time.sleep(.002)
                continue
            self.buf += k
        l, self.buf = self.buf.split(b"\n", 1)
        return json.loads(l)
    def close(self):
        os.close(self.inp); os.close(self.out)
        try: self.p.wait(timeout=3)
        except subprocess.TimeoutExpired: os.killpg(self.p.pid, 9); self.p.wait()
        for f in (self.i, self.o): os.unlink(f)

def execute_live(exe, s, cores=1):
    """one session of several processes that take turns; {"restart": p} ends process p"""
    d = tempfile.mkdtemp(prefix="st_", dir="/tmp")
    ps, obs = {}, []
    try:
        for k, e in enumerate(s["ev"]):
            for q in e.get("restart", []):
                if q in ps: ps.pop(q).close()
            q = e["p"]
            if q not in ps: ps[q] = Live(exe, d, "p%d" % q, cores)
            r = ps[q].ask("E " + (e.get("txt") or P.R(e["x"])))
            obs.append({"r": r["r"] if r else {"t": "CRASH", "v": "live"}, "d": []})
            if not r: break
        return obs
    finally:
        for q in ps.values(): q.close()
        shutil.rmtree(d, ignore_errors=True)

def execute1(exe, s, cores=1):
    """one session in a directory of its own; events carry the number of the process that evaluates them"""
    d = tempfile.mkdtemp(prefix="st_", dir="/tmp")
    obs = []
    try:
        evs, i = s["ev"], 0
        while i < len(evs):
            j = i
            while j < len(evs) and evs[j].get("p", 0) == evs[i].get("p", 0): j += 1
            part = {"ev": evs[i:j]}
            o = S.execute(exe, [part], cores=cores, cwd=d, env={"RH_PLAIN": "1"})[0]
            obs += o
            if len(o) < j - i or o[-1]["r"]["t"] == "CRASH": break
            i = j
        return obs
    finally: shutil.rmtree(d, ignore_errors=True)

def execute(exe, ss, cores=1, jobs=8):
    bad = [0]
    def one(s):
        if bad[0] > 40: return []
        o = (execute_live if s.get("live") else execute1)(exe, s, cores)
        if not o or o[-1]["r"]["t"] == "CRASH": bad[0] += 1
        return o
    with ThreadPoolExecutor(jobs) as ex: return list(ex.map(one, ss))

def validate(ss, obs, jobs=8):
    """rejected [(session, event, why)] and statistics"""
    n = max(1, min(jobs, len(ss)))
    idx = [list(range(len(ss)))[i::n] for i in range(n)]
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda ix: S.validate([ss[i] for i in ix], [obs[i] for i in ix]), idx))
    rej = [(ix[si], ei, why) for ix, (rj, _, _) in zip(idx, rs) for si, ei, why in rj]
    st = {k: sum(r[2][k] for r in rs) for k in ("states", "generated", "events", "beyond")}
    st["open"] = sum(len(r[1]) for r in rs)
    return sorted(rej), st


def lit_set(s):
    """the literal table a generated session begins with"""
    x = s["ev"][0]["x"]
    ok = x.get("n") == "set" and x.get("s") == "t" and x["x"].get("n") == "lit" and x["x"]["v"]["t"] == "TABLE"
    return x["x"]["v"] if ok and not s.get("S") else None

def splayed(r, s):
    """the same session with its table written to files and read back, by the same process or another"""
    t = lit_set(s)
    if not t or not t["c"]: return None
    q = r.choice([0, 1, 1])
    kind = r.random()
    path, sym = ("db/t", "") if kind < .2 else ("db/t/", "") if kind < .6 else ("db/t/", ' "db/sym"')
    get = "get" if kind < .2 else "get-splayed"
    evs = [raw(P.SET("t0", t), "(set t0 %s)" % P.R(P.K(t)), p=0)]
    evs.append(raw(P.SET("disk", P.X("t0")), '(set-splayed "%s" t0%s)' % (path, sym), p=0))
    evs.append(raw(P.SET("t", P.X("disk")), '(set t (%s "%s"%s))' % (get, path, sym), "eq", p=q))
    return {"name": "splayed " + s["name"], "ev": evs + [dict(e, p=q) for e in s["ev"][1:]]}

def files(r, s, lists=True):
    """the same session with every literal table or vector it begins with written to a file and read back"""
    if s.get("S"): return None
    q, evs, k = r.choice([0, 1, 1]), [], 0
    head, shared = [], r.random() < .5
    for k, e in enumerate(s["ev"]):
        x = e["x"]
        if x.get("n") != "set" or x["x"].get("n") != "lit": break
        v, n = x["x"]["v"], x["s"]
        vec = v["t"].isupper() and v["t"] not in ("TABLE", "DICT", "LIST", "NULL", "ERR")
        if v["t"] == "TABLE" and v["c"]:
            p, sym = "db/%s/" % n, ' "db/sym"' if shared else ""
            w, g = '(set-splayed "%s" a_%s%s)' % (p, n, sym), '(get-splayed "%s"%s)' % (p, sym)
        elif vec or lists and v["t"] == "LIST" and v["v"]:
            w, g = '(set "db/%s" a_%s)' % (n, n), '(get "db/%s")' % n
        else:
            head.append(dict(e, p=q)); continue
        evs.append(raw(P.SET("a_" + n, v), "(set a_%s %s)" % (n, P.R(P.K(v))), p=0))
        evs.append(raw(P.SET("d_" + n, P.X("a_" + n)), w, p=0))
        head.append(raw(P.SET(n, P.X("d_" + n)), "(set %s %s)" % (n, g), "eq", p=q))
    if not evs: return None
    return {"name": "files " + s["name"], "ev": evs + head + [dict(e, p=q) for e in s["ev"][k:]]}

def parted(r, s, lay=None):
    """the same session over a table of several partitions"""
    t = lit_set(s)
    if not t or not t["c"]: return None
    n = len(t["v"][0]["v"])
    k = r.randint(1, 4)
    cuts = sorted(r.randint(0, n) for _ in range(k - 1))
    if n >= k and r.random() < .9: cuts = sorted(r.sample(range(1, n), k - 1)) if k > 1 and n > k else cuts
    b = [0] + cuts + [n]
    days = sorted(r.sample(range(8766, 8790), k))
    if lay: (b, days), k = lay, len(lay[1])
    evs = []
    ord_ = list(range(k))
    if r.random() < .5: r.shuffle(ord_)
    for i in ord_:
        ti = P.TB([(c, P.V(v["t"], v["v"][b[i]:b[i + 1]])) for c, v in zip(t["c"], t["v"])])
        evs.append(raw(P.SET("p%d" % i, ti), "(set p%d %s)" % (i, P.R(P.K(ti))), p=0))
        evs.append(raw(P.SET("disk%d" % i, P.X("p%d" % i)), '(set-splayed "db/%s/t/" p%d "db/sym")' % (P._date(days[i]), i), p=0))
    dates = P.V("DATE", [d for i, d in enumerate(days) for _ in range(b[i + 1] - b[i])])
    full = P.TB([("Date", dates)] + list(zip(t["c"], t["v"])))
    q = r.choice([0, 1])
    evs.append(raw(P.SET("t", full), "(set t (get-parted \"db/\" 't))", "eq", p=q))
    return {"name": "parted " + s["name"], "ev": evs + [dict(e, p=q) for e in s["ev"][1:]]}

def stored(g, how, r, n):
    out = []
    while len(out) < n:
        out += [x for x in (how(r, s) for s in g(r, n)) if x]
    return out[:n]

# ---- behaviours of specs/Storage.tla, in processes that take turns
def behaviours(seed, n):
    r = tlc("StorageGen", workers=1, args=("-simulate", "num=%d" % n, "-depth", "18", "-seed", str(seed)), timeout=300)
    out = [json.loads(json.loads(m)) for m in re.findall(r'<<\s*"BEHAVIOUR",\s*("(?:[^"\\]|\\.)*")\s*>>', r.out)]
    out = list({json.dumps(b[:-1]): b for b in out}.values())
    if len(out) < n // 2: raise TlcError("StorageGen: %d behaviours\n%s" % (len(out), r.out[-2000:]))
    return out

SY = ["apple", "b", "cc", "delta-4", "e5", "f", "GG"]
def from_behaviour(r, b):
    names = dict(zip("abcde", r.sample(SY, 5)))
    if r.random() < .3: names[r.choice("abcde")] = "0Ns"
    other = dict(zip("abcde", r.sample(SY, 5)))
    shape = r.sample(["s", "s2", "i", "f", "d", "b", "c"], r.randint(1, 5))
    if "s" not in shape: shape[r.randrange(len(shape))] = "s"
    def table(v):
        cs = []
        for c in shape:
            cs.append((c, P.V("SYM", [names[y] for y in v]) if c == "s" else P.V("SYM", [other[y] for y in v]) if c == "s2" else
                       P.IV([r.randint(-9, 99) for _ in v]) if c == "i" else
                       P.FV([r.randint(-20, 20) / 4 for _ in v]) if c == "f" else
                       P.V("DATE", [r.randint(8000, 9000) for _ in v]) if c == "d" else
                       P.V("B8", [r.random() < .5 for _ in v]) if c == "b" else P.V("I32", [r.randint(-9, 99) for _ in v])))
        return P.TB(cs)
    evs, have, pend = [], {}, []
    def add(e, q):
        e["p"] = q
        if pend: e["restart"] = list(pend); pend.clear()
        evs.append(e)
    def sym(f): return ' "db/sym"' if f == "shared" else ""
    for o in b:
        q = o[1]
        if o[0] == "write":
            t = table(o[3])
            add(raw(P.SET("disk%d" % o[2], t), '(set-splayed "db/t%d/" %s%s)' % (o[2], P.R(P.K(t)), sym(o[4]))), q)
        elif o[0] == "copy":
            x = "v%d%d" % (q, o[2])
            add(raw(P.SET("disk%d" % o[3], P.X(x)), '(set-splayed "db/t%d/" %s%s)' % (o[3], x, sym(o[4]))), q)
        elif o[0] == "read":
            x = "v%d%d" % (q, o[3])
            add(raw(P.SET(x, P.X("disk%d" % o[2])), '(set %s (get-splayed "db/t%d/"%s))' % (x, o[2], sym(o[4])), "eq"), q)
            have[x] = q
        else:
            pend.append(q)
            have = {x: y for x, y in have.items() if y != q}
        for x, y in have.items():
            if r.random() < .4: add(ev(P.X(x) if r.random() < .6 else P.O("at", P.X(x), P.K(P.A("sym", r.choice(shape))))), y)
    return {"name": "storage", "live": True, "ev": evs}
