"""What every check shares: the engine build, running sessions and models, evidence, verdict."""
import hashlib, json, os, random, sys, time
from lib import ast as P, session as S
from lib.build import build
from lib.tlc import tlc, TlcError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def known(pid):
    try: d = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except FileNotFoundError: return []
    return [f for f in d["findings"] if f["property"] == pid]

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.viol = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.extra = {}
        self.assume = []
        self.kf = []
        self._b = {}

    quick = property(lambda s: s.tier == "quick")

    def exe(self, name="rh", **k):
        key = json.dumps([name, sorted(k.items())], default=str)
        if key not in self._b:
            hs = k.pop("harnesses", ("rh",))
            self._b[key] = build(harnesses=hs, **k)[name]
        return self._b[key]

    def rng(self, salt=""):
        return random.Random("%s/%s/%s" % (self.pid, self.seed, salt))

    def sample(self, x):
        if len(self.cov["samples"]) < 12: self.cov["samples"].append(x)

    def violation(self, what, replay):
        """record a violation; replay is a JSON document from which `check.py replay` repeats it"""
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay = dict(replay, property=self.pid, what=what)
        b = json.dumps(replay, indent=1, default=str)
        p = os.path.join(VERIF, "replays", "%s-%s.json" % (self.pid, hashlib.sha1(b.encode()).hexdigest()[:12]))
        open(p, "w").write(b)
        self.viol.append((what, p))

    # ---- language sessions against the TLA+ evaluator ----
    def sessions(self, ss, cores=1, module="SessionTrace", env=None, per=400, label=None):
        rj, st = S.run(self.exe(), ss, cores=cores, module=module, env=env, per=per)
        self.cov["states"] += st["states"]
        self.cov["transitions"] += st["generated"]
        self.cov["traces_validated_against_impl"] += st["sessions"]
        ex = self.extra
        ex["events_compared"] = ex.get("events_compared", 0) + st["events"]
        ex["events_left_open_by_the_specification"] = ex.get("events_left_open_by_the_specification", 0) + st["open"]
        if ss: self.sample(S.text(ss[self.seed % len(ss)]))
        if st.get("unconfirmed"): ex["unconfirmed_rejections"] = ex.get("unconfirmed_rejections", 0) + st["unconfirmed"]
        for x in rj:
            self.violation("engine and specification differ: " + " ; ".join(S.text(x["session"])[:x["event"] + 1])[-300:],
                           {"kind": "session", "session": x["session"], "text": S.text(x["session"]), "event": x["event"],
                            "observed": x["observed"], "specified": x["why"], "cores": cores, "module": module,
                            "context": x["context"]})
        return not rj

    def gens(self, parts, cores=1, budget=600):
        """parts: [(generator, n)] — quick runs each once; thorough repeats with new seeds within the budget"""
        k = 0
        while True:
            for g, n in parts:
                ss = g(self.rng("%s%d" % (g.__name__, k)), n)
                if not self.sessions(ss, cores=cores) and len(self.viol) >= 3: return
            k += 1
            if self.quick or self.viol or time.time() - self.t0 > budget: return

    # ---- model checking of a design specification ----
    def model(self, module, cfg=None, workers=8, heap="8g", timeout=800, args=(), expect=True, **k):
        r = tlc(module, cfg, workers=workers, heap=heap, timeout=timeout, args=args, **k)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.extra.setdefault("models", []).append(
            {"module": module, "cfg": cfg or module + ".cfg", "distinct": r.distinct, "generated": r.generated, "depth": r.depth, "wall_s": round(r.wall, 1)})
        if expect and not r.ok:
            raise TlcError("model %s (%s) is not verified:\n%s" % (module, cfg, r.out[-3000:]))
        return r

    def probe(self, fn):
        """known findings: fn(finding) -> True when it still fails"""
        for f in known(self.pid):
            if fn(f):
                print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
                self.kf.append(f["id"])

    def finish(self, level):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {**self.cov, **self.extra}, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol), "assumptions": self.assume or
              ["TLC evaluates the specification as TLA+ defines it", "the recording harness reports engine values faithfully"]}
        if self.kf: ev["coverage"]["known_findings_seen"] = self.kf
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        open(p + ".tmp", "w").write(json.dumps(ev, indent=1, default=str))
        os.replace(p + ".tmp", p)
        for w, rp in self.viol:
            print("# " + w)
        seen = set()
        for w, rp in self.viol:
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        return 1 if self.viol else 0
