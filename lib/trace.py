"""Checking recorded event traces against a trace specification.

The specification reads $TRACE (one JSON record per line, sessions begin with {"k":"reset"}), prints
<<"REJECTED", line, ...>> for an event that is not a behaviour of it (the rest of that session is
skipped) and <<"CONSUMED", lines, "rejected", n>> at the end."""
import json, os, re, tempfile
from concurrent.futures import ThreadPoolExecutor
from lib.tlc import tlc, TlcError

NPROC = int(os.environ.get("VERIF_JOBS", "8"))

def check1(module, sessions, timeout=800, heap="2g", env=None):
    lines, where = [], []
    for si, evs in enumerate(sessions):
        lines.append(json.dumps({"k": "reset"})); where.append((si, -1))
        for ei, e in enumerate(evs):
            lines.append(json.dumps(e, separators=(",", ":"))); where.append((si, ei))
    fd, path = tempfile.mkstemp(prefix="tr_", suffix=".ndjson", dir="/tmp")
    with os.fdopen(fd, "w") as f: f.write("\n".join(lines) + "\n")
    try: r = tlc(module, env={"TRACE": path, **(env or {})}, timeout=timeout, heap=heap)
    finally: os.unlink(path)
    m = re.search(r'<<\s*"CONSUMED",\s*(\d+),\s*"rejected",\s*(\d+)\s*>>', r.out)
    if not (m and r.ok and int(m.group(1)) == len(lines)):
        raise TlcError("trace not consumed by %s:\n%s" % (module, "\n".join(l for l in r.out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting")))[-2500:]))
    rej = []
    for p in re.split(r'(?=<<\s*"(?:REJECTED|CONSUMED)")', r.out):
        k = re.match(r'<<\s*"REJECTED",\s*(\d+)', p)
        if k: rej.append(where[int(k.group(1)) - 1] + (" ".join(p.split())[:3000],))
    assert len(rej) == int(m.group(2)), r.out[-2000:]
    return rej, r

def check(module, sessions, jobs=NPROC, **k):
    """(rejected [(session, event, text)], states, transitions)"""
    n = max(1, min(jobs, len(sessions)))
    idx = [list(range(len(sessions)))[i::n] for i in range(n)]
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda ix: check1(module, [sessions[i] for i in ix], **k), idx))
    out = [(ix[si], ei, t) for ix, (rej, _) in zip(idx, rs) for si, ei, t in rej]
    return sorted(out), sum(r.distinct for _, r in rs), sum(r.generated for _, r in rs)

def observe_all(fn, inputs, broken, jobs=8, limit=12):
    """fn over inputs; once several observations are broken (no answer, crash) the rest is left out (an empty session)"""
    n = [0]
    def one(p):
        if n[0] >= limit: return []
        o = fn(p)
        if broken(o): n[0] += 1
        return o
    with ThreadPoolExecutor(jobs) as ex: return list(ex.map(one, inputs))
