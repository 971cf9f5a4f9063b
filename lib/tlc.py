"""Running TLC."""
import os, re, subprocess, tempfile, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class TlcError(Exception):
    pass

class Run:
    pass

def tlc(module, cfg=None, env=None, workers=1, heap="2g", timeout=900, args=(), jvm=(), deque=False, cwd=None):
    """run TLC on specs/<module>.tla; returns Run(out, rc, generated, distinct, depth, violated, wall)"""
    cfg = cfg or module + ".cfg"
    meta = tempfile.mkdtemp(prefix="tlc_", dir="/tmp")
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=4"] + list(jvm)
    if deque: cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
            "-config", cfg, *args, module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd or SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = p.stdout.decode(errors="replace"), p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode(errors="replace"), -1
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = Run()
    r.out, r.rc, r.wall = out, rc, time.time() - t0
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct", out.replace(",", "").replace(" generated", " generated,")) \
        or re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", out)
    if m:
        r.generated, r.distinct = [int(x.replace(",", "")) for x in m[-1]]
    else:
        r.generated = r.distinct = 0
    m = re.findall(r"depth of the complete state graph search is (\d+)", out)
    r.depth = int(m[-1]) if m else 0
    m = re.findall(r"(?:Invariant|Action property|Temporal properties|Property) ?(\w*) ?(?:is|were|was) violated", out)
    r.violated = m
    r.ok = "Model checking completed. No error has been found." in out
    return r
