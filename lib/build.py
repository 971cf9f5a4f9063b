#!/usr/bin/env python3
"""Builds the engine's current sources and the harness, out of tree.

Objects are keyed by the content of every source/header they can include, not
by time stamps, so a build never reuses an object of other sources."""
import hashlib, os, re, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("RAY_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("RAY_BUILD", os.path.join(VERIF, "build"))
CC = "/usr/bin/clang"
CFLAGS = ("-fPIC -Wall -Wextra -std=c17 -O3 -fsigned-char -march=x86-64-v3 -fassociative-math "
          "-ftree-vectorize -funsafe-math-optimizations -funroll-loops -m64 -flax-vector-conversions "
          "-fno-math-errno -fomit-frame-pointer -fno-stack-protector -ffunction-sections "
          "-fdata-sections -w").split()
LIBS = ["-lm", "-ldl", "-lpthread"]

def core_objects():
    """the object list of the project's own Makefile"""
    txt = open(os.path.join(REPO, "Makefile")).read().replace("\\\n", " ")
    m = re.findall(r"^CORE_OBJECTS\s*=\s*(.*)$", txt, re.M)
    return [o[:-2] + ".c" for o in m[0].split()]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f:
        return f.read()

def build(defines=(), verbose=False, harnesses=("rh",), extra=()):
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    hdrs = sorted(glob.glob(REPO + "/core/*.h") + glob.glob(REPO + "/app/*.h"))
    # the textual-include .c files are hashed too (some sources include others)
    hkey = sha(*[h.encode() + rd(h) for h in hdrs])
    flags = CFLAGS + ["-D" + d for d in defines]
    srcs = core_objects() + ["app/repl.c", "app/term.c", "app/main.c"]
    jobs, objs = [], {}
    for s in srcs:
        p = os.path.join(REPO, s)
        body = rd(p)
        inc = re.findall(rb'#include "([^"]+\.c)"', body)
        extra_b = b"".join(rd(os.path.join(os.path.dirname(p), i.decode())) for i in inc)
        k = sha(s, body, extra_b, hkey, " ".join(flags))
        o = os.path.join(OUT, "obj", k + ".o")
        objs[s] = o
        if not os.path.exists(o):
            jobs.append((p, o))

    def cc(job):
        p, o = job
        tmp = o + ".tmp%d" % os.getpid()
        r = subprocess.run([CC, "-include", "core/def.h", "-c", p, *flags, '-DGIT_HASH="verif"', "-o", tmp],
                           cwd=REPO, capture_output=True, text=True)
        if r.returncode:
            return (p, r.stderr)
        os.rename(tmp, o)
        return None

    with ThreadPoolExecutor(8) as ex:
        bad = [b for b in ex.map(cc, jobs) if b]
    if bad:
        sys.stderr.write("BUILD FAILED %s\n%s\n" % bad[0])
        raise SystemExit(3)
    core = [objs[s] for s in srcs if s.startswith("core/")]
    common = core + [objs["app/repl.c"], objs["app/term.c"]]
    res = {}

    own = {"pl": "core/pool.c", "plx": "core/pool.c", "sy": "core/symbols.c"}     # sources a harness compiles itself

    def link(name, objlist, csrc=None):
        hb = b""
        if csrc:
            hb = rd(csrc) + (rd(os.path.join(REPO, own[name])) if name in own else b"") + b"".join(rd(h) for h in sorted(glob.glob(VERIF + "/harness/*.h")))
        k = sha(name, hb, hkey, " ".join(flags), *[o for o in objlist])
        exe = os.path.join(OUT, "%s-%s" % (name, k))
        if not os.path.exists(exe):
            for old in glob.glob(os.path.join(OUT, name + "-*")):
                if re.fullmatch(re.escape(name) + r"-[0-9a-f]{24}", os.path.basename(old)):
                    os.unlink(old)
            ll = list(objlist)
            if name in ("sy", "plx"):    # a scheduling point at every load and store
                o = exe + ".o"
                hooks = ["-include", VERIF + "/harness/plhook.h"] if name == "plx" else []
                r = subprocess.run([CC, "-include", "core/def.h", *hooks, "-include", VERIF + "/harness/syhook.h", "-c", os.path.join(REPO, own[name]), *flags, "-O1",
                                    "-fsanitize-coverage=func,trace-loads,trace-stores", "-o", o], cwd=REPO, capture_output=True, text=True)
                if r.returncode:
                    sys.stderr.write("BUILD FAILED %s\n%s\n" % (name, r.stderr))
                    raise SystemExit(3)
                ll.append(o)
            cmd = [CC, *flags, "-include", "core/def.h", "-I", REPO, "-I", VERIF + "/harness",
                   *(["-x", "c", csrc, "-x", "none"] if csrc else []), *ll, *LIBS,
                   "-Wl,--dynamic-list=" + REPO + "/rayforce.syms", "-o", exe + ".tmp"]
            r = subprocess.run(cmd, cwd=REPO, capture_output=True, text=True)
            if r.returncode:
                sys.stderr.write("LINK FAILED %s\n%s\n" % (name, r.stderr))
                raise SystemExit(3)
            os.rename(exe + ".tmp", exe)
        res[name] = exe

    link("rayforce", common + [objs["app/main.c"]])
    for h in harnesses:
        link(h, [o for o in common if not (h in own and o == objs[own[h]])], os.path.join(VERIF, "harness", h + ".c"))
    # keep the object cache bounded
    all_o = sorted(glob.glob(os.path.join(OUT, "obj", "*.o")), key=os.path.getmtime)
    keep = set(objs.values())
    for o in all_o[:-400]:
        if o not in keep:
            os.unlink(o)
    return res

if __name__ == "__main__":
    print(build())
