#!/usr/bin/env python3
"""check.py PID quick|thorough | check.py replay FILE | check.py setup | check.py list"""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

def registry():
    from checks.lang import LANG
    r = dict(LANG)
    for m in ("systems",):
        try: mod = __import__("checks." + m, fromlist=["x"])
        except ModuleNotFoundError as e:
            if e.name != "checks." + m: raise
            continue
        r.update(mod.CHECKS)
    return r

def main():
    a = sys.argv[1:]
    if a[0] == "setup":
        from lib.build import build
        print(build())
        return 0
    if a[0] == "list":
        print(" ".join(sorted(registry())))
        return 0
    if a[0] == "replay":
        from lib.replay import replay
        return replay(a[1])
    pid, tier = a[0], (a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from lib.ctx import Ctx
    c = Ctx(pid, tier, seed)
    f = registry()[pid]
    f(c)
    return c.finish(getattr(f, "level", "model_checking"))

if __name__ == "__main__":
    try: rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
