"""Repeat a recorded violation."""
import json
from lib import session as S
from lib.build import build

def replay(path):
    d = json.load(open(path))
    print("property", d["property"], "-", d["what"])
    if d.get("kind") == "session":
        exe = build()["rh"]
        ss = d["context"] or [d["session"]]
        obs = S.execute(exe, ss, d.get("cores", 1))
        rj, _, _ = S.validate(ss, obs, d.get("module", "SessionTrace"))
        for si, ei, why in rj:
            print("program :", " ; ".join(S.text(ss[si])[:ei + 1]))
            print("engine  :", json.dumps(obs[si][ei]["r"])[:2000])
            print("        ", why[:3000])
        return 1 if rj else 0
    from checks.systems import REPLAY
    return REPLAY[d["kind"]](d)
