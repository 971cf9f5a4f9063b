"""Properties of the runtime's parts: a design specification checked by TLC, and conformance of the real code."""
import json, time
from lib import trace as T, heapx, poolx, symx, ipcx, timerx, storex, memx, framex, genp, genser as Z, genbig as B, session as S, gens as G, genq as Q, genm as M, genf as F
from lib.build import build

CHECKS, REPLAY = {}, {}

def traces(c, module, inputs, observe, kind, show, env=None):
    """observe(inputs) -> recorded sessions; each is checked against the trace specification; a rejection is confirmed by a second run"""
    obs = observe(inputs)
    rj, st, tr = T.check(module, obs, env=env)
    c.cov["states"] += st
    c.cov["transitions"] += tr
    c.cov["traces_validated_against_impl"] += len(inputs)
    c.extra["events_compared"] = c.extra.get("events_compared", 0) + sum(map(len, obs))
    if inputs: c.sample(show(inputs[c.seed % len(inputs)], obs[c.seed % len(inputs)]))
    pend = rj[:8]
    if not pend: return True
    obs2 = observe([inputs[si] for si, _, _ in pend])
    again, _, _ = T.check(module, obs2, env=env)
    for k, ei, why in again:
        si = pend[k][0]
        c.violation("%s: rejected by %s: %s" % (kind, module, why[:200]), {"kind": kind, "module": module, "input": inputs[si], "event": ei, "why": why})
    if not again: c.extra["unconfirmed_rejections"] = c.extra.get("unconfirmed_rejections", 0) + len(pend)
    return not again

def replayer(kind, module, observe):
    def f(d):
        rj, _, _ = T.check(module, observe([d["input"]]))
        for r in rj: print(r[2])
        return 1 if rj else 0
    REPLAY[kind] = f

# ---------------------------------------------------------------- P18 allocator
def heap_exe(): return build(harnesses=("hp",))["hp"]
def heap_obs(seqs): return heapx.execute_all(heap_exe(), seqs)
replayer("heap", "HeapTrace", heap_obs)

def heap(c):
    for cfg in (["MCBuddy.cfg", "MCBuddySmall.cfg", "MCBuddySlabs.cfg"] if c.quick else ["MCBuddy.cfg", "MCBuddySmall.cfg", "MCBuddySlabs.cfg", "MCBuddyDeep.cfg"]):
        c.model("Buddy", cfg)
    r = c.model("Buddy", "MCBuddyAsFound.cfg", expect=False)
    if "NotCorrupt" not in r.violated and "Disjoint" not in r.violated: raise Exception("the specification lost the design error it must find:\n" + r.out[-2000:])
    k = 0
    while True:
        rng = c.rng("heap%d" % k)
        bs, g = heapx.behaviours(rng.randrange(1 << 30), 150 if c.quick else 600)
        c.extra["behaviours_generated_by_TLC"] = c.extra.get("behaviours_generated_by_TLC", 0) + len(bs)
        seqs = [heapx.concrete(rng, b) for b in bs] + [heapx.history(rng, 800) for _ in range(60)]
        if not traces(c, "HeapTrace", seqs, heap_obs, "heap", lambda i, o: [i[:6], o[:6]]): return
        k += 1
        if c.quick or time.time() - c.t0 > 600: return
CHECKS["P18"] = heap

# ---------------------------------------------------------------- P26 task pool
def pool_exe(): return build(harnesses=("pl",))["pl"]
def pool_obs(ps): return poolx.execute_all(pool_exe(), ps)
replayer("pool", "PoolTrace", pool_obs)
def poolx_obs(ps): return poolx.execute_all(build(harnesses=("plx",))["plx"], ps)
replayer("poolx", "PoolTrace", poolx_obs)

def pool(c):
    for m in ["MCPool", "MCPoolSpurious"] + ([] if c.quick else ["MCPoolDeep"]): c.model(m)
    r = c.model("MCPoolAsFound", expect=False)
    if "NotBad" not in r.violated: raise Exception("the specification lost the design error it must find:\n" + r.out[-2000:])
    k = 0
    while True:
        rng = c.rng("pool%d" % k)
        sc = poolx.schedules(rng.randrange(1 << 30), 200 if c.quick else 1000)
        c.extra["behaviours_generated_by_TLC"] = c.extra.get("behaviours_generated_by_TLC", 0) + len(sc)
        ps = [poolx.program(rng, s) for s in sc] + [poolx.program(rng) for _ in range(600)] + [poolx.overflow(rng) for _ in range(12)]
        show = lambda i, o: [{k: i[k] for k in ("threads", "runs")}, o[:6]]
        if not traces(c, "PoolTrace", ps, pool_obs, "pool", show): return
        # switched at every load and store as well
        if not traces(c, "PoolTrace", [poolx.program(rng) for _ in range(1200)] + [poolx.overflow(rng) for _ in range(4)], poolx_obs, "poolx", show): return
        k += 1
        if c.quick or time.time() - c.t0 > 600: return
CHECKS["P26"] = pool

# ---------------------------------------------------------------- P23 symbol table
def sym_obs(ps): return symx.execute_all(build(harnesses=("sy",))["sy"], ps)
replayer("symbols", "SymTrace", sym_obs)

def symbols(c):
    for cfg in ["MCSymbols.cfg", "MCSymbolsTwo.cfg"] + ([] if c.quick else ["MCSymbolsDeep.cfg"]): c.model("MCSymbols", cfg)
    for v, n in (("store", "Agree"), ("count", "Named"), ("cursor", "NotBad"), ("early", "Named"), ("short", "NotBad")):
        must_fail(c, "MCSymbols", "MCSymbolsNo_%s.cfg" % v, n, "Agree", "Named", "NotBad")
    k = 0
    while True:
        rng = c.rng("symbols%d" % k)
        sc = symx.schedules(rng.randrange(1 << 30), 200 if c.quick else 1000)
        c.extra["behaviours_generated_by_TLC"] = c.extra.get("behaviours_generated_by_TLC", 0) + len(sc)
        ps = [symx.program(rng, s) for s in sc] + [symx.program(rng) for _ in range(700)] + [symx.crowd(rng) for _ in range(30)]
        if not traces(c, "SymTrace", ps, sym_obs, "symbols", lambda i, o: [i["work"][:3], o[:6]]): return
        k += 1
        if c.quick or time.time() - c.t0 > 600: return
CHECKS["P23"] = symbols

# ---------------------------------------------------------------- P20 P21 message passing
def sv_exe(): return build(harnesses=("sv",))["sv"]
def rh_exe(): return build(harnesses=("rh",))["rh"]
def serve_obs(ps): return ipcx.serve_all(sv_exe(), ps)
def call_obs(ps): return ipcx.call_all(rh_exe(), ps)
replayer("serve", "IpcTrace", serve_obs)
replayer("call", "IpcCallTrace", call_obs)

def must_fail(c, module, cfg, *names):
    r = c.model(module, cfg, expect=False)
    if not set(names) & set(r.violated) and not ("Delivered" in names and "emporal propert" in r.out and "counter-example" in r.out):
        raise Exception("the specification lost the design error it must find (%s):\n%s" % (module, r.out[-2000:]))

def remote(c, g, n, k):
    """sessions evaluated by one engine on behalf of another"""
    ss = [s for s in g(c.rng("remote%s%d" % (g.__name__, k)), n) if not s.get("S")]
    for s in ss:
        for e in s["ev"]: e["d"] = []
    obs = ipcx.remote(rh_exe(), sv_exe(), ss)
    rej = S.validate(ss, obs)[0]
    c.cov["traces_validated_against_impl"] += len(ss)
    c.extra["events_compared"] = c.extra.get("events_compared", 0) + sum(map(len, obs))
    for si, ei, why in rej[:4]:
        o2 = ipcx.remote(rh_exe(), sv_exe(), [ss[si]])
        if [x for x in S.validate([ss[si]], o2)[0]]:
            c.violation("remote evaluation differs: " + " ; ".join(S.text(ss[si])[:ei + 1])[-300:], {"kind": "remote", "session": ss[si], "observed": obs[si], "why": why})
        else: c.extra["unconfirmed_rejections"] = c.extra.get("unconfirmed_rejections", 0) + 1
def _remote_replay(d):
    rej = S.validate([d["session"]], ipcx.remote(rh_exe(), sv_exe(), [d["session"]]))[0]
    for x in rej: print(x[2])
    return 1 if rej else 0
REPLAY["remote"] = _remote_replay

SHOW = lambda i, o: [i["ops"][:5] if "ops" in i else i["acts"][:5], o[:4]]
def ipc(c):
    c.model("MCIpc" if c.quick else "MCIpcDeep"); c.model("MCIpcCall")
    must_fail(c, "MCIpcStall", None, "Delivered"); must_fail(c, "MCIpcQueue", None, "Stream"); must_fail(c, "MCIpcHup", None, "Processed")
    must_fail(c, "MCIpcCallApart", None, "Right"); must_fail(c, "MCIpcCallLate", None, "Right")
    k, f = 0, 1 if c.quick else 3
    while True:
        rng = c.rng("ipc%d" % k)
        bs = ipcx.gen("IpcGen", rng.randrange(1 << 30), 60 * f, 122)
        cs = ipcx.gen("IpcCallGen", rng.randrange(1 << 30), 50 * f, 45)
        c.extra["behaviours_generated_by_TLC"] = c.extra.get("behaviours_generated_by_TLC", 0) + len(bs) + len(cs)
        ok = traces(c, "IpcTrace", [ipcx.program(rng, False, b) for b in bs] + [ipcx.program(rng, False) for _ in range(90 * f)], serve_obs, "serve", SHOW)
        ok = traces(c, "IpcCallTrace", [ipcx.call_program(rng, b) for b in cs] + [ipcx.call_program(rng) for _ in range(80 * f)], call_obs, "call", SHOW) and ok
        for g in (Q.g_select, M.g_update, G.g_arith, F.g_err): remote(c, g, 150 * f, k)
        k += 1
        if c.quick or c.viol or not ok or time.time() - c.t0 > 600: return
CHECKS["P20"] = ipc

def closing(c):
    c.model("MCIpcClose"); must_fail(c, "MCIpcFree", None, "Handles"); must_fail(c, "MCIpcHup", None, "Processed")
    k = 0
    while True:
        rng = c.rng("closing%d" % k)
        ok = traces(c, "IpcTrace", [ipcx.program(rng, True) for _ in range(350 if c.quick else 1000)], serve_obs, "serve", SHOW)
        k += 1
        if c.quick or not ok or time.time() - c.t0 > 600: return
CHECKS["P21"] = closing

# ---------------------------------------------------------------- P22 timers
def timer_obs(ps): return timerx.execute_all(build(harnesses=("tm",))["tm"], ps)
replayer("timers", "TimerTrace", timer_obs)

def timers(c):
    for cfg in ["MCTimers.cfg", "MCTimersWide.cfg"] + ([] if c.quick else ["MCTimersDeep.cfg", "MCTimersWideDeep.cfg"]): c.model("MCTimers", cfg)
    for v, *n in (("up", "Ordered"), ("id", "NamesIt", "Unique"), ("self", "Same"), ("inf", "Same"), ("grow", "Same")): must_fail(c, "MCTimers", "MCTimersNo_%s.cfg" % v, *n)
    k = 0
    while True:
        rng = c.rng("timers%d" % k)
        bs = timerx.behaviours(rng.randrange(1 << 30), 400 if c.quick else 1500)
        c.extra["behaviours_generated_by_TLC"] = c.extra.get("behaviours_generated_by_TLC", 0) + len(bs)
        ps = [timerx.from_behaviour(b) for b in bs] + [timerx.program(rng) for _ in range(1500 if c.quick else 5000)]
        if not traces(c, "TimerTrace", ps, timer_obs, "timers", lambda i, o: [i["steps"][:5], o[:6]]): return
        k += 1
        if c.quick or time.time() - c.t0 > 600: return
CHECKS["P22"] = timers

# ---------------------------------------------------------------- P16 P27 storage and partitioned tables
def stored(c, ss):
    """sessions over files, in one process after another or several in turn; a file is a variable of the specification"""
    obs = storex.execute(rh_exe(), ss)
    rj, st = storex.validate(ss, obs)
    c.cov["states"] += st["states"]; c.cov["transitions"] += st["generated"]
    c.cov["traces_validated_against_impl"] += len(ss)
    for k, n in (("events", "events_compared"), ("open", "events_left_open_by_the_specification")): c.extra[n] = c.extra.get(n, 0) + st[k]
    if ss: c.sample(S.text(ss[c.seed % len(ss)]))
    for si, ei, why in rj[:6]:
        again = storex.validate([ss[si]], storex.execute(rh_exe(), [ss[si]]))[0]
        if again: c.violation("not what was stored: " + " ; ".join(S.text(ss[si])[:ei + 1])[-300:], {"kind": "stored", "session": ss[si], "observed": obs[si], "why": why})
        else: c.extra["unconfirmed_rejections"] = c.extra.get("unconfirmed_rejections", 0) + 1
    return not rj
def _stored_replay(d):
    rj = storex.validate([d["session"]], storex.execute(rh_exe(), [d["session"]]))[0]
    for x in rj: print(x[2])
    return 1 if rj else 0
REPLAY["stored"] = _stored_replay

def storage(c):
    c.model("MCStorage", "MCStorage.cfg" if c.quick else "MCStorageDeep.cfg")
    for v, *n in (("Inode", "Kept"), ("Grow", "Grows", "Stored"), ("Bind", "Kept"), ("Value", "Stored")): must_fail(c, "MCStorage", "MCStorageNo%s.cfg" % v, *n)
    k, f = 0, 1 if c.quick else 3
    while True:
        rng = c.rng("storage%d" % k)
        bs = storex.behaviours(rng.randrange(1 << 30), 150 * f)
        c.extra["behaviours_generated_by_TLC"] = c.extra.get("behaviours_generated_by_TLC", 0) + len(bs)
        ss = [storex.from_behaviour(rng, b) for b in bs]
        for how, g in ((storex.splayed, Q.g_select), (storex.splayed, Q.g_groupby), (storex.splayed, M.g_update), (storex.splayed, M.g_insert), (storex.files, M.g_join), (storex.files, M.g_alter)):
            ss += storex.stored(g, how, rng, 100 * f)
        ok = stored(c, ss)
        k += 1
        if c.quick or not ok or time.time() - c.t0 > 600: return
CHECKS["P16"] = storage

def partitions(c):
    k = 0
    while True:
        ok = stored(c, genp.g_parted(c.rng("parted%d" % k), 1000))
        k += 1
        if c.quick or not ok or time.time() - c.t0 > 600: return
CHECKS["P27"] = partitions

# ---------------------------------------------------------------- P24 P25 P28 text
from lib import textx
def text_obs(ss): return textx.execute_all(rh_exe(), ss)
replayer("text", "TextTrace", text_obs)
def text_show(i, o): return [[e["x"], e["r"]] for e in o[:4]]
def text_run(c, fixed, rand):
    """fixed: all operations of a small domain; rand(rng): sessions"""
    k = 0
    if not traces(c, "TextTrace", textx.chunks(fixed), text_obs, "text", text_show): return
    while True:
        rng = c.rng("text%d" % k)
        if not traces(c, "TextTrace", rand(rng), text_obs, "text", text_show): return
        k += 1
        if c.quick or time.time() - c.t0 > 600: return

def reading(c):
    c.model("MCText", "MCText.cfg" if c.quick else "MCTextDeep.cfg")
    text_run(c, textx.all_texts(3 if c.quick else 4), lambda r: [textx.reads(r, 200) for _ in range(80)] + [textx.formats(r, 200) for _ in range(40)])
CHECKS["P24"] = reading

def calendar(c):
    c.model("MCText", "MCCalendar.cfg" if c.quick else "MCCalendarDeep.cfg")
    lo = -730119 + 5 * c.rng("days").randrange(720000)
    days = textx.all_days(lo, lo + 3000) + textx.all_days(-150, 450) + textx.all_days(-36675, -36375) + textx.all_days(36400, 36700) if c.quick else textx.all_days(-150000, 150000)
    text_run(c, days, lambda r: [textx.dates(r, 200) for _ in range(100)])
CHECKS["P25"] = calendar

def strings(c):
    c.model("MCText", "MCStrings.cfg" if c.quick else "MCStringsDeep.cfg")
    text_run(c, textx.all_patterns(3, 3) if c.quick else textx.all_patterns(4, 5), lambda r: [textx.strings(r, 200) for _ in range(80)])
CHECKS["P28"] = strings

# ---------------------------------------------------------------- P17 tables as csv text
from lib import csvx
def csv_obs(ss): return csvx.execute_all(rh_exe(), ss)
replayer("csv", "CsvTrace", csv_obs)

def csv(c):
    c.model("MCCsv", "MCCsv.cfg" if c.quick else "MCCsvDeep.cfg")
    k = 0
    while True:
        r = c.rng("csv%d" % k)
        ss = [csvx.reads(r, 60) for _ in range(40)] + [csvx.writes(r, 40) for _ in range(30)] + [csvx.shape(r) for _ in range(16)]
        ss += [csvx.big(r, cores, r.choice([700, 3000, 9000, 30000])) for cores in (1, 2, 3, 4, 8) * 3]
        if not traces(c, "CsvTrace", ss, csv_obs, "csv", lambda i, o: [i["cores"], [[e["x"], e["r"]] for e in o[:4]]]): return
        k += 1
        if c.quick or time.time() - c.t0 > 600: return
CHECKS["P17"] = csv

# ---------------------------------------------------------------- P19 memory is returned
def mem_obs(ps): return memx.execute_all(rh_exe(), ps)
replayer("mem", "MemTrace", mem_obs)

def memory(c):
    c.model("Rc", "MCRc.cfg" if c.quick else "MCRcDeep.cfg")
    must_fail(c, "Rc", "MCRcForget.cfg", "Counts", "Reached"); must_fail(c, "Rc", "MCRcInPlace.cfg", "Frame"); must_fail(c, "Rc", "MCRcLoan.cfg", "Counts", "Reached")
    show = lambda i, o: [i["cores"], i["init"][:2], i["steps"][:2], o[:4]]
    gs = [G.g_index, G.g_order, G.g_search, G.g_agg, G.g_arith, G.g_unary, Q.g_select, Q.g_groupby, M.g_update, M.g_insert, M.g_alter, M.g_join, M.g_window, F.g_alias, F.g_err, F.g_fun, F.g_hof, Z.g_serde]
    k, f = 0, 1 if c.quick else 3
    while True:
        r = c.rng("mem%d" % k)
        ps = [memx.program(r) for _ in range(900 * f)] + [memx.program(r, 4) for _ in range(250 * f)]
        for g in gs: ps += [memx.from_session(s) for s in g(r, 60 * f)]
        ps += [memx.from_session(s, cores) for cores in (3, 8) for s in B.g_bigtab(r, 3 * f) + B.g_bigvec(r, 8 * f)]
        if not traces(c, "MemTrace", ps, mem_obs, "mem", show): return
        k += 1
        if c.quick or time.time() - c.t0 > 600: return
CHECKS["P19"] = memory

# ---------------------------------------------------------------- P09 P11 nothing changes but what is assigned
def frame_obs(ps): return framex.execute_all(rh_exe(), ps)
replayer("frame", "FrameTrace", frame_obs)

def frames(c, salt, wrong, n, make=lambda r, cores, wrong: framex.program(r, cores, wrong=wrong)):
    """programs of any kind: only the assigned variable changes, and not when the assignment fails"""
    k, f = 0, 1 if c.quick else 4
    show = lambda i, o: [i["init"][:2], i["steps"][:3], o[:3]]
    while True:
        r = c.rng("%s%d" % (salt, k))
        ps = [make(r, cores, wrong) for cores, m in ((1, n), (4, n // 5)) for _ in range(m * f)]
        if not traces(c, "FrameTrace", ps, frame_obs, "frame", show): return
        k += 1
        if c.quick or time.time() - c.t0 > 700: return

def immutable(c):
    c.model("Rc", "MCRc.cfg" if c.quick else "MCRcDeep.cfg")
    must_fail(c, "Rc", "MCRcInPlace.cfg", "Frame")
    c.gens([(F.g_alias, 1500)], budget=300)
    frames(c, "frame", (0, .04, .04, .1), 2500)
CHECKS["P09"] = immutable

def confined(c):
    c.gens([(F.g_err, 2000)], budget=300)
    frames(c, "wrong", (.15, .3, .5), 2500)
CHECKS["P11"] = confined

def functions(c):
    c.gens([(F.g_fun, 1500)], budget=300)
    frames(c, "forms", (), 600, lambda r, cores, wrong: framex.forms(r, cores))
CHECKS["P10"] = functions
