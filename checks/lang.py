"""Properties of the language, decided by the executable semantics (specs/Eval.tla)."""
import time
from lib import gens as G, genq as Q, genm as M, genf as F, genser as Z, genbig as B
from lib.stretch import some as _w

def _mk(*parts, models=()):
    """parts: (generator, sessions per run); models: (module, cfg quick, cfg thorough)"""
    def run(c):
        for m, q, t in models: c.model(m, q if c.quick else t)
        c.gens([(g, n) for g, n in parts])
    return run

def _long(c):
    """long columns, worked on by different numbers of threads"""
    k = 0
    while True:
        for g, n, cores in ((B.g_bigtab, 32, 8), (B.g_bigvec, 32, 5), (B.g_bigtab, 24, 3), (B.g_bigvec, 8, 1)):
            if not c.sessions(g(c.rng("%s%d.%d" % (g.__name__, cores, k)), n), cores=cores, module="BigTrace", per=max(1, n // 8)): return
        k += 1
        if c.quick or time.time() - c.t0 > 600: return

def _windows(c):
    """window joins; the aggregates of the windows are computed by one thread, and by several"""
    k = 0
    while True:
        for n, cores in ((360, 1), (160, 4)):
            if not c.sessions(M.g_window(c.rng("w%d.%d" % (cores, k)), n), cores=cores): return
        k += 1
        if c.quick or time.time() - c.t0 > 600: return

LANG = {
    "P01": _mk((_w(Q.g_select), 2500)),
    "P02": _mk((_w(Q.g_groupby), 2000)),
    "P03": _mk((M.g_update, 1600), (_w(M.g_insert), 1400), (M.g_alter, 1600)),
    "P04": _mk((_w(M.g_join), 2000)),
    "P05": _mk((_w(G.g_order), 4000), (G.g_attr, 2500)),
    "P06": _mk((_w(G.g_search), 6000)),
    "P07": _mk((G.g_arith_sys, 1), (G.g_arith, 3000), (G.g_unary, 1500)),
    "P08": _mk((_w(G.g_agg), 6000)),
    "P09": _mk((F.g_alias, 1500)),
    "P10": _mk((F.g_fun, 1500)),
    "P11": _mk((F.g_err, 2000)),
    "P12": _mk((F.g_hof, 4000)),
    "P13": _mk((G.g_index, 6000)),
    "P14": _long,
    "P29": _windows,
    "P15": _mk((Z.g_serde, 3000), models=[("MCSerde", "MCSerdeQuick.cfg", "MCSerde.cfg")]),
}
