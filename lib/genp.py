"""Query sessions for partitioned tables: the conditions, groupings and aggregates that work partition by partition."""
from lib.gen import *
from lib.genq import qtable, const, tcol, qsize, GTYPES
from lib import storex as ST

def pred(r, t, ty, days, d=0):
    if d < 2 and r.random() < .35:
        return (AND if r.random() < .6 else OR)(pred(r, t, ty, days, d + 1), pred(r, t, ty, days, d + 1))
    if r.random() < .5:
        k = r.random()
        day = lambda: r.choice(days + [days[0] - 1, days[-1] + 1])
        if k < .2: return O("in", X("Date"), V("DATE", [day() for _ in range(r.randint(1, 3))]))
        if k < .35: return O("within", X("Date"), V("DATE", sorted([day(), day()])))
        f, a, b = r.choice(["<", ">", "<=", ">=", "==", "!="]), X("Date"), K(A("date", day()))
        return O(f, a, b) if r.random() < .85 else O(f, b, a)
    c = r.choice([c for c in t["c"] if c != "Date"])
    k = ty[c]
    if k == "b8": return X(c)
    if k == "sym": return O(r.choice(["==", "!="]), X(c), K(const(r, t, k, c)))
    f, a, b = r.choice(["<", ">", "<=", ">=", "==", "!="]), X(c), K(const(r, t, k, c))
    return O(f, a, b) if r.random() < .85 else O(f, b, a)

# in and within are not supported on the columns of a partitioned table, nor is last of symbols per day;
# times are aggregated as integers
def agg(r, t, ty, by):
    f = r.choice(["sum", "min", "max", "avg", "count", "first", "last", "med", "dev"])
    cs = [c for c in t["c"] if c != "Date" and ty[c] in GTYPES[f]
          and not (by and f == "last" and ty[c] == "sym") and not (ty[c] == "time" and f in ("first", "last", "min", "max"))]
    return O(f, X(r.choice(cs))) if cs else O("count", X("x"))

def g_parted(r, n):
    out = []
    while len(out) < n:
        m = max(1, qsize(r))
        t, ty, ks, vs = qtable(r, m, nulls=r.choice([0, .1]))
        k = min(m, r.randint(1, 5))
        cuts = sorted(r.sample(range(1, m), k - 1)) if m > 1 and k > 1 else []
        b = [0] + cuts + [m]
        days = sorted(r.sample(range(8766, 8790), len(b) - 1))
        wh = pred(r, t, ty, days) if r.random() < .75 else None
        x = r.random()
        by = [] if x < .5 else [("Date" if r.random() < .7 else "d", X("Date"))]
        if by or r.random() < .5: cols = [("r%d" % i, agg(r, t, ty, by)) for i in range(r.randint(1, 4))]
        elif r.random() < .4: cols = []
        else: cols = [(c, X(c)) for c in r.sample(t["c"] + ["Date"], r.randint(1, len(t["c"])))]
        e = SEL(X("t"), wh=wh, by=by, cols=cols, bydict=bool(by) and r.random() < .5)
        if by: e["part"] = True
        s = sess("by day" if by else "parted", SET("t", t), ev(e, d=["t"]))
        out.append(ST.parted(r, s, (b, days)))
    return out
