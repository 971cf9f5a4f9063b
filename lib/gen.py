"""Seeded generators of values, expressions and sessions."""
import random
from lib.ast import *
from lib.session import ev, sess

NUMS = ["u8", "i16", "i32", "i64", "f64"]
TMPS = ["date", "time", "ts"]
SYMS = ["a", "b", "c", "aa", "ab", "B", "z", "zz", "b1", "_x"]

def elem(r, t, nulls=0.15, lo=-9, hi=9):
    """one raw element of type t"""
    if t == "b8": return r.random() < 0.5
    if t == "u8": return r.choice([0, 1, 2, 3, 7, 100, 200, 255]) if r.random() < .3 else r.randint(0, 9)
    if t == "c8": return r.choice([97, 98, 99, 65, 122, 48])
    if t == "sym": return r.choice(SYMS[:r.choice([3, 3, 3, 10])])
    if r.random() < nulls: return NI
    if t == "f64": return r.choice([256 * r.randint(lo * 4, hi * 4), 1024 * r.randint(lo, hi)])
    if t == "date": return r.randint(-5, 40)
    if t == "time": return r.choice([r.randint(-3, 9), r.randint(0, 1500)])
    if t == "ts": return r.randint(0, 50)
    if t in ("i32", "i64") and r.random() < .1: return r.choice([1000, -1000, 255, 256, -256])
    return r.randint(lo, hi)

def vec(r, t, n, nulls=0.15, **k):
    return V(VEC[t], [elem(r, t, nulls, **k) for _ in range(n)])

def atom(r, t, nulls=0.15, **k):
    return A(t, elem(r, t, nulls, **k))

def size(r, big=False):
    x = r.random()
    if x < .08: return 0
    if x < .2: return 1
    if x < .8: return r.randint(2, 9)
    if x < .95 or not big: return r.randint(10, 40)
    return r.randint(60, 300)

def operand(r, t, n, nulls=.15):
    """atom or vector of length n"""
    return atom(r, t, nulls) if r.random() < .4 else vec(r, t, n, nulls)
