"""Generators and projections for compositions, entries and reactions. Everything that
serves as an oracle lives in the TLA+ specs; this module only makes inputs and projects
objects of the code under test to plain integers and rationals."""
from __future__ import annotations
from fractions import Fraction
from functools import reduce
from math import gcd
import itertools
from .common import rat, exc_name

PEROX = [sorted([m, "O"]) for m in ("Li", "Na", "K", "H", "Cs", "Rb")]
DIATOMIC = {"O", "N", "F", "Cl", "H"}

def vgcd(v): return reduce(gcd, v, 0)
def reduce_vec(elems, v):
    """reduced formula unit (diatomic gases count as two atoms)"""
    g = vgcd(v) or 1
    v = [x // g for x in v]
    nz = [i for i, x in enumerate(v) if x]
    if len(nz) == 1 and elems[nz[0]] in DIATOMIC:
        v = [2 * x for x in v]
    # peroxide-like formulas that are conventionally written doubled
    if len(nz) == 2 and sorted(elems[i] for i in nz) in PEROX and all(v[i] == 1 for i in nz):
        v = [2 * x for x in v]
    return v
def formula(elems, v):
    return "".join(f"{e}{n if n != 1 else ''}" for e, n in zip(elems, v) if n)
def vec(comp, elems):
    """composition -> integer amounts (or None when not integral)"""
    out = []
    for e in elems:
        a = float(comp[e]); n = round(a)
        if abs(a - n) > 1e-6: return None
        out.append(int(n))
    if abs(sum(out) - comp.num_atoms) > 1e-6: return None
    return out
def vecx(comp, elems):
    v = vec(comp, elems)
    return v if v is not None else [-1] * len(elems)

def nullspace_guard(cols, limit=1 << 30):
    """Runs the specification's elimination to make sure no intermediate exceeds 32 bits;
    returns (nullity, nullvec or None) for use by generators, or None if too large."""
    n = len(cols); m = len(cols[0])
    def rn(r):
        g = vgcd(r)
        return r if g == 0 else [x // g for x in r]
    M = [rn([cols[c][i] for c in range(n)]) for i in range(m)]
    piv = []
    for j in range(n):
        k = len(piv)
        if k == len(M): break
        cand = [i for i in range(k, len(M)) if M[i][j]]
        if not cand: continue
        p = cand[0]; M[k], M[p] = M[p], M[k]
        pr = M[k]
        for i in range(len(M)):
            if i != k and M[i][j]:
                a, b = pr[j], M[i][j]
                if max(abs(a) * max(map(abs, M[i])), abs(b) * max(map(abs, pr))) * 2 > limit: return None
                M[i] = rn([a * x - b * y for x, y in zip(M[i], pr)])
        piv.append(j)
    nul = n - len(piv)
    if nul != 1: return nul, None
    f = [c for c in range(n) if c not in piv][0]
    L = 1
    for k, c in enumerate(piv): L = L * abs(M[k][c]) // gcd(L, M[k][c])
    if L > limit: return None
    v = [0] * n; v[f] = L
    for k, c in enumerate(piv): v[c] = -(L // M[k][c]) * M[k][f]
    if max(map(abs, v)) > limit: return None
    g = vgcd(v)
    return nul, [x // g for x in v]

def random_comps(rng, elems, k, maxamt=3, maxel=3, reduced=True, seen=()):
    out = []
    seen = {tuple(s) for s in seen}
    tries = 0
    while len(out) < k and tries < 400:
        tries += 1
        ne = rng.randint(1, min(maxel, len(elems)))
        idx = rng.sample(range(len(elems)), ne)
        v = [0] * len(elems)
        for i in idx: v[i] = rng.randint(1, maxamt)
        if reduced: v = reduce_vec(elems, v)
        if tuple(v) in seen: continue
        seen.add(tuple(v)); out.append(v)
    return out

def random_reaction(rng, elems, maxcoef=12, tries=200, maxamt=3, maxel=3, kmax=5):
    """random reaction with one degree of freedom in which all phases take part:
    (comps, integer coefficients)"""
    for _ in range(tries):
        k = rng.randint(2, min(len(elems) + 1, kmax))
        cs = random_comps(rng, elems, k, maxamt, maxel)
        if len(cs) < k: continue
        r = nullspace_guard(cs)
        if not r or r[0] != 1: continue
        v = r[1]
        if 0 in v or max(map(abs, v)) > maxcoef: continue
        if all(x > 0 for x in v) or all(x < 0 for x in v): continue
        order = sorted(range(k), key=lambda i: v[i] > 0)
        if rng.random() < 0.5:
            v = [-x for x in v]; order = sorted(range(k), key=lambda i: v[i] > 0)
        return [cs[i] for i in order], [v[i] for i in order]
    return None

def q(x): return [Fraction(x).numerator, Fraction(x).denominator]
def fr(p): return Fraction(p[0], p[1])
