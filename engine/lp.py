"""Entailment in the abstract domain of polynomial inequalities.

refute(facts) looks for a Farkas/Handelman certificate: a non-negative
combination of facts (and of products of facts with non-negative atoms) that
adds up to a negative constant (or to 0 using a strict fact).  A certificate
found numerically is re-checked with exact rational arithmetic before it counts.
"""
import numpy as np
from fractions import Fraction
from scipy.optimize import linprog
from poly import Poly, tighten

BIG = 1 << 44      # facts with larger constants only hurt the numerics
STAT = {"lp": 0, "cert": 0, "uncert": 0}

def _solve(cols, strict):
    """cols: list of dict monomial->coef. Find lambda>=0, sum=1, all non-const monomials cancel, const<0."""
    monos = {}
    for c in cols:
        for m in c:
            if m: monos.setdefault(m, len(monos))
    n, k = len(cols), len(monos)
    if n == 0: return None
    A = np.zeros((k + 1, n))
    obj = np.zeros(n)
    scale = []
    for j, c in enumerate(cols):
        s = max([abs(float(v)) for m, v in c.items() if m] or [1.0])
        scale.append(s)
        for m, v in c.items():
            if m: A[monos[m], j] = float(v) / s
            else: obj[j] = float(v) / s
    A[k, :] = 1.0
    b = np.zeros(k + 1); b[k] = 1.0
    mx = max(1.0, np.abs(obj).max())
    STAT["lp"] += 1
    res = linprog(obj / mx, A_eq=A, b_eq=b, bounds=(0, None), method="highs")
    if res.status != 0: return None
    val = res.fun * mx
    if val < -1e-7:
        return _exact(cols, res.x / np.array(scale), None)
    if val < 1e-7 and any(strict):
        obj2 = np.array([-1.0 if s else 0.0 for s in strict])
        A2 = np.vstack([A, obj / mx]); b2 = np.append(b, 0.0)
        res = linprog(obj2, A_eq=A2, b_eq=b2, bounds=(0, None), method="highs")
        if res.status == 0 and res.fun < -1e-7:
            return _exact(cols, res.x / np.array(scale), strict)
    return None

def _exact(cols, lam, strict):
    lam = np.maximum(lam, 0)
    mx = lam.max()
    if mx <= 0: return None
    supp = [j for j in range(len(cols)) if lam[j] > mx * 1e-12 and lam[j] * max(abs(float(v)) for v in cols[j].values()) > 1e-11]
    def ok(ls):
        tot = {}
        for j, l in zip(supp, ls):
            for m, v in cols[j].items(): tot[m] = tot.get(m, 0) + l * v
        if any(v for m, v in tot.items() if m): return False
        c = tot.get((), 0)
        if c < 0: return True
        return c == 0 and strict and any(strict[j] and l > 0 for j, l in zip(supp, ls))
    for den in (1, 12, 720, 10 ** 6):
        for ref in (mx, min(lam[j] for j in supp)):
            ls = [Fraction(lam[j] / ref).limit_denominator(den) for j in supp]
            if all(l >= 0 for l in ls) and ok(ls):
                STAT["cert"] += 1
                return [(j, l) for j, l in zip(supp, ls) if l]
    # exact elimination on the support
    monos = {}
    for j in supp:
        for m in cols[j]:
            if m: monos.setdefault(m, len(monos))
    n = len(supp)
    rows = [[Fraction(0)] * (n + 1) for _ in range(len(monos) + 1)]
    for c, j in enumerate(supp):
        for m, v in cols[j].items():
            if m: rows[monos[m]][c] = Fraction(v)
    big = max(range(n), key=lambda c: lam[supp[c]])
    rows[-1][big] = Fraction(1); rows[-1][n] = Fraction(1)
    piv, r = [], 0
    for c in range(n):
        p = next((i for i in range(r, len(rows)) if rows[i][c]), None)
        if p is None: continue
        rows[r], rows[p] = rows[p], rows[r]
        pv = rows[r][c]
        rows[r] = [x / pv for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c]:
                f = rows[i][c]
                rows[i] = [x - f * y for x, y in zip(rows[i], rows[r])]
        piv.append(c); r += 1
        if r == len(rows): break
    sol = [Fraction(lam[supp[c]] / lam[supp[big]]).limit_denominator(1000) for c in range(n)]
    free = [c for c in range(n) if c not in piv]
    for i, c in enumerate(piv):
        sol[c] = rows[i][n] - sum(rows[i][fc] * sol[fc] for fc in free)
    if all(s >= 0 for s in sol) and ok(sol):
        STAT["cert"] += 1
        return [(j, s) for j, s in zip(supp, sol) if s]
    STAT["uncert"] += 1
    return None

def relevant(facts, seed, limit, rounds=4):
    """facts sharing atoms with the seed, transitively, nearest first"""
    atoms = set(seed)
    chosen, left = [], list(range(len(facts)))
    fa = [f[0].atoms() for f in facts]
    for _ in range(rounds):
        new = [i for i in left if fa[i] & atoms]
        if not new: break
        new.sort(key=lambda i: len(fa[i] - atoms))
        for i in new:
            chosen.append(i)
            if len(chosen) >= limit: return chosen
        ns = set(new)
        left = [i for i in left if i not in ns]
        for i in new: atoms |= fa[i]
    return chosen

KID = -1                 # symbol for 2^31: keeps range constants out of the numerics
KLOW = (Poly({(KID,): 1, (): -4096}), False)      # the symbol stands for 2^23
def symbolic(p):
    c = p.t.get((), 0)
    if abs(c) < 1 << 22: return p
    k = round(Fraction(c) / (1 << 23))
    r = c - k * (1 << 23)
    if abs(r) > 1 << 14:
        if abs(c) < 1 << 26: return p
        k, r = -((-Fraction(c)) // (1 << 23)), 0      # weaker, but in the symbol
    if k == 0: return p
    t = dict(p.t)
    t.pop((), None)
    if r: t[()] = r
    t[(KID,)] = k
    return Poly(t)

def refute(facts, goals, nonneg, limit=60, maxrows=1200):
    """facts, goals: lists of (Poly, strict), all assumed >=0 (or >0); nonneg: set of atom ids known >= 0.
    goals are the negated goal(s): always included and multiplied too."""
    seed = set()
    for g, _ in goals: seed |= g.atoms()
    for g, s in goals:
        if g.isconst() and (g.cval() < 0 or (g.cval() == 0 and s)): return True
    seenf, fl = set(), []
    for p, s in facts:
        if p.isconst() and p.cval() >= 0 and not (s and p.cval() == 0): continue
        if (p, s) in seenf or any(abs(v) > BIG for v in p.t.values()): continue
        seenf.add((p, s)); fl.append((p, s))
    facts = fl
    idx = relevant(facts, seed, limit)
    base = [(symbolic(p), s) for p, s in list(goals) + [facts[i] for i in idx]]
    if any((KID,) in p.t for p, _ in base): base.append(KLOW)
    goals = base[:len(goals)]
    strict = [s for _, s in base]
    cols = [p.t for p, _ in base]
    # trivial contradiction among constants
    for p, s in base:
        if p.isconst() and p.t.get((), 0) < 0: return True
    # linear attempt first
    if _solve(cols, strict): return True
    # products
    monos = set()
    for p, _ in base:
        for m in p.t:
            if len(m) >= 2: monos.add(m)
    if not monos: return False
    D = max(len(m) for m in monos)
    mult = set()
    for m in monos:
        for a in set(m):
            if a in nonneg: mult.add((a,))
        if len(m) >= 3:
            ms = [a for a in m if a in nonneg]
            for i in range(len(ms)):
                for j in range(i + 1, len(ms)): mult.add((ms[i], ms[j]))
    rows, rs, seen = list(cols), list(strict), {frozenset(c.items()) for c in cols}
    known = set(monos)
    for depth in range(2):
        added = []
        for p, s in base:
            dp = p.degree()
            if dp == 0 or p is KLOW[0]: continue
            for mm in mult:
                if dp + len(mm) > D: continue
                q = p * Poly({tuple(sorted(mm)): 1})
                # at least one nonlinear monomial must matter
                nl = [m for m in q.t if len(m) >= 2]
                hit = sum(1 for m in nl if m in known)
                if hit == 0: continue
                k = frozenset(q.t.items())
                if k in seen: continue
                added.append((len(nl) - hit, len(q.t), q, k))
        added.sort(key=lambda x: (x[0], x[1]))
        for miss, _, q, k in added[: maxrows - len(rows)]:
            if k in seen: continue
            seen.add(k); rows.append(q.t); rs.append(False)
            for m in q.t:
                if len(m) >= 2: known.add(m)
        if _solve(rows, rs): return True
        if len(rows) >= maxrows: break
    # products of pairs of linear facts
    lin = [p for p, s in base if p.degree() == 1][:40]
    gl = [g for g, _ in goals]
    added = []
    for i, p in enumerate(lin):
        for q in lin[i:] + [g for g in gl if g.degree() >= 1]:
            r = p * q
            if r.degree() > max(D, 2): continue
            nl = [m for m in r.t if len(m) >= 2]
            if nl and all(m in known for m in nl):
                k = frozenset(r.t.items())
                if k not in seen: added.append((len(r.t), r, k))
    added.sort(key=lambda x: x[0])
    if added:
        for _, r, k in added[:200]:
            if k in seen: continue
            seen.add(k); rows.append(r.t); rs.append(False)
        if _solve(rows, rs): return True
    return False
