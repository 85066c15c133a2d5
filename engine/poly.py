"""Polynomials over interned atoms with exact rational coefficients."""
from fractions import Fraction
from math import gcd, floor

class Atom:
    __slots__ = ("id", "key", "isint", "lo", "hi", "name", "info")
    def __init__(self, id, key, isint, lo, hi, name, info):
        self.id, self.key, self.isint, self.lo, self.hi, self.name, self.info = id, key, isint, lo, hi, name, info
    def __repr__(self): return self.name

class Atoms:
    def __init__(self):
        self.by_key, self.all = {}, []
    def get(self, key, isint=True, lo=None, hi=None, name=None, info=None):
        a = self.by_key.get(key)
        if a is None:
            a = Atom(len(self.all), key, isint, lo, hi, name or str(key), info)
            self.all.append(a)
            self.by_key[key] = a
        return a

def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1: return c.numerator
    return c

class Poly:
    __slots__ = ("t", "_h")
    def __init__(self, t=None):
        self.t = t if t is not None else {}
        self._h = None
    @staticmethod
    def const(c): return Poly({(): _norm(c)} if c else {})
    @staticmethod
    def atom(a): return Poly({(a.id,): 1})
    def __add__(self, o):
        if not isinstance(o, Poly): o = Poly.const(o)
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v: r[m] = _norm(v)
            else: r.pop(m, None)
        return Poly(r)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o):
        if not isinstance(o, Poly): o = Poly.const(o)
        return self + (-o)
    def __rsub__(self, o): return Poly.const(o) - self
    def __mul__(self, o):
        if not isinstance(o, Poly):
            if not o: return Poly()
            return Poly({m: _norm(c * o) for m, c in self.t.items()})
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                v = r.get(m, 0) + c1 * c2
                if v: r[m] = v
                else: r.pop(m, None)
        return Poly({m: _norm(c) for m, c in r.items()})
    __rmul__ = __mul__
    def __eq__(self, o): return isinstance(o, Poly) and self.t == o.t
    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.t.items()))
        return self._h
    def isconst(self): return not self.t or (len(self.t) == 1 and () in self.t)
    def cval(self): return self.t.get((), 0)
    def atoms(self):
        s = set()
        for m in self.t: s.update(m)
        return s
    def degree(self): return max((len(m) for m in self.t), default=0)
    def single(self):
        """atom id if the polynomial is exactly one atom"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1: return m[0]
        return None
    def subst(self, mp):
        """mp: atom id -> Poly"""
        if not any(a in mp for m in self.t for a in m): return self
        r = Poly()
        for m, c in self.t.items():
            if any(a in mp for a in m):
                q = Poly.const(c)
                for a in m:
                    q = q * (mp[a] if a in mp else Poly({(a,): 1}))
                r = r + q
            else:
                r = r + Poly({m: c})
        return r
    def key(self): return tuple(sorted(self.t.items(), key=lambda kv: (len(kv[0]), kv[0])))
    def coef_split(self, a):
        """self = A*a + B with a not in A (None if degree in a > 1)"""
        A, B = {}, {}
        for m, c in self.t.items():
            n = m.count(a)
            if n == 0: B[m] = c
            elif n == 1:
                mm = list(m); mm.remove(a); A[tuple(mm)] = c
            else: return None, None
        return Poly(A), Poly(B)
    def show(self, atoms):
        if not self.t: return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda kv: (-len(kv[0]), kv[0])):
            s = "*".join(atoms.all[a].name for a in m)
            if not m: out.append(f"{c:+}" if isinstance(c, int) else f"+({c})")
            elif c == 1: out.append("+" + s)
            elif c == -1: out.append("-" + s)
            else: out.append((f"{c:+}" if isinstance(c, int) else f"+({c})") + "*" + s)
        r = " ".join(out)
        return r[1:] if r.startswith("+") else r

def tighten(p):
    """integer polynomial p >= 0: divide by the gcd of the non-constant coefficients"""
    den = 1
    for c in p.t.values():
        if isinstance(c, Fraction): den = den * c.denominator // gcd(den, c.denominator)
    if den != 1: p = p * den
    g = 0
    for m, c in p.t.items():
        if m: g = gcd(g, int(c))
    if g <= 1: return p
    r = {m: c // g for m, c in p.t.items() if m}
    k = floor(Fraction(p.cval(), g))
    if k: r[()] = k
    return Poly(r)
