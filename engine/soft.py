"""Evaluation of the extracted closed forms at small sizes when some values are only known at run time.

Values that depend on a search over the image, on other blocks or on floating point routines are chosen
freely (consistently: the same value everywhere in one run); they never decide where a byte is written.
"""
import zlib
from fractions import Fraction
from math import floor, ceil
from poly import Poly
from ir import bits
from moves import Tab, No, Unknown

class Soft(Tab):
    skiploops = True
    soft = True
    def __init__(self, mv, args, mem, pool=(0, 255), free=None):
        super().__init__(mv, args, mem)
        self.free = {} if free is None else free
        self.pool, self.nofree = pool, 0
        self.unset = []
    def pick(self, key):
        if self.nofree: raise Unknown("choice")
        return self.free.setdefault(key, self.pool[len(self.free) % len(self.pool)])
    def tainted(self, i): return False
    def atom(self, a, env):
        if a in env: return env[a]
        x = self.fa.at(a)
        d = x.info or {}
        if "fdiv" in d:
            n, m = (self.poly(q, env) for q in d["fdiv"])
            if m == 0:
                return self.pick(("fdiv", a))
            return Fraction(n) / Fraction(m)
        if "floor" in d: return floor(self.poly(d["floor"], env))
        if "ceil" in d: return ceil(self.poly(d["ceil"], env))
        try: return super().atom(a, env)
        except (Unknown, No):
            if x.key[0] == "arg" or x.key[0] == "entry": raise
            i = d["load"] if "load" in d else self.f.insts.get(x.key[1]) if len(x.key) > 1 and isinstance(x.key[1], int) else None
            if i is None or self.tainted(i): raise
            v = self.pick((a,) + tuple(sorted(env.items())) if i.op == "load" else a)
            n = bits(i.ty) if i.ty not in ("float", "double") else 64
            return v % (1 << n) if n and n < 64 else v
    def cond(self, c, env):
        try: return super().cond(c, env)
        except (Unknown, No):
            if c[0] != "i": raise
            i = self.f.insts[c[1]]
            if i.op == "fcmp":
                try: x, y = (self.poly(self.mv.normsoft(self.fa.real(o), i.b), env) for o in i.ops[:2])
                except (Unknown, No, TypeError): x = None
                if x is not None:
                    k = i.d["pred"]
                    if k in ("ord", "uno"): return k == "ord"
                    return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[k[1:]]
            if i.op in ("icmp", "fcmp") and not self.choosable(i): raise
            return bool(self.pick(("cond", c[1])) % 2)
    def choosable(self, i): return False
    def where(self, ev, b, env):
        self.nofree += 1
        try: return super().where(ev, b, env)
        finally: self.nofree -= 1
    def value(self, ev, env, n):
        try: return super().value(ev, env, n)
        except (Unknown, No, KeyError): return [("?", ev.ins.id, j) + tuple(sorted(env.items())) for j in range(n)]
    def touched(self, i, o, n, env):
        if any(o + j not in self.out for j in range(n)): self.unset.append((i, o, env))

def _byte(k, seed):
    h = zlib.crc32(b"%d %d" % (k, seed)) >> 7
    return (h & 255, h & 255, 0, 255)[h >> 8 & 3]
def bytemem(src, seed=0, own=None):
    """memory contents: the image argument 'src' and everything else by a hash of place and seed"""
    def mem(base, off, n):
        if not isinstance(off, int): raise Unknown("offset")
        if src is not None and base == ("arg", src):
            return sum(_byte(off + j, seed) << (8 * j) for j in range(n))
        raise Unknown(f"memory {base[0]}")
    return mem
