"""Pure expressions over the bytes of a pixel: which bytes they read and the function they compute.

An expression is a tree of arithmetic instructions whose leaves are constants and loads from the
image argument.  The function of its (at most three) bytes is tabulated completely with numpy and
compared with the specified one, so the comparison does not depend on how the formula is written.
"""
import numpy as np
from ir import bits
ARITH = {"add", "sub", "mul", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "zext", "sext", "trunc", "freeze",
         "uitofp", "sitofp", "fptoui", "fptosi", "fadd", "fsub", "fmul", "fdiv", "fneg", "fpext", "fptrunc", "select", "icmp", "fcmp"}
CALLS = {"llvm.fmuladd.f32", "llvm.fmuladd.f64", "llvm.fma.f32", "llvm.fma.f64", "floor", "floorf", "ceil", "ceilf", "round", "roundf", "rint", "lrint", "lround",
         "llvm.floor.f64", "llvm.floor.f32", "llvm.ceil.f64", "llvm.ceil.f32", "llvm.round.f64", "llvm.round.f32", "llvm.umin.i32", "llvm.umax.i32", "llvm.smin.i32", "llvm.smax.i32",
         "llvm.umin.i8", "llvm.umax.i8", "fmin", "fmax", "llvm.minnum.f64", "llvm.maxnum.f64", "abs", "llvm.abs.i32"}
class Opaque(Exception): pass
FT = {"float": np.float32, "double": np.float64}

class Expr:
    def __init__(self, fa, arg):
        self.fa, self.f, self.arg = fa, fa.f, arg
        self._leaves = {}
    def leaves(self, o, d=0):
        """loads of the image an operand is computed from; None if it depends on anything else"""
        if o[0] in ("c", "f"): return frozenset()
        if o[0] != "i": return None
        if o[1] in self._leaves: return self._leaves[o[1]]
        i = self.f.insts[o[1]]
        r = None
        if i.op == "load":
            q = self.fa.ptr(i.ops[0])
            if q.base == ("arg", self.arg) and bits(i.ty) in (8, 16, 32): r = frozenset([i.id])
        elif (i.op in ARITH or i.op == "call" and i.callee in CALLS) and d < 60:
            r = frozenset()
            for x in i.ops:
                if not isinstance(x, list): continue
                l = self.leaves(x, d + 1)
                if l is None: r = None; break
                r = r | l
        self._leaves[o[1]] = r
        return r
    def users(self):
        if not hasattr(self, "_users"):
            self._users = {}
            for i in self.f.insts.values():
                if i.b not in self.f.reach: continue
                for k, o in enumerate(i.ops):
                    if i.op == "phi": o = o[0]
                    if isinstance(o, list) and o[0] == "i": self._users.setdefault(o[1], []).append((i, k))
        return self._users
    def roots(self):
        """instructions that are pure and have a user that is not: [(instruction, users)]"""
        out = []
        for i in self.f.insts.values():
            if i.b not in self.f.reach or not self.leaves(["i", i.id]): continue
            us = [(u, k) for u, k in self.users().get(i.id, []) if self.leaves(["i", u.id]) is None]
            if us: out.append((i, us))
        return out
    def residue(self, p, m):
        """p modulo m, None if not constant"""
        r = 0
        for mono, c in p.t.items():
            if not isinstance(c, int): return None
            if not mono or c % m == 0:
                if not mono: r += c
                continue
            # one atom that is a wrapped multiple (2^32, 2^64 are multiples of 4)
            if len(mono) != 1: return None
            d = self.fa.at(mono[0]).info or {}
            if "wrap" in d and (d["wrap"][2] - d["wrap"][1] + 1) % m == 0:
                x = self.residue(d["wrap"][0], m)
                if x is None: return None
                r += c * x; continue
            if self.fa.at(mono[0]).key[0] == "hphi":
                # a counter that advances by multiples of m
                ph = self.f.insts[self.fa.at(mono[0]).key[1]]
                x = self.phires(ph, m)
                if x is None: return None
                r += c * x; continue
            return None
        return r % m
    def phires(self, ph, m, busy=set()):
        if ph.id in busy: return None
        L = self.f.loops.get(ph.b)
        if L is None: return None
        busy.add(ph.id)
        try:
            res = None
            me = self.fa.A.by_key.get(("hphi", ph.id))
            for v, p in ph.ops:
                if p in L.latches:
                    q = (self.fa.ptr(v).off if ph.ty == "ptr" else self.fa.ring(v))
                    from poly import Poly
                    if me is None or self.residue(q - Poly.atom(me), m) != 0: return None
                else:
                    x = self.residue(self.fa.ptr(v).off if ph.ty == "ptr" else self.fa.ring(v), m)
                    if x is None or res is not None and res != x: return None
                    res = x
            return res
        finally: busy.discard(ph.id)
    def pixel(self, ls, stride):
        """({(load, byte): channel}, offset of channel 0 of the pixel, block) of one pixel, None if the loads are not all of one pixel"""
        ref, chans = None, {}
        for l in sorted(ls):
            i = self.f.insts[l]
            off = self.fa.ptr(i.ops[0]).off
            if ref is None:
                r = self.residue(off, stride)
                if r is None: return None
                ref = off - r; blk = i.b
            d = off - ref
            if not d.isconst() or not isinstance(d.cval(), int): return None
            for j in range(bits(i.ty) // 8):
                c = int(d.cval()) + j
                if not 0 <= c < stride: return None
                chans[(l, j)] = c
        return chans, ref, blk
    def used(self, o, chans):
        return sorted(set(chans.values()))
    def table(self, o, chans, vals, memo=None):
        """value of the expression, vals: channel -> array of uint64"""
        memo = {} if memo is None else memo
        if o[0] == "c":
            n = int(o[2]) if len(o) > 2 else 64
            return np.uint64(int(o[1]) % (1 << n))
        if o[0] == "f": return np.float64(float(o[1]))
        if o[1] in memo: return memo[o[1]]
        i = self.f.insts[o[1]]
        memo[o[1]] = r = self.inst(i, chans, vals, memo)
        return r
    def inst(self, i, chans, vals, memo):
        n = bits(i.ty) if i.ty not in FT else 0
        if i.op == "load":
            r = np.uint64(0)
            for j in range(n // 8): r = r | (vals[chans[(i.id, j)]] << np.uint64(8 * j))
            return r
        ops = [x for x in i.ops if isinstance(x, list) and x[0] in ("i", "c", "f")]
        a = [self.table(x, chans, vals, memo) for x in ops]
        msk = np.uint64((1 << n) - 1) if n else None
        wid = lambda k: self.fa.nbits(ops[k])
        def sg(x, w):
            return (x << np.uint64(64 - w)).astype(np.int64) >> np.int64(64 - w) if isinstance(x, np.ndarray) else np.int64(int(x) - (1 << w) if int(x) >> (w - 1) & 1 else int(x))
        un = lambda x: np.asarray(x).astype(np.int64).astype(np.uint64) & msk
        op = i.op
        if op in ("add", "sub", "mul", "and", "or", "xor"):
            f = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "and": np.bitwise_and, "or": np.bitwise_or, "xor": np.bitwise_xor}[op]
            return f(np.asarray(a[0]), np.asarray(a[1])) & msk
        if op == "shl": return (np.asarray(a[0]) << a[1]) & msk
        if op == "lshr": return np.asarray(a[0]) >> a[1]
        if op == "ashr": return un(np.asarray(sg(a[0], n)) >> np.asarray(a[1]).astype(np.int64))
        if op in ("udiv", "urem"):
            if (np.asarray(a[1]) == 0).any(): raise Opaque("division by zero")
            return np.asarray(a[0]) // a[1] if op == "udiv" else np.asarray(a[0]) % a[1]
        if op in ("sdiv", "srem"):
            x, y = np.asarray(sg(a[0], n)), np.asarray(sg(a[1], n))
            if (y == 0).any(): raise Opaque("division by zero")
            q = np.trunc(x / y).astype(np.int64)
            return un(q if op == "sdiv" else x - q * y)
        if op in ("zext", "freeze"): return a[0]
        if op == "trunc": return np.asarray(a[0]) & msk
        if op == "sext": return un(sg(a[0], wid(0)))
        if i.ty in FT:
            t = FT[i.ty]
            if op == "uitofp": return np.asarray(a[0]).astype(t)
            if op == "sitofp": return np.asarray(sg(a[0], wid(0))).astype(t)
            fl = [np.asarray(x).astype(t) if op not in ("fpext", "fptrunc") else np.asarray(x) for x in a]
            if op == "fadd": return fl[0] + fl[1]
            if op == "fsub": return fl[0] - fl[1]
            if op == "fmul": return fl[0] * fl[1]
            if op == "fdiv":
                with np.errstate(all="ignore"): return fl[0] / fl[1]
            if op == "fneg": return -fl[0]
            if op in ("fpext", "fptrunc"): return fl[0].astype(t)
            if op == "call":
                c = i.callee.replace("llvm.", "").split(".")[0].rstrip("f") if not i.callee.startswith("llvm.f") else i.callee.split(".")[1]
                if c in ("fmuladd", "fma"): return (fl[0].astype(np.float64) * fl[1].astype(np.float64) + fl[2].astype(np.float64)).astype(t) if t is np.float32 else fl[0] * fl[1] + fl[2]
                if c in ("floor", "floo"): return np.floor(fl[0])
                if c == "ceil": return np.ceil(fl[0])
                if c == "round": return np.trunc(fl[0] + np.copysign(t(0.5), fl[0]))
                if c == "rint": return np.rint(fl[0])
        if op in ("fptoui", "fptosi"):
            x = np.asarray(a[0])
            if not np.isfinite(x).all() or (x <= -1).any() and op == "fptoui" or (np.abs(x) > 2 ** 31).any(): raise Opaque("conversion")
            return np.trunc(x).astype(np.int64).astype(np.uint64) & msk
        if op == "call" and i.callee in ("lround", "lrint"):
            x = np.asarray(a[0]); return un(np.rint(x) if i.callee == "lrint" else np.trunc(x + np.copysign(0.5, x)))
        if op == "call" and ("min" in i.callee or "max" in i.callee) and n:
            s = ".s" in i.callee
            x, y = (np.asarray(sg(v, n)) if s else np.asarray(v) for v in a[:2])
            r = np.minimum(x, y) if "min" in i.callee else np.maximum(x, y)
            return un(r) if s else r
        if op == "icmp":
            w = wid(0); p = i.d["pred"]
            x, y = (np.asarray(sg(v, w)) if p[0] == "s" else np.asarray(v) for v in a)
            k = p if p in ("eq", "ne") else p[1:]
            r = {"eq": np.equal, "ne": np.not_equal, "lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal}[k](x, y)
            return r.astype(np.uint64)
        if op == "select": return np.where(np.asarray(a[0]).astype(bool), a[1], a[2])
        raise Opaque(op)
    def compare(self, o, chans, spec, need):
        """None if the expression equals spec(r, g, b) for all bytes, else the first (r, g, b[, a]) where it differs"""
        g, b = np.meshgrid(np.arange(256, dtype=np.uint64), np.arange(256, dtype=np.uint64), indexing="ij")
        g, b = g.ravel(), b.ravel()
        extra = [c for c in set(chans.values()) if c > 2]
        n = 256
        for r in range(256):
            rr = np.full(g.shape, r, dtype=np.uint64)
            for alpha in ((0, 1, 128, 255) if extra else (0,)):
                vals = {0: rr, 1: g, 2: b, 3: np.full(g.shape, alpha, dtype=np.uint64)}
                v = self.table(o, chans, vals)
                s = spec(rr, g, b)
                v = np.broadcast_to(np.asarray(v), s.shape)
                bad = np.nonzero(v.astype(np.float64) != s.astype(np.float64))[0]
                if len(bad): k = bad[0]; return (r, int(g[k]), int(b[k])) + ((alpha,) if extra else ()), v[k], s[k]
        return None
def luma(r, g, b): return (r * np.uint64(76) + g * np.uint64(150) + b * np.uint64(30)) >> np.uint64(8)
