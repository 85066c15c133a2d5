"""C08: pixel format (opaque alpha, equal grey channels, binary values)."""
import time
import irbuild
from ir import Module, bits
from contracts import CT
from par import pmap
from poly import Poly
from moves import No, Unknown, memop
from target import argix
from expr import Expr
from soft import Soft, bytemem
from checks.c09 import Init
import cover
C = Poly.const
OPS = {"fcv_grayscale": "alpha grey", "fcv_grayscale_stretch": "alpha grey", "fcv_otsu_threshold_rgba": "alpha grey", "fcv_bw_smart": "alpha grey", "fcv_single_to_multichannel": "alpha grey",
       "fcv_apply_gaussian_blur": "alpha", "fcv_resize": "alpha", "fcv_watershed_segmentation": "alpha", "fcv_generate_histogram": "alpha",
       "fcv_binary_erosion_disk": "binary", "fcv_binary_dilation_disk": "binary", "fcv_binary_closing_disk": "binary", "fcv_binary_opening_disk": "binary", "fcv_convert_to_binary": "binary",
       "fcv_apply_global_threshold": "binary"}
BIN = frozenset((0, 255))

PIX = (0, 255, 128, 251, 127, 5)
class Own(Soft):
    """evaluation with the contents the block had before"""
    initial = None
    def touched(self, i, o, n, env):
        for j in range(n):
            if o + j not in self.out:
                if self.initial is None: self.unset.append((i, o, env)); return
                self.out[o + j] = (self.initial(o + j), None)
    def value(self, ev, env, n):
        try: return super(Soft, self).value(ev, env, n)
        except (Unknown, No, KeyError, TypeError): return [("?", str(ev.ins.ops[0]) if ev.ins.op == "store" else ev.ins.id, j) + tuple(sorted(env.items())) for j in range(n)]

class Format(Init):
    def __init__(self, name, light=False):
        super().__init__(name, (), light)
        self.ex = Expr(self.fa, argix(name, "data") if "data" in self.ct.names else -1)
        self.want = OPS[name].split()
        self.inplace = self.ct.kind == "inplace"
    # ---------------------------------------------------------------- values
    def vals(self, o, n, d=0):
        """finite set of values of an operand of n bits, None if unknown"""
        M = (1 << n) - 1
        if o[0] == "c": return frozenset((int(o[1]) & M,))
        if o[0] != "i" or d > 30: return None
        if o[1] in self.memo: return self.memo[o[1]]
        self.memo[o[1]] = None
        r = self._vals(self.fa.f.insts[o[1]], n, d)
        self.memo[o[1]] = r
        return r
    def _vals(self, i, n, d):
        fa, M = self.fa, (1 << n) - 1
        def w(o): return 1 if o[0] == "i" and fa.f.insts[o[1]].op in ("icmp", "fcmp") else fa.nbits(o)
        if i.op in ("icmp", "fcmp"): return frozenset((0, 1))
        if i.op == "phi":
            out, todo, seen = frozenset(), [i], set()
            while todo:
                p = todo.pop()
                if p.id in seen: continue
                seen.add(p.id)
                for v, _ in p.ops:
                    if v[0] == "u": continue
                    if v[0] == "i" and fa.f.insts[v[1]].op == "phi": todo.append(fa.f.insts[v[1]]); continue
                    s = self.vals(v, n, d + 1)
                    if s is None: return None
                    out |= s
            return out if len(out) <= 256 else None
        if i.op == "select":
            a, b = self.vals(i.ops[1], n, d + 1), self.vals(i.ops[2], n, d + 1)
            return None if a is None or b is None else a | b
        if i.op in ("zext", "trunc", "freeze"):
            s = self.vals(i.ops[0], w(i.ops[0]) or n, d + 1)
            return None if s is None else frozenset(x & M for x in s)
        if i.op == "sext":
            m = w(i.ops[0])
            s = self.vals(i.ops[0], m, d + 1)
            return None if s is None or not m else frozenset(((x ^ 1 << m - 1) - (1 << m - 1)) & M for x in s)
        if i.op == "load":
            if n == 8 and fa.ptr(i.ops[0]).base == self.base and "binary" in self.want and not self.inplace: return BIN
            return frozenset(range(256)) if n == 8 else None
        if i.op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "udiv", "urem", "ashr"):
            a, b = self.vals(i.ops[0], n, d + 1), self.vals(i.ops[1], n, d + 1)
            if a is None or b is None or len(a) * len(b) > 70000: return None
            sg = lambda x: (x ^ 1 << n - 1) - (1 << n - 1)
            f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y,
                 "shl": lambda x, y: x << y if y < n else 0, "lshr": lambda x, y: x >> y if y < n else 0, "ashr": lambda x, y: sg(x) >> y if y < n else 0,
                 "udiv": lambda x, y: x // y if y else 0, "urem": lambda x, y: x % y if y else 0}[i.op]
            r = frozenset(f(x, y) & M for x in a for y in b)
            return r if len(r) <= 256 else None
        return None
    def evvals(self, e, cl):
        """values the event stores at bytes of a class (0..3, None: any)"""
        v = e.val
        if e.kind == "memset":
            o = e.ins.ops[1]
            s = self.vals(o, self.fa.nbits(o) or 32)
            return None if s is None else frozenset(x & 255 for x in s)
        if e.kind != "store": return None
        k = e.elem
        s = self.vals(e.ins.ops[0], 8 * k)
        if s is None: return None
        r = self.ex.residue(e.off, 4)
        js = range(k) if cl is None or r is None else [j for j in range(k) if (r + j) % 4 == cl]
        return frozenset((x >> 8 * j) & 255 for x in s for j in js)
    def classes(self, e):
        """possible positions modulo 4 of the bytes written"""
        r = self.ex.residue(e.off, 4)
        n = int(e.len.cval()) if e.len.isconst() else 4
        span = 0
        if r is None:
            try: nest, off, ln, v = self.mv.closed(e)
            except No: return {0, 1, 2, 3}
            for L, T in nest:
                A, B = off.coef_split(self.mv.it(L).id)
                if A is None: return {0, 1, 2, 3}
                if self.ex.residue(A, 4) == 0: off = B; continue
                if not (A.isconst() and T.isconst() and isinstance(A.cval(), int) and 0 < A.cval()): return {0, 1, 2, 3}
                span += A.cval() * (T.cval() - 1); off = B
            r = self.ex.residue(off, 4)
            if r is None: return {0, 1, 2, 3}
        return {(r + k) % 4 for k in range(min(int(span) + n, 4))}
    # ---------------------------------------------------------------- proofs
    def blk(self, base): return self.fa.f.insts[base[1]].b if base[0] in ("heap", "ret") else 0
    def alpha(self, base, size, target):
        mv, f = self.mv, self.fa.f
        good, other = [], []
        for e in mv.events(base):
            if 3 not in self.classes(e): continue
            (good if self.evvals(e, 3) == frozenset((255,)) else other).append(e)
        if not good and base[0] == "heap": return f"alpha written at {other[0].loc()} is not the constant 255" if other else "no alpha store"
        for e in other:
            # overwritten later: never runs after an alpha store
            seen, st = set(), [s for g in good for s in f.succ[g.ins.b]]
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x); st.extend(f.succ[x])
            if not good or e.ins.b in seen or any(g.ins.b == e.ins.b and g.ins.idx < e.ins.idx for g in good): return f"alpha written at {e.loc()} is not the constant 255"
        if base[0] == "ret" and not other: return None
        if size is None: return "block size"
        boxes = []
        for o, n, nest, us in cover.buckets(mv, good):
            if n == C(1) and self.ex.residue(o, 4) not in (3, None): continue
            if not mv.always([u.b for u in us], self.blk(base), target): continue
            try: x = cover.boxof(mv, o, n, nest, us[0].ev)
            except No: continue
            if any(self.ex.residue(A, 4) != 0 for A, T, s in x.digits): continue
            r = self.ex.residue(x.off, 4)
            if n == C(1) and r == 3: x.off = x.off - 3
            elif r == 0 and self.ex.residue(x.len, 4) == 0: x.len = x.len * quarter()
            else: continue
            x.off = x.off * quarter(); x.digits = [(A * quarter(), T, s) for A, T, s in x.digits]
            boxes.append(x)
        return cover.anysubset(mv, boxes, size * quarter())
    def grey(self, base, size, target):
        mv, fa, f = self.mv, self.fa, self.fa.f
        groups = {}
        for e in mv.events(base):
            cl = self.classes(e)
            if cl == {3}: continue
            if e.kind == "memset":
                continue
            if e.kind != "store" or e.elem != 1: return f"{e.loc()}: not a byte store"
            r = self.ex.residue(e.off, 4)
            off = mv.norm(e.off, e.ins.b) if self.closedok(e) else e.off
            if r is None:
                # a loop over the three channels
                nest = mv.nest(e.ins.b)
                if not nest: return f"{e.loc()}: position"
                L, T = nest[-1]
                A, B = off.coef_split(mv.it(L).id)
                if A != C(1) or T != C(3) or self.ex.residue(B, 4) != 0 or not cover.once(mv, [e.ins.b], L): return f"{e.loc()}: not a loop over the three channels"
                o = self.strip(e.ins.ops[0])
                if o[0] == "i" and f.insts[o[1]].b in L.blocks and not self.invariant(f.insts[o[1]], L): return f"{e.loc()}: the value may depend on the channel"
                continue
            if r == 3: continue
            groups.setdefault((e.ins.b, (off - r).key()), {}).setdefault(r, []).append(e)
        for g in groups.values():
            last = {r: max(es, key=lambda e: e.ins.idx) for r, es in g.items()}
            if set(last) != {0, 1, 2}: return f"{next(iter(last.values())).loc()}: not all three channels are written together"
            ks = {r: self.vkey(e) for r, e in last.items()}
            if len(set(ks.values())) != 1: return f"{last[0].loc()}: the channels get different values"
        if not groups and base[0] == "heap" and not mv.events(base): return "no store"
        return None
    def closedok(self, e):
        try: self.mv.norm(e.off, e.ins.b); return True
        except No: return False
    def invariant(self, i, L, d=0):
        if i.b not in L.blocks: return True
        if d > 10 or i.op == "phi": return False
        if i.op == "load":
            q = self.fa.ptr(i.ops[0])
            if q.base == self.base: return False
        elif i.op == "call": return False
        return all(self.invariant(self.fa.f.insts[o[1]], L, d + 1) for o in i.ops if isinstance(o, list) and o[0] == "i")
    def strip(self, o):
        while o[0] == "i" and self.fa.f.insts[o[1]].op == "freeze": o = self.fa.f.insts[o[1]].ops[0]
        return o
    def vkey(self, e):
        v = e.val
        if v[0] == "copy":
            try: return ("copy", v[1], self.mv.norm(v[2], v[3].b).key())
            except No: return ("copy", v[1], v[2].key())
        if v[0] == "const": return ("const", v[1])
        if v[0] == "val": return ("val", v[1].key())
        return ("op", str(self.strip(e.ins.ops[0])))
    def binary(self, base, size, target):
        mv = self.mv
        for e in mv.events(base):
            s = self.evvals(e, None)
            if s is None or not s <= BIN: return f"{e.loc()}: the value is not proven to be 0 or 255"
        if base[0] == "ret": return None
        if size is None: return "block size"
        if base[0] == "heap" and self.fa.f.insts[base[1]].callee == "calloc": return None
        return cover.covered(mv, base, size, target)
    # ---------------------------------------------------------------- refutation
    def bad(self, get, size, kind):
        """first byte that breaks the format: (position, text, event)"""
        def val(p): return get(p)
        for p in range(size):
            x = val(p)
            if x is None: continue                     # never written: C09
            v, e = x
            if kind == "binary" and isinstance(v, int) and v not in BIN: return p, f"is {v}", e
            if kind == "alpha" and p % 4 == 3 and isinstance(v, int) and v != 255: return p, f"(alpha) is {v} instead of 255", e
            if kind == "grey" and p % 4 == 0:
                q = [val(p + k) for k in range(3)]
                if None in q: continue
                if all(isinstance(y[0], int) for y in q) and len({y[0] for y in q}) > 1: return p, f"to {p + 2} are {q[0][0]}, {q[1][0]}, {q[2][0]}: not a grey", q[1][1] or e
        return None
    def refuted(self, base, target, kind):
        if (base, kind, target) not in self.tried: self.tried[base, kind, target] = self.refute(base, target, kind)
        return self.tried[base, kind, target]
    def refute(self, base, target, kind):
        evs = self.mv.events(base)
        src = argix(self.name, "data") if "data" in self.ct.names else None
        end, last, tried = time.time() + 40, None, 0
        fs = self.size(base)
        limit = 1500000 if fs is not None and fs.isconst() and 600000 > fs.cval() > 6000 else 60000
        consts = sorted({int(o[1]) for i in self.fa.f.insts.values() if i.op == "icmp" and i.b in self.fa.f.reach for o in i.ops if o[0] == "c"})[:8]
        pools = ((0, 255) + (0,) * 15, (0, 255), (1, 0, 7), (5,), tuple(consts) or (3,), tuple(c - 1 for c in consts) or (4,))
        envs = [e for e in self.grid() if not ("r" in e and e["r"] < 1)]
        for _, k, env in sorted(((i + 2 * k, k, e) for i, e in enumerate(envs) for k in range(len(pools))), key=lambda x: x[:2]):
            if time.time() > end: break
            pool = pools[k]
            mem = self.bytes(src, k)
            t = Own(self.mv, self.argsof(env), mem, pool)
            if base[0] == "arg": t.initial = lambda o: mem(base, o, 1)
            elif base[0] == "ret": t.initial = lambda o: 255 if o % 4 == 3 else PIX[o // 4 % 6] if kind == "grey" else 0
            elif self.fa.f.insts[base[1]].callee == "calloc": t.initial = lambda o: 0
            t.deadline = min(end, time.time() + 12)
            try:
                got = t.writes(evs, self.blk(base), target, limit=limit) if evs else {}
                t.nofree = 1
                size = t.poly(self.mv.norm(fs, self.blk(base)), {})
            except (Unknown, No) as e: last = e; continue
            if not isinstance(size, int): continue
            tried += 1
            def get(p):
                if p in got: return got[p]
                return (t.initial(p), None) if t.initial is not None else None
            w = self.bad(get, size, kind)
            if w:
                desc = ", ".join(f"{k}={v}" for k, v in env.items())
                return (w[2] or (evs[0] if evs else None)).loc() if (w[2] or evs) else self.fa.f.file, f"{self.name}: byte {w[0]} of the result {w[1]} for {desc}"
        if not tried and last is not None: raise Unknown(str(last))
        return None
    def bytes(self, src, k):
        """image contents: hashed bytes mixed with the extreme ones and those the operation compares with"""
        mem = bytemem(src, k)
        def get(base, off, n):
            if n == 1 and base == ("arg", src) and isinstance(off, int):
                v = mem(base, off, 1)
                return PIX[v % 6] if v % 5 < 3 else v
            return mem(base, off, n)
        return get
    def size(self, base):
        if base[0] == "arg":
            return self.v("n") if "n" in self.ct.names else self.v("w") * self.v("h")
        return self.fa.size_of(base)
    def fromimage(self, base):
        """alpha stores whose value is computed from the image"""
        for e in self.mv.events(base):
            if self.classes(e) != {3} or e.kind != "store": continue
            seen, st = set(), [e.ins.ops[0]]
            while st:
                o = st.pop()
                if not isinstance(o, list) or o[0] != "i" or o[1] in seen: continue
                seen.add(o[1])
                i = self.fa.f.insts[o[1]]
                if i.op == "load" and self.fa.ptr(i.ops[0]).base[0] == "arg": return e
                if i.op in ("load", "icmp", "fcmp"): continue
                st.extend(x[0] if i.op == "phi" else x for x in (i.ops[1:] if i.op == "select" else i.ops))
        return None
    def positive(self, b):
        """may the block return its result for a positive radius?"""
        if self.name != "fcv_apply_gaussian_blur": return True
        try: return not self.fa.prove(-self.v("r"), b)
        except (No, KeyError): return True
    def decide(self, refute):
        """[(kind, 'proved' | 'violation' | 'undecided', location, text)]"""
        out = []
        self.tried = {}
        if self.inplace: todo = [(0, ("arg", argix(self.name, "data")), None)]
        else:
            todo = []
            for b, q in self.results():
                if (b, q.base) not in [(x, y) for x, y, _ in todo]: todo.append((b, q.base, b))
        for b, base, target in todo:
            if not self.inplace and not self.positive(self.blk(base)): continue
            if base[0] == "null": continue
            loc = self.fa.f.insts[base[1]].loc() if base[0] in ("heap", "ret") else self.fa.f.file
            for kind in self.want:
                self.base, self.memo = base, {}
                why = None
                if base[0] == "ret":
                    c = self.fa.f.insts[base[1]].callee
                    if kind not in OPS.get(c, ""): why = f"result of {c}"
                elif base[0] not in ("heap", "arg") or base[0] == "arg" and not self.inplace: why = f"returned block is not allocated here ({base[0]})"
                if why is None:
                    try: why = getattr(self, kind)(base, self.size(base), target)
                    except No as e: why = str(e)
                if why is None: out.append((kind, "proved", loc, "")); continue
                w = None
                if refute:
                    try: w = self.refuted(base, target, kind)
                    except (No, Unknown) as e: why += f" [{e}]"
                    if w is None and kind == "alpha":
                        try: e = self.fromimage(base)
                        except No: e = None
                        if e is not None: w = e.loc(), f"{self.name}: the alpha byte is computed from the image"
                out.append((kind, "violation", w[0], w[1] + f" ({why})") if w else (kind, "undecided", loc, why))
        return out

def quarter():
    from fractions import Fraction
    return C(Fraction(1, 4))
def jobs():
    m = Module(irbuild.view("num"))
    return [n for n in OPS if n in m.raw and n in CT]
def one(name):
    r = []
    for light, refute in ((True, False), (False, False), (False, True)):
        if not refute: t = Format(name, light)
        r = t.decide(refute)
        if r and (all(x[1] == "proved" for x in r) or any(x[1] == "violation" for x in r)): break
    return r
def run(ctx):
    ctx.level = "other"
    ctx.rule = ("alpha: every store that can reach a byte 3 (mod 4) of the result stores 255 or is overwritten later, and these stores cover all such bytes (counting argument); "
                "grey: the stores of one basic block write the same value to the three channels of a pixel, so equality of the channels is an invariant; "
                "binary: every stored value comes from the set {0, 255} (finite value sets) and every byte is stored; results of a callee by the callee's own obligation; "
                "an unproven obligation is a violation when the closed forms give a wrong byte at a small size, and is listed as undecided otherwise")
    ctx.assume = ["blur with a positive radius", "images of at most 2^31-1 bytes"]
    for name, res, err in pmap(one, jobs(), 300 if ctx.tier == "quick" else 800):
        ctx.count("functions")
        if err: ctx.undecided.append(f"{name}: {err.strip().splitlines()[-1]}"); continue
        for kind, verdict, loc, text in res:
            ctx.count("obligations")
            if verdict == "proved": ctx.count("proved")
            elif verdict == "violation": ctx.violation(f"{name}:{kind}", loc, text)
            else: ctx.undecided.append(f"{name} {kind} {loc}: {text}")
        ctx.sample(f"{name}: " + ", ".join(f"{x[0]} {x[1]}" for x in res))
    ctx.need("obligations", 8)
