"""Which bytes of a freshly allocated block are written, in which loops, from where.

Every store into the block becomes an event: offset, length and value as polynomials in
the arguments and in one iteration number per enclosing counted loop (closed forms of all
loop variables, exact trip counts).  Coverage and pixel maps are decided on these events by
a mixed radix argument: a digit (stride c, count T) whose stride equals the length of the
run covered so far extends the run to c*T bytes, without gap or overlap.
"""
import copy
import time
from fractions import Fraction
from poly import Poly
from ir import bits
from fa import FA, Ptr
C = Poly.const

def lead(p):
    return max(p.t, key=lambda m: (len(m), m))
def pdiv(a, b):
    """exact quotient of two polynomials, None if there is a remainder"""
    if not b.t: return None
    q = Poly()
    lb = lead(b); cb = b.t[lb]
    n = 0
    while a.t and n < 60:
        n += 1
        la = lead(a)
        m = list(la)
        for x in lb:
            if x not in m: return None
            m.remove(x)
        t = Poly({tuple(m): _n(Fraction(a.t[la]) / Fraction(cb))})
        q = q + t
        a = a - t * b
    return q if not a.t else None
def _n(c):
    return c.numerator if isinstance(c, Fraction) and c.denominator == 1 else c

class No(Exception): pass

def memop(i):
    """memcpy | memmove | memset for a (possibly intrinsic) call"""
    c = i.callee or ""
    for k in ("memcpy", "memmove", "memset"):
        if c == k or c.startswith("llvm." + k) or c == f"__{k}_chk": return k
    return None

class Event:
    __slots__ = ("ins", "base", "off", "len", "kind", "val", "nest", "elem")
    def __init__(self, **k):
        for a in self.__slots__: setattr(self, a, k.get(a))
    def loc(self): return self.ins.loc()

class Box:
    """bytes off + sum(coef_i * n_i) + [0, len), 0 <= n_i < T_i; src: same with source coefficients"""
    def __init__(self, off, ln, digits, src=None, evs=()):
        self.off, self.len, self.digits, self.src, self.evs = off, ln, digits, src, list(evs)
    def key(self): return tuple(sorted((d[0].key(), d[1].key(), d[2].key() if d[2] is not None else None) for d in self.digits))

class Moves:
    def __init__(self, fa):
        self.fa, self.f = fa, fa.f
        self._rel, self._trip, self._busy = {}, {}, set()
        self.lax = False        # evaluation at small sizes: loop counters do not wrap
    # ------------------------------------------------------------------ loops
    def it(self, L): return self.fa.A.get(("it", L.header), True, 0, (1 << 63) - 1, f"n{L.header}", {"defb": L.header, "it": L})
    def goodrets(self):
        """[(return block or edge source, pointer operand)] for every non-null value returned"""
        out = []
        self.retedge = {}
        for b in self.f.reach:
            t = self.f.blocks[b][-1]
            if t.op != "ret" or not t.ops: continue
            self._ret(t.ops[0], b, out, set())
        return out
    def _ret(self, o, b, out, seen):
        if o[0] == "n": return
        if o[0] == "i":
            i = self.f.insts[o[1]]
            if i.op == "phi" and i.id not in seen:
                seen.add(i.id)
                for v, p in i.ops:
                    if p in self.f.reach:
                        self.retedge[p] = i.b
                        self._ret(v, p, out, seen)
                return
            if i.op == "select":
                self._ret(i.ops[1], b, out, seen); self._ret(i.ops[2], b, out, seen); return
            if i.op in ("bitcast", "freeze"): return self._ret(i.ops[0], b, out, seen)
        out.append((b, o))
    def good(self):
        """blocks from which a non-null return is still reachable"""
        if not hasattr(self, "_good"):
            g = {b for b, o in self.goodrets()}
            if not any(self.f.blocks[b][-1].op == "ret" and self.f.blocks[b][-1].ops for b in self.f.reach):
                g = {b for b in self.f.reach if self.f.blocks[b][-1].op == "ret"}
            st = list(g)
            # the shared return block itself is reachable from failing paths too: walk back from the good sources only
            while st:
                x = st.pop()
                for p in self.f.pred[x]:
                    if p not in g: g.add(p); st.append(p)
            self._good = g
        return self._good
    def trip(self, L):
        """(exact number of completed bodies as polynomial over outer atoms, block of the exit test) or raises No"""
        if L.header in self._trip:
            r = self._trip[L.header]
            if isinstance(r, No): raise r
            return r
        if ("t", L.header) in self._busy: raise No("cyclic trip count")
        self._busy.add(("t", L.header))
        try: r = self._trip[L.header] = self._tripc(L)
        except No as e:
            self._trip[L.header] = e; raise
        finally: self._busy.discard(("t", L.header))
        return r
    def _tripc(self, L):
        f, fa = self.f, self.fa
        if L.preheader is None or len(L.latches) != 1: raise No("loop shape")
        lat = L.latches[0]
        ex = [(b, s) for b, s in L.exits if s in self.good()]
        if len(ex) != 1: raise No("several exits")
        e, s = ex[0]
        t = f.blocks[e][-1]
        if t.op != "br" or not t.ops: raise No("exit test")
        cond = t.ops[0]
        cont = t.d["succ"][0] in L.blocks
        if e != L.header and e != lat:
            # a test that every iteration reaches before anything after it
            if not f.dominates(e, lat) or f.loopof[e] is not L: raise No("exit in the middle")
        p, eq = self.cmp_poly(cond, cont, e)
        rel = self.relsub(p, L)
        n = self.it(L)
        A, B = rel.coef_split(n.id)
        if A is None or not self.inv(A, L) or not self.inv(B, L): raise No("exit test not affine")
        if eq:
            q = pdiv(-B, A) if A.t else None
            if q is None: raise No("exit by equality")
            T = q
        else:
            k = -A
            q = pdiv(B + 1, k) if k.t else None
            if q is not None and all(isinstance(c, int) for c in q.t.values()) and (k.isconst() and k.cval() > 0 or fa.prove(k - 1, L.preheader)): T = q
            elif k.isconst() and k.cval() > 0:
                k = int(k.cval())
                if B.isconst(): T = C(max(0, int(B.cval()) // k + 1))
                else:
                    # floor(B/k) + 1
                    r = {m: c for m, c in B.t.items()}
                    if all(isinstance(c, int) and c % k == 0 for m, c in r.items() if m):
                        T = Poly({m: c // k for m, c in r.items() if m}) + (int(B.cval()) // k + 1)
                    else: T = fa.divatom(B + 1 + (k - 1), C(k), L.preheader)
            else: raise No("exit test direction")
            if not (T.isconst() and T.cval() >= 0) and not fa.prove(B + 1, L.preheader) and not fa.prove(T, L.preheader): raise No("trip count may be negative")
        if e == lat: T = T + 1
        return T, e
    def cmp_poly(self, cond, truth, blk):
        """the condition as p >= 0 (False) or p != 0 (True), exact"""
        f, fa = self.f, self.fa
        if cond[0] != "i": raise No("constant condition")
        c = f.insts[cond[1]]
        if c.op == "xor" and any(o[0] == "c" for o in c.ops):
            return self.cmp_poly(c.ops[0] if c.ops[1][0] == "c" else c.ops[1], not truth, blk)
        if c.op != "icmp": raise No("condition")
        pr = c.d["pred"]
        if not truth: pr = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule", "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle"}[pr]
        a, b = self.operand(c.ops[0], pr, c), self.operand(c.ops[1], pr, c)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr) or not isinstance(b, Ptr) or a.base != b.base: raise No("pointer comparison")
            a, b = a.off, b.off
        k = pr[1:] if pr not in ("eq", "ne") else pr
        if k == "lt": return b - a - 1, False
        if k == "le": return b - a, False
        if k == "gt": return a - b - 1, False
        if k == "ge": return a - b, False
        if pr == "ne": return a - b, True
        raise No("equality")
    def operand(self, o, pr, c):
        if self.fa.isptr(o): return self.fa.ptr(o)
        s = pr[0] == "s" if pr not in ("eq", "ne") else self.fa.sgn(o)
        p = self.fa.exact(o, s, c.b)
        self.clean(p)
        return p
    def clean(self, p):
        if self.lax: return
        for a in p.atoms():
            x = self.fa.at(a)
            if x.key[0] == "wrap": raise No("possible wrap-around")
    # ------------------------------------------------------------ closed forms
    def inv(self, p, L):
        return all(self.inva(a, L) for a in p.atoms())
    def inva(self, a, L):
        x = self.fa.at(a)
        if x.key[0] == "it": return x.info["it"] is not L and not x.info["it"].blocks <= L.blocks
        d = x.info or {}
        if "div" in d: return all(self.inv(q, L) for q in d["div"])
        if "rem" in d: return all(self.inv(q, L) for q in d["rem"][:2])
        if x.key[0] == "hphi":
            K = self.f.loops.get(self.f.insts[x.key[1]].b)
            return not (K is L or K.blocks <= L.blocks)
        return self.fa.inv_atom(a, L)
    def phis(self, p, deep=True):
        out = set()
        for a in p.atoms():
            x = self.fa.at(a)
            if x.key[0] == "hphi": out.add(a)
            d = x.info or {}
            for k in ("div", "rem"):
                if k in d:
                    for q in d[k][:2]: out |= self.phis(q)
        return out
    def subst(self, p, mp):
        """substitution that also rewrites quotients and remainders"""
        if not mp: return p
        m2 = dict(mp)
        for a in p.atoms():
            if a in m2: continue
            d = self.fa.at(a).info or {}
            if "div" in d:
                x, y = (self.subst(q, mp) for q in d["div"])
                if (x, y) != d["div"]: m2[a] = self.fa.divatom(x, y, d.get("defb", 0))
            elif "rem" in d:
                x, y = (self.subst(q, mp) for q in d["rem"][:2])
                if (x, y) != tuple(d["rem"][:2]):
                    q = self.fa.divatom(x, y, d.get("defb", 0))
                    m2[a] = self.fa.atom(("rem", x.key(), y.key()), True, 0, None, f"({x.show(self.fa.A)})%({y.show(self.fa.A)})", {"defb": d.get("defb", 0), "rem": (x, y, x - q * y)})
        return p.subst(m2)
    def phi_of(self, a): return self.f.insts[self.fa.at(a).key[1]]
    def val(self, o, like, blk):
        if like.ty == "ptr":
            q = self.fa.ptr(o)
            return q.off
        s = self.fa.sgn(["i", like.id])
        p = self.fa.exact(o, s, blk)
        if self.lax and any(self.fa.at(a).key[0] == "wrap" for a in p.atoms()): p = self.fa.ring(o)
        self.clean(p)
        return p
    def rel(self, phi):
        """header phi as init + step * iteration number of its loop"""
        r = self._rel.get(phi.id)
        if isinstance(r, No): raise r
        if r is not None: return r
        if phi.id in self._busy: raise No("cyclic value")
        self._busy.add(phi.id)
        try:
            r = self._relc(phi)
            self._rel[phi.id] = r
            return r
        except No as e:
            self._rel[phi.id] = e; raise
        finally: self._busy.discard(phi.id)
    def _relc(self, phi):
        L = self.f.loops.get(phi.b)
        if L is None or L.preheader is None or len(L.latches) != 1: raise No("loop variable")
        lat = L.latches[0]
        init = [v for v, p in phi.ops if p == L.preheader]
        nxt = [v for v, p in phi.ops if p == lat]
        if len(init) != 1 or len(nxt) != 1 or init[0][0] in ("u", "n"): raise No("loop variable")
        i0 = self.val(init[0], phi, L.preheader)
        v = self.val(nxt[0], phi, lat)
        me = self.fa.A.by_key.get(("hphi", phi.id))
        if me is None: raise No("loop variable")
        v = self.exits(v, L)
        st = v - Poly.atom(me)
        if me.id in st.atoms() or not self.inv(st, L):
            st2 = self.relsub(st, L, skip=me.id)
            if me.id in st2.atoms() or not self.inv(st2, L) : raise No(f"loop variable {self.fa.dbgname(phi)[1:] or phi.id} not affine")
            st = st2
        i0 = self.exits(i0, L)
        return i0 + st * Poly.atom(self.it(L))
    def exits(self, v, L):
        """replace variables of loops that ended before this point (not containing it) by their final values"""
        for _ in range(8):
            mp = {}
            for a in self.phis(v):
                ph = self.phi_of(a)
                K = self.f.loops[ph.b]
                if L is not None and (L is K or L.blocks <= K.blocks): continue
                r = self.rel(ph)
                T, e = self.trip(K)
                n = T if e not in K.latches else T - 1
                mp[a] = r.subst({self.it(K).id: n})
            if not mp: return v
            v = self.subst(v, mp)
        raise No("value after loop")
    def relsub(self, p, L, skip=None):
        for _ in range(6):
            mp = {}
            for a in self.phis(p):
                if a == skip: continue
                ph = self.phi_of(a)
                if self.f.loops[ph.b] is L: mp[a] = self.rel(ph)
            if not mp: return p
            p = self.subst(p, mp)
        return p
    def norm(self, p, blk):
        """closed form of a value at a block, over arguments and iteration numbers of the loops around the block"""
        L = self.f.loopof[blk]
        self.clean(p)
        p = self.exits(p, L) if L is not None else self.exits(p, None)
        for _ in range(10):
            ps = self.phis(p)
            if not ps: break
            p = self.subst(p, {a: self.rel(self.phi_of(a)) for a in ps})
            self.clean(p)
        else: raise No("deep nest")
        for a in p.atoms():
            k = self.fa.at(a).key[0]
            if k in ("n", "goff", "ivtest"): raise No("not a closed form")
        return p
    def nest(self, blk):
        """loops around a block, outermost first, with normalised trip counts"""
        out, L = [], self.f.loopof[blk]
        while L is not None:
            T, e = self.trip(L)
            if e not in L.latches and (blk == e or not self.f.dominates(e, blk)): raise No("store in a loop test")
            out.append((L, self.norm(T, L.preheader)))
            L = L.parent
        return out[::-1]
    # ------------------------------------------------------------------ events
    def source(self, o, size, blk):
        """('copy', base, off) | ('const', v) | ('val', poly) | ('?',)"""
        fa = self.fa
        if o[0] == "c":
            v = fa.cint(o)
            return ("const", v & ((1 << (8 * size)) - 1))
        if o[0] not in ("i", "a"): return ("?",)
        i = self.f.insts[o[1]] if o[0] == "i" else None
        nb = fa.nbits(o)
        if not nb or i is not None and i.ty in ("float", "double", "ptr"): return ("?",)
        p = fa.exact(o, False, blk)
        if p.isconst(): return ("const", int(p.cval()))
        a = p.single()
        if a is not None:
            ld = (fa.at(a).info or {}).get("load")
            if ld is not None and bits(ld.ty) == 8 * size:
                q = fa.ptr(ld.ops[0])
                return ("copy", q.base, q.off, ld)
        return ("val", p)
    def events(self, base):
        """all writes into a block; raises No when one of them has no closed form (why: its location)"""
        fa, out = self.fa, []
        for i in self.f.insts.values():
            if i.b not in self.f.reach or i.b not in self.good(): continue
            if i.op == "store":
                q = fa.ptr(i.ops[1])
                if q.base != base:
                    if q.base[0] in ("phi", "unk", "cyc"): self.alias(q, base, i)
                    continue
                out.append(self.event(i, q, i.d.get("size"), i.ops[0]))
            elif i.op == "call" and memop(i):
                q = fa.ptr(i.ops[0])
                if q.base != base:
                    if q.base[0] in ("phi", "unk", "cyc"): self.alias(q, base, i)
                    continue
                n = fa.exact(i.ops[2], False, i.b)
                out.append(self.event(i, q, n, i.ops[1]))
        return out
    def alias(self, q, base, i):
        if q.base[0] == "phi":
            alts = self.fa.alternatives(["i", q.base[1]])
            if all(p.base != base and p.base[0] not in ("phi", "unk", "cyc") for p, _ in alts): return
        raise No(f"store through an unresolved pointer at {i.loc()}")
    def event(self, i, q, size, vo):
        ln = size if isinstance(size, Poly) else C(size)
        if i.op == "store":
            v = self.source(vo, size, i.b)
        elif memop(i) == "memset":
            v = ("const", int(vo[1]) & 255) if vo[0] == "c" else ("?",)
        else:
            p = self.fa.ptr(vo)
            v = ("copy", p.base, p.off, i)
        return Event(ins=i, base=q.base, off=q.off, len=ln, kind=i.op if i.op == "store" else memop(i), val=v, elem=size if i.op == "store" else 1)
    def closed(self, ev):
        """(nest, off, len, val) in closed form"""
        nest = self.nest(ev.ins.b)
        off, ln = self.norm(ev.off, ev.ins.b), self.norm(ev.len, ev.ins.b)
        v = ev.val
        if v[0] == "copy": v = ("copy", v[1], self.norm(v[2], v[3].b), v[3])
        return nest, off, ln, v
    # ------------------------------------------------------------ must execute
    def passes(self, src, dst, G, within=None):
        """every path src -> dst (inside 'within') meets a block of G"""
        if src in G: return True
        seen, st = {src}, [src]
        while st:
            x = st.pop()
            if x == dst: return False
            for s in self.f.succ[x]:
                if s in seen or s in G or within is not None and s not in within or s not in self.good(): continue
                seen.add(s); st.append(s)
        return dst not in seen
    def always(self, blocks, objblk, target=None):
        """the blocks (same loop nest) jointly execute once per iteration of every loop around them on every path that returns the object"""
        G = set(blocks)
        L = self.f.loopof[blocks[0]]
        while L is not None:
            ok = True
            for lat in L.latches:
                st = [s for s in self.f.succ[L.header] if s in L.blocks] if L.header not in G else []
                if L.header in L.latches: ok = ok and L.header in G
                elif not all(s in G or self.passes(s, lat, G, L.blocks - {L.header}) for s in st): ok = False
            if not ok: return False
            G = {L.header}
            L = L.parent
        tg = [target] if target is not None else [b for b, o in self.goodrets()]
        return all(self.passes(objblk, t, G) for t in tg)
    # ---------------------------------------------------------------- coverage
    def splitflat(self, nest, polys):
        """a flat loop over y*w+x read back with / and %: two iteration numbers"""
        fa = self.fa
        ds = []
        for L, T in nest: ds.append((self.it(L), T))
        for _ in range(3):
            hit = None
            for p in polys:
                if p is None: continue
                for a in p.atoms():
                    d = fa.at(a).info or {}
                    q = d.get("div") or d.get("rem") and d["rem"][:2]
                    if not q: continue
                    n = q[0].single()
                    for k, (x, T) in enumerate(ds):
                        if n == x.id:
                            B = pdiv(T, q[1])
                            if B is not None: hit = (k, x, T, q[1], B)
            if hit is None: return ds, polys
            k, x, T, W, B = hit
            hi = fa.A.get(("it2", x.key, "q", W.key()), True, 0, None, x.name + "q", {"defb": 0})
            lo = fa.A.get(("it2", x.key, "r", W.key()), True, 0, None, x.name + "r", {"defb": 0})
            mp = {x.id: Poly.atom(hi) * W + Poly.atom(lo)}
            for p in polys:
                if p is None: continue
                for a in p.atoms():
                    d = fa.at(a).info or {}
                    if "div" in d and d["div"][0].single() == x.id and d["div"][1] == W: mp[a] = Poly.atom(hi)
                    if "rem" in d and d["rem"][0].single() == x.id and d["rem"][1] == W: mp[a] = Poly.atom(lo)
            polys = [None if p is None else p.subst(mp) for p in polys]
            ds = ds[:k] + [(hi, B), (lo, W)] + ds[k + 1:]
        return ds, polys
    def box(self, ev, withsrc=True):
        nest, off, ln, v = self.closed(ev)
        src = v[2] if withsrc and v[0] == "copy" else None
        ds, (off, src) = self.splitflat(nest, [off, src])
        its = {x.id for x, T in ds}
        digits = []
        for x, T in ds:
            A, B = off.coef_split(x.id)
            if A is None or A.atoms() & its or ln.atoms() & its or T.atoms() & its: raise No("offset not affine")
            sa = None
            if src is not None:
                sa, src2 = src.coef_split(x.id)
                if sa is None or sa.atoms() & its: raise No("source not affine")
                src = src2
            off = B
            digits.append((A, T, sa))
        for p in (off, src):
            if p is not None and p.atoms() & its: raise No("offset not affine")
        b = Box(off, ln, digits, src, [ev])
        return self.positive(b)
    def positive(self, b):
        ds = []
        for A, T, sa in b.digits:
            if T == C(1): continue
            if self.fa.prove(A, 0): ds.append((A, T, sa)); continue
            if not self.negative(A): raise No("stride of unknown sign")
            b.off = b.off + A * (T - 1)
            if sa is not None: b.src = b.src + sa * (T - 1); sa = -sa
            ds.append((-A, T, sa))
        b.digits = ds
        return b
    def negative(self, A):
        if A.isconst(): return A.cval() < 0
        return all(c < 0 for c in A.t.values()) and self.nonnegatoms(A)
    def nonnegatoms(self, A):
        return all((self.fa.at(a).lo or 0) >= 0 and self.fa.at(a).lo is not None for a in A.atoms())
    def absorb(self, b):
        """merge digits whose stride continues the run (and whose source continues it too)"""
        ch = True
        while ch:
            ch = False
            for k, (A, T, sa) in enumerate(b.digits):
                if not A.t: continue
                if A == b.len and (b.src is None or sa == A):
                    b.len = b.len * T; b.digits = b.digits[:k] + b.digits[k + 1:]; ch = True; break
        return b
    def merge(self, boxes):
        """join adjacent runs with equal digits until nothing changes"""
        boxes = [self.absorb(b) for b in boxes]
        ch = True
        while ch:
            ch = False
            for i in range(len(boxes)):
                for j in range(len(boxes)):
                    if i == j: continue
                    a, b = boxes[i], boxes[j]
                    if a.key() != b.key() or (a.src is None) != (b.src is None): continue
                    if a.off + a.len == b.off and (a.src is None or a.src + a.len == b.src):
                        nb = self.absorb(Box(a.off, a.len + b.len, list(a.digits), a.src, a.evs + b.evs))
                        boxes = [x for k, x in enumerate(boxes) if k not in (i, j)] + [nb]
                        ch = True; break
                if ch: break
        return boxes
    def order(self, b):
        """the digits in radix order: each stride equals the extent of the ones before; None if they are not"""
        ext, ds, out = b.len, list(b.digits), []
        while ds:
            k = [i for i, d in enumerate(ds) if d[0] == ext]
            if not k: return None
            d = ds.pop(k[0]); out.append(d); ext = ext * d[1]
        return out, ext

# ------------------------------------------------------------------ specialisation
def specialise(raw, idx, val, nbits):
    """the function with one integer argument fixed, constants propagated and dead branches removed"""
    d = copy.deepcopy(raw)
    d.pop("split", None) if not d.get("split") else None
    const = {}
    def fix(o):
        if isinstance(o, list):
            if len(o) >= 2 and o[0] == "a" and o[1] == idx and not isinstance(o[1], list): return ["c", str(val), nbits]
            if len(o) >= 2 and o[0] == "i" and o[1] in const: return ["c", str(const[o[1]][0]), const[o[1]][1]]
            return [fix(x) for x in o]
        return o
    insts = {i["id"]: (b["id"], i) for b in d["blocks"] for i in b["insts"]}
    ch = True
    dead = set()
    while ch:
        ch = False
        succ = {}
        for b in d["blocks"]:
            t = b["insts"][-1]
            if t["op"] == "br": succ[b["id"]] = list(t["succ"])
            elif t["op"] == "switch": succ[b["id"]] = [t["default"]] + [c[1] for c in t["cases"]]
            else: succ[b["id"]] = []
        seen, st = {0}, [0]
        while st:
            for s in succ[st.pop()]:
                if s not in seen: seen.add(s); st.append(s)
        preds = {}
        for b in seen:
            for s in succ[b]: preds.setdefault(s, set()).add(b)
        for b in d["blocks"]:
            for i in b["insts"]:
                for k in ("ops", "vars", "cval"):
                    if i.get(k): i[k] = fix(i[k])
                if b["id"] not in seen or i["id"] in const: continue
                o = i["ops"]
                v = None
                n = bits(i["ty"]) if i.get("ty") else 0
                if i["op"] == "phi":
                    ops = [x for x in o if x[1] in preds.get(b["id"], ())]
                    if len(ops) != len(o): i["ops"] = o = ops; ch = True
                    vs = {(x[0][1]) for x in o if x[0][0] == "c"}
                    if o and len(vs) == 1 and all(x[0][0] == "c" for x in o) and n: v = int(o[0][0][1])
                elif o and all(x[0] == "c" for x in o if isinstance(x, list)) and n:
                    a = [int(x[1]) for x in o]
                    w = int(o[0][2]) if len(o[0]) > 2 else n
                    u = [x % (1 << w) for x in a]
                    s = [x - (1 << w) if x >> (w - 1) & 1 else x for x in u]
                    if i["op"] == "icmp":
                        p = i["pred"]
                        x, y = (s if p[0] == "s" else u)[:2]
                        v = int({"eq": x == y, "ne": x != y}[p] if p in ("eq", "ne") else {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[1:]])
                    elif i["op"] in ("zext", "trunc"): v = u[0] % (1 << n)
                    elif i["op"] == "sext": v = s[0]
                    elif i["op"] in ("add", "sub", "mul") and False: pass
                    elif i["op"] == "xor": v = u[0] ^ u[1]
                    elif i["op"] == "and": v = u[0] & u[1]
                    elif i["op"] == "or": v = u[0] | u[1]
                elif i["op"] == "and" and n == 1 and any(x[0] == "c" and int(x[1]) == 0 for x in o): v = 0
                elif i["op"] == "or" and n == 1 and any(x[0] == "c" and int(x[1]) % 2 == 1 for x in o): v = 1
                elif i["op"] == "select" and o[0][0] == "c" and o[1 if int(o[0][1]) % 2 else 2][0] == "c": v = int(o[1 if int(o[0][1]) % 2 else 2][1])
                if v is not None: const[i["id"]] = (v, n); ch = True
            t = b["insts"][-1]
            if t["op"] == "br" and t["ops"] and t["ops"][0][0] == "c":
                t["succ"] = [t["succ"][0 if int(t["ops"][0][1]) % 2 else 1]]; t["ops"] = []; ch = True
    d["name"] = raw["name"]
    return d

# ------------------------------------------------------------------ evaluation of closed forms at given sizes
class Unknown(Exception): pass

class Tab:
    """values of the extracted closed forms for concrete arguments (used to confirm a failed obligation)"""
    deadline = None
    skiploops = False       # pass over loops that do not write the block
    def __init__(self, mv, args, mem, cells=None):
        if "laxmv" not in mv.__dict__:
            mv.laxmv = Moves(mv.fa); mv.laxmv.lax = True; mv.laxmv.opc = {}
        mv = mv.laxmv
        self.mv, self.fa, self.f, self.args, self.mem = mv, mv.fa, mv.f, args, mem
    def poly(self, p, env):
        t = 0
        for m, c in p.t.items():
            v = c
            for a in m: v = v * self.atom(a, env)
            t += v
        if isinstance(t, Fraction):
            if t.denominator != 1: return t
            t = t.numerator
        return t
    def atom(self, a, env):
        if a in env: return env[a]
        x = self.fa.at(a)
        k, d = x.key[0], x.info or {}
        if k == "arg":
            if x.key[1] in self.args: return self.args[x.key[1]]
            raise Unknown(x.name)
        if k == "entry":
            if ("*", x.key[1]) in self.args: return self.args[("*", x.key[1])]
            raise Unknown(x.name)
        if "div" in d:
            n, m = (self.poly(q, env) for q in d["div"])
            if m == 0: raise Unknown("division by zero")
            return n // m
        if "rem" in d:
            n, m = (self.poly(q, env) for q in d["rem"][:2])
            if m == 0: raise Unknown("division by zero")
            return n % m
        if "load" in d:
            ld = d["load"]
            q = self.fa.ptr(ld.ops[0])
            if q.base == getattr(self, "base", None):
                if self.reg.get(ld.id) is None: raise Unknown("unset byte read")
                return self.reg[ld.id]
            return self.mem(q.base, self.poly(self.mv.norm(q.off, ld.b), env), bits(ld.ty) // 8)
        if "fpto" in d:
            v = self.poly(d["fpto"][0], env)
            return int(v)
        if k == "hphi": return self.poly(self.mv.norm(Poly.atom(x), self.mv.phi_of(a).b), env)
        if k == "wrap":
            p, lo, hi = d["wrap"]
            v = self.poly(self.mv.norm(p, d.get("defb", 0)), env)
            return (v - lo) % (hi - lo + 1) + lo
        if k in ("v", "sel", "phi") and d.get("op") and d["op"][0] == "i":
            i = self.f.insts[d["op"][1]]
            n = bits(i.ty)
            v = self.inst(i, env)
            v %= 1 << n
            if d.get("signed") and v >> (n - 1) & 1: v -= 1 << n
            return v
        raise Unknown(x.name)
    def op(self, o, blk, env):
        k = (o[0], str(o[1]), blk)
        p = self.mv.opc.get(k)
        if p is None: p = self.mv.opc[k] = self.mv.normsoft(self.fa.exact(o, False, blk), blk)
        return self.poly(p, env)
    def inst(self, i, env):
        if i.op in ("and", "or", "xor", "shl", "lshr", "add", "sub", "mul"):
            x, y = self.op(i.ops[0], i.b, env), self.op(i.ops[1], i.b, env)
            return {"and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << min(y, 64), "lshr": lambda: x >> y,
                    "add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y}[i.op]()
        if i.op == "icmp": return int(self.cond(["i", i.id], env))
        if i.op == "select": return self.op(i.ops[1] if self.cond(i.ops[0], env) else i.ops[2], i.b, env)
        if i.op == "phi" and i.b not in self.f.loops:
            for v, p in i.ops:
                if p in self.f.reach and self.edge(self.f.idom[i.b], p, i.b, env):
                    if v[0] == "u": raise Unknown("undefined")
                    return self.op(v, p, env)
        raise Unknown(i.op)
    def edge(self, top, p, b, env):
        cs = self.mv.guards(top, p)
        cs = cs + self.mv.edgecond(p, b)
        return all(self.cond(c, env) == t for c, t in cs)
    def cond(self, c, env):
        if c[0] == "c": return bool(int(c[1]) % 2)
        if c[0] != "i": raise Unknown("condition")
        i = self.f.insts[c[1]]
        if i.op == "icmp" and not self.fa.isptr(i.ops[0]):
            pr = i.d["pred"]
            nb = self.fa.nbits(i.ops[0])
            x, y = self.op(i.ops[0], i.b, env) % (1 << nb), self.op(i.ops[1], i.b, env) % (1 << nb)
            if pr[0] == "s":
                x, y = (v - (1 << nb) if v >> (nb - 1) & 1 else v for v in (x, y))
            return {"eq": x == y, "ne": x != y}[pr] if pr in ("eq", "ne") else {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pr[1:]]
        if i.op == "icmp":
            p, q = self.fa.ptr(i.ops[0]), self.fa.ptr(i.ops[1])
            if i.d["pred"] in ("eq", "ne") and (p.base[0] == "null") != (q.base[0] == "null") and (p if q.base[0] == "null" else q).base[0] in ("arg", "heap", "stack"): return i.d["pred"] == "ne"
            raise Unknown("pointer comparison")
        if i.op in ("and", "or", "xor") and i.ty == "i1":
            x, y = self.cond(i.ops[0], env), self.cond(i.ops[1], env)
            return (x and y) if i.op == "and" else (x or y) if i.op == "or" else x != y
        if i.op == "phi" and i.b not in self.f.loops:
            for v, p in i.ops:
                if p in self.f.reach and self.edge(self.f.idom[i.b], p, i.b, env): return self.cond(v, env)
        if i.op == "select": return self.cond(i.ops[1] if self.cond(i.ops[0], env) else i.ops[2], env)
        if i.op == "trunc" or i.op == "freeze": return bool(self.op(i.ops[0], i.b, env) % 2)
        raise Unknown("condition " + i.op)
    soft = False
    @staticmethod
    def size(i):
        return {"double": 8, "float": 4, "ptr": 8}.get(i.ty) or (bits(i.ty) + 7) // 8
    def touched(self, i, o, n, env): pass
    def where(self, ev, b, env):
        k = (ev.ins.id, b)
        p = self.mv.opc.get(k)
        if p is None: p = self.mv.opc[k] = (self.mv.norm(ev.off, b), self.mv.norm(ev.len, b))
        o, n = self.poly(p[0], env), self.poly(p[1], env)
        if not isinstance(o, int) or not isinstance(n, int): raise Unknown("fraction")
        return o, n
    def writes(self, evs, objblk, target=None, limit=400000):
        """byte offset -> (value, event) after the stores of one block, following the branches on the closed forms"""
        f, mv = self.f, self.mv
        byins = {e.ins.id: e for e in evs}
        self.base = evs[0].base if evs else None
        self.out, self.reg, self.steps = {}, {}, 0
        ends = {target} if target is not None else {b for b, o in mv.goodrets()}
        good = mv.good()
        own = {}
        for i in f.insts.values():
            if i.op == "load" and i.b in good and self.fa.ptr(i.ops[0]).base == self.base: own.setdefault(i.b, []).append(i)
        work = {}
        for e in evs: work.setdefault(e.ins.b, []).append(e.ins)
        for b in own: work.setdefault(b, []).extend(own[b])
        for b in work: work[b].sort(key=lambda i: i.idx)
        def block(b, env):
            for i in work.get(b, ()):
                if i.op == "load":
                    n = self.size(i)
                    try: o = self.poly(mv.norm(self.fa.ptr(i.ops[0]).off, b), env)
                    except (No, Unknown):
                        if not self.soft: raise
                        self.reg[i.id] = None; continue
                    self.touched(i, o, n, env)
                    if any(o + j not in self.out for j in range(n)): self.reg[i.id] = None
                    elif any(not isinstance(self.out[o + j][0], int) for j in range(n)): self.reg[i.id] = None
                    else: self.reg[i.id] = sum(self.out[o + j][0] << (8 * j) for j in range(n))
                    continue
                ev = byins[i.id]
                o, n = self.where(ev, b, env)
                self.steps += n
                vs = self.value(ev, env, n)
                for j in range(n): self.out[o + j] = (vs[j], ev)
        def walk(b, L, env):
            """runs from b until control leaves L (returns the block outside) or is back at L's header (returns the header)"""
            first = True
            while True:
                if L is not None and b == L.header and not first: return b
                if L is not None and b not in L.blocks: return b
                K = f.loops.get(b)
                if K is not None and K is not L:
                    if self.skiploops and not any(x in work for x in K.blocks):
                        ex = sorted({s for _, s in K.exits if s in good}, key=lambda s: f.rponum[s])
                        if not ex: return None
                        b = ex[0]; first = False
                        continue
                    x = mv.it(K).id
                    n, b2 = 0, b
                    while b2 == K.header:
                        b2 = walk(K.header, K, {**env, x: n}); n += 1
                    if b2 is None: return None
                    b = b2; first = False
                    continue
                first = False
                self.steps += 1
                if self.steps > limit or self.deadline and time.time() > self.deadline: raise Unknown("too many steps")
                block(b, env)
                if b in ends: return None
                ss = [s for s in f.succ[b] if s in good]
                if not ss: return None
                if len(ss) > 1:
                    t = f.blocks[b][-1]
                    if t.op == "switch":
                        v = self.op(t.ops[0], b, env)
                        ss = [c[1] for c in t.d["cases"] if (int(c[0][1]) - v) % (1 << c[0][2]) == 0] or [t.d["default"]]
                    else: ss = [t.d["succ"][0 if self.cond(t.ops[0], env) else 1]]
                b = ss[0]
        L0 = f.loopof[objblk]
        if L0 is not None: raise Unknown("allocation in a loop")
        walk(objblk, None, {})
        return self.out
    def value(self, ev, env, n):
        v = ev.val
        if v[0] == "const":
            if ev.kind == "memset": return [v[1]] * n
            return [(v[1] >> (8 * j)) & 255 for j in range(n)]
        if v[0] == "copy":
            if v[1] == self.base and v[3].op == "load":
                if self.reg.get(v[3].id) is None: raise Unknown("unset byte read")
                return [(self.reg[v[3].id] >> (8 * j)) & 255 for j in range(n)]
            s = self.poly(self.mv.norm(v[2], v[3].b), env)
            if v[1] == self.base: return [self.out[s + j][0] for j in range(n)]
            return [self.mem(v[1], s + j, 1) for j in range(n)]
        if v[0] == "val":
            x = self.poly(self.mv.normsoft(v[1], ev.ins.b), env)
            if not isinstance(x, int): raise Unknown("fraction")
            return [(x >> (8 * j)) & 255 for j in range(n)]
        raise Unknown("value")

def _guards(self, top, b):
    """branch conditions under which b executes, once its dominator 'top' has (structured control flow only)"""
    f = self.f
    if b is None: raise Unknown("no single entry")
    chain, x = [b], b
    while x != top:
        if x == 0 or x not in f.idom: raise Unknown("not dominated")
        x = f.idom[x]; chain.append(x)
    chain = chain[::-1]
    out = []
    for c, n in zip(chain, chain[1:]):
        ss = [s for s in f.succ[c] if s in self.good()]
        if len(ss) <= 1: continue            # the other branch never returns the object
        L = f.loopof[c]
        if L is not None and c == L.header and n not in L.blocks: continue      # loop left: always happens
        doms = [s for s in ss if f.dominates(s, n) and f.pred[s] == [c]]
        if L is not None and len([s for s in ss if s in L.blocks]) == 1 and (c == L.header or c in L.latches and n not in L.blocks): continue  # trip count already counts bodies
        if len(doms) == 1:
            t = f.blocks[c][-1]
            if t.op != "br" or not t.ops: raise Unknown("switch")
            out.append((t.ops[0], t.d["succ"][0] == doms[0]))
        elif not doms:
            # both sides must rejoin at n
            end = None
            for s in ss:
                seen, st = set(), [s]
                while st:
                    y = st.pop()
                    if y == n or y in seen: continue
                    seen.add(y)
                    nx = [z for z in f.succ[y] if z in self.good()]
                    if L is not None and y in L.latches or not nx: raise Unknown("skipping branch")
                    if L is not None and any(z not in L.blocks for z in nx): raise Unknown("leaving branch")
                    st += nx
        else: raise Unknown("branch")
    return out
def _edgecond(self, p, b):
    t = self.f.blocks[p][-1]
    if t.op == "br" and not t.ops: return []
    if t.op == "br" and t.d["succ"][0] != t.d["succ"][1]: return [(t.ops[0], t.d["succ"][0] == b)]
    raise Unknown("switch")
def _normsoft(self, p, blk):
    """closed form where there is one; values without one stay as they are"""
    for _ in range(10):
        mp = {}
        for a in self.phis(p):
            ph = self.phi_of(a)
            K = self.f.loops[ph.b]
            L = self.f.loopof[blk]
            try:
                r = self.rel(ph)
                if L is None or not (L is K or L.blocks <= K.blocks):
                    T, e = self.trip(K)
                    r = r.subst({self.it(K).id: T if e not in K.latches else T - 1})
                mp[a] = r
            except No: pass
        if not mp: return p
        p = self.subst(p, mp)
    return p
Moves.guards, Moves.edgecond, Moves.normsoft = _guards, _edgecond, _normsoft
