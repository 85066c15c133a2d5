"""Symbolic range analysis of one function (LLVM SSA, helpers inlined).

Integer SSA values become polynomials over atoms (parameters, loop counters,
loads, opaque values); branch conditions, loop invariants (Houdini) and stored
value ranges become polynomial inequalities; obligations are decided by
lp.refute.  No program path is executed or enumerated.
"""
from fractions import Fraction
from poly import Poly, Atoms, tighten
from ir import bits
import lp

MAXDEPTH = 5
C = Poly.const

def okey(op): return tuple(op[:3]) if op[0] != "c" else ("c", op[1], op[2])

ALLOCS = {"malloc", "calloc", "realloc", "strdup", "aligned_alloc"}

class Ptr:
    __slots__ = ("base", "off")
    def __init__(self, base, off): self.base, self.off = base, off

class FA:
    def __init__(self, fn, contracts, domain=True, fixed=None, sizes=True, light=False):
        self.f, self.contracts = fn, contracts
        self.sizes = sizes              # assume arguments within the documented size limit
        self.fixed = fixed or {}        # integer arguments specialised to a constant
        self.ct = contracts.get(fn.name)
        self.A = Atoms()
        self._root = {}
        self._ring, self._real, self._ptr, self._facts, self._cond = {}, {}, {}, {}, {}
        self._exact, self._range_tried = {}, {}
        self.noprove = True
        self.prim = {}          # header -> (phi id, init Poly, +-1)
        self.aff = {}           # header phi id -> (init op, step Poly, loop)
        self.loopfacts = {}     # header -> list of Poly (>=0)
        self.content = {}       # class -> list of Poly in VAL placeholder
        self.depth = 0
        self.stat = {"prove": 0}
        self.domain_facts = []
        self.slen_atoms = {}
        self._splitlimit = 400
        self._splits = 0
        self._proved = {}
        self._ctx = ()
        self._sgn = {}
        self.wdefs = {}
        self._at = None
        self.mallocs = {}
        self.strlens = [i for i in fn.insts.values() if i.op == "call" and i.callee == "strlen"]
        for ins in fn.insts.values():
            if ins.op == "call" and ins.callee in ALLOCS and domain: self.mallocs.setdefault(ins.b, []).append(ins)
        self.entry_atoms()
        self.find_ivs()
        self.noprove = False
        if not light: self.houdini()

    # ---------------------------------------------------------------- atoms
    def atom(self, *a, **k): return Poly.atom(self.A.get(*a, **k))
    def at(self, i): return self.A.all[i]
    def sgn(self, op, d=0):
        """canonical signedness of an opaque integer value"""
        k = tuple(op[:2])
        r = self._sgn.get(k)
        if r is None:
            v = self._sgn_vote(op, set())
            r = self._sgn[k] = v > 0
        return r
    def _sgn_vote(self, op, seen):
        k = tuple(op[:2])
        if k in seen or len(seen) > 24: return 0
        seen.add(k)
        if op[0] == "a":
            dt = self.f.ditypes[op[1] + 1] if op[1] + 1 < len(self.f.ditypes) else ""
            off = 1 if self.f.params and self.f.params[0].get("sret") else 0
            if off and op[1] >= 1 and op[1] < len(self.f.ditypes): dt = self.f.ditypes[op[1]]
            return 5 if dt.replace("const ", "").startswith("i") else -5
        if op[0] == "c": return 1 if int(op[1]) < 0 else 0
        d = self.f.dbg.get(k)
        if d:
            t = d[1].replace("const ", "")
            if t.startswith("i"): return 5
            if t.startswith(("u", "b")): return -5
        if op[0] != "i": return 0
        ins = self.f.insts[op[1]]
        su = 0
        for u in self.f.uses.get(op[1], []):
            if u.op == "sext" or u.op in ("sdiv", "srem", "ashr", "sitofp"): su += 2
            elif u.op == "icmp" and u.d["pred"].startswith("s"): su += 2
            elif u.op in ("zext", "udiv", "urem", "lshr", "uitofp"): su -= 2
            elif u.op == "icmp" and u.d["pred"].startswith("u"): su -= 2
            elif u.d.get("nsw"): su += 1
        if su == 0 and ins.d.get("nsw"): su = 1
        if su == 0 and ins.op == "phi":
            for o, _ in ins.ops: su += self._sgn_vote(o, seen)
        if su == 0 and ins.op == "select":
            for o in ins.ops[1:]: su += self._sgn_vote(o, seen)
        if su == 0:
            for u in self.f.uses.get(op[1], []):
                if u.op in ("phi", "select", "add", "sub", "mul"): su += self._sgn_vote(["i", u.id], seen)
        return su
    def trange(self, nb, signed):
        return (-(1 << (nb - 1)), (1 << (nb - 1)) - 1) if signed else (0, (1 << nb) - 1)
    def opaque(self, key, op, nb, defb, name=None):
        s = self.sgn(op) if nb > 1 else False
        lo, hi = self.trange(nb, s)
        return self.atom(key, True, lo, hi, name or f"v{key[1]}", {"defb": defb, "signed": s, "bits": nb, "op": op})
    def entry_atoms(self):
        for i, p in enumerate(self.f.params):
            nb = bits(p["ty"])
            if p["ty"] in ("double", "float"):
                self.atom(("arg", i), False, None, None, p["name"], {"defb": 0, "leaf": True})
            elif nb and p["ty"] != "ptr":
                s = self.sgn(("a", i))
                lo, hi = self.trange(nb, s)
                dt = self.f.ditypes[i + 1] if i + 1 < len(self.f.ditypes) else ""
                if "b8" == dt.replace("const ", ""): hi = 1
                self.atom(("arg", i), True, lo, hi, p["name"], {"defb": 0, "signed": s, "bits": nb})
        if self.ct:
            self.dom_exprs()
    def ctval(self, name):
        """polynomial of a contract parameter name (value at entry; for 'out'/'inout' pointers the pointee at entry)"""
        ct = self.ct
        i = ct.index(name)
        p = self.f.params[i]
        if p["ty"] == "ptr":
            k = ct.cells.get(name)  # (offset, bits, signed)
            nb, s = k
            lo, hi = self.trange(nb, s)
            return self.atom(("entry", i, 0), True, lo, hi, "*" + p["name"], {"defb": 0, "signed": s, "bits": nb})
        if i in self.fixed: return C(self.fixed[i])
        return self.atom(("arg", i))
    def dom_exprs(self):
        self.bufsize = {}
        for name, e in self.ct.bufs.items():
            if e is None: continue
            i = self.ct.index(name)
            if e == "str":
                self.bufsize[i] = self.slen(("arg", i)) + 1
                continue
            if isinstance(e, (list, tuple)):
                es = [x(self.ctval) if callable(x) else C(x) for x in e]
                self.bufsize[i] = self.atom(("bufmax", i), True, 0, (1 << 62), f"size({name})", {"defb": 0, "ge": es})
                continue
            sz = e(self.ctval) if callable(e) else C(e)
            self.bufsize[i] = sz
            if not sz.isconst() and self.sizes:
                self.domain_facts.append((C((1 << 31) - 1) - sz, False))
    def slen(self, base):
        return self.atom(("slen", base), True, 0, (1 << 62), f"strlen({base})", {"defb": 0})

    # ------------------------------------------------------------ intervals
    def interval(self, p):
        lo = hi = 0
        for m, c in p.t.items():
            l = h = 1
            for a in m:
                x = self.at(a)
                if x.lo is None or x.hi is None: return None, None
                cand = [l * x.lo, l * x.hi, h * x.lo, h * x.hi]
                l, h = min(cand), max(cand)
            if c >= 0: lo += c * l; hi += c * h
            else: lo += c * h; hi += c * l
        return lo, hi

    # ------------------------------------------------------- integer values
    def nbits(self, op):
        if op[0] == "c": return op[2]
        if op[0] == "i": return bits(self.f.insts[op[1]].ty)
        if op[0] == "a": return bits(self.f.params[op[1]]["ty"])
        return 64
    def ring(self, op):
        k = op[0]
        if k == "c": return C(int(op[1]) if False else self.cint(op))
        if k == "a": return self.atom(("arg", op[1]))
        if k == "i":
            r = self._ring.get(op[1])
            if r is None:
                r = self._ring[op[1]] = self.ring_inst(self.f.insts[op[1]])
            return r
        if k in ("z", "n"): return C(0)
        return self.atom(("undef", str(op)), True, None, None, "undef", {"defb": 0})
    def cint(self, op):
        v, nb = int(op[1]), op[2]
        if nb > 1 and v >= 1 << (nb - 1): v -= 1 << nb      # signed representative (congruent mod 2^nb)
        return v
    def U(self, op, blk): return self.exact(op, False, blk)
    def S(self, op, blk): return self.exact(op, True, blk)
    def exact(self, op, signed, blk):
        nb = self.nbits(op)
        if op[0] == "c":
            v = self.cint(op)
            if not signed and v < 0: v += 1 << nb
            return C(v)
        key = (okey(op), signed, blk)
        r = self._exact.get(key)
        if r is not None: return r
        p = self.ring(op)
        if p.isconst():
            v = p.cval()
            if isinstance(v, int):
                v %= 1 << nb
                if signed and v >= 1 << (nb - 1): v -= 1 << nb
                r = C(v)
                self._exact[key] = r
                return r
        lo, hi = self.trange(nb, signed)
        l, h = self.interval(p)
        ok = l is not None and l >= lo and h <= hi
        if not ok and not signed:
            v = self.vrange(op)
            if v is not None and v <= hi and not any(self.at(a).key[0] == "wrap" and self.at(a).key[1] == okey(op) for a in p.atoms()): ok = True
        if not ok and l is not None:
            # the representative congruent modulo 2^nb that fits the type, if its interval does
            k = (lo - l + (1 << nb) - 1) // (1 << nb) if l < lo else -((h - hi + (1 << nb) - 1) // (1 << nb)) if h > hi else 0
            q = p + int(k) * (1 << nb)
            l2, h2 = self.interval(q)
            if l2 >= lo and h2 <= hi: p, ok = q, True
        if not ok and signed and op[0] == "i":
            # the increment of a signed loop counter (overflow is undefined in C)
            ins = self.f.insts[op[1]]
            if ins.op in ("add", "sub") and ins.d.get("nsw") and ins.ops[0][0] == "i" and ins.ops[0][1] in self.aff and p == self.ring(ins.ops[0]) + self.aff[ins.ops[0][1]][1]: ok = True
        if not ok and not self.noprove:
            self._exact[key] = self.wrap(op, p, nb, signed)     # cut recursion
            alts = [p] + ([p + (1 << nb)] if p.t.get((), 0) < 0 else [])
            ins = self.f.insts[op[1]] if op[0] == "i" else None
            if ins is not None and ins.op in ("add", "sub", "mul"):
                # operands through their wrapped values (congruent, and what the program compared)
                for sg in (signed, not signed):
                    x, y = self.exact(ins.ops[0], sg, blk), self.exact(ins.ops[1], sg, blk)
                    q = x + y if ins.op == "add" else x - y if ins.op == "sub" else x * y if x.degree() + y.degree() <= 4 else p
                    if q not in alts: alts.append(q)
            for q in alts:
                l, h = self.interval(q)
                ok = (l is not None and l >= lo or self.prove(q - lo, blk, depth=2)) and \
                     (h is not None and h <= hi or self.prove(C(hi) - q, blk, depth=2))
                if ok: p = q; break
        r = p if ok else self.wrap(op, p, nb, signed)
        self._exact[key] = r
        return r
    def vrange(self, op, d=0):
        """upper bound of an unsigned expression tree from the widths of its leaves; None if some step may wrap"""
        if op[0] == "c":
            v = int(op[1])
            return v if v >= 0 else None
        nb = self.nbits(op)
        top = (1 << nb) - 1
        if op[0] != "i" or d > 6: return top
        ins = self.f.insts[op[1]]
        if ins.op == "zext": 
            v = self.vrange(ins.ops[0], d + 1)
            return v if v is not None else (1 << self.nbits(ins.ops[0])) - 1
        if ins.op in ("add", "mul"):
            x, y = self.vrange(ins.ops[0], d + 1), self.vrange(ins.ops[1], d + 1)
            if x is None or y is None: return None
            v = x + y if ins.op == "add" else x * y
            return v if v <= top else None
        if ins.op == "sub": return None
        if ins.op == "shl":
            x = self.vrange(ins.ops[0], d + 1)
            if x is None or ins.ops[1][0] != "c": return None
            v = x << int(ins.ops[1][1])
            return v if v <= top else None
        if ins.op in ("trunc", "freeze"):
            v = self.vrange(ins.ops[0], d + 1)
            return v if v is not None and v <= top else None
        if ins.op == "phi":
            r = self._ring.get(op[1])
            if r is None or r.single() is None: return None     # a counter's closed form: not bounded by its type
            l, h = self.interval(r)
            return top if l is not None and l >= 0 and h is not None and h <= top else None
        if ins.op in ("load", "call", "udiv", "urem", "lshr", "and", "select"): return top
        return None
    def wrap(self, op, p, nb, signed):
        lo, hi = self.trange(nb, signed)
        a = self.A.get(("wrap", okey(op), signed), True, lo, hi, f"wrap{'S' if signed else 'U'}({'.'.join(map(str, okey(op)[:2]))})",
                       {"defb": self.defblk(op), "wrap": (p, lo, hi), "signed": signed, "bits": nb})
        a.info["wrap"] = (p, lo, hi)
        return Poly.atom(a)
    def defblk(self, op):
        return self.f.insts[op[1]].b if op[0] == "i" else 0
    def divatom(self, a, b, blk, what="div"):
        """floor quotient of a by b, a >= 0, b > 0 (facts are added when a and b are known so)"""
        if a.isconst() and b.isconst() and b.cval() > 0 and a.cval() >= 0:
            return C(int(a.cval()) // int(b.cval()))
        la, ha = self.interval(a)
        hi = ha if ha is not None else None
        lb, _ = self.interval(b)
        if hi is not None and lb is not None and lb >= 1: hi = hi // lb
        return self.atom(("div", a.key(), b.key()), True, 0, hi, f"({a.show(self.A)})/({b.show(self.A)})",
                         {"defb": blk, "div": (a, b)})
    def ring_inst(self, ins):
        o, op, b = ins.ops, ins.op, ins.b
        nb = bits(ins.ty)
        if op in ("add", "sub", "mul"):
            x, y = self.ring(o[0]), self.ring(o[1])
            return x + y if op == "add" else x - y if op == "sub" else self.mulcap(x, y, ins)
        if op == "shl":
            if o[1][0] == "c": return self.ring(o[0]) * (1 << int(o[1][1]))
        if op == "zext": return self.U(o[0], b)
        if op == "sext": return self.S(o[0], b)
        if op in ("trunc", "freeze"): return self.ring(o[0])
        if op == "phi": return self.ring_phi(ins)
        if op == "select":
            x, y = self.exact(o[1], self.sgn(["i", ins.id]), b), self.exact(o[2], self.sgn(["i", ins.id]), b)
            if x == y: return x
            return self.opaque(("sel", ins.id), ["i", ins.id], nb, b)
        if op in ("udiv", "lshr") or (op in ("sdiv", "ashr", "srem") and self.nonneg_op(o[0], b) and (op == "ashr" or self.nonneg_op(o[1], b))) or op == "urem":
            x = self.U(o[0], b)
            if op in ("lshr", "ashr"):
                if o[1][0] != "c": return self.opaque(("v", ins.id), ["i", ins.id], nb, b)
                y = C(1 << int(o[1][1]))
            else: y = self.U(o[1], b)
            q = self.divatom(x, y, b)
            if op in ("urem", "srem"):
                if q.isconst() and q.cval() == 0: return x
                r = x - q * y
                # keep a compact atom for remainders
                return self.atom(("rem", x.key(), y.key()), True, 0, self.interval(y)[1] - 1 if self.interval(y)[1] is not None else None,
                                 f"({x.show(self.A)})%({y.show(self.A)})", {"defb": b, "rem": (x, y, r)})
            return q
        if op == "and":
            for i in (0, 1):
                if o[i][0] == "c":
                    mval = int(o[i][1])
                    if mval >= 0 and (mval & (mval + 1)) == 0:
                        x = self.U(o[1 - i], b)
                        h = self.interval(x)[1]
                        if h is not None and h <= mval: return x
                        y = C(mval + 1)
                        q = self.divatom(x, y, b)
                        return self.atom(("rem", x.key(), y.key()), True, 0, mval, f"({x.show(self.A)})%{mval+1}", {"defb": b, "rem": (x, y, x - q * y)})
            if nb == 1: return self.atom(("v", ins.id), True, 0, 1, f"v{ins.id}", {"defb": b, "signed": False, "bits": nb, "op": ["i", ins.id]})
            r = self.opaque(("v", ins.id), ["i", ins.id], nb, b)
            self.at(r.single()).info["le"] = [self.U(o[0], b), self.U(o[1], b)] if not self.sgn(["i", ins.id]) else []
            return r
        if op in ("or", "xor") and nb > 1:
            if op == "xor" and any(x[0] == "c" and self.cint(x) == -1 for x in o):
                x = o[0] if o[1][0] == "c" else o[1]
                return C(-1) - self.ring(x)
            x, y = self.U(o[0], b), self.U(o[1], b)
            xl, xh = self.interval(x); yl, yh = self.interval(y)
            s = self.sgn(["i", ins.id])
            lo, hi = self.trange(nb, s)
            if xh is not None and yh is not None:
                m = max(int(xh), int(yh))
                if m < (1 << (nb - 1)): lo, hi = 0, (1 << m.bit_length()) - 1
            a = self.atom(("v", ins.id), True, lo, hi, f"v{ins.id}", {"defb": b, "signed": s, "bits": nb, "op": ["i", ins.id]})
            if lo == 0:
                self.at(a.single()).info["le"] = [x + y]
                if op == "or": self.at(a.single()).info["ge"] = [x, y]
            elif op == "or" and s:
                # two's complement: or with a non-negative value never lowers the signed value
                xs, ys = self.S(o[0], b), self.S(o[1], b)
                ge, le = [], []
                if self.interval(ys)[0] is not None and self.interval(ys)[0] >= 0: ge.append(xs); le.append(xs + ys)
                if self.interval(xs)[0] is not None and self.interval(xs)[0] >= 0: ge.append(ys); le.append(xs + ys)
                self.at(a.single()).info["ge"] = ge; self.at(a.single()).info["le"] = le
            return a
        if op in ("fptosi", "fptoui"):
            x = self.real(o[0])
            s = op == "fptosi"
            lo, hi = self.trange(nb, s)
            return self.atom((op, x.key(), nb), True, lo, hi, f"int({x.show(self.A)})", {"defb": b, "fpto": (x, lo, hi), "signed": s, "bits": nb, "op": ["i", ins.id]})
        if op == "load": return self.load_val(ins)
        if op == "call": return self.call_val(ins)
        if op in ("icmp", "fcmp"):
            return self.atom(("v", ins.id), True, 0, 1, f"v{ins.id}", {"defb": b, "signed": False, "bits": 1, "op": ["i", ins.id]})
        if op == "ptrtoint":
            return self.atom(("v", ins.id), True, 0, (1 << 64) - 1, f"v{ins.id}", {"defb": b})
        return self.opaque(("v", ins.id), ["i", ins.id], nb or 64, b)
    def mulcap(self, x, y, ins):
        if x.degree() + y.degree() > 5 or len(x.t) * len(y.t) > 400:
            return self.opaque(("v", ins.id), ["i", ins.id], bits(ins.ty), ins.b)
        return x * y
    def nonneg_op(self, op, b):
        if op[0] == "c": return self.cint(op) >= 0
        p = self.S(op, b)
        l, _ = self.interval(p)
        if l is not None and l >= 0: return True
        if self.noprove: return False
        return self.prove(p, b, depth=2)
    def ring_phi(self, ins):
        f = self.f
        nb = bits(ins.ty)
        L = f.loops.get(ins.b)
        key = ("hphi", ins.id) if L else ("phi", ins.id)
        if not L:
            s = self.sgn(["i", ins.id])
            vals = []
            for o, p in ins.ops:
                if p not in f.reach: continue
                if o[0] == "u": continue
                vals.append(self.ring(o))
            if vals and all(v == vals[0] for v in vals): return vals[0]
        r = self.opaque(key, ["i", ins.id], nb, ins.b, f"phi{ins.id}" + self.dbgname(ins))
        return r
    def dbgname(self, ins):
        d = self.f.dbg.get(("i", ins.id))
        return ":" + d[0] if d else ""
    def n(self, L):
        """number of completed iterations of L at its header, as a polynomial in the loop's primary counter"""
        pr = self.prim.get(L.header)
        if pr is None:
            return self.atom(("n", L.header), True, 0, (1 << 63) - 1, f"n{L.header}", {"defb": L.header, "loop": L})
        x = Poly.atom(self.A.by_key[("hphi", pr[0])])
        return (x - pr[1]) * pr[2]
    def initval(self, ins, L):
        """value of a header phi on entry (None when several entries disagree)"""
        vs = [(v, p) for v, p in ins.ops if p not in L.blocks and p in self.f.reach]
        if len(vs) != 1 or vs[0][0][0] == "u": return None
        if ins.ty == "ptr": return self.ptr(vs[0][0]).off
        if ins.ty in ("double", "float"): return self.real(vs[0][0])
        return self.exact(vs[0][0], self.sgn(["i", ins.id]), vs[0][1])
    def load_val(self, ins):
        nb = bits(ins.ty)
        p = self.ptr(ins.ops[0])
        if p.base[0] == "arg" and p.off.isconst() and self.unmodified(ins, p.base):
            i = p.base[1]
            if self.ct and i < len(self.ct.names) and self.ct.names[i] in self.ct.cells and p.off.cval() == 0:
                return self.ctval(self.ct.names[i])
        y = self.call_cell(ins, p)
        if y is not None: return y
        s = self.sgn(["i", ins.id]) if nb > 1 else False
        lo, hi = self.trange(nb, s)
        if nb == 8 and not s: lo, hi = 0, 255
        return self.atom(("ld", ins.id), True, lo, hi, f"ld{ins.id}@{ins.d.get('line',0)}{self.dbgname(ins)}",
                         {"defb": ins.b, "signed": s, "bits": nb, "op": ["i", ins.id], "load": ins})
    def unmodified(self, ins, base):
        """no store to (or call taking) this base can execute before ins"""
        for x in self.f.insts.values():
            if x.b not in self.f.reach: continue
            hit = False
            if x.op == "store": hit = self.root(x.ops[1]) == base
            elif x.op == "call" and x.callee not in ("free",) and not (x.callee or "").startswith("llvm.dbg"):
                hit = any(o[0] in ("i", "a") and self.isptr(o) and self.root(o) == base for o in x.ops)
                if hit and x.callee in ("strlen", "fprintf", "printf", "memcmp"): hit = False
            if hit:
                if x.b == ins.b and x.idx >= ins.idx and not any(self.f.reaches(s, ins.b) for s in self.f.succ[ins.b]): continue
                if x.b == ins.b and x.idx < ins.idx: return False
                if x.b == ins.b:
                    return False
                if self.f.reaches(x.b, ins.b): return False
        return True
    def isptr(self, o):
        if o[0] == "a": return self.f.params[o[1]]["ty"] == "ptr"
        if o[0] == "i": return self.f.insts[o[1]].ty == "ptr"
        return o[0] in ("g", "n")
    def call_val(self, ins):
        nb = bits(ins.ty)
        c = ins.callee or ""
        b = ins.b
        if c == "strlen":
            p = self.ptr(ins.ops[0])
            a = self.atom(("strlen", ins.id), True, 0, 1 << 62, f"strlen@{ins.d.get('line',0)}", {"defb": b, "strlen": p})
            return a
        if c.startswith("llvm.abs"):
            x = self.S(ins.ops[0], b)
            a = self.atom(("v", ins.id), True, 0, 1 << (nb - 1), f"abs{ins.id}", {"defb": b, "signed": False, "bits": nb, "ge": [x, -x]})
            return a
        for nm, kind in (("llvm.smax", "S>"), ("llvm.smin", "S<"), ("llvm.umax", "U>"), ("llvm.umin", "U<")):
            if c.startswith(nm):
                g = self.S if kind[0] == "S" else self.U
                x, y = g(ins.ops[0], b), g(ins.ops[1], b)
                lo, hi = self.trange(nb, kind[0] == "S")
                xl, xh = self.interval(x); yl, yh = self.interval(y)
                if None not in (xl, xh, yl, yh):
                    if kind[1] == ">": lo, hi = max(xl, yl), max(xh, yh)
                    else: lo, hi = min(xl, yl), min(xh, yh)
                return self.atom(("minmax", ins.id), True, lo, hi, f"mm{ins.id}", {"defb": b, "signed": kind[0] == "S", "bits": nb, "mm": (x, y, kind[1]),
                                                                           ("ge" if kind[1] == ">" else "le"): [x, y]})
        return self.opaque(("call", ins.id), ["i", ins.id], nb or 64, b, f"{c}#{ins.id}")

    # ----------------------------------------------------------- real values
    def real(self, op):
        if op[0] == "f":
            try: return C(Fraction(float(op[1])))
            except (ValueError, OverflowError): return self.atom(("finf", op[1]), False, None, None, op[1], {"defb": 0, "nan": True})
        if op[0] == "a": return self.atom(("arg", op[1]))
        if op[0] == "i":
            r = self._real.get(op[1])
            if r is None:
                self._real[op[1]] = self.ropaque(self.f.insts[op[1]])
                r = self._real[op[1]] = self.real_inst(self.f.insts[op[1]])
            return r
        return self.atom(("rundef", str(op)), False, None, None, "undef", {"defb": 0, "nan": True})
    def ropaque(self, ins, key="r", **info):
        d = {"defb": ins.b, "op": ["i", ins.id]}
        d.update(info)
        return self.atom((key, ins.id), False, None, None, f"{key}{ins.id}{self.dbgname(ins)}", d)
    def real_inst(self, ins):
        o, op, b = ins.ops, ins.op, ins.b
        if op in ("fadd", "fsub", "fmul"):
            x, y = self.real(o[0]), self.real(o[1])
            if op == "fmul" and (x.degree() + y.degree() > 4 or len(x.t) * len(y.t) > 100): return self.ropaque(ins)
            if len(x.t) + len(y.t) > 60: return self.ropaque(ins)
            return x + y if op == "fadd" else x - y if op == "fsub" else x * y
        if op == "fneg": return -self.real(o[0])
        if op == "fdiv":
            x, y = self.real(o[0]), self.real(o[1])
            if y.isconst() and y.cval() != 0: return x * (Fraction(1) / Fraction(y.cval()))
            return self.atom(("fdiv", x.key(), y.key()), False, None, None, f"({x.show(self.A)})/({y.show(self.A)})", {"defb": b, "fdiv": (x, y)})
        if op == "uitofp": return self.U(o[0], b) if self.nbits(o[0]) <= 32 and ins.ty == "double" or self.nbits(o[0]) <= 16 else self.cvt(ins, False)
        if op == "sitofp": return self.S(o[0], b) if self.nbits(o[0]) <= 32 and ins.ty == "double" or self.nbits(o[0]) <= 16 else self.cvt(ins, True)
        if op in ("fpext", "freeze"): return self.real(o[0])
        if op == "call":
            c = ins.callee or ""
            if c in ("floor", "floorf") or c.startswith("llvm.floor"):
                x = self.real(o[0])
                return self.atom(("floor", x.key()), True, None, None, f"floor({x.show(self.A)})", {"defb": b, "floor": x})
            if c in ("ceil", "ceilf") or c.startswith("llvm.ceil"):
                x = self.real(o[0])
                return self.atom(("ceil", x.key()), True, None, None, f"ceil({x.show(self.A)})", {"defb": b, "ceil": x})
            if c in ("sqrt", "sqrtf", "fabs") or c.startswith(("llvm.sqrt", "llvm.fabs")):
                return self.ropaque(ins, "r", ge=[C(0)])
            if c in ("fmax", "fmin") or c.startswith(("llvm.maxnum", "llvm.minnum")):
                k = "ge" if "max" in c else "le"
                return self.ropaque(ins, "r", **{k: [self.real(o[0]), self.real(o[1])]})
            if c.startswith("llvm.fmuladd"):
                x, y, z = self.real(o[0]), self.real(o[1]), self.real(o[2])
                if x.degree() + y.degree() > 4 or len(x.t) * len(y.t) > 100: return self.ropaque(ins)
                return x * y + z
            return self.ropaque(ins, "r", leaf=True)
        if op == "phi":
            vals = [self.real(v) for v, p in ins.ops if p in self.f.reach and v[0] != "u"]
            if ins.b not in self.f.loops and vals and all(v == vals[0] for v in vals): return vals[0]
            return self.ropaque(ins, "hphi" if ins.b in self.f.loops else "phi", leaf=True)
        if op == "select":
            return self.ropaque(ins, "sel", leaf=True)
        if op == "load":
            return self.ropaque(ins, "ld", leaf=True, load=ins)
        return self.ropaque(ins, "r", leaf=True)
    def cvt(self, ins, signed):
        """inexact int->fp conversion: only the sign is kept"""
        x = self.exact(ins.ops[0], signed, ins.b)
        return self.ropaque(ins, "r", ge=[C(0)] if not signed else [])

    # --------------------------------------------------------------- pointers
    def ptr(self, op):
        k = op[0]
        if k == "a": return Ptr(("arg", op[1]), C(0))
        if k == "g": return Ptr(("glob", op[1]), C(op[2]))
        if k == "n": return Ptr(("null",), C(0))
        if k == "i":
            r = self._ptr.get(op[1])
            if r is None:
                self._ptr[op[1]] = Ptr(("cyc", op[1]), C(0))
                r = self._ptr[op[1]] = self.ptr_inst(self.f.insts[op[1]])
            return r
        return Ptr(("unk", str(op)), C(0))
    def ptr_inst(self, ins):
        op, o = ins.op, ins.ops
        if op == "alloca": return Ptr(("stack", ins.id), C(0))
        if op == "getelementptr":
            p = self.ptr(o[0])
            if "coff" not in ins.d: return Ptr(p.base, self.atom(("goff", ins.id), True, None, None, f"off{ins.id}", {"defb": ins.b}))
            off = p.off + ins.d["coff"]
            for v, sc, nb in ins.d["vars"]:
                off = off + self.S(v, ins.b) * sc
            return Ptr(p.base, off)
        if op in ("bitcast", "addrspacecast", "freeze"): return self.ptr(o[0])
        if op == "call":
            c = ins.callee or ""
            if c in ALLOCS: return Ptr(("heap", ins.id), C(0))
            if c in ("memcpy", "memmove", "memset", "strcpy", "strcat", "strncpy"): return self.ptr(o[0])
            return Ptr(("ret", ins.id), C(0))
        if op == "load":
            return self.load_ptr(ins)
        if op == "phi":
            if ins.b in self.f.loops:
                b0 = self.root(["i", ins.id])
                if any(v[0] in ("n", "u") for v, p in ins.ops):
                    self._ptr[ins.id] = Ptr(("cyc", ins.id), C(0))
                    qs = [self.ptr(v) for v, p in ins.ops if p in self.f.reach and v[0] not in ("n", "u")]
                    qs = [q for q in qs if q.base != ("cyc", ins.id)]
                    if qs and all(q.base == qs[0].base and q.off == qs[0].off for q in qs) and qs[0].base[0] not in ("cyc", "phi", "unk"): return qs[0]
                if b0[0] in ("arg", "heap", "stack", "ret", "fld", "glob", "ld"):
                    off = self.atom(("hphi", ins.id), True, -(1 << 63), (1 << 63) - 1, f"pphi{ins.id}{self.dbgname(ins)}", {"defb": ins.b, "signed": True, "bits": 64, "op": ["i", ins.id], "ptr": True})
                    return Ptr(b0, off)
                return Ptr(("phi", ins.id), C(0))
            alts = []
            for v, p in ins.ops:
                if p not in self.f.reach or v[0] == "u": continue
                q = self.ptr(v)
                if q.base[0] == "null": continue
                alts.append(q)
            if not alts: return Ptr(("null",), C(0))
            if all(a.base == alts[0].base for a in alts):
                if all(a.off == alts[0].off for a in alts): return alts[0]
                off = self.atom(("phi", ins.id), True, -(1 << 63), (1 << 63) - 1, f"pphi{ins.id}", {"defb": ins.b, "signed": True, "bits": 64, "op": ["i", ins.id], "ptr": True})
                return Ptr(alts[0].base, off)
            return Ptr(("phi", ins.id), C(0))
        if op == "select":
            a, b = self.ptr(o[1]), self.ptr(o[2])
            if a.base[0] == "null": return b
            if b.base[0] == "null": return a
            if a.base == b.base:
                if a.off == b.off: return a
                off = self.atom(("sel", ins.id), True, -(1 << 63), (1 << 63) - 1, f"psel{ins.id}", {"defb": ins.b, "signed": True, "bits": 64, "op": ["i", ins.id], "ptr": True})
                return Ptr(a.base, off)
            return Ptr(("phi", ins.id), C(0))
        return Ptr(("unk", ins.id), C(0))
    def root(self, op, seen=frozenset()):
        """object a pointer points into, without evaluating offsets"""
        k = op[0]
        if k != "i": return self.ptr(op).base
        r = self._root.get(op[1])
        if r is not None: return r
        ins = self.f.insts[op[1]]
        if op[1] in seen: return ("cyc",)
        s2 = seen | {op[1]}
        if ins.op in ("getelementptr", "bitcast", "addrspacecast", "freeze"): r = self.root(ins.ops[0], s2)
        elif ins.op in ("phi", "select"):
            vs = [o for o, p in ins.ops if p in self.f.reach] if ins.op == "phi" else ins.ops[1:]
            bs = {self.root(v, s2) for v in vs if v[0] not in ("u", "n")} - {("cyc",), ("null",)}
            if not bs: r = ("cyc",) if seen else ("null",)
            else: r = bs.pop() if len(bs) == 1 else ("phi", ins.id)
        elif ins.op in ("load",): r = self.ptr(op).base
        else: r = self.ptr(op).base
        if not seen and r[0] != "cyc": self._root[op[1]] = r
        return r
    def load_ptr(self, ins):
        """pointer loaded from a field of a local/heap object or of a call result"""
        p = self.ptr(ins.ops[0])
        if p.off.isconst() and p.base[0] in ("heap", "stack"):
            bases = []
            for x in self.f.insts.values():
                if x.op == "store" and x.b in self.f.reach and x.d.get("vty") == "ptr":
                    q = self.ptr(x.ops[1])
                    if q.base == p.base and (not q.off.isconst() or q.off.cval() == p.off.cval()):
                        v = self.ptr(x.ops[0])
                        if v.base[0] != "null": bases.append(v)
            if bases and all(b.base == bases[0].base and b.off == bases[0].off for b in bases):
                return bases[0]
        if p.off.isconst() and p.base[0] in ("ret", "arg", "phi", "fld"):
            return Ptr(("fld", p.base, p.off.cval()), C(0))
        return Ptr(("ld", ins.id), C(0))
    def alternatives(self, op, d=0):
        """the objects a pointer may point into: list of (Ptr, facts)"""
        p = self.ptr(op)
        if p.base[0] != "phi" or d > 3: return [(p, [])]
        ins = self.f.insts[p.base[1]]
        inc = [(v, q, self.edge_facts(q, ins.b)) for v, q in ins.ops if q in self.f.reach] if ins.op == "phi" else \
              [(ins.ops[1], ins.b, self.cond_facts(ins.ops[0], True, ins.b)), (ins.ops[2], ins.b, self.cond_facts(ins.ops[0], False, ins.b))]
        r = []
        for v, q, ef in inc:
            if v[0] in ("u", "n"): continue
            for pp, fs in self.alternatives(v, d + 1):
                r.append((Ptr(pp.base, pp.off + p.off), fs + list(self.facts(q)) + list(ef)))
        return r
    def size_of(self, base):
        """size in bytes of the object behind a base, as a polynomial (None if unknown)"""
        f = self.f
        if base[0] == "stack":
            s = f.insts[base[1]].d["size"]
            return C(s) if s >= 0 else None
        if base[0] == "glob":
            g = f.m.globals.get(base[1])
            return C(g["size"]) if g else None
        if base[0] == "heap":
            ins = f.insts[base[1]]
            c = ins.callee
            if c == "malloc": return self.U(ins.ops[0], ins.b)
            if c == "calloc": return self.U(ins.ops[0], ins.b) * self.U(ins.ops[1], ins.b)
            if c == "realloc": return self.U(ins.ops[1], ins.b)
            return None
        if base[0] == "arg":
            i = base[1]
            p = f.params[i]
            if p.get("sret"): return C(p["sret"])
            if p.get("byval"): return C(p["byval"])
            return self.bufsize.get(i) if self.ct else None
        if base[0] == "ret":
            ins = f.insts[base[1]]
            ct = self.contracts.get(ins.callee)
            if ct and ct.ret: return ct.ret(self.callenv(ins, ct))
            return None
        if base[0] == "fld":
            inner = base[1]
            if inner[0] == "ret":
                ins = f.insts[inner[1]]
                ct = self.contracts.get(ins.callee)
                if ct and base[2] in ct.fields: return ct.fields[base[2]](self.callenv(ins, ct, inner))
            return None
        return None
    def callenv(self, ins, ct, inner=None):
        def env(name):
            if name.startswith("[") or name.startswith("."):
                # value of an out cell after the call / of a field of the result
                return self.callout(ins, ct, name)
            i = ct.index(name)
            o = ins.ops[i]
            if self.isptr(o) and name in ct.cells:
                return self.callout(ins, ct, "in:" + name)
            ty = ins.d["argty"][i]
            if ty in ("double", "float"): return self.real(o)
            return self.exact(o, ct.signed(name), ins.b)
        return env
    def callout(self, ins, ct, name):
        if name.startswith("."):
            off, nb, s = ct.resfields[name[1:]]
            # a load of that field from the call result
            lo, hi = self.trange(nb, s)
            return self.atom(("rfld", ins.id, off), True, lo, hi, f"{ins.callee}#{ins.id}{name}", {"defb": ins.b, "signed": s, "bits": nb})
        nm = name.strip("[]") if not name.startswith("in:") else name[3:]
        nb, s = ct.cells[nm]
        lo, hi = self.trange(nb, s)
        tag = "cin" if name.startswith("in:") else "cout"
        if tag == "cin":
            # value of the cell before the call: only known when it is an unmodified entry cell
            p = self.ptr(ins.ops[ct.index(nm)])
            if p.base[0] == "arg" and self.ct and p.base[1] < len(self.ct.names) and self.ct.names[p.base[1]] in self.ct.cells and self.unmodified(ins, p.base):
                return self.ctval(self.ct.names[p.base[1]])
            v = self.reaching_store(ins, p)
            if v is not None: return self.exact(v.ops[0], s, v.b)
        return self.atom((tag, ins.id, nm), True, lo, hi, f"{ins.callee}#{ins.id}[{nm}]", {"defb": ins.b, "signed": s, "bits": nb})

    # ------------------------------------------------------- induction variables
    def find_ivs(self):
        f = self.f
        for L in sorted(f.loops.values(), key=lambda l: l.depth):
            if len(L.latches) != 1: continue
            lat = L.latches[0]
            for ins in f.blocks[L.header]:
                if ins.op != "phi": break
                init = [v for v, p in ins.ops if p not in L.blocks and p in f.reach]
                nxt = [v for v, p in ins.ops if p == lat]
                if len(init) != 1 or len(nxt) != 1 or nxt[0][0] != "i": continue
                if ins.ty == "ptr":
                    self._ptr.clear()
                    self._ptr[ins.id] = Ptr(("ivtest", ins.id), C(0))
                    q = self.ptr(nxt[0])
                    self._ptr.clear()
                    if q.base == ("ivtest", ins.id) and (q.off.isconst() or self.invariant(q.off, L)):
                        self.aff[ins.id] = (init[0], q.off, L)
                    continue
                if not bits(ins.ty) or bits(ins.ty) == 1: continue
                self._ring.clear(); self._exact.clear()
                a = self.opaque(("hphi", ins.id), ["i", ins.id], bits(ins.ty), ins.b, f"phi{ins.id}")
                d = self.ring(nxt[0]) - a
                if d.isconst() or self.invariant(d, L):
                    m = 1 << bits(ins.ty)
                    if d.isconst():
                        c = d.cval() % m
                        if c >= m // 2: c -= m
                        d = C(c)
                        if c == 0: continue
                    if d.degree() <= 1:
                        self.aff[ins.id] = (init[0], d, L)
        self.clear()
    def clear(self):
        self._ring.clear(); self._real.clear(); self._ptr.clear(); self._facts.clear()
        self._exact.clear(); self._range_tried.clear(); self._proved.clear(); self._cond.clear()
    def invariant(self, p, L):
        return all(self.inv_atom(a, L) for a in p.atoms())
    def inv_atom(self, a, L):
        x = self.at(a)
        d = x.info or {}
        if "div" in d: return all(self.invariant(q, L) for q in d["div"])
        if "rem" in d: return all(self.invariant(q, L) for q in d["rem"][:2])
        if "fpto" in d: return self.invariant(d["fpto"][0], L)
        if "floor" in d: return self.invariant(d["floor"], L)
        if "ceil" in d: return self.invariant(d["ceil"], L)
        if "fdiv" in d: return all(self.invariant(q, L) for q in d["fdiv"])
        return d.get("defb", 0) not in L.blocks

    # ------------------------------------------------------------------ facts
    def facts(self, blk):
        r = self._facts.get(blk)
        if r is not None: return r
        self._facts[blk] = []       # cut recursion
        old_at, self._at = self._at, blk
        try: res = self._facts[blk] = self._mkfacts(blk)
        finally: self._at = old_at
        return res
    def _mkfacts(self, blk):
        out = list(self.domain_facts)
        chain = self.f.domchain(blk)
        for b in reversed(chain):
            for ins in self.mallocs.get(b, ()):
                if b == blk: continue
                sz = self.size_of(("heap", ins.id))
                if sz is not None and not sz.isconst(): out.append((C((1 << 31) - 1) - sz, False))
            if b in self.f.loops:
                for p in self.loopfacts.get(b, []): out.append((p, False))
            ps = self.f.pred[b]
            if len(ps) == 1: out += self.edge_facts(ps[0], b)
        for p, s in list(out): out += self.div_consequences(p)
        # w*h <= c with w, h >= 1 bounds each of them
        pos = {next(iter(a for m in p.t if m for a in m)) for p, s in out if len(p.t) == 2 and p.degree() == 1 and p.t.get((), 0) <= -1 and all(c > 0 for m, c in p.t.items() if m)}
        for p, s in list(out):
            ms = [m for m in p.t if m]
            if len(ms) == 1 and len(ms[0]) >= 2 and p.t[ms[0]] < 0 and p.t.get((), 0) >= 1 << 24 and len(set(ms[0])) == len(ms[0]):
                for a in ms[0]:
                    if all(b in pos for b in ms[0] if b != a): out.append((Poly({(a,): p.t[ms[0]], (): p.t[()]}), s))
        for ins in self.strlens:
            if self.f.dominates(ins.b, blk):
                a = self.ring(["i", ins.id]).single()
                if a is not None: out += self.atom_facts(a, blk)
        return self.strongest(out)
    def strongest(self, out):
        """facts that differ only in the constant: keep the tightest"""
        best, order = {}, []
        for p, s in out:
            c = p.t.get((), 0)
            if p.isconst():
                if c < 0 or c == 0 and s: order.append(("const", len(order))); best[order[-1]] = (p, s)
                continue
            k = p - c
            if k not in best: order.append(k); best[k] = (p, s)
            else:
                o, os = best[k]
                oc = o.t.get((), 0)
                if c < oc or c == oc and s and not os: best[k] = (p, s)
        return [best[k] for k in order]
    def div_consequences(self, p):
        """X = floor(a/b): q <= X gives q*b <= a, and q > X gives q*b > a"""
        r = []
        for a in p.atoms():
            d = (self.at(a).info or {}).get("div")
            if not d: continue
            A, B = p.coef_split(a)
            if A is None or not A.isconst() or a in B.atoms(): continue
            n, m = d
            if A.cval() == 1: r.append((n + B * m, False))            # X >= -B
            elif A.cval() == -1: r.append((B * m - n + m - 1, False))     # B >= X  =>  B*m >= X*m > n - m
        return [x for x in r if x[0].degree() <= 5]
    def edge_facts(self, p, b):
        t = self.f.blocks[p][-1]
        if t.op == "br" and len(t.d["succ"]) == 2 and t.d["succ"][0] != t.d["succ"][1]:
            return self.cond_facts(t.ops[0], t.d["succ"][0] == b, p)
        if t.op == "switch":
            vals = [c[0] for c in t.d["cases"] if c[1] == b]
            if len(vals) == 1 and t.d["default"] != b:
                s = self.sgn(t.ops[0])
                x = self.exact(t.ops[0], s, p)
                v = self.exact(vals[0], s, p)
                return [(x - v, False), (v - x, False)]
        return []
    def cond_facts(self, op, truth, blk, depth=0):
        k = (okey(op), truth, blk, self._at)
        r = self._cond.get(k)
        if r is None:
            self._cond[k] = []
            r = self._cond[k] = self._cond_facts(op, truth, blk, depth)
        return r
    def mk(self, p, strict=False):
        """fact p>=0 (or p>0), tightened for integer polynomials"""
        if all(self.at(a).isint for a in p.atoms()):
            if strict:
                # p > 0 over integers: clear denominators first
                p = tighten(self.clearden(p) - 1)
            else: p = tighten(p)
            return (p, False)
        return (p, strict)
    def clearden(self, p):
        d = 1
        from math import gcd
        for c in p.t.values():
            if isinstance(c, Fraction): d = d * c.denominator // gcd(d, c.denominator)
        return p * d
    def _cond_facts(self, op, truth, blk, depth):
        if op[0] == "c":
            v = int(op[1]) & 1
            return [] if bool(v) == truth else [(C(-1), False)]
        if op[0] != "i" or depth > 6: return []
        ins = self.f.insts[op[1]]
        b = ins.b
        if ins.op == "icmp":
            pred = ins.d["pred"]
            if ins.d["opty"] == "ptr":
                xy = self.ptrcmp(ins)
                if xy is None: return []
                x, y = xy
                if not truth:
                    pred = {"eq": "ne", "ne": "eq", "ult": "uge", "ule": "ugt", "ugt": "ule", "uge": "ult", "slt": "sge", "sle": "sgt", "sgt": "sle", "sge": "slt"}[pred]
                if pred == "eq": return [self.mk(x - y), self.mk(y - x)]
                if pred == "ne":
                    if self.quick(x - y, b): return [self.mk(x - y, True)]
                    if self.quick(y - x, b): return [self.mk(y - x, True)]
                    return []
                return [{"lt": self.mk(y - x, True), "le": self.mk(y - x), "gt": self.mk(x - y, True), "ge": self.mk(x - y)}[pred[1:]]]
            nb = bits(ins.d["opty"])
            # boolean wrappers: (zext i1 x) != 0, (phi bool) != 0
            o0, o1 = ins.ops
            if pred in ("ne", "eq") and o1[0] == "c" and o0[0] == "i":
                inner = self.boolsrc(o0)
                if inner is not None and int(o1[1]) in (0, 1):
                    want = (int(o1[1]) == 1) == (pred == "eq")
                    r = self.cond_facts(inner, want == truth, blk, depth + 1)
                    if r: return r
            if not truth:
                pred = {"eq": "ne", "ne": "eq", "ult": "uge", "ule": "ugt", "ugt": "ule", "uge": "ult", "slt": "sge", "sle": "sgt", "sgt": "sle", "sge": "slt"}[pred]
            if pred[0] == "s" and pred not in ("s",): x, y = self.S(o0, b), self.S(o1, b)
            elif pred[0] == "u": x, y = self.U(o0, b), self.U(o1, b)
            else:
                s = self.sgn(o0) if o0[0] != "c" else self.sgn(o1)
                x, y = self.exact(o0, s, b), self.exact(o1, s, b)
            if pred == "eq": return [self.mk(x - y), self.mk(y - x)] + self.str_facts(o0, o1)
            if pred == "ne":
                r = []
                if self.quick(x - y, b): r.append(self.mk(x - y, True))
                elif self.quick(y - x, b): r.append(self.mk(y - x, True))
                if y.isconst() and y.cval() == 0: r += self.str_nz(o0)
                return r
            k = pred[1:]
            if k == "lt": return [self.mk(y - x, True)]
            if k == "le": return [self.mk(y - x)]
            if k == "gt":
                r = [self.mk(x - y, True)]
                if y.isconst() and y.cval() >= 0: r += self.str_nz(o0)
                return r
            r = [self.mk(x - y)]
            if y.isconst() and y.cval() >= 1: r += self.str_nz(o0)
            return r
        if ins.op == "fcmp":
            pred = ins.d["pred"]
            x, y = self.real(ins.ops[0]), self.real(ins.ops[1])
            if any(self.at(a).info.get("nan") for a in (x.atoms() | y.atoms())): return []
            if not truth:
                inv = {"oeq": "une", "one": "ueq", "olt": "uge", "ole": "ugt", "ogt": "ule", "oge": "ult", "ueq": "one", "une": "oeq",
                       "ult": "oge", "ule": "ogt", "ugt": "ole", "uge": "olt", "ord": "uno", "uno": "ord"}
                pred = inv.get(pred)
                if pred is None: return []
            if pred in ("ord", "uno", "true", "false"): return []
            if pred[0] == "u" and not all(self.finite(a, self._at or blk) for a in (x.atoms() | y.atoms())): return []
            k = pred[1:]
            if k == "eq": return [self.mk(x - y), self.mk(y - x)]
            if k == "lt": return [self.mk(y - x, True)]
            if k == "le": return [self.mk(y - x)]
            if k == "gt": return [self.mk(x - y, True)]
            if k == "ge": return [self.mk(x - y)]
            if k == "ne":
                if self.quick(x - y, b): return [self.mk(x - y, True)]
                if self.quick(y - x, b): return [self.mk(y - x, True)]
            return []
        if ins.op == "xor" and ins.ty == "i1":
            for i in (0, 1):
                if ins.ops[i][0] == "c": return self.cond_facts(ins.ops[1 - i], truth ^ bool(int(ins.ops[i][1]) & 1), blk, depth + 1)
            return []
        if ins.op == "and" and ins.ty == "i1" and truth:
            return self.cond_facts(ins.ops[0], True, blk, depth + 1) + self.cond_facts(ins.ops[1], True, blk, depth + 1)
        if ins.op == "or" and ins.ty == "i1" and not truth:
            return self.cond_facts(ins.ops[0], False, blk, depth + 1) + self.cond_facts(ins.ops[1], False, blk, depth + 1)
        if ins.op == "select" and ins.ty == "i1":
            c, x, y = ins.ops
            if truth and y[0] == "c" and int(y[1]) & 1 == 0: return self.cond_facts(c, True, blk, depth + 1) + self.cond_facts(x, True, blk, depth + 1)
            if not truth and x[0] == "c" and int(x[1]) & 1 == 1: return self.cond_facts(c, False, blk, depth + 1) + self.cond_facts(y, False, blk, depth + 1)
            return []
        if ins.op in ("zext", "trunc", "freeze"):
            inner = self.boolsrc(op)
            if inner is not None and list(inner) != list(op): return self.cond_facts(inner, truth, blk, depth + 1)
            return []
        if ins.op == "phi" and ins.b not in self.f.loops:
            alts = []
            for v, p in ins.ops:
                if p not in self.f.reach or v[0] == "u": continue
                if v[0] == "c" and bool(int(v[1]) & 1) != truth: continue
                alts.append((v, p))
            if len(alts) == 1:
                v, p = alts[0]
                r = list(self.facts(p)) + list(self.edge_facts(p, ins.b))
                if v[0] == "i":
                    src = self.boolsrc(v)
                    r += self.cond_facts(src if src is not None else v, truth, p, depth + 1)
                return r
        if ins.op == "phi" and bits(ins.ty) > 1 and self.isbool(op):
            x = self.exact(op, False, b)
            return [(x - 1, False)] if truth else [(-x, False)]
        return []
    def ptrcmp(self, ins):
        """offsets of two compared pointers into one object"""
        if any(o[0] in ("n", "z", "u") for o in ins.ops): return None
        p, q = self.ptr(ins.ops[0]), self.ptr(ins.ops[1])
        if p.base != q.base or p.base[0] not in ("arg", "heap", "stack", "ret", "fld", "glob"): return None
        return p.off, q.off
    def boolsrc(self, op):
        """look through zext/trunc/phi-of-bool wrappers to an i1-like value"""
        seen = 0
        while op[0] == "i" and seen < 6:
            ins = self.f.insts[op[1]]
            seen += 1
            if ins.op == "zext" and self.nbits(ins.ops[0]) == 1: return ins.ops[0]
            if ins.op in ("trunc", "zext", "freeze"): op = ins.ops[0]; continue
            if ins.op == "phi":
                if self.isbool(op): return op
                return None
            if ins.ty == "i1": return op
            return None
        return None
    def isbool(self, v, seen=frozenset()):
        if v[0] == "c": return int(v[1]) in (0, 1)
        if v[0] == "u": return True
        if v[0] != "i": return False
        if v[1] in seen: return True
        ins = self.f.insts[v[1]]
        if ins.ty == "i1": return True
        seen = seen | {v[1]}
        if ins.op == "zext": return self.nbits(ins.ops[0]) == 1 or self.isbool(ins.ops[0], seen)
        if ins.op in ("trunc", "freeze"): return self.isbool(ins.ops[0], seen)
        if ins.op == "phi": return all(self.isbool(x, seen) for x, _ in ins.ops)
        if ins.op == "select": return all(self.isbool(x, seen) for x in ins.ops[1:])
        return False
    def str_nz(self, op):
        """a non-zero character at offset o of a string: the terminator lies beyond o"""
        r = []
        while op[0] == "i" and self.f.insts[op[1]].op in ("zext", "sext"): op = self.f.insts[op[1]].ops[0]
        if op[0] == "i" and self.f.insts[op[1]].op == "load":
            p = self.ptr(self.f.insts[op[1]].ops[0])
            if self.isstr(p.base): r.append(self.mk(self.slen(p.base) - p.off - 1))
        return r
    def str_facts(self, o0, o1):
        if o1[0] == "c" and int(o1[1]) != 0: return self.str_nz(o0)
        return []
    def isstr(self, base):
        return base[0] == "arg" and self.ct and self.ct.names and base[1] < len(self.ct.names) and self.ct.bufs.get(self.ct.names[base[1]]) == "str"
    def finite(self, a, blk):
        x = self.at(a)
        d = x.info or {}
        if x.isint: return True
        if d.get("nan"): return False
        if "floor" in d: return all(self.finite(b, blk) for b in d["floor"].atoms())
        if "ceil" in d: return all(self.finite(b, blk) for b in d["ceil"].atoms())
        if "fdiv" in d: return all(self.finite(b, blk) for q in d["fdiv"] for b in q.atoms())
        if "load" in d and self.content.get(self.content_class(d["load"])): return True
        if d.get("leaf"): return self.isfinite_known(a, blk)
        return True
    def isfinite_known(self, a, blk):
        for b in self.f.domchain(blk):
            ps = self.f.pred[b]
            if len(ps) != 1: continue
            t = self.f.blocks[ps[0]][-1]
            if t.op != "br" or len(t.d["succ"]) != 2: continue
            if self.implies_finite(t.ops[0], t.d["succ"][0] == b, a): return True
        # phi/select of finite things
        x = self.at(a)
        op = (x.info or {}).get("op")
        if x.key[0] in ("phi", "sel") and op and op[0] == "i":
            ins = self.f.insts[op[1]]
            vs = [(v, p) for v, p in ins.ops] if ins.op == "phi" else [(v, ins.b) for v in ins.ops[1:]]
            return all(all(b != a and self.finite(b, p) for b in self.real(v).atoms()) for v, p in vs)
        return False
    def implies_finite(self, op, truth, a, d=0):
        if op[0] != "i" or d > 6: return False
        ins = self.f.insts[op[1]]
        if ins.op == "xor":
            for i in (0, 1):
                if ins.ops[i][0] == "c": return self.implies_finite(ins.ops[1 - i], truth ^ bool(int(ins.ops[i][1]) & 1), a, d + 1)
        if ins.op == "and" and truth or ins.op == "or" and not truth:
            return any(self.implies_finite(o, truth, a, d + 1) for o in ins.ops)
        if ins.op == "call" and (ins.callee or "").startswith("llvm.is.fpclass"):
            x = self.real(ins.ops[0])
            if x.single() != a: return False
            mask = int(ins.ops[1][1])
            if not truth: mask = 1023 & ~mask
            return mask & 3 == 0      # excludes nan
        if ins.op == "fcmp":
            x, y = self.real(ins.ops[0]), self.real(ins.ops[1])
            if a not in x.atoms() | y.atoms(): return False
            p = ins.d["pred"]
            return (p[0] == "o") if truth else (p[0] == "u")     # ordered comparison true (or unordered false): not NaN
        return False

    # ------------------------------------------------------- facts about atoms
    def atom_facts(self, a, blk):
        x = self.at(a)
        d = x.info or {}
        X = Poly.atom(x)
        out = []
        if x.lo is not None and abs(x.lo) < (1 << 62): out.append((X - x.lo, False))
        if x.hi is not None and x.hi < (1 << 62): out.append((C(x.hi) - X, False))
        for q in d.get("ge", ()): out.append(self.mk(X - q))
        for q in d.get("le", ()): out.append(self.mk(q - X))
        if "div" in d:
            n, m = d["div"]
            out.append((n - m * X, False)); out.append((m * X + m - 1 - n, False))
        if "rem" in d:
            n, m, e = d["rem"]
            out.append((m - 1 - X, False))
            out.append((X - e, False)); out.append((e - X, False))
        if "floor" in d:
            q = d["floor"]
            if all(self.finite(z, d["defb"]) for z in q.atoms()):
                out.append((q - X, False)); out.append((X + 1 - q, True))
        if "ceil" in d:
            q = d["ceil"]
            if all(self.finite(z, d["defb"]) for z in q.atoms()):
                out.append((X - q, False)); out.append((q + 1 - X, True))
        if "fdiv" in d:
            n, m = d["fdiv"]
            if all(self.finite(z, blk) for z in n.atoms() | m.atoms()):
                out.append((X * m - n, False)); out.append((n - X * m, False))
        if "fpto" in d:
            out += self.fpto_facts(x, X, d)
            sa = d["fpto"][0].single()
            li = (self.at(sa).info or {}).get("load") if sa is not None and d["fpto"][0].t[(sa,)] == 1 else None
            if li is not None: out += self.quant_facts(x, li, x.key[0])
        if "strlen" in d:
            p = d["strlen"]
            if self.isstr(p.base):
                sl = self.slen(p.base)
                out.append((p.off + X - sl, False)); out.append((sl - p.off - X, False))
        if x.key[0] in ("phi", "sel"): out += self.phi_lemma(x)
        if "load" in d: out += self.content_facts(x, d["load"])
        if x.key[0] == "cout": out += self.cout_facts(x)
        return out
    def dims(self):
        """image dimensions of the contract: natural upper bounds"""
        if not self.ct: return []
        r = []
        for nm in ("w", "h"):
            if nm in self.ct.names:
                try: r.append(self.ctval(nm))
                except (KeyError, TypeError): pass
        return r
    def phi_lemma(self, x):
        """bounds of a merge value that hold for every incoming value"""
        k = ("lemma", x.id)
        r = self._range_tried.get(k)
        if r is not None: return r
        self._range_tried[k] = []
        if self.noprove or x.info.get("ptr") and False: return []
        ins = self.f.insts[x.key[1]]
        inc = []
        if ins.op == "phi":
            if len(ins.ops) > 4: return []
            for v, p in ins.ops:
                if p not in self.f.reach or v[0] == "u": continue
                if x.info.get("ptr") and v[0] == "n": continue
                inc.append((v, p, tuple(self.edge_facts(p, ins.b))))
        else:
            for v, t in ((ins.ops[1], True), (ins.ops[2], False)):
                inc.append((v, ins.b, tuple(self.cond_facts(ins.ops[0], t, ins.b))))
        vals = []
        for v, p, ef in inc:
            c = self.caseval(x, v, p)
            if c is None or x.id in c.atoms() or c.degree() > 2: return []
            vals.append((c, p, ef))
        def visible(c): return all(self.f.dominates((self.at(a).info or {}).get("defb", 0), ins.b) for a in c.atoms())
        X = Poly.atom(x)
        out = []
        cands = []
        for c, p, ef in vals:
            if visible(c) and c not in cands: cands.append(c)
        if C(0) not in cands: cands.append(C(0))
        for q in self.dims():
            if q - 1 not in cands: cands.append(q - 1)
        for c, p, ef in vals:
            a = c.single()
            if a is not None and self.at(a).key[0] in ("phi", "sel"):
                for q, s in self.phi_lemma(self.at(a)):
                    for b in (q + c, q * -1 + c):
                        if a not in b.atoms() and visible(b) and b not in cands and len(cands) < 10: cands.append(b)
        # constants and values the incoming values were compared with
        for c, p, ef in vals:
            for q, s in ef:
                for sg in (1, -1):
                    b = q * sg + c
                    if visible(b) and b.degree() <= 1 and len(b.t) <= 3 and b not in cands and len(cands) < 9: cands.append(b)
        for c in cands:
            if all(v == c or self.prove(c - v, p, depth=1, extra=ef) for v, p, ef in vals): out.append((c - X, False))
            if all(v == c or self.prove(v - c, p, depth=1, extra=ef) for v, p, ef in vals): out.append((X - c, False))
        self._range_tried[k] = out
        return out
    def fpto_facts(self, x, X, d):
        q, lo, hi = d["fpto"]
        if not all(self.finite(z, d["defb"]) for z in q.atoms()): return []
        k = ("fpto", x.id)
        r = self._range_tried.get(k)
        if r is None:
            self._range_tried[k] = []
            r = []
            b = d["defb"]
            isi = all(self.at(z).isint for z in q.atoms())
            inlo = self.prove(q - lo, b, depth=1) if not isi else True
            nonneg = self.prove(q, b, depth=2)
            okhi = self.prove(C(hi + 1) - q, b, depth=2)
            dimf = []
            if not isi or q.single() is not None:
                for D in self.dims():
                    if self.prove(D - 1 - q, b, depth=1): dimf.append(D - 1)
                if not okhi: okhi = any(self.prove(C(hi) - D, b, depth=1) for D in dimf)
            nonpos = False
            if not nonneg: nonpos = self.prove(-q, b, depth=1)
            if isi and (okhi or True):
                # integral value (floor/ceil/int): conversion is exact when in range
                if okhi and (nonneg or self.prove(q - lo, b, depth=2)): r = [(X - q, False), (q - X, False)]
                elif okhi: pass
            elif nonneg and okhi: r = [(q - X, False), (X + 1 - q, True), (X, False)]
            elif nonpos and inlo: r = [(X - q, False), (q + 1 - X, True), (-X, False)]
            if r: r += [(D - X, False) for D in dimf]
            self._range_tried[k] = r
        return r
    def content_facts(self, x, ins):
        r = []
        cls = self.content_class(ins)
        for lst in (self.content.get(cls, []),):
            for p in lst: r.append((p.subst({self.VAL.id: Poly.atom(x)}), False))
        r += self.quant_facts(x, ins)
        return r
    def call_cell(self, ins, p):
        """value of a cell last written by a contract call (out argument or field of the result), if that is certain"""
        if not p.off.isconst(): return None
        if p.base[0] == "ret":
            ci = self.f.insts[p.base[1]]
            ct = self.contracts.get(ci.callee)
            if not ct: return None
            for nm, (off, nb, s) in ct.resfields.items():
                if off == p.off.cval() and nb == bits(ins.ty) and not any(True for _ in self.writes_to(p.base)):
                    return self.callout(ci, ct, "." + nm)
        if p.base[0] == "stack":
            ci = self.reaching_call(ins, p.base)
            if ci is None: return None
            ct = self.contracts.get(ci.callee)
            if not ct: return None
            hits = [i for i, o in enumerate(ci.ops) if self.isptr(o) and self.root(o) == p.base]
            if len(hits) == 1 and hits[0] < len(ct.names) and ct.names[hits[0]] in ct.cells and ct.cells[ct.names[hits[0]]][0] == bits(ins.ty):
                if self.ptr(ci.ops[hits[0]]).off == p.off: return self.callout(ci, ct, "[" + ct.names[hits[0]] + "]")
        return None
    def reaching_store(self, ins, p):
        """the store that certainly wrote the cell last before ins"""
        if p.base[0] != "stack" or not p.off.isconst(): return None
        w = self.last_writer(ins, p.base)
        if w is None or w.op != "store": return None
        return w if self.ptr(w.ops[1]).off == p.off else None
    def reaching_call(self, ins, base):
        w = self.last_writer(ins, base)
        return w if w is not None and w.op == "call" else None
    def last_writer(self, ins, base):
        """the only instruction that can write the cell before ins is one call that dominates ins (last writer)"""
        ws = []
        for y in self.f.insts.values():
            if y.b not in self.f.reach: continue
            if y.op == "store" and self.root(y.ops[1]) == base: ws.append(y)
            elif y.op == "call" and not (y.callee or "").startswith("llvm.lifetime") and any(self.isptr(o) and self.root(o) == base for o in y.ops): ws.append(y)
        dom = [w for w in ws if self.f.inst_dominates(w, ins)]
        if not dom: return None
        last = max(dom, key=lambda w: (self.f.domdepth[w.b], w.idx))
        for w in ws:
            if w is last: continue
            # w may execute between last and ins?
            if self.between(last, w, ins): return None
        return last
    def between(self, a, w, z):
        """can w execute after a and before z (without passing a again)?"""
        f = self.f
        def after(x, y):  # y reachable from x (strictly after) avoiding nothing
            if x.b == y.b and x.idx < y.idx: return True
            return any(f.reaches(s, y.b) for s in f.succ[x.b])
        if not after(a, w): return False
        if w.b == z.b and w.idx < z.idx: 
            return not (a.b == w.b and a.idx < w.idx and False) and not (a.b == z.b and w.idx < a.idx < z.idx)
        # path w -> z avoiding a.b
        if a.b == w.b and w.idx < a.idx: return False
        return any(f.reaches(s, z.b, avoid=(a.b,)) for s in f.succ[w.b] if s != a.b)
    def cout_facts(self, x):
        _, cid, nm = x.key
        ins = self.f.insts[cid]
        ct = self.contracts.get(ins.callee)
        if ct and nm in ct.outfacts:
            X = Poly.atom(x)
            r = [self.mk(p, s) for p, s in ct.outfacts[nm](self.callenv(ins, ct), X, self)]
            k = ("coutub", x.id)
            if k not in self._range_tried and not self.noprove:
                self._range_tried[k] = None
                for c in self.smallconsts():
                    if self.prove(C(c) - X, ins.b, depth=2): self._range_tried[k] = c; break
            if self._range_tried.get(k) is not None: r.append((C(self._range_tried[k]) - X, False))
            return r
        return []
    def smallconsts(self):
        r = getattr(self, "_sc", None)
        if r is None:
            r = set()
            for i in self.f.insts.values():
                for o in self.f.operands(i):
                    try:
                        v = float(o[1]) if o[0] in ("c", "f") else 0
                        if 2 <= v <= 1 << 16 and v == int(v): r.add(int(v))
                    except (TypeError, ValueError): pass
            r = self._sc = sorted(r)[-24:]
        return r
    def content_class(self, ins):
        """class of memory cells an access belongs to: (base, access size, constant offset modulo the stride)"""
        p = self.ptr(ins.ops[0] if ins.op == "load" else ins.ops[1])
        from math import gcd
        g = 0
        for m, c in p.off.t.items():
            if m: g = gcd(g, int(c)) if isinstance(c, int) else 1
        c0 = p.off.t.get((), 0)
        if g == 0: g = self.stride.get(p.base, 0) if hasattr(self, "stride") else 0
        else:
            if hasattr(self, "stride"): g = self.stride.get(p.base, g)
        return (p.base, ins.d.get("size"), (c0 % g if g else c0), g)

    def quant_facts(self, x, ins, kind="val"):
        """facts established for every element by an earlier loop over the same array"""
        if not getattr(self, "quant", None) or self.noprove: return []
        k = ("quant", x.id, self._ctx)
        r = self._range_tried.get(k)
        if r is not None: return r
        self._range_tried[k] = []
        out = []
        p = self.ptr(ins.ops[0])
        for e in self.quant:
            if e["base"] != p.base or e["size"] != ins.d.get("size") or e["kind"] != kind: continue
            if not self.f.dominates(e["exit"], ins.b) and not any(self.f.dominates(e["exit"], b) for b in self._ctx): continue
            t = p.off - e["c"]
            if any(not isinstance(c, int) or c % e["s"] for c in t.t.values()): continue
            t = Poly({m: c // e["s"] for m, c in t.t.items()})
            ex = tuple(f for b in self._ctx for f in self.facts(b))
            if not self.prove(t - e["i0"], ins.b, depth=1, extra=ex) or not self.prove(e["x"] - 1 - t, ins.b, depth=1, extra=ex): continue
            if not all(self.prove(g, ins.b, depth=1, strict=s) for g, s in e["guards"]): continue
            out.append((e["tpl"].subst({self.VAL.id: Poly.atom(x)}), False))
        self._range_tried[k] = out
        return out
    def writes_to(self, base):
        for x in self.f.insts.values():
            if x.b not in self.f.reach: continue
            if x.op == "store":
                q = self.root(x.ops[1])
                if q == base or q[0] in ("phi", "unk", "ld", "cyc"): yield x
            elif x.op == "call":
                c = x.callee or ""
                if c == "free" or c.startswith(("llvm.dbg", "llvm.lifetime")): continue
                for k, o in enumerate(x.ops):
                    if self.isptr(o) and self.root(o) == base:
                        if c.startswith(("llvm.memcpy", "llvm.memmove")) and k == 1: continue
                        if c in self.contracts and self.contracts[c].readonly(k): continue
                        yield x
    def find_quant(self):
        f = self.f
        self.quant = []
        for L in f.loops.values():
            pr = self.prim.get(L.header)
            if not pr or pr[2] != 1 or len(L.latches) != 1: continue
            lat = L.latches[0]
            exits = [s for s in f.succ[L.header] if s not in L.blocks]
            if len(exits) != 1 or f.pred[exits[0]] != [L.header]: continue
            xat = self.A.by_key[("hphi", pr[0])]
            loads = []
            for b in L.blocks:
                for ins in f.blocks[b]:
                    if ins.op != "load" or ins.ty == "ptr": continue
                    p = self.ptr(ins.ops[0])
                    A, B = p.off.coef_split(xat.id)
                    if A is None or not A.isconst() or A.cval() <= 0 or not B.isconst(): continue
                    if any(f.reaches(L.header, w.b) for w in self.writes_to(p.base)): continue
                    loads.append((ins, p.base, int(A.cval()), int(B.cval())))
            if not loads: continue
            lf = [q for q, s in list(self.facts(lat)) + list(self.edge_facts(lat, L.header)) if not s]
            monos = []
            for ins in f.blocks[L.header]:
                if ins.op != "phi": break
                at = self.A.by_key.get(("hphi", ins.id))
                if at is None or ins.id in self.aff or not bits(ins.ty) or ins.ty == "ptr": continue
                nv = [v for v, p in ins.ops if p == lat]
                if not nv: continue
                mv = self.caseval(at, nv[0], lat)
                for sg in (1, -1):
                    if self.prove((mv - Poly.atom(at)) * sg, lat, depth=3): monos.append((at, mv, sg))
            for ins, base, st, c in loads:
                isf = ins.ty in ("double", "float")
                v = self.real(["i", ins.id]) if isf else self.exact(["i", ins.id], self.sgn(["i", ins.id]), ins.b)
                va = v.single()
                if va is None: continue
                common = {"base": base, "size": ins.d.get("size"), "s": st, "c": c, "i0": pr[1], "x": Poly.atom(xat), "exit": exits[0]}
                if f.dominates(ins.b, lat):
                    elems = {va: "val"}
                    if isf:
                        for at in self.A.all:
                            fp = (at.info or {}).get("fpto")
                            if fp and fp[0] == v: elems[at.id] = at.key[0]
                    for q in lf:
                        for ea, kind in elems.items():
                            if ea in q.atoms() and all(a == ea or self.inv_atom(a, L) for a in q.atoms()):
                                self.quant.append(dict(common, kind=kind, guards=[], tpl=q.subst({ea: Poly.atom(self.VAL)})))
                if isf: continue
                guards, okg = [], True
                b = ins.b
                for d in f.domchain(ins.b):
                    if d == L.header or d not in L.blocks: break
                    if len(f.pred[d]) == 1 and f.pred[d][0] in L.blocks and not f.dominates(d, lat):
                        for g in self.edge_facts(f.pred[d][0], d):
                            if not self.invariant(g[0], L): okg = False
                            guards.append(g)
                        if not guards: okg = False
                if not okg or (not f.dominates(ins.b, lat) and not guards): continue
                for at, mv, sg in monos:
                    if self.prove((mv - v) * sg, lat, depth=4, extra=tuple(guards)):
                        self.quant.append(dict(common, kind="val", guards=guards, tpl=(Poly.atom(at) - Poly.atom(self.VAL)) * sg))
        self._range_tried = {k: v for k, v in self._range_tried.items() if k[0] not in ("quant", "fpto", "lemma", "wr")}
        self.clear()
        return self.quant

    # ------------------------------------------------------------------ prover
    def isint(self, p): return all(self.at(a).isint for a in p.atoms())
    def quick(self, goal, blk, facts=None):
        l, _ = self.interval(goal)
        if l is not None and l >= 0: return True
        if self.noprove: return False
        return self.prove(goal, blk, depth=0)
    def closure(self, goal, facts, blk, rounds=3):
        atoms = set(goal.atoms())
        for p, _ in facts: atoms |= p.atoms()
        seen, out, todo = set(), [], list(atoms)
        for _ in range(rounds):
            nxt = set()
            for a in todo:
                if a in seen: continue
                seen.add(a)
                fs = self.atom_facts(a, blk)
                out += fs
                for p, _ in fs: nxt |= p.atoms()
            todo = [a for a in nxt if a not in seen]
            if not todo: break
        return out
    def prove(self, goal, blk, depth=MAXDEPTH, extra=(), strict=False):
        """goal >= 0 (or > 0) whenever control is in block blk"""
        l, _ = self.interval(goal)
        if l is not None and (l > 0 or (l == 0 and not strict)): return True
        if self.noprove: return False
        key = (goal, blk, strict, tuple(extra), self._ctx)
        r = self._proved.get(key)
        if r is not None and (r[0] or r[1] >= depth): return r[0]
        if self.depth > 14: return False
        c0 = goal.t.get((), 0)
        if abs(c0) > 1 << 31:
            for p, s in self.facts(blk):
                if s and strict: continue
                k = 1
                for m, c in goal.t.items():
                    if m and m in p.t:
                        k = Fraction(c) / Fraction(p.t[m]); break
                if k <= 0: continue
                l, _ = self.interval(goal - p * k)
                if l is not None and (l > 0 or l == 0 and (not strict or s)): return True
        if c0 > lp.BIG:      # prove a stronger, better conditioned bound
            goal = goal - c0 + (1 << 40)
        self.depth += 1
        try:
            self._splits = 0 if self.depth == 1 else self._splits
            res = self._prove(goal, blk, depth, list(extra), strict)
        finally: self.depth -= 1
        self._proved[key] = (res, depth)
        return res
    def _prove(self, goal, blk, depth, extra, strict):
        self.stat["prove"] += 1
        facts = list(self.facts(blk)) + extra
        return self.decide(goal, facts, blk, depth, strict, set())
    def decide(self, goal, facts, blk, depth, strict, done):
        if self.isint(goal) and not goal.isconst():
            goal = tighten(self.clearden(goal) - 1) if strict else tighten(self.clearden(goal))
            strict = False
        if goal.isconst() and (goal.cval() > 0 or goal.cval() == 0 and not strict): return True
        seed = set(goal.atoms())
        for p, _ in self.closure(goal, [], blk): seed |= p.atoms()
        facts = [f for f in facts if all(abs(v) <= lp.BIG for v in f[0].t.values())]
        if done: facts = facts + [f for f in self.bool_facts(facts, blk) if f not in facts]
        rel = lp.relevant(facts, seed, 90)
        fs = [facts[i] for i in rel]
        # contradictory facts (unreachable case)
        for p, s in facts:
            if p.isconst() and (p.cval() < 0 or p.cval() == 0 and s): return True
        fs = fs + self.closure(goal, fs, blk)
        fs += self.bool_facts(fs, blk)
        fs += self.wrap_facts(goal, fs, blk)
        goal0, fs0 = goal, fs
        mp = self.equalities(fs)
        if mp:
            goal = goal.subst(mp)
            fs = [(p.subst(mp), s) for p, s in fs]
            fs = [(tighten(p), s) if not s and self.intcoef(p) and self.isint(p) and not p.isconst() else (p, s) for p, s in fs]
            if goal.isconst() and (goal.cval() > 0 or goal.cval() == 0 and not strict): return True
            if any(p.isconst() and (p.cval() < 0 or p.cval() == 0 and s) for p, s in fs): return True
        neg = (-goal, False) if strict else ((-goal - 1, False) if self.isint(goal) and self.intcoef(goal) else (-goal, True))
        nonneg = set()
        al = set(goal.atoms())
        for p, _ in fs: al |= p.atoms()
        for a in al:
            if self.at(a).lo is not None and self.at(a).lo >= 0: nonneg.add(a)
        for p, _ in fs:
            a = None
            if len(p.t) <= 2 and p.degree() == 1:
                (m,) = [m for m in p.t if m] if len([m for m in p.t if m]) == 1 else (None,)
                if m and p.t[m] > 0 and p.t.get((), 0) <= 0: nonneg.add(m[0])
        if lp.refute(fs, [neg], nonneg): return True
        if depth <= 0: return False
        goal, fs = goal0, fs0
        if not done:
            # replace a stored value by its proven upper/lower bound
            for a in goal.atoms():
                if "load" not in (self.at(a).info or {}) or any(a in m and m != (a,) for m in goal.t): continue
                k = goal.t[(a,)]
                for p, s in self.content_facts(self.at(a), self.at(a).info["load"]):
                    if s or any(a in m and m != (a,) for m in p.t) or not p.t.get((a,)): continue
                    if k * p.t[(a,)] <= 0 or len(p.t) < 2 or not any(m and m != (a,) for m in p.t): continue
                    g2 = goal - p * (Fraction(k) / Fraction(p.t[(a,)]))
                    if self.decide(g2, facts, blk, depth - 1, strict, {a}): return True
        # case split on a phi/select occurring in the goal, else in the relevant facts
        cand = self.split_candidates(goal, fs, done, blk, facts)
        for a in cand[:3]:
            if self._splits > self._splitlimit: return False
            self._splits += 1
            cases = self.cases(a, blk)
            if not cases: continue
            ok = True
            for mp, ef, via in cases:
                g2 = goal.subst(mp)
                f2 = [(p.subst(mp), s) for p, s in facts] + [(p.subst(mp), s) for p, s in ef]
                for y, v in mp.items():          # other atoms may be defined in terms of the split value
                    if len(v.t) <= 2 and v.degree() <= 1:
                        Y = Poly.atom(self.at(y))
                        f2 += [(Y - v, False), (v - Y, False)]
                old = self._ctx
                if via is not None: self._ctx = old + (via,)
                try: r = self.decide(g2, f2, blk, depth - 1, strict, done | {a})
                finally: self._ctx = old
                if not r:
                    ok = False; break
            if ok: return True
        return False
    def equalities(self, fs):
        """atoms the facts pin to a constant or to another atom"""
        have = {p for p, s in fs if len(p.t) <= 3 and p.degree() == 1}
        mp = {}
        for p in have:
            if -p not in have: continue
            ms = sorted([m for m in p.t if m], key=lambda m: -m[0])
            if len(ms) == 1:
                k, c = p.t[ms[0]], p.t.get((), 0)
                v = Fraction(-c) / Fraction(k)
                if v.denominator == 1 and ms[0][0] not in mp: mp[ms[0][0]] = C(int(v))
            elif len(ms) == 2 and p.t[ms[0]] in (1, -1) and p.t[ms[1]] == -p.t[ms[0]]:
                a, b = ms[0][0], ms[1][0]
                if a in mp or b in mp or not (self.at(a).isint and self.at(b).isint): continue
                mp[a] = Poly.atom(self.at(b)) - Fraction(p.t.get((), 0)) / Fraction(p.t[ms[0]])
            elif len(ms) == 2:
                for x, y in (ms, ms[::-1]):
                    a, b = x[0], y[0]
                    if p.t[x] not in (1, -1) or a in mp or b in mp or not (self.at(a).isint and self.at(b).isint): continue
                    if not isinstance(p.t[y], int) or not isinstance(p.t.get((), 0), int): continue
                    mp[a] = (Poly.atom(self.at(a)) * p.t[x] - p) * p.t[x]
                    break
        # resolve chains
        for _ in range(4):
            ch = False
            for a in list(mp):
                q = mp[a].subst({k: v for k, v in mp.items() if k != a})
                if q != mp[a]: mp[a] = q; ch = True
            if not ch: break
        return {a: q for a, q in mp.items() if a not in q.atoms()}
    def bool_facts(self, fs, blk):
        out = []
        for p, s in fs:
            if len(p.t) > 2: continue
            ms = [m for m in p.t if m]
            if len(ms) != 1 or len(ms[0]) != 1: continue
            x = self.at(ms[0][0])
            op = (x.info or {}).get("op")
            if x.key[0] != "v" or x.hi != 1 or x.lo != 0 or not op or op[0] != "i": continue
            if self.f.insts[op[1]].op not in ("icmp", "fcmp", "and", "or", "xor"): continue
            c, k = p.t.get((), 0), p.t[ms[0]]
            if k > 0 and c < 0: out += self.cond_facts(op, True, blk)
            elif k < 0 and c == 0: out += self.cond_facts(op, False, blk)
        return out
    def intcoef(self, p): return all(isinstance(c, int) for c in p.t.values())
    def split_candidates(self, goal, fs, done, blk, facts=()):
        def splittable(a):
            x = self.at(a)
            return a not in done and x.key[0] in ("phi", "sel", "minmax")
        r = sorted([a for a in goal.atoms() if splittable(a)], key=lambda a: -self.f.domdepth.get(self.at(a).info.get("defb", 0), 0))
        if len(r) < 3:
            sec = set()
            for p, _ in fs: sec |= {a for a in p.atoms() if splittable(a)}
            # wrapped values hide phis as well
            for a in goal.atoms():
                w = (self.at(a).info or {}).get("wrap")
                if w: sec |= {b for b in w[0].atoms() if splittable(b)}
            r += [a for a in sorted(sec, key=lambda a: -self.f.domdepth.get(self.at(a).info.get("defb", 0), 0)) if a not in r]
        if len(r) < 3:
            # flags tested on the way here
            for p, _ in facts:
                if len(p.t) <= 2 and len(p.atoms()) == 1:
                    (a,) = p.atoms()
                    x = self.at(a)
                    if a not in r and splittable(a) and x.key[0] == "phi" and not x.info.get("ptr") and (x.info.get("bits") or 64) <= 8: r.append(a)
        return r
    def cases(self, a, blk):
        x = self.at(a)
        kind = x.key[0]
        f = self.f
        if kind == "minmax":
            p, q, k = x.info["mm"]
            if k == ">": return [({a: p}, [(p - q, False)], None), ({a: q}, [(q - p, False)], None)]
            return [({a: p}, [(q - p, False)], None), ({a: q}, [(p - q, False)], None)]
        ins = f.insts[x.key[1]]
        if kind == "sel":
            res = []
            for i, t in ((1, True), (2, False)):
                v = self.caseval(x, ins.ops[i], ins.b)
                if v is None: return None
                res.append(({a: v}, self.cond_facts(ins.ops[0], t, ins.b), None))
            return res
        if not f.dominates(ins.b, blk): return None
        res = []
        for p in f.pred[ins.b]:
            mp = {}
            for j in f.blocks[ins.b]:
                if j.op != "phi": break
                at = self.A.by_key.get(("phi", j.id))
                if at is None: continue
                v = [o for o, q in j.ops if q == p]
                if not v: continue
                if v[0][0] == "u": continue
                val = self.caseval(at, v[0], p)
                if val is not None and not (at.id in val.atoms()): mp[at.id] = val
            if a not in mp:
                vv = [o for o, q in ins.ops if q == p]
                if vv and vv[0][0] == "u": continue          # undefined on this path: any value
                if vv and self.at(a).info.get("ptr") and vv[0][0] == "n": continue
                return None
            res.append((mp, list(self.facts(p)) + list(self.edge_facts(p, ins.b)), p))
        return res
    def caseval(self, at, op, blk):
        d = at.info
        if d.get("ptr"):
            if op[0] == "n": return None
            return self.ptr(op).off
        if not at.isint or at.key[0] in ("phi", "sel", "hphi") and self.isreal(at):
            return self.real(op)
        return self.exact(op, d["signed"], blk)
    def isreal(self, at):
        op = at.info.get("op")
        return op and op[0] == "i" and self.f.insts[op[1]].ty in ("double", "float")
    def wrap_facts(self, goal, fs, blk):
        """relate values that may have wrapped to their mathematical value where that is provable"""
        out = []
        al = set(goal.atoms())
        for p, _ in fs: al |= p.atoms()
        for a in al:
            w = (self.at(a).info or {}).get("wrap")
            if not w: continue
            p, lo, hi = w
            k = ("wr", a, blk)
            r = self._range_tried.get(k)
            if r is None:
                self._range_tried[k] = []
                r = []
                X = Poly.atom(self.at(a))
                if a not in p.atoms():
                    okl = self.prove(p - lo, blk, depth=1)
                    okh = self.prove(C(hi) - p, blk, depth=1)
                    if okl and okh: r = [(X - p, False), (p - X, False)]
                    elif okl and lo == 0: r = [(p - X, False)]
                    elif self.at(a).info.get("signed"):
                        l, h = self.interval(p)
                        if l is not None and l >= 0 and h < (1 << self.at(a).info["bits"]): r = [(p - X, False)]
                    if not r or len(r) == 1:
                        key = self.at(a).key
                        o = self.A.by_key.get(("wrap", key[1], not key[2]))
                        if o is not None and self.prove(Poly.atom(o), blk, depth=0) and (not key[2] or self.prove(C(hi) - Poly.atom(o), blk, depth=0)):
                            r += [(X - Poly.atom(o), False), (Poly.atom(o) - X, False)]
                self._range_tried[k] = r
            out += r
        return out

    # ----------------------------------------------------- loop invariants
    def houdini(self):
        f = self.f
        self.VAL = self.A.get(("VAL",), True, None, None, "VAL", {"defb": 0})
        self.loopfacts = {h: [] for h in f.loops}
        self.strides()
        for rnd in range(3):
            self.clear()
            self.pick_primary()
            new = self.newc = {}
            for L in sorted(f.loops.values(), key=lambda l: (l.depth, f.domdepth[l.header])):
                new[L.header] = self.counter_candidates(L) + (self.loop_candidates(L) if rnd else [])
            for h in new: self.loopfacts[h] = self.dedup(self.loopfacts[h] + new[h])
            self.clear()
            self.prune(3)
            for h in self.loopfacts: self.loopfacts[h] = [p for p, _ in self.strongest([(p, False) for p in self.loopfacts[h]])]
        self.content = {}
        for rnd in range(2):
            cc = self.content_candidates()
            if not cc: break
            for k, v in cc.items(): self.content[k] = self.dedup(self.content.get(k, []) + v)
            self.clear()
            self.prune(12)
        if not self.prune(40): raise RuntimeError("invariants did not stabilise in " + f.name)
        self.find_quant()
        # stored values that are bounded given the invariants found
        self.clear()
        new = {}
        for k, v in self.content_candidates().items():
            ps = [p for p in self.dedup(v) if p not in self.content.get(k, ()) and self.check_content(k, p)]
            if ps: new[k] = ps
        for k, ps in new.items(): self.content[k] = self.content.get(k, []) + ps
        if new: self.clear()
    def pick_primary(self):
        f = self.f
        for L in f.loops.values():
            best = None
            tested = set()
            for b in L.blocks:
                for ins in f.blocks[b]:
                    if ins.op == "icmp":
                        for o in ins.ops:
                            if o[0] == "i": tested.add(o[1])
                            x = f.insts.get(o[1]) if o[0] == "i" else None
                            while x is not None and x.op in ("zext", "sext", "trunc") and x.ops[0][0] == "i":
                                x = f.insts[x.ops[0][1]]; tested.add(x.id)
            for ins in f.blocks[L.header]:
                if ins.op != "phi": break
                if ins.id not in self.aff: continue
                st = self.aff[ins.id][1]
                if not st.isconst() or abs(st.cval()) != 1: continue
                if ins.ty == "ptr": self.ptr(["i", ins.id])
                else: self.ring(["i", ins.id])
                if ("hphi", ins.id) not in self.A.by_key: continue
                i0 = self.initval(ins, L)
                if i0 is None or not self.invariant(i0, L): continue
                sc = (2 if ins.id in tested else 0) + (1 if ins.ty != "ptr" else 0)
                if best is None or sc > best[0]: best = (sc, ins.id, i0, int(st.cval()))
            if best: self.prim[L.header] = best[1:]
    def counter_candidates(self, L):
        f = self.f
        out = []
        n = self.n(L)
        pr = self.prim.get(L.header)
        if pr: out.append(n)
        if pr and pr[2] == 1 and self.at(self.A.by_key[("hphi", pr[0])].id).info.get("bits") == 32:
            out.append(C((1 << 31) - 1) - Poly.atom(self.A.by_key[("hphi", pr[0])]))
        for ins in f.blocks[L.header]:
            if ins.op != "phi": break
            if ins.id not in self.aff or pr and ins.id == pr[0]: continue
            if ins.ty == "ptr": self.ptr(["i", ins.id])
            else: self.ring(["i", ins.id])
            at = self.A.by_key.get(("hphi", ins.id))
            i0 = self.initval(ins, L)
            if at is None or i0 is None: continue
            d = Poly.atom(at) - i0 - self.aff[ins.id][1] * n
            out += [d, -d]
        return out
    def shift(self, L):
        """substitution x -> x - step for the affine phis of L"""
        mp = {}
        for ins in self.f.blocks[L.header]:
            if ins.op != "phi": break
            at = self.A.by_key.get(("hphi", ins.id))
            if at is not None and ins.id in self.aff: mp[at.id] = Poly.atom(at) - self.aff[ins.id][1]
        at = self.A.by_key.get(("n", L.header))
        if at is not None: mp[at.id] = Poly.atom(at) - 1
        return mp
    def dedup(self, ps):
        seen, out = set(), []
        for p in ps:
            if p.isconst(): continue
            l, _ = self.interval(p)
            if l is not None and l >= 0: continue
            if p not in seen: seen.add(p); out.append(p)
        return out
    def loop_candidates(self, L):
        f = self.f
        out = []
        if len(L.latches) != 1: return out
        lat = L.latches[0]
        n = self.n(L)
        fs = list(self.facts(lat)) + list(self.edge_facts(lat, L.header))
        sh = self.shift(L)
        hphis = {}
        for ins in f.blocks[L.header]:
            if ins.op != "phi": break
            at = self.A.by_key.get(("hphi", ins.id))
            if at and ins.id not in self.aff: hphis[at.id] = ins
        for p, s in fs:
            if not all(self.at(a).isint for a in p.atoms()): continue
            nonin = [a for a in p.atoms() if not self.inv_atom(a, L)]
            if not nonin: continue
            if all(a in sh for a in nonin):
                out.append(tighten(p.subst(sh)))
            elif all(a in sh or a in hphis for a in nonin):
                out.append(p)
                out.append(tighten(p.subst(sh)))
        # comparisons of affine values with invariant bounds anywhere in the loop
        for b in L.blocks:
            for ins in f.blocks[b]:
                if ins.op == "icmp" and (ins.d["opty"] != "ptr" or self.ptrcmp(ins)):
                    s = ins.d["pred"].startswith("s") or (ins.d["pred"] in ("eq", "ne") and self.sgn(ins.ops[0]))
                    x, y = self.ptrcmp(ins) if ins.d["opty"] == "ptr" else (self.exact(ins.ops[0], s, b), self.exact(ins.ops[1], s, b))
                    if x.degree() > 3 or y.degree() > 3: continue
                    for u, v in ((x, y), (y, x)):
                        ua = [a for a in u.atoms() if not self.inv_atom(a, L)]
                        if ua and all(a in sh or a in hphis for a in ua) and self.invariant(v, L):
                            out += [v - u, u - v, v - u + 1, u - v + 1]
        # opaque header phis
        Ds = [C(1)]
        for K in f.loops.values():
            if K.parent is L:
                for q in self.trips(K): 
                    if self.invariant(q, L): Ds.append(q)
        for a, ins in hphis.items():
            X = Poly.atom(self.at(a))
            if ins.ty == "ptr": 
                inits = [self.ptr(v).off for v, p in ins.ops if p not in L.blocks and p in f.reach]
            elif bits(ins.ty):
                inits = [self.exact(v, self.at(a).info["signed"], p) for v, p in ins.ops if p not in L.blocks and p in f.reach]
            else: continue
            if not bits(ins.ty) > 1: continue
            DX = list(Ds)
            for v, p in ins.ops:
                if p in L.blocks:
                    e = self.exitval(self.caseval(self.at(a), v, p), L)
                    if e is not None and self.invariant(e - X, L) and e - X not in DX: DX.append(e - X)
            for i0 in inits:
                out += [X - i0, i0 - X]
                a0 = i0.single()
                if a0 is not None and self.at(a0).key[0] == "hphi":
                    for h in f.loops:
                        if f.dominates(h, L.header):
                            for q in self.loopfacts.get(h, []) + self.newc.get(h, []):
                                if a0 in q.atoms() and q.degree() <= 2: out.append(q.subst({a0: X}))
                for D in DX:
                    out += [i0 + D * n - X, X - i0 + D * n, X - i0 - D * n]
            for v, p in ins.ops:
                if p in L.blocks and ins.ty != "ptr":
                    # bounds that the stored alternatives satisfy
                    for q, _ in fs: pass
            if self.at(a).info["signed"]: out.append(X)
            # values assigned from the loop counter: phi' in {phi, iv}
            out += [C(0) + X]
            for q in self.trips(L):
                if self.invariant(q, L): out += [q - X, q - 1 - X]
            for h in self.bounds_of_assigned(ins, L): out.append(h)
        return [p for p in self.dedup(out) if p.degree() <= 4 and len(p.t) <= 12]
    def bounds_of_assigned(self, ins, L):
        """for a phi that is overwritten with a value having an invariant upper/lower bound, guess that bound"""
        out = []
        X = Poly.atom(self.A.by_key[("hphi", ins.id)])
        seen = set()
        def walk(op, blk, d):
            if d > 5 or op[0] != "i": return
            j = self.f.insts[op[1]]
            if j.id in seen: return
            seen.add(j.id)
            if j.op in ("phi", "select") and j.id != ins.id:
                for o, p in (j.ops if j.op == "phi" else [(x, j.b) for x in j.ops[1:]]): walk(o, p, d + 1)
                if j.op == "phi" and j.b not in self.f.loops: return
            if j.id == ins.id: return
            if j.ty == "ptr" or not bits(j.ty): return
            v = self.exact(op, self.A.by_key[("hphi", ins.id)].info["signed"], blk)
            sa = v.single()
            for p, _ in list(self.facts(blk)) + (self.atom_facts(sa, blk) if sa is not None else []):
                up = p + v       # p = B - v
                if self.invariant(up, L) and up.degree() <= 2: out.append(up - X)
                dn = p - v       # p = v - B
                if self.invariant(dn, L) and dn.degree() <= 2: out.append(X + dn)
        for v, p in ins.ops:
            if p in L.blocks: walk(v, p, 0)
        return out
    def trips(self, K):
        """upper bounds for the iteration counter of K at its header, as invariant polynomials"""
        pr = self.prim.get(K.header)
        out = []
        if pr is None:
            at = self.A.by_key.get(("n", K.header))
            if at is None: return out
            xid, i0, st = at.id, C(0), 1
        else:
            xid, i0, st = self.A.by_key[("hphi", pr[0])].id, pr[1], pr[2]
        for p in self.loopfacts.get(K.header, []):
            A, B = p.coef_split(xid)
            if A is not None and A.isconst() and A.cval() == -st and self.invariant(B, K):
                out.append(B - i0 if st == 1 else B + i0)
        return out
    def exitval(self, v, L):
        """a value after the inner loops of L ran to completion, from their trip counts (a guess: checked like any candidate)"""
        if v is None: return None
        for _ in range(4):
            hit = None
            for a in v.atoms():
                x = self.at(a)
                if x.key[0] != "hphi" or x.key[1] not in self.f.insts: continue
                ph = self.f.insts[x.key[1]]
                K = self.f.loops.get(ph.b)
                if K is None or K is L or not K.blocks <= L.blocks: continue
                pr = self.prim.get(K.header)
                qs = sorted(self.trips(K), key=lambda q: q.isconst())
                i0 = self.initval(ph, K)
                if not qs or i0 is None: return None
                if pr is not None and pr[0] == ph.id: hit = (a, i0 + qs[0] * pr[2]); break
                if ph.id not in self.aff: return None
                hit = (a, i0 + self.aff[ph.id][1] * qs[0]); break
            if hit is None: return v
            v = v.subst({hit[0]: hit[1]})
        return v
    def hsubst(self, L, blk):
        """the loop's header values when control enters the header from blk"""
        f = self.f
        mp = {}
        at = self.A.by_key.get(("n", L.header))
        if at is not None: mp[at.id] = Poly.atom(at) + 1 if blk in L.blocks else C(0)
        for ins in f.blocks[L.header]:
            if ins.op != "phi": break
            at = self.A.by_key.get(("hphi", ins.id))
            if not at: continue
            v = [o for o, p in ins.ops if p == blk]
            if not v or v[0][0] == "u": continue
            val = self.caseval(at, v[0], blk)
            if val is not None: mp[at.id] = val
        return mp
    def check_loopfact(self, L, p):
        f = self.f
        for b in f.pred[L.header]:
            mp = self.hsubst(L, b)
            g = p.subst(mp)
            if not self.prove(g, b, depth=3, extra=tuple(self.edge_facts(b, L.header))): return False
        return True
    def prune(self, maxr):
        for rnd in range(maxr):
            bad = False
            for L in sorted(self.f.loops.values(), key=lambda l: l.depth):
                keep = []
                for p in self.loopfacts[L.header]:
                    if self.check_loopfact(L, p): keep.append(p)
                    else: bad = True
                self.loopfacts[L.header + 0] = keep if not bad else keep
            for cls in list(self.content):
                keep = []
                for p in self.content[cls]:
                    if self.check_content(cls, p): keep.append(p)
                    else: bad = True
                self.content[cls] = keep
            if not bad: return True
            self.clear()
        # not stable within the bound: drop everything that is not self-inductive
        return False

    # ------------------------------------------------------ contents of memory
    def strides(self):
        from math import gcd
        self.stride = {}
        acc = {}
        for ins in self.f.insts.values():
            if ins.b not in self.f.reach: continue
            if ins.op in ("load", "store"):
                p = self.ptr(ins.ops[0] if ins.op == "load" else ins.ops[1])
                acc.setdefault(p.base, []).append((p.off, ins))
        for b, lst in acc.items():
            g = 0
            for off, _ in lst:
                for m, c in off.t.items():
                    if m: g = gcd(g, int(c)) if isinstance(c, int) else 1
            if g: self.stride[b] = g
        self.acc = acc
    def content_candidates(self):
        """ranges of values stored in local arrays/structs whose elements are later used as integers"""
        out = {}
        need = set()
        for ins in self.f.insts.values():
            if ins.op == "load" and ins.b in self.f.reach and ins.ty in ("i32", "i64", "double", "i16"):
                p = self.ptr(ins.ops[0])
                if p.base[0] in ("heap", "stack"): need.add(self.content_class(ins))
        for cls in need:
            if self.bad_class(cls): continue
            for ins in self.f.insts.values():
                if ins.op != "store" or ins.b not in self.f.reach or self.content_class(ins) != cls: continue
                V = Poly.atom(self.VAL)
                isf = ins.d["vty"] in ("double", "float")
                v = self.real(ins.ops[0]) if isf else self.exact(ins.ops[0], self.cls_signed(cls), ins.b)
                if v.degree() > 3: continue
                if v.isconst(): out.setdefault(cls, []).append(V - v); out[cls].append(v - V)
                sa = v.single()
                li = (self.at(sa).info or {}).get("load") if sa is not None else None
                if li is not None and self.content_class(li) == cls: continue
                for p, s in list(self.facts(ins.b)) + self.closure(v, [], ins.b, 1):
                    up = p + v
                    if self.glob_inv(up, cls[0]) and up.degree() <= 2 and not s: out.setdefault(cls, []).append(up - V)
                    dn = p - v
                    if self.glob_inv(dn, cls[0]) and dn.degree() <= 2 and not s: out.setdefault(cls, []).append(V + dn)
                if self.at(sa).lo == 0 if sa is not None else False: out.setdefault(cls, []).append(V)
        return {k: [p for p in self.dedup(v)] for k, v in out.items()}
    def cls_signed(self, cls):
        for ins in self.f.insts.values():
            if ins.op == "load" and ins.b in self.f.reach and bits(ins.ty) > 1 and ins.ty != "ptr" and self.content_class(ins) == cls: return self.sgn(["i", ins.id])
        return False
    def glob_inv(self, p, base=None):
        if base is not None:
            for a in p.atoms():
                x = self.at(a)
                b = (x.info or {}).get("defb", 0)
                L = self.f.loopof.get(b)
                if not L: continue
                if x.key[0] not in ("rfld", "cout"): return False
                while L.parent: L = L.parent
                k = ("acc", base)
                if k not in self._root:
                    self._root[k] = {i.b for i in self.f.insts.values() if i.b in self.f.reach and (i.op in ("load", "store") and
                                     self.root(i.ops[0] if i.op == "load" else i.ops[1]) == base or i.op == "call" and not (i.callee or "").startswith("llvm.lifetime") and any(self.isptr(o) and self.root(o) == base for o in i.ops))}
                if any(y in L.blocks or not self.f.dominates(b, y) for y in self._root[k]): return False
            return all(self.at(a).id != self.VAL.id and self.at(a).key[0] != "n" for a in p.atoms())
        return all(not self.f.loopof.get((self.at(a).info or {}).get("defb", 0)) and self.at(a).id != self.VAL.id and self.at(a).key[0] != "n" for a in p.atoms())
    def bad_class(self, cls):
        """object also written through something we cannot classify"""
        base = cls[0]
        for ins in self.f.insts.values():
            if ins.b not in self.f.reach: continue
            if ins.op == "store":
                p = self.ptr(ins.ops[1])
                if p.base == base:
                    c2 = self.content_class(ins)
                    if c2 != cls and not self.disjoint(c2, cls): return True
                elif p.base[0] in ("phi", "unk", "ld", "cyc"): return True
            elif ins.op == "call":
                c = ins.callee or ""
                if c in ("free",) or c.startswith(("llvm.dbg", "llvm.lifetime")): continue
                for k, o in enumerate(ins.ops):
                    if self.isptr(o) and self.ptr(o).base == base:
                        if c.startswith("llvm.memcpy") and k == 1: continue
                        if c in ("memcpy", "memmove") and k == 1: continue
                        if c.startswith("llvm.memcpy") and (self.ptr(ins.ops[1]).base == base or self.temp_of(self.ptr(ins.ops[1]), base, ins)): continue
                        if c in self.contracts and self.contracts[c].readonly(k): continue
                        return True
        return False
    def temp_of(self, p, base, cp):
        """p is a local temporary that only ever holds whole elements copied from base"""
        if p.base[0] != "stack" or p.off != C(0) or cp.ops[2][0] != "c": return False
        n = int(cp.ops[2][1])
        for x in self.f.insts.values():
            if x.b not in self.f.reach: continue
            if x.op in ("load", "store") and self.ptr(x.ops[0] if x.op == "load" else x.ops[1]).base == p.base:
                if x.op == "store": return False
            if x.op == "call" and not (x.callee or "").startswith(("llvm.lifetime", "llvm.dbg")):
                for k, o in enumerate(x.ops):
                    if self.isptr(o) and self.ptr(o).base == p.base:
                        if not x.callee.startswith("llvm.memcpy") or x.ops[2][0] != "c" or int(x.ops[2][1]) != n: return False
                        if k == 0:
                            q = self.ptr(x.ops[1])
                            g = self.stride.get(base, 0)
                            if q.base != base or not g or n != g or q.off.t.get((), 0) % g: return False
        return True
    def disjoint(self, a, b):
        (b1, s1, o1, g1), (b2, s2, o2, g2) = a, b
        if g1 != g2 or not g1: return g1 == g2 and (o1 + s1 <= o2 or o2 + s2 <= o1)
        return o1 + s1 <= o2 or o2 + s2 <= o1
    def check_content(self, cls, p):
        if self.bad_class(cls): return False
        base = cls[0]
        if base[0] == "heap" and self.f.insts[base[1]].callee == "calloc":
            if not self.prove(p.subst({self.VAL.id: C(0)}), self.f.insts[base[1]].b, depth=2): return False
        for ins in self.f.insts.values():
            if ins.op == "call" and ins.b in self.f.reach and (ins.callee or "").startswith("llvm.memset") and self.ptr(ins.ops[0]).base == base:
                if not self.prove(p.subst({self.VAL.id: C(0)}), ins.b, depth=2): return False
            if ins.op != "store" or ins.b not in self.f.reach or self.content_class(ins) != cls: continue
            isf = ins.d["vty"] in ("double", "float")
            v = self.real(ins.ops[0]) if isf else self.exact(ins.ops[0], self.cls_signed(cls), ins.b)
            if isf and not all(self.finite(a, ins.b) for a in v.atoms()): return False
            if not self.prove(p.subst({self.VAL.id: v}), ins.b, depth=3): return False
        return True
