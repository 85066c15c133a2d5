"""Value-set abstract interpretation of a function that reads one string.

The string is abstract: for every position a set of possible bytes (a product of sets), refined at branches.
Numbers are sums of tables, each a function of one byte of the string, so digits, shifts and masks stay exact.
No string is ever chosen and nothing is solved: a branch splits the set of one byte."""
from ir import bits
HEX = {ord(c): int(c, 16) for c in "0123456789abcdefABCDEF"}
FULL = frozenset(range(256))
SPACE = frozenset(b" \t\n\v\f\r")
class Unknown(Exception): pass
class Beyond(Exception): pass

class V:
    __slots__ = ("c", "t")
    def __init__(self, c=0, t=None): self.c, self.t = c, t or {}
    def const(self): return not self.t
OPAQUE = "opaque"

class St:
    __slots__ = ("b", "p", "k", "env", "mem", "cells", "out")
    def copy(self):
        s = St(); s.b, s.p, s.k = self.b, self.p, self.k
        s.env, s.mem, s.cells, s.out = dict(self.env), dict(self.mem), dict(self.cells), dict(self.out)
        return s
    def cell(self, i): return self.cells.get(i, FULL)

class Run:
    def __init__(self, f, m, sarg, outs, limit=900000, strcap=12):
        self.f, self.m, self.sarg, self.outs, self.limit, self.cap = f, m, sarg, outs, limit, strcap
        self.rets, self.beyond, self.unknown, self.steps = [], [], [], 0
    # ---- numbers
    def norm(self, st, v, n):
        """tables restricted to the bytes still possible, values modulo 2^n where that is exact"""
        M = 1 << n
        t = {}
        c = v.c
        for k, d in v.t.items():
            s = st.cell(k)
            d = {b: x for b, x in d.items() if b in s}
            vs = set(d.values())
            if len(vs) <= 1: c += next(iter(vs), 0)
            else: t[k] = d
        if not t: return V(c % M)
        if len(t) == 1:
            k, d = next(iter(t.items()))
            return V(0, {k: {b: (x + c) % M for b, x in d.items()}})
        lo = c + sum(min(d.values()) for d in t.values()); hi = c + sum(max(d.values()) for d in t.values())
        if lo < 0 or hi >= M: raise Unknown("sum of several digits wraps")
        return V(c, t)
    def soft(self, st, v, n):
        try: return self.norm(st, v, n)
        except Unknown: return OPAQUE
    def val(self, st, o, n):
        if o[0] == "c": return V(int(o[1]) % (1 << n))
        if o[0] == "u": return OPAQUE
        if o[0] == "i" and o[1] in st.env: return st.env[o[1]]
        raise Unknown(f"operand {o[0]}")
    def ptr(self, st, o):
        if o[0] == "a": return (("arg", o[1]), V(0))
        if o[0] == "n": return None
        if o[0] == "c" and int(o[1]) == 0: return None
        if o[0] == "g": return (("glob", o[1]), V(int(o[2]) if len(o) > 2 else 0))
        if o[0] == "i":
            v = st.env.get(o[1], 0)
            if v is None or isinstance(v, tuple): return v
        raise Unknown(f"pointer {o[0]}")
    def single(self, v):
        """the table of a value of one byte"""
        if v is OPAQUE: raise Unknown("unspecified value decides a branch")
        if len(v.t) != 1: return None
        (k, d), = v.t.items()
        return k, {b: x + v.c for b, x in d.items()}
    def split(self, st, v, pred, n):
        """[(state, truth)] of a test of one number"""
        v = self.norm(st, v, n) if v is not OPAQUE else v
        if v is OPAQUE: raise Unknown("unspecified value decides a branch")
        if v.const(): return [(st, pred(v.c))]
        r = self.single(v)
        if r is None: raise Unknown("test of several bytes at once")
        k, d = r
        yes = frozenset(b for b, x in d.items() if pred(x)); no = frozenset(d) - yes
        out = []
        for s, t in ((yes, True), (no, False)):
            if s:
                z = st.copy(); z.cells[k] = s; out.append((z, t))
        return out
    # ---- bytes
    def cstr(self, name):
        g = self.m.globals.get(name) or {}
        s = g.get("str")
        if s is None: raise Unknown("global data")
        return [ord(c) for c in s.split("\0")[0]] + [0]
    def byte(self, st, base, off):
        if base == ("arg", self.sarg):
            if off < 0: raise Beyond("before the string")
            for j in range(off):
                if 0 in st.cell(j): raise Beyond(f"character {off} is read although character {j} may end the string")
            if off > self.cap: raise Unknown("long strings")
            s = st.cell(off)
            return self.norm(st, V(0, {off: {b: b for b in s}}), 8)
        if base[0] == "al":
            v = st.mem.get((base, off))
            if v is None: return OPAQUE
            if v[0] != 1: raise Unknown("byte of a number")
            return v[1]
        if base[0] == "glob":
            s = self.cstr(base[1])
            if off >= len(s): raise Beyond("past a constant string")
            return V(s[off])
        raise Unknown("memory")
    def scan(self, st, base, off, inset, cap):
        """[(state, number of bytes of the set, byte after is 0?)] longest prefix from off inside a set of bytes, None when cap was reached"""
        out, todo = [], [(st, 0)]
        while todo:
            s, k = todo.pop()
            if k == cap: out.append((s, k)); continue
            v = self.byte(s, base, off + k)
            if v is OPAQUE: raise Unknown("unspecified byte")
            for z, t in self.split(s, v, lambda x: x in inset, 8):
                if t: todo.append((z, k + 1))
                else: out.append((z, k))
        return out
    def digits(self, st, base, off, width, num=16, scanf=False):
        """[(state, value | OPAQUE, bytes used | None)] as strtol and the number conversions of scanf read: spaces, sign, prefix, digits.
        bytes used 0: no number; None: not determined"""
        if self.byte(st, base, off) is OPAQUE: return [(st, OPAQUE, 0)]
        out = []
        for z, sp in self.scan(st, base, off, SPACE, 3):
            if sp == 3: out.append((z, OPAQUE, None)); continue
            for y, sg in self.scan(z, base, off + sp, frozenset(b"+-"), 1):
                left = (width or 10) - sg
                if left <= 0: out.append((y, OPAQUE, None)); continue
                p0 = off + sp + sg
                neg = [(y, False)] if not sg else self.split(y, self.byte(y, base, off + sp), lambda x: x == 45, 8)
                for w, minus in neg:
                    for q, v, k in self.magnitude(w, base, p0, left, num, scanf, bool(width)):
                        if k is None or v is OPAQUE: out.append((q, OPAQUE, None if k is None else 0)); continue
                        if minus: v = V(-v.c, {j: {b: -x for b, x in d.items()} for j, d in v.t.items()})
                        out.append((q, v, sp + sg + k))
        return out
    def magnitude(self, st, base, off, left, num, scanf, wide):
        out = []
        if num in (16, 0):
            for z, zero in self.split(st, self.byte(st, base, off), lambda x: x == 48, 8):
                if not zero: out += self.plain(z, base, off, left, 10 if num == 0 else 16, wide); continue
                if left == 1: out.append((z, V(0), 1)); continue
                for y, ex in self.split(z, self.byte(z, base, off + 1), lambda x: x in b"xX", 8):
                    if not ex: out += self.plain(y, base, off, left, 8 if num == 0 else 16, wide); continue
                    for q, v, k in self.plain(y, base, off + 2, left - 2, 16, wide) if left > 2 else [(y, OPAQUE, 0)]:
                        if k: out.append((q, v, k + 2))
                        elif k is None or scanf: out.append((q, OPAQUE, None))
                        else: out.append((q, V(0), 1))
            return out
        return self.plain(st, base, off, left, num, wide)
    def plain(self, st, base, off, left, num, wide):
        ds = frozenset(b for b, x in HEX.items() if x < num)
        out = []
        for y, k in self.scan(st, base, off, ds, left):
            if k == left and not wide: out.append((y, OPAQUE, None))
            elif k == 0: out.append((y, OPAQUE, 0))
            else: out.append((y, self.number(y, base, off, k, num), k))
        return out
    def number(self, st, base, off, k, num=16):
        c, t = 0, {}
        for i in range(k):
            v = self.byte(st, base, off + i); w = num ** (k - 1 - i)
            v = self.norm(st, v, 8)
            if v.const(): c += HEX[v.c] * w; continue
            r = self.single(v)
            if r is None: raise Unknown("digit")
            j, d = r
            e = t.get(j, {b: 0 for b in d})
            t[j] = {b: e.get(b, 0) + HEX[x] * w for b, x in d.items() if x in HEX}
        return V(c, t)
    # ---- execution
    def run(self):
        st = St(); st.b, st.p, st.k, st.env, st.mem, st.cells, st.out = 0, -1, 0, {}, {}, {}, {}
        todo = [st]
        while todo:
            st = todo.pop()
            try: todo.extend(self.block(st))
            except Beyond as e: self.beyond.append((st, self.at, str(e)))
            except Unknown as e:
                self.unknown.append(str(e))
                if self.steps > self.limit: break
        return self
    def block(self, st):
        ins = self.f.blocks[st.b]
        if st.k == 0:
            new = {}
            for i in ins:
                if i.op != "phi": break
                v = next(v for v, q in i.ops if q == st.p)
                new[i.id] = self.ptr(st, v) if i.ty == "ptr" else self.val(st, v, bits(i.ty))
            st.env.update(new)
        while True:
            i = ins[st.k]
            self.at = i
            self.steps += 1
            if self.steps > self.limit: raise Unknown("too many cases")
            if i.op == "phi": st.k += 1; continue
            if i.op == "ret": self.rets.append(st); return []
            if i.op == "unreachable": return []
            if i.op == "br":
                if not i.ops: return [self.go(st, i.d["succ"][0])]
                return [self.go(z, i.d["succ"][0 if t else 1]) for z, t in self.split(st, self.val(st, i.ops[0], 1), lambda x: x & 1 == 1, 1)]
            if i.op == "switch":
                out, rest = [], [st]
                v = self.val(st, i.ops[0], 64)
                tg = {}
                for c, b in i.d["cases"]: tg.setdefault(b, set()).add(int(c[1]))
                n = bits(self.f.insts[i.ops[0][1]].ty) if i.ops[0][0] == "i" else 32
                for b, cs in tg.items():
                    cs = {c % (1 << n) for c in cs}
                    nx = []
                    for r in rest:
                        for z, t in self.split(r, v, lambda x: x % (1 << n) in cs, n): (out.append(self.go(z, b)) if t else nx.append(z))
                    rest = nx
                return out + [self.go(r, i.d["default"]) for r in rest]
            forks = self.step(st, i)
            if forks is not None:
                for z in forks: z.k = st.k + 1 if z is not st else z.k + 1
                return forks
            st.k += 1
    def go(self, st, b):
        z = st.copy() if st.b != b or True else st
        z.p, z.b, z.k = st.b, b, 0
        return z
    def add(self, st, a, b, s, n):
        if a is OPAQUE or b is OPAQUE: return OPAQUE
        t = {k: dict(d) for k, d in a.t.items()}
        for k, d in b.t.items():
            if k in t: t[k] = {x: t[k][x] + s * d[x] for x in t[k] if x in d}
            else: t[k] = {x: s * y for x, y in d.items()}
        return self.norm(st, V(a.c + s * b.c, t), n)
    def unary(self, st, v, fn, n):
        """a function applied to the value of one byte"""
        if v.const(): return V(fn(v.c) % (1 << n))
        r = self.single(v)
        if r is None: return None
        return self.norm(st, V(0, {r[0]: {b: fn(x) % (1 << n) for b, x in r[1].items()}}), n)
    def mask(self, v):
        m = v.c
        for d in v.t.values():
            u = 0
            for x in d.values():
                if x < 0: return None
                u |= x
            if m & u: return None
            m |= u
        return m
    def arith(self, st, i):
        n = bits(i.ty)
        a, b = self.val(st, i.ops[0], n), self.val(st, i.ops[1], n)
        if a is OPAQUE or b is OPAQUE: return OPAQUE
        a, b = self.norm(st, a, n), self.norm(st, b, n)
        op = i.op
        if op in ("add", "sub"): return self.add(st, a, b, 1 if op == "add" else -1, n)
        if op == "xor" and b.const() and b.c == (1 << n) - 1: return self.add(st, V((1 << n) - 1), a, -1, n)
        if a.const() and not b.const() and op in ("mul", "and", "or", "xor"): a, b = b, a
        if b.const():
            c = b.c
            if op in ("mul", "shl"):
                w = c if op == "mul" else 1 << c
                return self.norm(st, V(a.c * w, {k: {x: y * w for x, y in d.items()} for k, d in a.t.items()}), n)
            sg = lambda x: x - (1 << n) if x >> (n - 1) & 1 else x
            fns = {"and": lambda x: x & c, "or": lambda x: x | c, "xor": lambda x: x ^ c, "lshr": lambda x: x >> c, "ashr": lambda x: sg(x) >> c, "udiv": lambda x: x // c if c else 0, "urem": lambda x: x % c if c else 0,
                   "sdiv": lambda x: int(sg(x) / sg(c)) if c else 0, "srem": lambda x: (abs(sg(x)) % abs(sg(c))) * (1 if sg(x) >= 0 else -1) if c else 0}
            if op not in fns: raise Unknown(op)
            r = self.unary(st, a, fns[op], n)
            if r is not None: return r
            if self.mask(a) is None: raise Unknown(f"{op} of several digits")
            if op in ("ashr", "sdiv", "srem") and self.mask(a) >> (n - 1) & 1: raise Unknown(op)
            # the digits occupy different bits: bit operations work on each of them
            if op in ("udiv", "sdiv", "urem", "srem"):
                if c & (c - 1) or not c: raise Unknown(op)
                op = "lshr" if op[1:] == "div" else "and"
                c = c.bit_length() - 1 if op == "lshr" else c - 1
            g = {"and": lambda x: x & c, "lshr": lambda x: x >> c, "ashr": lambda x: x >> c}.get(op)
            if g is None:
                if op in ("or", "xor") and not self.mask(a) & c: return self.add(st, a, b, 1, n)
                raise Unknown(op)
            return self.norm(st, V(g(a.c), {k: {x: g(y) for x, y in d.items()} for k, d in a.t.items()}), n)
        if op in ("or", "xor"):
            ma, mb = self.mask(a), self.mask(b)
            if ma is not None and mb is not None and not ma & mb: return self.add(st, a, b, 1, n)
        if len(a.t) == 1 and set(a.t) == set(b.t):
            (k, d), = a.t.items(); e = b.t[k]
            fn = {"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y, "mul": lambda x, y: x * y}.get(op)
            if fn: return self.norm(st, V(0, {k: {x: fn(d[x] + a.c, e[x] + b.c) for x in d if x in e}}), n)
        raise Unknown(op)
    def nb(self, o):
        if o[0] == "c" and len(o) > 2: return int(o[2])
        return bits(self.f.insts[o[1]].ty) if o[0] == "i" else 64
    def icmp(self, st, i):
        p = i.d["pred"]
        isp = any(o[0] in ("a", "n", "g") or o[0] == "i" and self.f.insts[o[1]].ty == "ptr" for o in i.ops)
        if isp:
            a, b = self.ptr(st, i.ops[0]), self.ptr(st, i.ops[1])
            if a is None or b is None: return [(st, V(int((a is b) == (p == "eq")))) ] if p in ("eq", "ne") else self.no()
            if a[0] != b[0]: raise Unknown("pointers compared")
            d = self.add(st, a[1], b[1], -1, 64); n = 64; c = V(0)
            if p[0] == "u": p = "s" + p[1:]
            a, b = d, c
        else:
            n = max(self.nb(o) for o in i.ops if o[0] != "c") if any(o[0] != "c" for o in i.ops) else 64
            a, b = self.val(st, i.ops[0], n), self.val(st, i.ops[1], n)
        if a is OPAQUE or b is OPAQUE: return OPAQUE
        if isinstance(a, tuple) or isinstance(b, tuple): return self.cmplen(a, b, p)
        sg = lambda x: x - (1 << n) if x >> (n - 1) & 1 else x
        a, b = self.norm(st, a, n), self.norm(st, b, n)
        def test(x, y):
            if p in ("eq", "ne"): return (x == y) == (p == "eq")
            if p[0] == "s": x, y = sg(x), sg(y)
            return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[1:]]
        if b.const(): fn = lambda x: int(test(x, b.c)); v = a
        elif a.const(): fn = lambda y: int(test(a.c, y)); v = b
        elif len(a.t) == 1 and set(a.t) == set(b.t):
            (k, d), = a.t.items(); e = b.t[k]
            return V(0, {k: {x: int(test(d[x], e[x])) for x in d if x in e}})
        else: raise Unknown("comparison of several bytes")
        r = self.unary(st, v, fn, 1)
        if r is None: raise Unknown("comparison of several digits")
        return r
    def no(self): raise Unknown("pointer order")
    def step(self, st, i):
        op, E = i.op, st.env
        if op == "alloca": E[i.id] = (("al", i.id), V(0)); return None
        if op == "getelementptr":
            p = self.ptr(st, i.ops[0])
            if p is None: raise Unknown("null arithmetic")
            off = self.add(st, p[1], V(i.d.get("coff", 0)), 1, 64)
            for o, sc, nb in i.d.get("vars", []):
                v = self.val(st, o, nb)
                if v is OPAQUE or isinstance(v, tuple): raise Unknown("position")
                if nb < 64: v = self.unary(st, self.norm(st, v, nb), lambda x: x - (1 << nb) if x >> (nb - 1) & 1 else x, 64)
                v = V(v.c * sc, {k: {x: y * sc for x, y in d.items()} for k, d in v.t.items()})
                off = self.add(st, off, v, 1, 64)
            E[i.id] = (p[0], off); return None
        if op == "load":
            p = self.ptr(st, i.ops[0])
            if p is None: raise Unknown("null")
            n = i.d.get("size", 1)
            if p[0] == ("ctype",): E[i.id] = (("ctab",), V(0)); return None
            if p[0] == ("ctab",):
                if n != 2: raise Unknown("ctype")
                def cls(x):
                    x = x // 2 if x < 1 << 63 else -1
                    c = x if 0 <= x < 128 else 0
                    return (0x1000 if c in HEX else 0) | (0x800 if 48 <= c <= 57 else 0) | (0x2000 if c in SPACE else 0) | (0x400 if 65 <= c <= 90 or 97 <= c <= 122 else 0) | (0x100 if 65 <= c <= 90 else 0) | (0x200 if 97 <= c <= 122 else 0) | (8 if 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122 else 0)
                r = self.unary(st, p[1], cls, 16)
                if r is None: raise Unknown("ctype")
                E[i.id] = r; return None
            if not p[1].const():
                if p[0][0] == "glob" and n == 1:
                    s = self.cstr(p[0][1])
                    r = self.unary(st, p[1], lambda x: s[x] if x < len(s) else 0, 8)
                    if r is not None and all(0 <= x + p[1].c < len(s) for x in self.single(p[1])[1].values()): E[i.id] = r; return None
                raise Unknown("position depends on the text")
            off = p[1].c - (1 << 64) if p[1].c >> 63 else p[1].c
            if i.ty == "ptr":
                v = st.mem.get((p[0], off))
                if v is None: raise Unknown("pointer loaded")
                E[i.id] = v[1]; return None
            if p[0][0] == "al" and n > 1 or p[0][0] == "arg" and p[0][1] != self.sarg:
                key = (p[0], off)
                if p[0][0] == "arg":
                    if p[0][1] in self.outs and off == 0 and n == 1: E[i.id] = st.out.get(p[0][1], OPAQUE); return None
                    raise Unknown("memory")
                v = st.mem.get(key)
                E[i.id] = v[1] if v is not None and v[0] == n else OPAQUE
                if v is not None and v[0] != n: raise Unknown("partial read")
                return None
            if n != 1: raise Unknown("several characters at once")
            E[i.id] = self.byte(st, p[0], off); return None
        if op == "store":
            p = self.ptr(st, i.ops[1]); o = i.ops[0]
            if p is None or not p[1].const(): raise Unknown("store")
            n = i.d.get("size", 1)
            isp = o[0] in ("a", "n", "g") or o[0] == "i" and self.f.insts[o[1]].ty == "ptr"
            v = self.ptr(st, o) if isp else self.val(st, o, 8 * n)
            if isinstance(v, V): v = self.norm(st, v, 8 * n)
            if p[0][0] == "arg" and p[0][1] in self.outs and p[1].c == 0 and n == 1: st.out[p[0][1]] = v
            elif p[0][0] == "al": st.mem[p[0], p[1].c] = (n, v)
            else: raise Unknown("store elsewhere")
            return None
        if op in ("zext", "sext", "trunc"):
            m, n = self.nb(i.ops[0]), bits(i.ty)
            v = self.val(st, i.ops[0], m)
            if v is OPAQUE or isinstance(v, tuple): E[i.id] = v; return None
            v = self.norm(st, v, m)
            if op == "zext": E[i.id] = v
            elif op == "sext":
                r = self.unary(st, v, lambda x: x - (1 << m) if x >> (m - 1) & 1 else x, n)
                if r is None:
                    if self.mask(v) is None or self.mask(v) >> (m - 1) & 1: raise Unknown("sext")
                    r = v
                E[i.id] = r
            else:
                r = self.unary(st, v, lambda x: x, n)
                if r is None:
                    if self.mask(v) is None: raise Unknown("trunc")
                    M = (1 << n) - 1
                    r = self.norm(st, V(v.c & M, {k: {x: y & M for x, y in d.items()} for k, d in v.t.items()}), n)
                E[i.id] = r
            return None
        if op == "freeze": E[i.id] = self.val(st, i.ops[0], bits(i.ty)); return None
        if op == "icmp":
            r = self.icmp(st, i)
            E[i.id] = r[0][1] if isinstance(r, list) else r
            return None
        if op == "select":
            out = []
            for z, t in self.split(st, self.val(st, i.ops[0], 1), lambda x: x & 1 == 1, 1):
                z = z.copy(); o = i.ops[1 if t else 2]
                z.env[i.id] = self.ptr(z, o) if i.ty == "ptr" else self.val(z, o, bits(i.ty))
                out.append(z)
            for z in out: z.k = st.k
            return out
        if op in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "urem", "sdiv", "srem"):
            if op == "sub" and any(o[0] == "i" and self.f.insts[o[1]].op == "ptrtoint" for o in i.ops):
                a, b = (E.get(o[1]) if o[0] == "i" else None for o in i.ops)
                if not (isinstance(a, tuple) and isinstance(b, tuple)) or a[0] != b[0]: raise Unknown("address")
                E[i.id] = self.add(st, a[1], b[1], -1, 64); return None
            E[i.id] = self.arith(st, i); return None
        if op == "ptrtoint": E[i.id] = self.ptr(st, i.ops[0]); return None
        if op == "call": return self.call(st, i)
        raise Unknown(op)
    def cmplen(self, a, b, p):
        """comparison with the length of a string of more than ten characters"""
        flip = isinstance(b, tuple)
        if flip: a, b = b, a
        if not isinstance(b, V) or not b.const() or a[0] != "ge" or not 0 <= b.c < a[1]: raise Unknown("length")
        if p in ("eq", "ne"): return V(int(p == "ne"))
        gt = p[1] == "g"
        return V(int(gt != flip))
    def call(self, st, i):
        c, E = i.callee or "", st.env
        if c.startswith(("llvm.dbg", "llvm.lifetime")): return None
        args = i.ops
        if c in ("strlen", "strspn"):
            p = self.ptr(st, args[0])
            if p is None or not p[1].const(): raise Unknown(c)
            s = FULL - {0} if c == "strlen" else frozenset(self.cstr(self.ptr(st, args[1])[0][1])) - {0}
            out = []
            for z, k in self.scan(st, p[0], p[1].c, s, 10):
                z = z.copy(); z.k = st.k
                z.env[i.id] = ("ge", 10) if k == 10 else V(k)
                out.append(z)
            return out
        if c in ("isxdigit", "isdigit", "isspace", "tolower", "toupper"):
            v = self.val(st, args[0], 32)
            asc = lambda x: x if x < 128 else -1
            fn = {"isxdigit": lambda x: int(x in HEX), "isdigit": lambda x: int(48 <= x <= 57), "isspace": lambda x: int(x in SPACE),
                  "tolower": lambda x: x + 32 if 65 <= x <= 90 else x, "toupper": lambda x: x - 32 if 97 <= x <= 122 else x}[c]
            r = self.unary(st, self.norm(st, v, 32), fn, 32) if v is not OPAQUE else None
            if r is None: raise Unknown(c)
            E[i.id] = r; return None
        if c == "__ctype_b_loc": E[i.id] = (("ctype",), V(0)); return None
        if c in ("strchr",):
            p = self.ptr(st, args[0]); v = self.val(st, args[1], 32)
            if p is None or v is OPAQUE: raise Unknown(c)
            if p[0][0] != "glob" or not p[1].const(): raise Unknown(c)
            s = self.cstr(p[0][1])[p[1].c:]
            out = []
            for z, t in self.split(st, v, lambda x: x & 255 in s, 32):
                z = z.copy(); z.k = st.k
                z.env[i.id] = (p[0], self.add(z, p[1], self.unary(z, self.norm(z, v, 32), lambda x: s.index(x & 255), 64), 1, 64)) if t else None
                out.append(z)
            return out
        if c in ("strtol", "strtoul", "strtoll", "strtoull"):
            p, e = self.ptr(st, args[0]), self.ptr(st, args[1])
            b = self.val(st, args[2], 32)
            if p is None or not p[1].const() or b is OPAQUE or not b.const() or b.c not in (0, 8, 10, 16): raise Unknown(c)
            out = []
            for z, v, k in self.digits(st, p[0], p[1].c, None, b.c):
                z = z.copy(); z.k = st.k
                if v is OPAQUE and k == 0: v = V(0)
                z.env[i.id] = v if v is OPAQUE else self.soft(z, v, 64)
                if e is not None: z.mem[e[0], e[1].c] = (8, (p[0], V(p[1].c + k)) if k is not None else OPAQUE)
                out.append(z)
            return out
        if c in ("sscanf", "__isoc99_sscanf", "__isoc23_sscanf"):
            import re
            p, fm = self.ptr(st, args[0]), self.ptr(st, args[1])
            if p is None or not p[1].const(): raise Unknown(c)
            fmt = bytes(self.cstr(fm[0][1])[:-1]).decode("latin1")
            return self.scanf(st, i, p[0], p[1].c, fmt, [self.ptr(st, o) for o in args[2:]])
        if c.startswith(("llvm.memcpy", "llvm.memset")) or c in ("memcpy", "memset"):
            p = self.ptr(st, args[0]); n = self.val(st, args[2], 64)
            if p is None or p[0][0] != "al" or not p[1].const() or not n.const() or n.c > 64: raise Unknown(c)
            for j in range(n.c):
                if "memset" in c: v = self.val(st, args[1], 8)
                else:
                    q = self.ptr(st, args[1])
                    if q is None or not q[1].const(): raise Unknown(c)
                    v = self.byte(st, q[0], q[1].c + j)
                st.mem[p[0], p[1].c + j] = (1, v)
            return None
        if c in ("strcmp", "strncmp", "memcmp", "bcmp", "strcasecmp", "strncasecmp"):
            p, q = self.ptr(st, args[0]), self.ptr(st, args[1])
            if p is None or q is None or not p[1].const() or not q[1].const(): raise Unknown(c)
            flip = 1
            if p[0][0] == "glob": p, q, flip = q, p, -1
            if q[0][0] != "glob": raise Unknown(c)
            g = self.cstr(q[0][1])[q[1].c:]
            lim = len(g)
            if c not in ("strcmp", "strcasecmp"):
                v = self.val(st, args[2], 64)
                if v is OPAQUE or not v.const(): raise Unknown(c)
                lim = min(lim, v.c) if c[0] == "s" else v.c
            low = (lambda x: x + 32 if 65 <= x <= 90 else x) if "case" in c else (lambda x: x)
            out, cur = [], [st]
            def fin(z, r): z = z.copy(); z.k = st.k; z.env[i.id] = V(r * flip % (1 << 32)); out.append(z)
            for j in range(lim):
                if j >= len(g): raise Unknown(c)
                nx = []
                for z in cur:
                    for y, t in self.split(z, self.byte(z, p[0], p[1].c + j), lambda x: low(x) == low(g[j]), 8):
                        if t: nx.append(y); continue
                        for x, less in self.split(y, self.byte(y, p[0], p[1].c + j), lambda x: low(x) < low(g[j]), 8): fin(x, -1 if less else 1)
                cur = nx
            for z in cur: fin(z, 0)
            return out
        raise Unknown("call of " + c)
    def scanf(self, st, i, base, off, fmt, dst):
        import re
        live, out, j = [(st.copy(), off, 0)], [], 0
        size = lambda l: {"hh": 1, "h": 2, "l": 8, "z": 8, "j": 8}.get(l, 4)
        def put(z, d, n, v):
            if d is None: raise Unknown("null")
            if d[0][0] == "arg" and d[0][1] in self.outs:
                if n != 1: raise Unknown("size")
                z.out[d[0][1]] = v
            elif d[0][0] == "al" and d[1].const(): z.mem[d[0], d[1].c] = (n, v)
            else: raise Unknown("destination")
        toks = re.findall(r"%\d*(?:hh|h|l|z|j)?[xXduicn]|%\d*\[\^?\]?[^\]]*\]|\s+|[^%\s]", fmt)
        if "".join(toks) != fmt: raise Unknown("format " + fmt)
        for t in toks:
            nx = []
            if t.isspace():
                for s, o, g in live: nx += [(z, o + k, g) for z, k in self.scan(s, base, o, SPACE, 3)]
                live = nx; continue
            if t[0] != "%":
                for s, o, g in live:
                    for z, ok in self.split(s, self.byte(s, base, o), lambda x: x == ord(t), 8):
                        if ok: nx.append((z, o + 1, g))
                        else: self.eof(out, z, base, o, g)
                live = nx; continue
            mm = re.match(r"%(\d*)(hh|h|l|z|j)?(.)", t); w, l, x = mm.groups(); w = int(w) if w else None
            d = dst[j]; j += 1
            for s, o, g in live:
                if x == "n":
                    z = s.copy(); put(z, d, size(l), V(o - off)); nx.append((z, o, g)); continue
                if x == "c":
                    if w not in (None, 1): raise Unknown("format " + fmt)
                    for z, e in self.split(s, self.byte(s, base, o), lambda b: b == 0, 8):
                        if e: self.eof(out, z, base, o, g)
                        else: z = z.copy(); put(z, d, 1, self.byte(z, base, o)); nx.append((z, o + 1, g + 1))
                    continue
                if x == "[":
                    body = t[t.index("[") + 1:-1]; inv = body.startswith("^"); body = body[1:] if inv else body
                    cs, k = set(), 0
                    while k < len(body):
                        if k + 2 < len(body) and body[k + 1] == "-": cs |= set(range(ord(body[k]), ord(body[k + 2]) + 1)); k += 3
                        else: cs.add(ord(body[k])); k += 1
                    if inv: cs = set(range(1, 256)) - cs
                    for z, k in self.scan(s, base, o, frozenset(cs), w or 10):
                        if k == 0: self.eof(out, z, base, o, g); continue
                        if k == 10 and not w: raise Unknown("long text")
                        z = z.copy()
                        for q in range(k): put(z, (d[0], V(d[1].c + q)), 1, self.byte(z, base, o + q))
                        put(z, (d[0], V(d[1].c + k)), 1, V(0)); nx.append((z, o + k, g + 1))
                    continue
                for z, v, k in self.digits(s, base, o, w, {"x": 16, "X": 16, "i": 0}.get(x, 10), True):
                    z = z.copy()
                    if k == 0: self.eof(out, z, base, o, g); continue
                    if k is None:
                        for tt, d2 in zip([q for q in toks if q[0] == "%"][j - 1:], dst[j - 1:]):
                            m2 = re.match(r"%(\d*)(hh|h|l|z|j)?(.)", tt)
                            if m2.group(3) in "[c": raise Unknown("text after an unspecified number")
                            put(z, d2, size(m2.group(2)), OPAQUE)
                        out.append((z, None)); continue
                    put(z, d, size(l), self.soft(z, v, 8 * size(l))); nx.append((z, o + k, g + 1))
            live = nx
        out += [(z, g) for z, o, g in live]
        for z, g in out:
            z.k = st.k
            z.env[i.id] = V(g % (1 << 32)) if g is not None else OPAQUE
        return [z for z, g in out]
    def eof(self, out, z, base, o, g):
        if g: out.append((z, g)); return
        for y, e in self.split(z, self.byte(z, base, o), lambda b: b == 0, 8): out.append((y.copy(), -1 if e else 0))

# --------------------------------------------------------------- the specification
def text(st, want=None):
    """one string of the state"""
    out = []
    for k in range(16):
        s = (want or {}).get(k, st.cell(k))
        nz = [b for b in s if b]
        pref = next((b for b in (48, 65, 97, 103, 32, 35, 120) if b in nz), None)
        if not nz or k not in st.cells and k not in (want or {}) : break
        out.append(pref if pref is not None else min(nz))
    return bytes(out).decode("latin1")

def judge(run, st, outs):
    """reason | None for one returning state: outs = three output arguments (r, g, b)"""
    c0 = st.cell(0)
    for hashed in (True, False):
        first = c0 & {35} if hashed else c0 - {35}
        if not first: continue
        base = dict(st.cells); base[0] = first
        o = 1 if hashed else 0
        def get(cs, k): return cs.get(k, FULL)
        # valid strings of the state
        good = dict(base); ok = True
        for k in range(6):
            good[o + k] = get(base, o + k) & frozenset(HEX); ok = ok and bool(good[o + k])
        good[o + 6] = get(base, o + 6) & {0}; ok = ok and bool(good[o + 6])
        if ok:
            for n, arg in enumerate(outs):
                spec = V(0, {o + 2 * n: {b: 16 * HEX[b] for b in good[o + 2 * n]}, o + 2 * n + 1: {b: HEX[b] for b in good[o + 2 * n + 1]}})
                if arg not in st.out: return f"output {n + 1} is not set for the string \"{text(st, good)}\""
                if not same(st.out[arg], spec, good): return f"output {n + 1} is not the value of its two digits for strings such as \"{text(st, good)}\""
        # invalid strings: some position breaks the form
        for k in range(7):
            bad = get(base, o + k) - (frozenset(HEX) if k < 6 else frozenset({0}))
            if not bad: continue
            cs = dict(base); cs[o + k] = bad
            stop = False
            for j in range(k):      # earlier positions must be characters
                cs[o + j] = get(cs, o + j) - {0}
                if not cs[o + j]: stop = True
            if stop: continue
            for n, arg in enumerate(outs):
                if arg not in st.out: return f"output {n + 1} is not set for the string \"{text(st, cs)}\""
                if not same(st.out[arg], V(255), cs): return f"output {n + 1} is not 255 for the invalid string \"{text(st, cs)}\""
    return None

def same(v, spec, cs):
    """equal on the whole product of the sets"""
    if v is OPAQUE or isinstance(v, tuple): return False
    def canon(x):
        c, t = x.c, {}
        for k, d in x.t.items():
            d = {b: y for b, y in d.items() if b in cs.get(k, FULL)}
            if not d: continue
            z = d[min(d)]
            c += z
            d = {b: y - z for b, y in d.items()}
            if any(d.values()): t[k] = d
        return c, t
    a, b = canon(v), canon(spec)
    if set(a[1]) != set(b[1]): return a[0] % 256 == b[0] % 256 and not a[1] and not b[1]
    return (a[0] - b[0]) % 256 == 0 and all(a[1][k].get(x) == b[1][k].get(x) for k in a[1] for x in set(a[1][k]) & set(b[1][k]))
