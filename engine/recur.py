"""Loops that cannot stop: a dataflow analysis of the values one traversal of a loop carries to the next.

A traversal is an acyclic way from a loop header back to it (inner loops: none or one round).  It repeats for ever when every
value its branches depend on - header phis, memory cells, the position of a file - is the same afterwards as before, or is
set to constants under which the same way is taken again.  Values are linear forms or opaque terms; nothing is executed and no
formula is solved: a way is discarded when two of its branches contradict each other term by term."""
from ir import bits
PURE = {"fabs", "sqrt", "atan2", "floor", "ceil", "round", "exp", "log", "pow", "sin", "cos", "fmin", "fmax", "hypot", "lround", "abs", "labs", "memcmp", "strcmp", "strlen", "isnan", "fmod"}
FRESH = {"malloc", "calloc", "realloc", "fopen", "strdup"}
NOOP = {"free", "printf", "fprintf", "fputs", "puts", "putchar", "fputc", "fwrite", "fflush", "fclose"}
MATH = ("llvm.fabs", "llvm.floor", "llvm.ceil", "llvm.round", "llvm.sqrt", "llvm.fmuladd", "llvm.fma", "llvm.smax", "llvm.smin", "llvm.umax", "llvm.umin", "llvm.abs", "llvm.maxnum", "llvm.minnum", "llvm.exp", "llvm.pow", "llvm.rint", "llvm.trunc", "llvm.copysign", "llvm.is.fpclass")
class Give(Exception): pass
def sgn(o, atleast=0):
    """value of an integer constant, read as signed when it is at least so wide"""
    v, n = int(o[1]), int(o[2]) if len(o) > 2 else 64
    return v - (1 << n) if n >= max(atleast, 2) and v >> (n - 1) & 1 else v

def lin(c=0, t=()): return ("L", c, tuple(sorted(t, key=repr)))
def K(v): return ("L", v, ()) if isinstance(v, int) else ("F", v)
def isk(v): return v[0] == "F" or v[0] == "L" and not v[2]
def kv(v): return v[1]
def aslin(v): return v if v[0] == "L" else ("L", 0, ((v, 1),))
def addl(a, b, s=1):
    a, b = aslin(a), aslin(b)
    d = dict(a[2])
    for k, c in b[2]:
        d[k] = d.get(k, 0) + s * c
        if not d[k]: del d[k]
    c = a[1] + s * b[1]
    if not d: return lin(c)
    if c == 0 and len(d) == 1 and next(iter(d.values())) == 1: return next(iter(d))
    return lin(c, d.items())
def mull(a, k):
    a = aslin(a)
    if k == 0: return lin(0)
    return lin(a[1] * k, [(x, c * k) for x, c in a[2]]) if k != 1 else (a if a[2] == () or a[1] or len(a[2]) > 1 or a[2][0][1] != 1 else a[2][0][0])
def atoms(v, out=None):
    out = set() if out is None else out
    st = [v]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x: continue
        if x[0] in ("phi", "cell", "fresh", "inv", "arg", "data"): out.add(x)
        st.extend(y for y in x if isinstance(y, tuple))
    return out
def size(v):
    n, st = 0, [v]
    while st:
        x = st.pop(); n += 1
        if n > 400: return n
        if isinstance(x, tuple): st.extend(x)
    return n

def subst(v, mp):
    if v in mp: return mp[v]
    if isinstance(v, tuple): return tuple(subst(x, mp) for x in v)
    return v

def ev(t, asg):
    """value of a term of arguments, None when it holds something else"""
    k = t[0]
    if k in ("arg", "inv"): return asg.get(t)
    if k == "F": return t[1]
    if k == "L":
        r = t[1]
        for a, c in t[2]:
            v = ev(a, asg)
            if v is None: return None
            r += c * v
        return r
    if k == "cmp":
        a, b = ev(t[2], asg), ev(t[3], asg)
        if a is None or b is None: return None
        p = t[1]
        if p[0] == "u" and len(p) == 3: a, b = int(a) % (1 << 64), int(b) % (1 << 64)
        if p[0] == "f":
            if p[1:] in ("ord", "uno"): return int((a == a and b == b) == (p[1:] == "ord"))
            if a != a or b != b: return int(p[1] == "u")
            p = p[2:]
        elif p not in ("eq", "ne"): p = p[1:]
        r = {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}.get(p)
        return None if r is None else int(r == t[4])
    try: vs = [ev(x, asg) for x in t[1:] if isinstance(x, tuple)]
    except (OverflowError, ValueError): return None
    if any(v is None for v in vs): return None
    try:
        if k == "mul": return vs[0] * vs[1]
        if k in ("udiv", "urem", "lshr"): a, b = int(vs[0]) % (1 << 64), int(vs[1]) % (1 << 64); return a // b if k == "udiv" else a % b if k == "urem" else a >> b
        if k == "sdiv": return int(vs[0] / vs[1])
        if k == "srem": return int(vs[0]) - int(vs[0] / vs[1]) * int(vs[1])
        if k == "ashr": return vs[0] >> vs[1]
        if k == "and": return vs[0] & vs[1]
        if k == "or": return vs[0] | vs[1]
        if k in ("fptosi", "fptoui"): return int(vs[0]) if abs(vs[0]) < 1 << 31 else None
        if k in ("sitofp", "uitofp"): return float(vs[0])
        if k in ("fpext", "fptrunc"): return vs[0]
        if k == "fneg": return -vs[0]
        if k in ("fadd", "fsub", "fmul", "fdiv"): return {"fadd": vs[0] + vs[1], "fsub": vs[0] - vs[1], "fmul": vs[0] * vs[1]}[k] if k != "fdiv" else vs[0] / vs[1]
        if k == "trunc": return int(vs[0]) % (1 << t[1])
        if k == "sel": return vs[1] if vs[0] else vs[2]
        if k == "call":
            import math
            n = t[1].split(".")[1] if t[1].startswith("llvm.") else t[1]
            if n in ("ceil", "floor", "fabs", "sqrt"): return getattr(math, n)(vs[0]) if vs[0] not in (float("inf"),) else vs[0]
            if n in ("round",): return math.floor(vs[0] + 0.5)
            if n in ("fmin", "minnum", "smin", "umin"): return min(vs)
            if n in ("fmax", "maxnum", "smax", "umax"): return max(vs)
    except (ZeroDivisionError, OverflowError, ValueError, TypeError): return None
    return None
def witness(f, gs, t, ok):
    """arguments for which a term of arguments has a value and no branch before the loop rules them out, or None"""
    import itertools
    ats = atoms(t)
    if not ats or any(a[0] != "arg" for a in ats): return None
    rel, grow = set(ats), True
    cs = []
    while grow:
        grow = False
        for g in gs:
            if g in cs: continue
            a = atoms(g[0])
            if a & rel and g not in cs:
                cs.append(g); grow = True
                rel |= {x for x in a if x[0] == "arg" and f.params[x[1]]["ty"] != "ptr"}
    if len(rel) > 7: return None
    def cand(a):
        ty = f.params[a[1]]["ty"]
        if ty in ("float", "double"): return [1.0, 0.0, 200.0, 1000.0, 40000.0, float("inf")] if a in ats else [1.0, 100.0]
        n = bits(ty)
        if not n or ty == "ptr": return [None]
        return [x for x in ([1, 2, 3, 0, 255, 300, 40000, 70000] if a in ats else [1, 0, 2, 4, 3, 100, 300, 70000, 100000]) if x < (1 << (n - 1)) + (0 if n > 8 else 128)]
    rel = sorted(ats) + sorted(rel - ats)
    when, start = {}, {}
    for c, tr in cs:
        ks = [rel.index(x) for x in atoms(c) if x in rel]
        for x in atoms(c):
            if x not in rel and x not in start:
                # the first round of an outer loop
                i = f.insts.get(x[1]) if x[0] == "inv" else None
                M = f.loops.get(i.b) if i is not None and i.op == "phi" else None
                v = [o for o, q in i.ops if q not in M.blocks] if M is not None and tr else []
                if len(v) != 1 or v[0][0] != "c": return None
                start[x] = sgn(v[0])
        when.setdefault(max(ks), []).append((c, tr))
    n = 0
    def go(k, asg):
        nonlocal n
        if k == len(ats):
            v = ev(t, asg)
            if v is None or not ok(v): return None
        if k == len(rel): return asg
        for x in cand(rel[k]):
            n += 1
            if n > 60000: return None
            z = dict(asg); z[rel[k]] = x
            good = True
            for c, tr in when.get(k, ()):
                r = ev(c, z)
                if r is None or bool(r) != tr: good = False; break
            if good:
                r = go(k + 1, z)
                if r is not None: return r
        return None
    asg = go(0, start)
    return None if asg is None else {a: x for a, x in asg.items() if a in ats}
def says(f, asg): return " (" + ", ".join(f"{f.params[a[1]]['name'] or 'argument'} = {v}" for a, v in asg.items()) + ")"

class Way:
    __slots__ = ("env", "conds", "mem", "writes", "visits", "b", "p", "pos", "blocks", "ver", "loads", "steps")
    def copy(self):
        w = Way()
        w.env, w.conds, w.mem, w.writes, w.visits = dict(self.env), list(self.conds), dict(self.mem), list(self.writes), dict(self.visits)
        w.b, w.p, w.pos, w.blocks, w.ver, w.loads, w.steps = self.b, self.p, {k: list(v) for k, v in self.pos.items()}, self.blocks, self.ver, dict(self.loads), self.steps
        return w

class Recur:
    def __init__(self, f, m, limit=30000):
        self.f, self.m, self.limit = f, m, limit
        self._inv, self._roots = {}, {}
        self.esc = self.escaped()
    def escaped(self):
        """allocas whose address leaves the function's own loads and stores"""
        f, out = self.f, set()
        for i in f.insts.values():
            if i.op != "alloca": continue
            st, seen = [i.id], set()
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x)
                for u in f.uses.get(x, []):
                    if u.op in ("load",) or u.op == "store" and u.ops[1][0] == "i" and u.ops[1][1] == x and not (u.ops[0][0] == "i" and u.ops[0][1] == x): continue
                    if u.op in ("getelementptr", "phi", "select"): st.append(u.id); continue
                    if u.op == "call" and ((u.callee or "").startswith("llvm.") or u.callee in PURE or u.callee in ("fread",)): continue
                    if u.op == "icmp": continue
                    out.add(i.id)
        return out
    # ---- terms
    def root(self, p):
        while True:
            if p[0] == "gep": p = p[1]
            elif p[0] == "L" and len(p[2]) >= 1:
                ps = [x for x, c in p[2] if x[0] in ("gep", "alloca", "mal", "arg", "phi", "inv", "cell", "glob", "fresh", "ld", "call")]
                return ("?",)
            elif p[0] == "inv" and p not in self._roots:
                i = self.f.insts.get(p[1]); ms, st, seen = set(), [p[1]], set()
                while st and ms is not None:
                    x = st.pop()
                    if x in seen: continue
                    seen.add(x)
                    j = self.f.insts[x]
                    if j.op == "call" and j.callee in ("malloc", "calloc"): ms.add(x)
                    elif j.op == "phi" and j.ty == "ptr":
                        for o, _ in j.ops:
                            if o[0] == "i": st.append(o[1])
                            elif o[0] not in ("n", "u"): ms = None; break
                    else: ms = None
                self._roots[p] = ("mal", next(iter(ms))) if ms and len(ms) == 1 else p
                return self._roots[p]
            elif p[0] == "inv": return self._roots[p]
            else: return p
    def distinct(self, a, b):
        """two roots that cannot be the same memory"""
        if a == b: return False
        A, B = a[0], b[0]
        if A == "alloca" and B == "alloca": return True
        if "alloca" in (A, B):
            x, y = (a, b) if A == "alloca" else (b, a)
            return x[1] not in self.esc or y[0] in ("arg", "mal", "glob")
        if A == "mal" and B == "mal": return True
        if {A, B} == {"mal", "arg"} or {A, B} == {"mal", "glob"} or A == "glob" and B == "glob": return True
        return False
    def clob(self, w, ptr, upto=None):
        """is the cell possibly written on the way (by anything but an exact store to it)"""
        r = self.root(ptr)
        for q, exact in w.writes:
            if exact and q == ptr: continue
            if exact and q[0] == "gep" and ptr[0] == "gep" and q[1] == ptr[1] and isk(q[2]) and isk(ptr[2]) and abs(q[2][1] - ptr[2][1]) >= 8: continue
            if not self.distinct(self.root(q), r): return True
        return False
    def outside(self, o, L, w, depth=0):
        """value of an operand computed before the loop, as a term"""
        k = tuple(o[:2])
        if k in self._inv: return self._inv[k]
        i = self.f.insts[o[1]]
        r = None
        if depth < 12 and i.op not in ("phi", "load", "call", "select"):
            try:
                w2 = Way(); w2.env = {}; w2.mem = {}; w2.writes = []; w2.loads = {}; w2.ver = 0; w2.pos = {}; w2.visits = {}
                ops = [self.val(x, L, w2, depth + 1) for x in i.ops]
                r = self.pure(i, ops, L, w2, depth + 1)
            except Give: r = None
        if r is None or size(r) > 200:
            r = ("mal", i.id) if i.op == "call" and i.callee in FRESH else ("inv", o[1])
        self._inv[k] = r
        return r
    def val(self, o, L, w, depth=0):
        t = o[0]
        if t == "c": return K(sgn(o, 32))
        if t == "f":
            try: return ("F", float.fromhex(o[1]) if "x" in str(o[1]) else float(o[1]))
            except (ValueError, TypeError): return ("fc", str(o[1]))
        if t == "n": return K(0)
        if t == "a": return ("arg", o[1])
        if t == "g": return ("glob", o[1]) if len(o) < 3 or not int(o[2]) else ("gep", ("glob", o[1]), K(int(o[2])))
        if t == "u": return ("undef",)
        if t == "i":
            if o[1] in w.env: return w.env[o[1]]
            i = self.f.insts[o[1]]
            if i.op == "alloca": return ("alloca", i.id)
            if L is None or i.b not in L.blocks: return self.outside(o, L, w, depth)
            raise Give("value order")
        raise Give("operand " + t)
    def pure(self, i, ops, L, w, depth=0):
        op = i.op
        if op in ("add", "sub"):
            if i.ops[1][0] == "c": ops = [ops[0], K(sgn(i.ops[1]))]
            return addl(ops[0], ops[1], 1 if op == "add" else -1)
        if op == "mul":
            if isk(ops[1]) and ops[1][0] == "L": return mull(ops[0], ops[1][1])
            if isk(ops[0]) and ops[0][0] == "L": return mull(ops[1], ops[0][1])
            return ("mul",) + tuple(sorted(ops, key=repr))
        if op == "shl" and isk(ops[1]): return mull(ops[0], 1 << ops[1][1])
        if op in ("zext", "sext"):
            if isk(ops[0]) and op == "zext" and ops[0][1] < 0:
                n = bits(self.f.insts[i.ops[0][1]].ty) if i.ops[0][0] == "i" else int(i.ops[0][2]) if len(i.ops[0]) > 2 else 32
                return K(ops[0][1] % (1 << n))
            return ops[0]
        if op == "trunc":
            n = bits(i.ty)
            if isk(ops[0]):
                v = ops[0][1] % (1 << n)
                return K(v - (1 << n) if n > 1 and v >> (n - 1) and ops[0][1] < 0 else v)
            if n == 1 or ops[0][0] == "cmp" or n >= 32: return ops[0]
            return ("trunc", n, ops[0])
        if op in ("freeze", "bitcast", "ptrtoint", "inttoptr"): return ops[0]
        if op in ("and", "or", "xor") and all(isk(x) for x in ops):
            a, b = ops[0][1], ops[1][1]
            return K({"and": a & b, "or": a | b, "xor": a ^ b}[op])
        if op == "xor" and isk(ops[1]) and abs(ops[1][1]) == 1 and ops[0][0] == "cmp": return ("cmp", ops[0][1], ops[0][2], ops[0][3], not ops[0][4])
        if op in ("and", "or", "xor", "lshr", "ashr", "shl", "udiv", "sdiv", "urem", "srem"):
            if op in ("udiv", "sdiv") and all(isk(x) for x in ops) and ops[1][1]: return K(int(ops[0][1] / ops[1][1]))
            return (op,) + tuple(ops)
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            if all(x[0] == "F" for x in ops):
                a, b = ops[0][1], ops[1][1]
                try: return ("F", {"fadd": a + b, "fsub": a - b, "fmul": a * b, "fdiv": a / b if b else float("nan")}[op])
                except OverflowError: pass
            return (op, i.ty) + tuple(ops)
        if op == "fneg": return ("F", -ops[0][1]) if ops[0][0] == "F" else ("fneg", ops[0])
        if op in ("sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            if op[1:] == "itofp" and isk(ops[0]): return ("F", float(ops[0][1]))
            if op in ("fptosi", "fptoui") and ops[0][0] == "F" and abs(ops[0][1]) < 1e15: return K(int(ops[0][1]))
            if op == "fpext" and ops[0][0] == "F": return ops[0]
            return (op, i.ty, ops[0])
        if op == "icmp":
            p = i.d["pred"]
            a, b = [K(int(o[1])) if o[0] == "c" and p[0] == "u" else K(sgn(o)) if o[0] == "c" and p[0] == "s" else x for o, x in zip(i.ops, ops)]
            if p in ("eq", "ne") and i.ops[1][0] == "c" and int(i.ops[1][2]) < 32 and a[0] != "L": b = K(int(i.ops[1][1]))
            if b == K(0) and a[0] == "cmp" and p in ("eq", "ne"): return a if p == "ne" else ("cmp", a[1], a[2], a[3], not a[4])
            d = addl(a, b, -1)
            if isk(d):
                x = d[1]
                if p in ("eq", "ne") or p[0] == "s": return K(int({"eq": x == 0, "ne": x != 0, "lt": x < 0, "le": x <= 0, "gt": x > 0, "ge": x >= 0}[p if p in ("eq", "ne") else p[1:]]))
                if isk(a) and isk(b) and a[1] >= 0 and b[1] >= 0 or x == 0: return K(int({"lt": x < 0, "le": x <= 0, "gt": x > 0, "ge": x >= 0}[p[1:]]))
            if p in ("eq", "ne") and b == K(0) and a[0] in ("mal", "alloca", "gep") and self.root(a)[0] == "alloca": return K(int(p == "ne"))
            return ("cmp", p, a, b, True)
        if op == "fcmp":
            p, a, b = i.d["pred"], ops[0], ops[1]
            if a[0] == "F" and b[0] == "F":
                x, y = a[1], b[1]
                un = x != x or y != y
                r = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "rd": not un, "no": un}.get(p[1:])
                if r is not None: return K(int(un and p[0] == "u" or not un and r if p not in ("ord", "uno") else r))
            return ("cmp", "f" + p, a, b, True)
        if op == "getelementptr":
            off = K(i.d.get("coff", 0))
            for o, sc, nb in i.d.get("vars", []): off = addl(off, mull(self.val(o, L, w, depth), sc))
            p = ops[0]
            if p[0] == "gep": p, off = p[1], addl(p[2], off)
            return p if off == K(0) else ("gep", p, off)
        if op == "alloca": return ("alloca", i.id)
        if op in ("extractvalue", "insertvalue"): return (op, repr(i.d.get("idx"))) + tuple(ops)
        raise Give(op)
    def load(self, w, ptr, i):
        if ptr in w.mem and not any(not e or q != ptr and not self.distinct(self.root(q), self.root(ptr)) for q, e in w.writes[w.mem[ptr][1] + 1:]): return w.mem[ptr][0]
        # memory as it was at the header
        if not self.clob(w, ptr) and not any(q == ptr for q, e in w.writes): t = ("cell", ptr, i.d.get("size", 0))
        elif self.fromfile(w, ptr): t = ("data", i.id, w.ver)
        else: t = ("fresh", i.id, w.ver)
        return t
    def fromfile(self, w, p):
        """everything that may have written there on the way is a read from the file"""
        r = self.root(p)
        ws = [e for q, e in w.writes if not self.distinct(self.root(q), r)]
        return bool(ws) and all(e is None for e in ws)
    # ---- one loop
    def ways(self, L, start):
        """all ways header -> header; start: header phi id -> term (default: itself)"""
        f = self.f
        w = Way(); w.env, w.conds, w.mem, w.writes, w.visits, w.pos, w.blocks, w.ver, w.loads, w.steps = {}, [], {}, [], {}, {}, (), 0, {}, 0
        for i in f.blocks[L.header]:
            if i.op != "phi": break
            w.env[i.id] = start.get(("phi", i.id), ("phi", i.id))
        for t, v in start.items():
            if t[0] == "cell": w.mem[t[1]] = (v, -1)
        w.b, w.p = L.header, None
        todo, n = [w], 0
        while todo:
            w = todo.pop()
            n += 1
            if n > self.limit: raise Give("too many ways")
            for x in self.block(L, w): 
                if x.b == L.header: yield x
                else: todo.append(x)
    def block(self, L, w):
        f = self.f
        b = w.b
        if b != L.header or w.p is not None:
            M = f.loopof[b]
            if M is not None and M.header == b:
                w.visits[b] = w.visits.get(b, 0) + 1
                if w.p is not None and w.p not in M.blocks: w.visits[b] = 1
                if w.visits[b] > 2: return []
            new = {}
            for i in f.blocks[b]:
                if i.op != "phi": break
                v = next(v for v, q in i.ops if q == w.p)
                new[i.id] = self.val(v, L, w)
            w.env.update(new)
        w.blocks = w.blocks + (b,)
        for i in f.blocks[b]:
            if i.op == "phi": continue
            if i.op in ("br", "switch", "ret", "unreachable"): break
            self.inst(i, L, w)
        t = f.blocks[b][-1]
        out = []
        def go(w, s, cond=None, truth=None):
            if s not in L.blocks: return
            x = w.copy()
            if cond is not None:
                x.conds.append((cond, truth))
                if not self.consistent(x.conds): return
            x.p, x.b = b, s
            if s == L.header:
                new = {}
                for i in f.blocks[s]:
                    if i.op != "phi": break
                    v = next(v for v, q in i.ops if q == b)
                    new["next", i.id] = self.val(v, L, x)
                x.env.update(new)
            out.append(x)
        if t.op == "br":
            if not t.ops: go(w, t.d["succ"][0])
            else:
                c = self.val(t.ops[0], L, w)
                if isk(c): go(w, t.d["succ"][0 if c[1] & 1 else 1])
                else:
                    go(w, t.d["succ"][0], c, True); go(w, t.d["succ"][1], c, False)
        elif t.op == "switch":
            v = self.val(t.ops[0], L, w)
            rest = w
            for c, s in t.d["cases"]:
                cc = ("cmp", "eq", v, K(int(c[1])), True)
                if isk(v):
                    if v[1] == int(c[1]): go(rest, s); return out
                    continue
                go(rest, s, cc, True)
                rest = rest.copy(); rest.conds.append((cc, False))
            go(rest, t.d["default"])
        return out
    def inst(self, i, L, w):
        op = i.op
        if op == "store":
            p = self.val(i.ops[1], L, w); v = self.val(i.ops[0], L, w)
            w.ver += 1
            w.writes.append((p, True)); w.mem[p] = (v, len(w.writes) - 1)
            return
        if op == "load":
            p = self.val(i.ops[0], L, w)
            w.env[i.id] = self.load(w, p, i); return
        if op == "select":
            c = self.val(i.ops[0], L, w); a, b = self.val(i.ops[1], L, w), self.val(i.ops[2], L, w)
            w.env[i.id] = (a if c[1] & 1 else b) if isk(c) else a if a == b else ("sel", c, a, b); return
        if op == "call":
            c = i.callee or ""
            if c.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.stack")): return
            a = [self.val(o, L, w) for o in i.ops]
            if c in PURE or c.startswith(MATH):
                if any(x[0] in ("alloca", "gep", "glob", "mal") for x in a):
                    # reads memory
                    if any(x[0] != "F" and not isk(x) and self.clobroot(w, x) for x in a): w.env[i.id] = ("data" if all(x[0] == "F" or isk(x) or not self.clobroot(w, x) or self.fromfile(w, x) for x in a) else "fresh", i.id, w.ver); return
                w.env[i.id] = ("call", c) + tuple(a); return
            if c in FRESH: w.env[i.id] = ("mal", i.id); return
            if c in NOOP: w.env[i.id] = ("ok", i.id); return
            if c == "fread":
                if isk(a[1]) and isk(a[2]):
                    st = a[3]; w.writes.append((a[0], None)); w.ver += 1
                    w.env[i.id] = ("got", i.id, len(w.blocks))
                    w.pos.setdefault(st, []).append(("read", ("got", i.id, len(w.blocks)), a[1][1] * a[2][1], a[2][1], a[0])); return
            if c == "fseek" and isk(a[2]):
                w.pos.setdefault(a[0], []).append(("seek", a[2][1], a[1])); w.env[i.id] = ("ok", i.id); return
            if c == "ftell": w.env[i.id] = ("fresh", i.id, w.ver); return
            if c.startswith(("llvm.memset", "llvm.memcpy", "llvm.memmove")):
                w.writes.append((a[0], False)); w.ver += 1; return
            # a library function: writes what its pointer arguments (other than const ones) reach
            g = self.m.raw.get(c)
            if g is None: w.writes.append((("?",), False)); w.ver += 1; w.env[i.id] = ("fresh", i.id, w.ver); return
            dts = g.get("ditypes", [])
            ps = g.get("params", [])
            sret = 1 if ps and ps[0].get("sret") else 0
            args = []
            dirty = False
            for k, x in enumerate(a):
                if k < len(ps) and ps[k]["ty"] == "ptr":
                    dt = dts[k + 1 - sret] if not (sret and k == 0) and k + 1 - sret < len(dts) else ""
                    if self.clobroot(w, x): dirty = True
                    if "const" not in dt: w.writes.append((x, False)); w.ver += 1
                args.append(x)
            w.env[i.id] = ("fresh", i.id, w.ver) if dirty else ("call", c) + tuple(args)
            return
        w.env[i.id] = self.pure(i, [self.val(o, L, w) for o in i.ops], L, w)
        if size(w.env[i.id]) > 300: w.env[i.id] = ("fresh", i.id, w.ver)
    def clobroot(self, w, p):
        r = self.root(p)
        return any(not self.distinct(self.root(q), r) for q, e in w.writes)
    # ---- contradictions between the branches of a way, term by term
    def consistent(self, conds):
        iv, seen = {}, {}
        def add(lf, lo, hi):
            """lo <= lf <= hi"""
            lf = aslin(lf)
            if not lf[2]: return lo <= lf[1] <= hi
            ts = lf[2]; c = lf[1]
            s = 1 if ts[0][1] > 0 else -1
            key = tuple((a, k * s) for a, k in ts)
            lo, hi = lo - c, hi - c
            if s < 0: lo, hi = -hi, -lo
            g = 0
            import math
            for _, k in key: g = math.gcd(g, k)
            if g > 1:
                key = tuple((a, k // g) for a, k in key)
                lo = -((-lo) // g) if lo != -INF else lo; hi = hi // g if hi != INF else hi
            o = iv.get(key, (-INF, INF))
            n = (max(o[0], lo), min(o[1], hi))
            iv[key] = n
            return n[0] <= n[1]
        INF = float("inf")
        ne = []
        for c, t in conds:
            if c[0] != "cmp":
                if seen.setdefault(c, t) != t: return False
                if c[0] == "sel": continue
                continue
            p, a, b, pol = c[1], c[2], c[3], c[4]
            t = t if pol else not t
            if seen.setdefault((p, a, b), t) != t: return False
            if p[0] == "f":
                # a comparison and its opposite with the same operands
                for q, x in (("foge", "fult"), ("fogt", "fule"), ("folt", "fuge"), ("fole", "fugt"), ("foeq", "fune")):
                    for u, v in ((q, x), (x, q)):
                        if p == u and seen.get((v, a, b)) == t: return False
                if t and p[1] == "o":
                    sw = {"olt": "ogt", "ogt": "olt", "ole": "oge", "oge": "ole"}.get(p[1:])
                    bad = {"folt": ("fogt", "foge", "foeq"), "fogt": ("folt", "fole", "foeq"), "fole": ("fogt",), "foge": ("folt",)}.get(p, ())
                    if any(seen.get((q, a, b)) is True for q in bad): return False
                if t and b[0] == "F":
                    lo, hi = {"olt": (-INF, b[1]), "ole": (-INF, b[1]), "ogt": (b[1], INF), "oge": (b[1], INF), "oeq": (b[1], b[1])}.get(p[1:], (-INF, INF))
                    o = iv.get(("f", a), (-INF, INF)); n = (max(o[0], lo), min(o[1], hi)); iv["f", a] = n
                    if n[0] > n[1]: return False
                continue
            d = addl(a, b, -1)
            q = p if p in ("eq", "ne") else p[1:]
            if not t: q = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}[q]
            if p[0] == "u" and any(x[1] < 0 or any(k < 0 for _, k in x[2]) for x in (aslin(a), aslin(b))): continue     # may be a wrapped value
            if q == "eq": ok = add(d, 0, 0)
            elif q == "ne":
                ne.append(d); ok = True
                if p == "ne" or p == "eq":
                    if isk(b) and b[1] == 0 and self.unsigned(a): ok = add(d, 1, INF)
            elif q == "lt": ok = add(d, -INF, -1)
            elif q == "le": ok = add(d, -INF, 0)
            elif q == "gt": ok = add(d, 1, INF)
            else: ok = add(d, 0, INF)
            if ok and p[0] == "u" and q in ("lt", "le"):
                ok = add(a, 0, INF)
            if not ok: return False
        for d in ne:
            lf = aslin(d)
            if not lf[2]:
                if lf[1] == 0: return False
                continue
            s = 1 if lf[2][0][1] > 0 else -1
            o = iv.get(tuple((a, k * s) for a, k in lf[2]))
            if o and o[0] == o[1] == -lf[1] * s: return False
        return True
    def unsigned(self, a): return a[0] in ("got",)
    def guards(self, L):
        """branches every entry of the loop went through"""
        f, out = self.f, []
        w = Way(); w.env, w.mem, w.writes, w.loads, w.ver, w.pos, w.visits = {}, {}, [], {}, 0, {}, {}
        ch = f.domchain(L.header)
        for a, b in zip(ch[1:], ch):
            t = f.blocks[a][-1]
            if t.op == "br" and t.ops and f.pred[b] == [a] and b not in (None,):
                if a in L.blocks: continue
                try: c = self.val(t.ops[0], L, w)
                except Give: continue
                if not isk(c): out.append((c, b == t.d["succ"][0]))
        return out
    def repeats(self, L):
        """(block list, explanation) of a way that repeats for ever, or None"""
        gs = self.guards(L)
        n = 0
        for w in self.ways(L, {}):
            n += 1
            r = self.again(L, w, gs)
            if r: return w, r
        self.count = n
        return None
    def again(self, L, w, gs):
        fixed, late = {}, {}
        cs = list(w.conds)
        need, done, ok = set(), set(), True
        for c, _ in cs: need |= atoms(c)
        notes = []
        while need:
            a = need.pop()
            if a in done: continue
            done.add(a)
            if a[0] == "fresh": return None
            if a[0] == "phi":
                if ("next", a[1]) not in w.env: continue        # of an outer loop: the same
                nx = w.env["next", a[1]]
            elif a[0] == "cell":
                if self.clob(w, a[1]): return None
                st = [k for k, (q, e) in enumerate(w.writes) if e and q == a[1]]
                nx = w.mem[a[1]][0] if st else a
                need |= atoms(a[1])
            else: continue
            if nx == a: continue
            if isk(nx): fixed[a] = nx; continue
            z = self.zerostep(a, nx, w, gs)
            if z: notes.append(z); continue
            if self.away(a, nx, cs):
                notes.append("the value moves away from the one that ends the loop"); continue
            if size(nx) > 120 or a in atoms(nx): return None
            # computed from values that are the same every time: the same every time
            late[a] = nx; need |= atoms(nx)
        gots = {x for c, _ in cs for x in self.gots(c)}
        if gots or w.pos:
            p = self.position(w, gots)
            if p is None: return None
            notes.append(p)
        if not self.consistent(gs + cs) or self.forced(cs): return None
        for _ in range(len(late)):
            for a, nx in late.items():
                v = subst(nx, fixed)
                if not (atoms(v) & set(late)): fixed[a] = v
        if any(a not in fixed for a in late): return None
        if fixed:
            for x in self.ways2(L, fixed, w.blocks):
                for a, v in fixed.items():
                    nx = x.env["next", a[1]] if a[0] == "phi" else x.mem.get(a[1], (v, 0))[0]
                    if nx != v: return None
                if not self.consistent(gs + x.conds): return None
                break
            else: return None
        return "; ".join(notes) or "nothing its conditions depend on changes"
    def forced(self, cs):
        """do two branches together restrict a third value (which other code may exclude)?"""
        eq = set()
        for c, t in cs:
            if c[0] == "cmp" and c[1] in ("eq", "ne") and isk(c[3]) and (c[1] == "eq") == (t == c[4]) and c[2][0] == "cell": eq.add(c[2])
        for c, t in cs:
            if c[0] == "cmp" and c[1][0] in "su" and len(c[1]) == 3:
                d = addl(c[2], c[3], -1)
                ks = {a for a, _ in aslin(d)[2]}
                if ks & eq and len(ks) > 1: return True
        return False
    def ways2(self, L, fixed, blocks):
        """the same blocks again from the constants"""
        f = self.f
        w = Way(); w.env, w.conds, w.mem, w.writes, w.visits, w.pos, w.blocks, w.ver, w.loads, w.steps = {}, [], {}, [], {}, {}, (), 0, {}, 0
        for i in f.blocks[L.header]:
            if i.op != "phi": break
            w.env[i.id] = fixed.get(("phi", i.id), ("phi", i.id))
        for t, v in fixed.items():
            if t[0] == "cell": w.mem[t[1]] = (v, -1)
        w.b, w.p = L.header, None
        for k in range(len(blocks)):
            if w.b != blocks[k]: return
            nxt = blocks[k + 1] if k + 1 < len(blocks) else L.header
            xs = [x for x in self.block(L, w) if x.b == nxt]
            if not xs: return
            w = xs[0]
        yield w
    def gots(self, c):
        out, st = set(), [c]
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                if x and x[0] in ("got", "data"): out.add(x)
                st.extend(x)
        return out
    def position(self, w, gots):
        """a note when the file is left at the position it was read from"""
        if len(w.pos) != 1: return "no reads" if not w.pos and not gots else None
        (_, evs), = w.pos.items()
        tot = K(0)
        for e in evs:
            if e[0] == "read":
                full = None
                for c, t in w.conds:
                    if c[0] == "cmp" and c[1] in ("eq", "ne") and e[1] in (c[2], c[3]):
                        o = c[3] if c[2] == e[1] else c[2]
                        if not isk(o): return None
                        eq = (c[1] == "eq") == (t == c[4])
                        if o[1] == e[3] and eq: full = True
                        elif o[1] == e[3]: full = False
                if full is None: return None
                tot = addl(tot, K(e[2] if full else 0))
            elif e[0] == "seek":
                if e[1] != 1: return None
                tot = addl(tot, e[2])
            else: return None
        return f"a failed read is followed by a step back to the position before" if tot == K(0) else None
    def away(self, a, nx, cs):
        """a floating-point value that is only compared with constants and moves away from them"""
        if nx[0] not in ("fadd", "fsub") or nx[2] != a or nx[3][0] != "F": return False
        up = (nx[3][1] > 0) == (nx[0] == "fadd")
        if not nx[3][1] or nx[3][1] != nx[3][1]: return False
        for c, t in cs:
            if not self.mentions(c, a): continue
            if c[0] != "cmp" or c[2] != a or c[3][0] != "F": return False
            p, t = c[1], t if c[4] else not t
            if p[0] != "f" or p[2:] not in ("lt", "le", "gt", "ge"): return False
            if not ((p[2] == "g") == up) == t: return False
        return True
    def zerostep(self, a, nx, w, gs):
        """phi + step where step is an argument or a quotient of one that nothing keeps from being zero"""
        if nx[0] == "fadd" and a in nx[2:4]:
            d = nx[3] if nx[2] == a else nx[2]
        elif nx[0] != "L": return None
        else: d = addl(nx, a, -1)
        if d[0] == "L" and (not d[2] or d[1]): return None
        if a in atoms(d): return None
        ts = list(d[2]) if d[0] == "L" else [(d, 1)]
        def zero(t):
            if t[0] == "arg": return True
            if t[0] in ("udiv", "sdiv", "lshr", "ashr"): return isk(t[2]) and t[2][1] >= (2 if t[0][1:] == "div" else 1) and all(x[0] == "arg" for x in atoms(t[1])) and bool(atoms(t[1]))
            if t[0] in ("fptosi", "fptoui"): return t[2][0] == "arg" or t[2][0] == "fmul" and any(x[0] == "arg" for x in t[2][2:]) and all(x[0] in ("arg", "F") for x in t[2][2:])
            return False
        if len(ts) != 1 or not zero(ts[0][0]): return None
        t = ts[0][0]
        asg = witness(self.f, gs + [g for g in w.conds if not any(x[0] in ("phi", "cell", "fresh") for x in atoms(g[0]))], t, lambda v: v == 0)
        return "the step can be zero" + says(self.f, asg) if asg is not None else None
    def mentions(self, c, t):
        st = [c]
        while st:
            x = st.pop()
            if x == t: return True
            if isinstance(x, tuple): st.extend(x)
        return False

# ---------------------------------------------------------------- counters
class Count:
    """counters of a loop: header phi changed by a constant on every way back"""
    def __init__(self, f, L):
        self.f, self.L = f, L
    def strip(self, o):
        n = None
        while o[0] == "i" and self.f.insts[o[1]].op in ("zext", "sext", "trunc", "freeze", "sitofp", "uitofp", "fpext"):
            i = self.f.insts[o[1]]; o = i.ops[0]
        return o
    def inc(self, phi, o, seen=None):
        """constant c such that o = phi + c on all ways, or None"""
        f, L = self.f, self.L
        seen = seen or set()
        o = self.strip(o)
        if o[0] != "i": return None
        if o[1] == phi.id: return 0
        i = f.insts[o[1]]
        if i.b not in L.blocks: return None
        if i.op in ("add", "sub"):
            for x, y in ((0, 1), (1, 0)):
                if i.ops[y][0] == "c" and (i.op == "add" or y == 1):
                    r = self.inc(phi, i.ops[x], seen)
                    if r is None or r == "cyc": return None
                    return r + sgn(i.ops[y]) * (1 if i.op == "add" else -1)
            return None
        if i.op in ("fadd", "fsub"):
            for x, y in ((0, 1), (1, 0)):
                if i.ops[y][0] == "f" and (i.op == "fadd" or y == 1):
                    r = self.inc(phi, i.ops[x], seen)
                    try: return None if r is None or r == "cyc" else r + float(i.ops[y][1]) * (1 if i.op == "fadd" else -1)
                    except ValueError: return None
            return None
        if i.op == "phi" and i.b != L.header:
            if i.id in seen: return "cyc"
            seen = seen | {i.id}
            rs = {self.inc(phi, v, seen) for v, _ in i.ops} - {"cyc"}
            return rs.pop() if len(rs) == 1 else None
        return None
    def step(self, phi):
        rs = set()
        for v, p in phi.ops:
            if p in self.L.blocks: rs.add(self.inc(phi, v))
        if len(rs) == 1:
            r = rs.pop()
            return r if r not in (None, "cyc") else None
        return None
    def init(self, phi):
        r = [v for v, p in phi.ops if p not in self.L.blocks]
        return r[0] if len(r) == 1 else None
    def invariant(self, o):
        return o[0] != "i" or self.f.insts[o[1]].b not in self.L.blocks
    def tests(self):
        """(block, compare, phi, step, phi side, continue predicate, bound operand) of the exits"""
        f, L = self.f, self.L
        SW = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}
        NG = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "eq": "ne", "ne": "eq"}
        for b, s in L.exits:
            t = f.blocks[b][-1]
            if t.op != "br" or not t.ops or t.ops[0][0] != "i": continue
            c = f.insts[t.ops[0][1]]
            if c.op not in ("icmp", "fcmp"): continue
            cont = t.d["succ"][0] in L.blocks
            for x, y in ((0, 1), (1, 0)):
                o = self.strip(c.ops[x])
                if o[0] != "i": continue
                bound = c.ops[y]
                for phi in f.blocks[L.header]:
                    if phi.op != "phi": break
                    d = self.inc(phi, o)
                    if d is None or d == "cyc": continue
                    st = self.step(phi)
                    if not st: continue
                    p = c.d["pred"]
                    q = p if p in ("eq", "ne") else p[1:]
                    if q not in SW: continue
                    if x == 1: q = SW[q]
                    if not cont: q = NG[q]
                    yield b, c, phi, st, d, q, bound
