"""Reads of local variables before any assignment, on paths whose branch conditions are not contradictory.

Walks the control flow graph of the structural view with the set of unassigned values, the values known to be
constant and the outcomes of the tests already taken (tests of arguments and of values fixed outside loops)."""
from ir import bits

USES = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "icmp", "fcmp", "fadd", "fsub", "fmul", "fdiv", "zext", "sext", "trunc", "sitofp", "uitofp",
        "fptosi", "fptoui", "fpext", "fptrunc", "getelementptr", "load", "br", "switch", "call", "fneg"}
NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}

def cmpc(p, a, b, n):
    if p in ("eq", "ne"): return (a == b) == (p == "eq")
    if p[0] == "s": a, b = ((x ^ 1 << n - 1) - (1 << n - 1) for x in (a, b))
    return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p[1:]]

class Undef:
    def __init__(self, f, limit=20000):
        self.f, self.limit, self.bad = f, limit, {}
        self.live = self.liveness()
    def liveness(self):
        """values used in a block or later (to forget facts that no longer matter)"""
        f = self.f
        use = [set() for _ in f.blocks]; dfn = [set() for _ in f.blocks]; pu = {}
        for b, ins in enumerate(f.blocks):
            for i in ins:
                dfn[b].add(i.id)
                if i.op == "phi":
                    for v, p in i.ops:
                        if v[0] == "i": pu.setdefault(p, set()).add(v[1])
                else:
                    for v in i.ops:
                        if isinstance(v, list) and v[0] == "i": use[b].add(v[1])
        live = [set() for _ in f.blocks]
        ch = True
        while ch:
            ch = False
            for b in range(len(f.blocks) - 1, -1, -1):
                s = set(pu.get(b, ()))
                for x in f.succ[b]: s |= live[x]
                s = (s | use[b]) - dfn[b] | (use[b] - dfn[b])
                if s != live[b]: live[b] = s; ch = True
        return live
    def stable(self, o):
        if o[0] in ("a", "c"): return True
        return o[0] == "i" and self.f.loopof[self.f.insts[o[1]].b] is None
    def const(self, o, cs, n):
        if o[0] == "c": return int(o[1]) % (1 << n)
        if o[0] == "i": return cs.get(o[1])
        return None
    def base(self, o):
        while isinstance(o, list) and o[0] == "i":
            i = self.f.insts[o[1]]
            if i.op == "alloca": return i.id
            if i.op not in ("getelementptr", "bitcast"): return None
            o = i.ops[0]
        return None
    def memory(self, i, und):
        """arrays: the first read before any write to the array"""
        if i.op == "load":
            a = self.base(i.ops[0])
            if ("A", a) in und: self.bad.setdefault(i.id, i)
        elif i.op in ("store", "call") and not (i.callee or "").startswith(("llvm.lifetime", "llvm.dbg")):
            # written, or handed to someone who may write it
            for o in i.ops:
                a = self.base(o)
                if a is not None: und.discard(("A", a))
        elif i.op in ("phi", "select", "ptrtoint", "ret"):
            for o in i.ops:
                a = self.base(o) if isinstance(o, list) else None
                if a is not None: und.discard(("A", a))
    def run(self):
        f = self.f
        arrays = {i.id for ins in f.blocks for i in ins if i.op == "alloca"}
        if not arrays and not any(v[0] == "u" for ins in f.blocks for i in ins if i.op == "phi" for v, _ in i.ops) and \
           not any(isinstance(v, list) and v[0] == "u" for ins in f.blocks for i in ins if i.op in USES for v in i.ops): return self.bad
        start = (0, -1, frozenset(("A", a) for a in arrays), (), ())
        st, seen = [start], {start}
        while st:
            if len(seen) > self.limit: break
            b, p, und, cs, ts = st.pop()
            cs, ts, und = dict(cs), dict(ts), set(und)
            new_u, new_c, drop = set(), {}, set()
            for i in f.blocks[b]:
                if i.op != "phi": break
                v = next((v for v, q in i.ops if q == p), None)
                drop.add(i.id)
                if v is None: continue
                if v[0] == "u" or v[0] == "i" and v[1] in und: new_u.add(i.id)
                else:
                    c = self.const(v, cs, bits(i.ty) or 64) if bits(i.ty) else None
                    if c is not None: new_c[i.id] = c
            for d in drop: und.discard(d); cs.pop(d, None)
            und |= new_u; cs.update(new_c)
            for i in f.blocks[b]:
                if i.op == "phi": continue
                if arrays: self.memory(i, und)
                if i.op in USES and i.callee not in ("free",) and not (i.callee or "").startswith("llvm."):
                    for v in i.ops:
                        if isinstance(v, list) and (v[0] == "i" and v[1] in und or v[0] == "u" and i.op in ("icmp", "fcmp", "add", "sub", "mul")):
                            self.bad.setdefault(i.id, i)
                cs.pop(i.id, None)
                n = bits(i.ty) if i.ty else 0
                if i.op in ("add", "sub", "zext", "trunc", "sext", "icmp", "and", "or", "xor") and n:
                    m = n
                    if i.op == "icmp" or i.op in ("zext", "trunc", "sext"):
                        s = next((self.f.insts[o[1]].ty for o in i.ops if o[0] == "i"), None)
                        m = i.d.get("bits") or (bits(s) if s else 64)
                    vals = [self.const(o, cs, m) for o in i.ops[:2]]
                    if None not in vals:
                        if i.op == "icmp": r = int(cmpc(i.d["pred"], vals[0], vals[1], m))
                        elif i.op == "zext" or i.op == "trunc": r = vals[0] % (1 << n)
                        elif i.op == "sext": r = ((vals[0] ^ 1 << m - 1) - (1 << m - 1)) % (1 << n)
                        else: r = {"add": vals[0] + vals[1], "sub": vals[0] - vals[1], "and": vals[0] & vals[1], "or": vals[0] | vals[1], "xor": vals[0] ^ vals[1]}[i.op] % (1 << n) if len(vals) > 1 else None
                        if r is not None: cs[i.id] = r
            t = f.blocks[b][-1]
            nxt = []
            if t.op == "br" and len(f.succ[b]) == 2:
                c = t.ops[0]
                v = self.const(c, cs, 1)
                key, pos = None, True
                if v is None and c[0] == "i":
                    i = f.insts[c[1]]
                    if i.op == "icmp" and all(self.stable(o) for o in i.ops):
                        k = i.d["pred"]
                        pos = k in ("eq", "ult", "ugt", "slt", "sgt")
                        key = (k if pos else NEG[k], str(i.ops[0]), str(i.ops[1]))
                        # a loaded value is fixed where it was loaded
                        v0 = ts.get(key)
                        if v0 is not None: v = int(v0 == pos)
                        elif k in ("ult", "slt", "ule", "sle", "ugt", "sgt", "uge", "sge"): pass
                    elif self.stable(c): key = ("val", str(c), "")
                    if key is not None and v is None and ts.get(key) is not None: v = int(ts[key] == pos)
                for want in (1, 0):
                    if v is not None and v != want: continue
                    t2 = dict(ts)
                    if key is not None: t2[key] = bool(want) == pos
                    nxt.append((t.d["succ"][0 if want else 1], t2))
            else: nxt = [(s, ts) for s in f.succ[b]]
            for s, t2 in nxt:
                lv = self.live[s]
                phis = {v[1] for i in f.blocks[s] if i.op == "phi" for v, q in i.ops if q == b and v[0] == "i"}
                # constants: only what loops start with matters, forget counters after the first round
                L = f.loopof[s]
                c2 = {k: v for k, v in cs.items() if k in lv or k in phis}
                if L is not None and s == L.header and b in L.blocks: c2 = {k: v for k, v in c2.items() if f.insts[k].b not in L.blocks and k not in phis}
                u2 = {k for k in und if k in lv or k in phis or isinstance(k, tuple)}
                x = (s, b, frozenset(u2), tuple(sorted(c2.items())), tuple(sorted(t2.items())))
                if x not in seen: seen.add(x); st.append(x)
        return self.bad

def check(module):
    """[(function, instruction)] and the number of functions"""
    out, n = [], 0
    for name in module.raw:
        f = module.fn(name)
        if f is None or not getattr(f, "blocks", None): continue
        n += 1
        for i in Undef(f).run().values(): out.append((name, i))
    return n, out
