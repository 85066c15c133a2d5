"""What a pointer may point to: roots of pointer values in one function (flow-insensitive in memory, exact in SSA)."""
ALLOC = {"malloc", "calloc", "realloc", "strdup", "aligned_alloc", "strndup", "reallocarray"}
PASS = {"memcpy": 0, "memmove": 0, "memset": 0, "strcpy": 0, "strcat": 0, "strncpy": 0, "strncat": 0, "fgets": 0, "strchr": 0, "strrchr": 0, "strstr": 0, "memchr": 0, "strpbrk": 0,
        "llvm.launder.invariant.group.p0": 0}
class Roots:
    def __init__(self, fn):
        self.f, self.memo, self.mem = fn, {}, None
    def roots(self, op):
        return frozenset(self._r(op, set()))
    def _r(self, op, seen):
        k = op[0]
        if k == "a": return {("arg", op[1])}
        if k == "g": return {("glob", op[1])}
        if k in ("n", "z", "u"): return {("null",)}
        if k != "i": return {("unk", str(op))}
        i = op[1]
        if i in seen: return set()
        if i in self.memo: return self.memo[i]
        top = not seen
        s2 = seen | {i}
        ins = self.f.insts[i]
        o = ins.op
        if o in ("getelementptr", "bitcast", "addrspacecast", "freeze"): r = self._r(ins.ops[0], s2)
        elif o == "alloca": r = {("stack", i)}
        elif o == "phi":
            r = set()
            for v, p in ins.ops:
                if p in self.f.reach: r |= self._r(v, s2)
        elif o == "select": r = self._r(ins.ops[1], s2) | self._r(ins.ops[2], s2)
        elif o == "call":
            c = ins.callee or ""
            if c in ALLOC: r = {("heap", i)}
            elif c in PASS: r = self._r(ins.ops[PASS[c]], s2)
            else: r = {("ret", i)}
        elif o == "load": r = self.loaded(ins, s2)
        elif o in ("inttoptr",): r = {("unk", i)}
        elif o == "extractvalue": r = self._r(ins.ops[0], s2)
        else: r = {("unk", i)}
        if top: self.memo[i] = r
        return r
    def offset(self, op):
        """constant byte offset from the root, or None"""
        t = 0
        while op[0] == "i":
            ins = self.f.insts[op[1]]
            if ins.op == "getelementptr":
                if ins.d.get("vars") or "coff" not in ins.d: return None
                t += ins.d["coff"]; op = ins.ops[0]
            elif ins.op in ("bitcast", "freeze"): op = ins.ops[0]
            else: return t if ins.op in ("alloca", "call", "load") else None
        return t
    def stores(self):
        """root -> [(offset, value operand)] of pointer stores"""
        if self.mem is None:
            self.mem = {}
            for x in self.f.insts.values():
                if x.op == "store" and x.b in self.f.reach and x.d.get("vty") == "ptr":
                    off = self.offset(x.ops[1])
                    for r in self.roots_nomem(x.ops[1]): self.mem.setdefault(r, []).append((off, x.ops[0]))
        return self.mem
    def roots_nomem(self, op):
        """roots without looking through memory"""
        st, seen, out = [op], set(), set()
        while st:
            o = st.pop()
            if o[0] == "a": out.add(("arg", o[1])); continue
            if o[0] == "g": out.add(("glob", o[1])); continue
            if o[0] != "i" or o[1] in seen: continue
            seen.add(o[1]); ins = self.f.insts[o[1]]
            if ins.op in ("getelementptr", "bitcast", "freeze"): st.append(ins.ops[0])
            elif ins.op == "phi": st += [v for v, p in ins.ops if p in self.f.reach]
            elif ins.op == "select": st += ins.ops[1:]
            elif ins.op == "alloca": out.add(("stack", ins.id))
            elif ins.op == "call" and ins.callee in ALLOC: out.add(("heap", ins.id))
            elif ins.op == "call": out.add(("ret", ins.id))
            else: out.add(("ld", ins.id))
        return out
    def loaded(self, ins, seen):
        r = set()
        off = self.offset(ins.ops[0])
        for b in self._r(ins.ops[0], seen):
            if b[0] in ("arg", "ret"): r.add(b)
            elif b[0] == "glob":
                r.add(("gval", b[1]))
            if b[0] in ("stack", "heap", "ret", "arg"):
                for o, v in self.stores().get(b, ()):
                    if o is None or off is None or o == off: r |= self._r(v, seen)
                for x in self.copies().get(b, ()): r |= {("arg", x[1]) if x[0] == "arg" else x for x in self._r(x, seen)}
        return r or {("unk", ins.id)}
    def copies(self):
        """root of the destination -> source operands of block copies"""
        if not hasattr(self, "_cp"):
            self._cp = {}
            for x in self.f.insts.values():
                if x.op == "call" and x.b in self.f.reach and ((x.callee or "").startswith(("llvm.memcpy", "llvm.memmove")) or x.callee in ("memcpy", "memmove")):
                    for r in self.roots_nomem(x.ops[0]):
                        if r[0] in ("stack",): self._cp.setdefault(r, []).append(x.ops[1])
        return self._cp
