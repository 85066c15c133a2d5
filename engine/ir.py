"""Loads irdump JSON: functions, CFG, dominators, natural loops."""
import json

class Inst:
    __slots__ = ("id", "op", "ty", "ops", "b", "d", "idx")
    def __init__(self, d, b, idx):
        self.id, self.op, self.ty, self.ops, self.b, self.d, self.idx = d["id"], d["op"], d["ty"], d["ops"], b, d, idx
    @property
    def callee(self): return self.d.get("callee")
    def loc(self):
        f = self.d.get("file", "?")
        s = f"{f.split('/')[-1]}:{self.d.get('line', 0)}"
        return s
    def __repr__(self): return f"%{self.id}={self.op}@{self.loc()}"

def bits(ty):
    if ty.startswith("i") and ty[1:].isdigit(): return int(ty[1:])
    if ty == "ptr": return 64
    return 0

class Loop:
    def __init__(self, header):
        self.header, self.blocks, self.latches, self.parent, self.depth = header, {header}, [], None, 0
        self.exits = []
        self.preheader = None
    def __repr__(self): return f"L{self.header}"

def split_wide_loads(d):
    """a struct of two 32-bit fields passed in a register: read the fields separately (little endian)"""
    if d.get("split"): return
    d["split"] = True
    ins = {i["id"]: i for b in d["blocks"] for i in b["insts"]}
    nxt = max(ins, default=0) + 1
    wide = {}
    def src(o):
        i = ins.get(o[1]) if o[0] == "i" else None
        if i is None: return None
        if i["op"] == "load" and i["ty"] == "i64": return i["id"], 0
        if i["op"] == "lshr" and i["ty"] == "i64" and i["ops"][1][0] == "c" and int(i["ops"][1][1]) == 32:
            j = ins.get(i["ops"][0][1]) if i["ops"][0][0] == "i" else None
            if j is not None and j["op"] == "load": return j["id"], 4
        return None
    for b in d["blocks"]:
        for i in b["insts"]:
            if i["op"] == "trunc" and i["ty"] == "i32" and src(i["ops"][0]): wide.setdefault(src(i["ops"][0]), []).append(i["id"])
    if not wide: return
    ren = {}
    for b in d["blocks"]:
        out = []
        for i in b["insts"]:
            out.append(i)
            for off in (0, 4):
                if (i["id"], off) not in wide: continue
                p = i["ops"][0]
                if off:
                    g = dict(i, id=nxt, op="getelementptr", ty="ptr", ops=[p], coff=4, vars=[]); g.pop("size", None); nxt += 1
                    out.append(g); p = ["i", g["id"]]
                l = dict(i, id=nxt, ty="i32", size=4, ops=[p]); nxt += 1
                out.append(l)
                for t in wide[(i["id"], off)]: ren[t] = l["id"]
        b["insts"] = out
    def fix(o):
        if isinstance(o, list):
            if len(o) >= 2 and o[0] == "i" and o[1] in ren: return ["i", ren[o[1]]] + o[2:]
            return [fix(x) for x in o]
        return o
    for b in d["blocks"]:
        b["insts"] = [i for i in b["insts"] if i["id"] not in ren]
        for i in b["insts"]:
            i["ops"] = fix(i["ops"])
            for k in ("vars", "cval"):
                if i.get(k): i[k] = fix(i[k])
    d["dbg"] = [[fix(v), n, t] for v, n, t in d.get("dbg", [])]

class Function:
    def __init__(self, m, d):
        self.m, self.d, self.name = m, d, d["name"]
        self.params = d.get("params", [])
        self.ditypes = d.get("ditypes", [])
        self.file = d.get("file", "?").split("/")[-1]
        split_wide_loads(d)
        self.blocks = []
        self.insts = {}
        self.bname = {}
        for b in d["blocks"]:
            lst = []
            for k, i in enumerate(b["insts"]):
                ins = Inst(i, b["id"], k)
                lst.append(ins)
                self.insts[ins.id] = ins
            self.blocks.append(lst)
            self.bname[b["id"]] = b["name"]
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        for b in range(n):
            t = self.blocks[b][-1]
            if t.op == "br": s = t.d["succ"]
            elif t.op == "switch": s = [t.d["default"]] + [c[1] for c in t.d["cases"]]
            else: s = []
            self.succ[b] = list(dict.fromkeys(s))
        self._reach()
        for b in range(n):
            if b in self.reach:
                for s in self.succ[b]: self.pred[s].append(b)
        self._dom()
        self._loops()
        self.uses = {}
        for ins in self.insts.values():
            if ins.b not in self.reach: continue
            for o in self.operands(ins):
                if o[0] == "i": self.uses.setdefault(o[1], []).append(ins)
        self.dbg = {}
        for v, name, ty in d.get("dbg", []):
            k = tuple(v)
            if k[0] in ("i", "a"): self.dbg.setdefault(k, (name, ty))
    def operands(self, ins):
        if ins.op == "phi": return [o[0] for o in ins.ops]
        r = list(ins.ops)
        if ins.d.get("cval"): r.append(ins.d["cval"])
        return r
    def _reach(self):
        seen, st = {0}, [0]
        while st:
            b = st.pop()
            for s in self.succ[b]:
                if s not in seen: seen.add(s); st.append(s)
        self.reach = seen
    def _dom(self):
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                order.append(b); st.pop()
        self.rpo = order[::-1]
        num = {b: i for i, b in enumerate(self.rpo)}
        self.rponum = num
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]: x = idom[x]
                                while num[y] > num[x]: y = idom[y]
                            new = x
                if idom.get(b) != new: idom[b] = new; ch = True
        self.idom = idom
        self.domdepth = {0: 0}
        for b in self.rpo[1:]: self.domdepth[b] = self.domdepth[idom[b]] + 1
    def dominates(self, a, b):
        while self.domdepth[b] > self.domdepth[a]: b = self.idom[b]
        return a == b
    def domchain(self, b):
        r = [b]
        while b != 0:
            b = self.idom[b]; r.append(b)
        return r
    def inst_dominates(self, x, y):
        if x.b == y.b: return x.idx < y.idx
        return self.dominates(x.b, y.b)
    def _loops(self):
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    L = self.loops.setdefault(s, Loop(s))
                    L.latches.append(b)
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in L.blocks: continue
                        L.blocks.add(x)
                        st.extend(self.pred[x])
        ls = list(self.loops.values())
        self.loopof = {}
        for L in ls:
            best = None
            for K in ls:
                if K is not L and L.header in K.blocks and L.blocks <= K.blocks:
                    if best is None or len(K.blocks) < len(best.blocks): best = K
            L.parent = best
        for L in ls:
            d, x = 0, L
            while x.parent: d += 1; x = x.parent
            L.depth = d
            L.exits = [(b, s) for b in L.blocks for s in self.succ[b] if s not in L.blocks]
            pre = [p for p in self.pred[L.header] if p not in L.blocks]
            L.preheader = pre[0] if len(pre) == 1 else None
        for b in self.reach:
            best = None
            for L in ls:
                if b in L.blocks and (best is None or len(L.blocks) < len(best.blocks)): best = L
            self.loopof[b] = best
    def reaches(self, a, b, avoid=()):
        """can control go from block a to block b (through >=0 edges)"""
        seen, st = set(avoid), [a]
        while st:
            x = st.pop()
            if x == b: return True
            if x in seen: continue
            seen.add(x)
            st.extend(self.succ[x])
        return False

class Module:
    def __init__(self, path):
        self.d = json.load(open(path))
        self.globals = {g["name"]: g for g in self.d["globals"]}
        self.decls = {f["name"] for f in self.d["functions"] if f["decl"]}
        self.vendored = {f["name"] for f in self.d["functions"] if f.get("vendored")}
        self.raw = {f["name"]: f for f in self.d["functions"] if not f["decl"] and not f.get("vendored")}
        self.fns = {}
    def fn(self, name):
        if name not in self.fns: self.fns[name] = Function(self, self.raw[name])
        return self.fns[name]
