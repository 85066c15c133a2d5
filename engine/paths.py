import copy
"""Abstract execution of one function over its control-flow graph (a finite-state dataflow, no solver).

A state maps SSA values to abstract values, heap objects to their status and known memory cells to values.
States reaching a block with equal contents are merged; loop-carried scalars become opaque after the first round,
so the set of states is finite.  Allocations fork into a failing and a succeeding state.

Values (tuples):
 ("c", int, bits)  ("f", float)  ("null",)  ("p", base, offset|None)  ("u", id)  ("t", op, type, args...)
 bases: ("obj", site, n)  ("arg", i)  ("stk", id)  ("glob", name)  ("ext", id)
"""
from ir import bits
NULL = ("null",)
ALLOCS = {"malloc", "calloc", "strdup", "strndup", "aligned_alloc", "realloc", "reallocarray", "stbi_load", "stbi_load_from_memory", "stbi_loadf", "fopen", "fdopen", "tmpfile", "asprintf"}
FILES = {"fopen", "fdopen", "tmpfile"}
FREES = {"free": 0, "stbi_image_free": 0, "fclose": 0, "cfree": 0}
# routines that accept null pointers in these positions
NULLOK = {"free": {0}, "stbi_image_free": {0}, "realloc": {0}, "strtok": {0}, "strtok_r": {0}, "strtol": {1}, "strtoul": {1}, "strtod": {1}, "strtof": {1}, "strtoll": {1}, "strtoull": {1},
          "printf": set(range(1, 40)), "fprintf": set(range(2, 40)), "snprintf": {0} | set(range(3, 40)), "setlocale": {1}, "time": {0}, "qsort": set(), "fflush": {0}}
NORETURN = {"exit", "abort", "_exit", "__assert_fail", "quick_exit", "llvm.trap", "_Exit", "longjmp", "err", "errx"}
IGN = ("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental.noalias")
PURE = {"strcmp", "strncmp", "strlen", "memcmp", "strchr", "strrchr", "strstr", "fabs", "sqrt", "floor", "ceil", "round", "lround", "lroundf", "roundf", "fabsf", "sqrtf", "fmin", "fmax", "atan2", "atan2f", "cos", "sin", "exp", "pow",
        "printf", "fprintf", "puts", "putchar", "fputs", "fputc", "fwrite", "atoi", "atof", "strtok", "isspace", "toupper", "tolower", "isxdigit", "isdigit", "__ctype_b_loc", "fseek", "ftell", "fgetc", "feof", "ferror", "clock",
        "stbi_write_png", "stbi_write_jpg", "stbi_write_bmp", "stbi_write_tga"}
READS = PURE      # externals that write nothing through their arguments

class Budget(Exception): pass

class State:
    __slots__ = ("env", "obj", "mem", "facts", "failed", "ev", "key")
    def __init__(self, env=None, obj=None, mem=None, facts=None, failed=(), ev=()):
        self.env, self.obj, self.mem, self.facts, self.failed, self.ev = env or {}, obj or {}, mem or {}, facts or {}, failed, ev
    def copy(self): return State(dict(self.env), dict(self.obj), dict(self.mem), dict(self.facts), self.failed, self.ev)
    def freeze(self):
        return (frozenset(self.env.items()), frozenset(self.obj.items()), frozenset(self.mem.items()), frozenset(self.facts.items()), bool(self.failed), self.ev)

def mentions(v, atom):
    if v == atom: return True
    if isinstance(v, tuple): return any(mentions(x, atom) for x in v if isinstance(x, tuple))
    return False
def uatoms(v, out):
    if isinstance(v, tuple):
        if v and v[0] in ("u", "w", "ext"): out.add(v)
        else:
            for x in v: uatoms(x, out)
    return out
def size(v): return 1 + sum(size(x) for x in v if isinstance(x, tuple)) if isinstance(v, tuple) else 0

def signed(v, w): 
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v

NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}
SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}

class Outcome:
    __slots__ = ("kind", "ins", "val", "st", "info", "trail")
    def __init__(self, kind, ins, val, st, info=None): self.kind, self.ins, self.val, self.st, self.info, self.trail = kind, ins, val, st, info, None

class Exec:
    """opts: args (list of abstract values), ranges {term: (lo, hi) signed}, summary(name) -> list of outcome kinds or None,
    call hook(self, st, x, args) -> list of (state, value) or None, ints: keep integer terms, fail: fork allocations"""
    def __init__(self, fn, m, args=None, ranges=None, summary=None, hook=None, fail=True, terms=False, limit=60000, strings=None, forgetfacts=False, onstore=None):
        self.f, self.m, self.fail, self.terms, self.limit, self.hook, self.summary, self.strings, self.onstore = fn, m, fail, terms, limit, hook, summary, strings or {}, onstore
        self.ranges = ranges or {}
        self.args = args or [self.default_arg(i) for i in range(len(fn.params))]
        self.out, self.parents, self.nstates, self.steps = [], {}, 0, 0
        self.argesc, self._keep = set(), {}
        self.live_in()
        self.flags()
    def default_arg(self, i):
        return ("p", ("arg", i), 0) if self.f.params[i]["ty"] == "ptr" else ("u", ("arg", i))
    # ---- preparation
    def live_in(self):
        f = self.f
        use, de = {b: set() for b in f.reach}, {b: set() for b in f.reach}
        phiuse = {b: set() for b in f.reach}     # used at the end of b
        for b in f.reach:
            for x in f.blocks[b]:
                if x.op == "phi":
                    for v, p in x.ops:
                        if v[0] == "i" and p in f.reach: phiuse[p].add(v[1])
                else:
                    for o in f.operands(x):
                        if o[0] == "i" and o[1] not in de[b]: use[b].add(o[1])
                    for v in x.d.get("vars") or []:
                        if v[0][0] == "i" and v[0][1] not in de[b]: use[b].add(v[0][1])
                de[b].add(x.id)
        live = {b: set(use[b]) for b in f.reach}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.rpo):
                o = set(phiuse[b])
                for s in f.succ[b]: o |= live[s]
                n = use[b] | (o - de[b])
                if n != live[b]: live[b] = n; ch = True
        self.live = live
        self.liveout = {b: set(phiuse[b]).union(*[live[s] for s in f.succ[b]] or [set()]) for b in f.reach}
    def flags(self):
        """loop-header phis that only ever take constant values"""
        f = self.f
        self.flag = set()
        for L in f.loops.values():
            for x in f.blocks[L.header]:
                if x.op != "phi": break
                if x.ty == "ptr": continue
                st, seen, ok = [["i", x.id]], set(), True
                while st and ok:
                    o = st.pop()
                    if o[0] in ("c", "f", "u"): continue
                    if o[0] != "i": ok = False; break
                    if o[1] in seen: continue
                    seen.add(o[1]); y = f.insts[o[1]]
                    if y.op == "phi": st += [v for v, p in y.ops if p in f.reach]
                    elif y.op == "select": st += y.ops[1:]
                    elif y.op in ("zext", "trunc", "sext"): st.append(y.ops[0])
                    else: ok = False
                if ok: self.flag.add(x.id)
    # ---- values
    def val(self, st, op, ty=None):
        k = op[0]
        if k == "i": return st.env.get(op[1], ("u", op[1]))
        if k == "a": return self.args[op[1]]
        if k == "c": return ("c", int(op[1]) & ((1 << op[2]) - 1), op[2])
        if k == "f": return ("f", float(op[1]))
        if k == "n": return NULL
        if k == "g": return ("p", ("glob", op[1]), op[2] if len(op) > 2 else 0)
        if k == "fn": return ("p", ("fn", op[1]), 0)
        if k == "z": return ("zero",)
        if k == "u": return ("undef",)
        return ("u", str(op))
    def rng(self, v, w):
        """signed interval of an integer value, or None"""
        if v in self.ranges: return self.ranges[v]
        if v[0] == "c": s = signed(v[1], v[2]); return (s, s)
        if v[0] == "t":
            op, ty = v[1], v[2]
            if op == "sext": return self.rng(v[3], 0)
            if op == "zext":
                sw = v[4]; r = self.rng(v[3], sw)
                if r and r[0] >= 0: return r
                if r and r[1] < 0: return (r[0] + (1 << sw), r[1] + (1 << sw))
                return (0, (1 << sw) - 1)
            if op in ("sitofp",): return self.rng(v[3], 0)
            if op in ("uitofp",): return self.rng(("t", "zext", ty, v[3], v[4]), 0)
        return None
    def compare(self, pred, a, b, w):
        """True/False/None"""
        if a[0] in ("null", "p") and b[0] in ("null", "p"):
            r = self.ptreq(a, b)
            if pred == "eq": return r
            if pred == "ne": return None if r is None else not r
            return None
        if a == b and a[0] not in ("undef", "p"):
            if pred in ("eq", "ule", "uge", "sle", "sge"): return True
            if pred in ("ne", "ult", "ugt", "slt", "sgt"): return False
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            if pred[0] == "s": x, y = signed(x, a[2]), signed(y, b[2])
            return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred if pred in ("eq", "ne") else pred[1:]]
        ra, rb = self.rng(a, w), self.rng(b, w)
        if pred == "ult" and b == ("c", 0, w) or pred == "ugt" and a == ("c", 0, w): return False
        if pred == "uge" and b == ("c", 0, w) or pred == "ule" and a == ("c", 0, w): return True
        if ra and rb:
            if pred[0] == "u":
                conv = lambda r: r if r[0] >= 0 else (r[0] + (1 << w), r[1] + (1 << w)) if r[1] < 0 else None
                ra, rb = conv(ra), conv(rb)
                if not ra or not rb: return None
            p = pred if pred in ("eq", "ne") else pred[1:]
            if p == "gt": ra, rb, p = rb, ra, "lt"
            if p == "ge": ra, rb, p = rb, ra, "le"
            if p == "lt": return True if ra[1] < rb[0] else False if ra[0] >= rb[1] else None
            if p == "le": return True if ra[1] <= rb[0] else False if ra[0] > rb[1] else None
            if ra[1] < rb[0] or rb[1] < ra[0]: return p == "ne"
        return None
    def ptreq(self, a, b):
        if a == NULL and b == NULL: return True
        if a == NULL or b == NULL:
            p = b if a == NULL else a
            if p[1][0] == "ext": return None
            return False
        if a[1] == b[1]:
            if a[2] is None or b[2] is None: return None
            return a[2] == b[2]
        k = {a[1][0], b[1][0]}
        if "ext" in k or a[1][0] == b[1][0] == "arg": return None if "obj" not in k or True else False
        return False
    def truth(self, st, v):
        if v[0] == "c": return bool(v[1])
        if v in st.facts: return st.facts[v]
        if v[0] == "t":
            if v[1] == "cmp":
                _, _, pred, a, b, w = v
                r = self.compare(pred, a, b, w)
                if r is not None: return r
                for p, x, y, neg in ((pred, a, b, 0), (SWAP.get(pred), b, a, 0), (NEG.get(pred), a, b, 1), (SWAP.get(NEG.get(pred)), b, a, 1)):
                    k = ("t", "cmp", p, x, y, w)
                    if k in st.facts: return st.facts[k] ^ bool(neg)
                if pred in ("eq", "ne") and b[0] == "c":
                    # known equal or unequal to another constant
                    for k, t in st.facts.items():
                        if k[0] == "t" and k[1] == "cmp" and k[3] == a and k[4][0] == "c" and (k[2] == "eq") == t and k[2] in ("eq", "ne") and k[4] != b: return pred == "ne"
            elif v[1] == "not":
                r = self.truth(st, v[3])
                return None if r is None else not r
        return None
    def assume(self, st, v, t):
        """new state with condition v having truth t, or None if impossible"""
        r = self.truth(st, v)
        if r is not None: return st if r == t else None
        s = st.copy()
        if v[0] == "t" and v[1] == "not": v, t = v[3], not t
        if self.keepfact(v): s.facts[v] = t
        if v[0] == "t" and v[1] == "cmp" and v[2] in ("eq", "ne") and (v[2] == "eq") == t:
            a, b = v[3], v[4]
            if a == NULL: a, b = b, a
            if b == NULL and a[0] == "p" and a[1][0] == "ext":     # this unknown pointer is null
                self.replace(s, a, NULL, base=True)
            elif b[0] == "c" and a[0] in ("u",): self.replace(s, a, b)
        return s
    def keepfact(self, v):
        """facts about loop-local scalars are kept only if another test of the same operands exists"""
        if v[0] == "t" and v[1] == "cmp":
            a, b = v[3], v[4]
            if a[0] == "p" or b[0] == "p": return NULL in (a, b) or a[0] == b[0] == "p" and v[2] in ("eq", "ne") and a[2] is not None and b[2] is not None
            if self.terms: return True
            at = [x for x in uatoms(v, set()) if not (x[0] == "u" and isinstance(x[1], tuple))]
            if not at: return True
            return len(at) == 1 and at[0][0] == "u" and self.tests().get(at[0][1], 0) > 1
        if self.terms: return True
        if v[0] == "u" and isinstance(v[1], int): return len([1 for u in self.f.uses.get(v[1], ()) if u.op in ("br", "select", "phi", "xor", "zext", "and", "or")]) > 1
        return not uatoms(v, set()) or True
    def tests(self):
        """value -> largest number of tests against the same operand"""
        if not hasattr(self, "_tests"):
            d = {}
            def strip(o):
                while o[0] == "i" and self.f.insts[o[1]].op in ("zext", "sext", "trunc"): o = self.f.insts[o[1]].ops[0]
                return tuple(o)
            for x in self.f.insts.values():
                if x.op == "icmp" and x.b in self.f.reach:
                    a, b = strip(x.ops[0]), strip(x.ops[1])
                    n = max(1, len([u for u in self.f.uses.get(x.id, ()) if u.op in ("br", "select", "phi")]))
                    for p, q in ((a, b), (b, a)):
                        if p[0] == "i": d.setdefault(p[1], {}); d[p[1]][q] = d[p[1]].get(q, 0) + n
            self._tests = {k: max(v.values()) for k, v in d.items()}
        return self._tests
    def replace(self, s, a, b, base=False):
        def sub(v):
            if base and v[0] == "p" and v[1] == a[1]: return b
            if v == a: return b
            return v
        for k, v in s.env.items():
            n = sub(v)
            if n is not v: s.env[k] = n
        for k, v in s.mem.items():
            n = sub(v)
            if n is not v: s.mem[k] = n
    def fresh(self, st, i):
        """a new opaque value produced by instruction i; older uses of its name are renamed"""
        a = ("u", i)
        self.forget(st, a)
        return a
    def forget(self, st, a):
        for k, v in list(st.env.items()):
            if v == a or (v[0] in ("t", "p") and mentions(v, a)):
                st.env[k] = ("w", k) if v[0] != "p" else ("p", ("ext", ("w", k)), 0)
        for k, v in list(st.mem.items()):
            if v == a or (v[0] in ("t", "p") and mentions(v, a)): st.mem[k] = ("w", k) if v[0] != "p" else ("p", ("ext", ("w", k)), 0)
        for k in list(st.facts):
            if mentions(k, a): del st.facts[k]
    def term(self, st, x, *parts):
        """value of a pure instruction"""
        args = [p for p in parts if isinstance(p, tuple)]
        t = ("t",) + parts
        if not self.terms:
            # only comparisons and casts of arguments and opaque values are kept as terms
            if parts[0] not in ("cmp", "sext", "zext", "trunc", "not", "sitofp", "uitofp") or size(t) > 12: return self.fresh(st, x.id)
        elif size(t) > 120: return self.fresh(st, x.id)
        return t
    # ---- run
    def run(self, st=None):
        st = st or State()
        work = [(0, None, st)]
        self.seen = {}
        self.enter(0, None, st, None)
        while self.work:
            b, s, key = self.work.pop()
            self.nstates += 1
            if self.nstates > self.limit: raise Budget(f"more than {self.limit} states")
            self.block(b, s, key)
        return self.out
    def run_from(self, st): return self.run(st)
    work = None
    def enter(self, b, pred, st, key):
        """take the edge pred->b"""
        f = self.f
        if self.work is None: self.work = []
        s = st.copy()
        if pred is not None:
            new = {}
            L = f.loops.get(b)
            back = L is not None and pred in L.blocks
            for x in f.blocks[b]:
                if x.op != "phi": break
                for v, p in x.ops:
                    if p == pred: new[x.id] = (x, self.val(st, v)); break
            for i, (x, v) in list(new.items()):
                if x.id in self.flag: continue
                if v[0] == "p":
                    if back and v[2] is not None:
                        old = st.env.get(x.id)
                        if old != v and (old is None or old[0] != "p" or old[1] == v[1]): new[i] = (x, ("p", v[1], None))
                elif v == NULL: pass
                elif back or not self.terms and not self.keepphi(x, v, L, st): new[i] = (x, ("opaque",))
            for i, (x, v) in new.items():
                if v == ("opaque",):
                    self.forget(s, ("u", i)); new[i] = (x, ("u", i))
            if back:
                for k in list(s.mem):
                    if k[0][0] in ("arg", "glob", "ext") and s.mem[k][0] == "p" and k[0] not in self.const: del s.mem[k]
            for i, (x, v) in new.items(): s.env[i] = v
        lv = self.live[b] | {x.id for x in f.blocks[b] if x.op == "phi"}
        for k in list(s.env):
            if k not in lv: del s.env[k]
        self.prune(s)
        k = (b, s.freeze())
        if k in self.parents: return
        self.parents[k] = key
        self.work.append((b, s, k))
    def keepphi(self, x, v, L, st):
        """scalar phis whose incoming value is worth remembering: flags, and counters with a constant bound"""
        if x.id not in self._keep:
            r = False
            if x.ty == "i1": r = True
            elif L is None:
                r = all(o[0] in ("c", "u", "a") or o[0] == "i" and self.f.insts[o[1]].op in ("phi", "zext", "select") for o, p in x.ops) and any(o[0] == "c" for o, p in x.ops)
            elif v[0] == "c":
                for y in self.f.blocks[L.header]:
                    if y.op == "icmp":
                        for p, q in ((0, 1), (1, 0)):
                            if y.ops[p][:2] == ["i", x.id] and y.ops[q][0] == "c": r = True
            self._keep[x.id] = r
        if L is not None and v[0] == "c" and not self._keep[x.id]:
            # a counter whose bound is a constant on this path: does the loop run at all?
            for y in self.f.blocks[L.header]:
                if y.op == "icmp":
                    for p, q in ((0, 1), (1, 0)):
                        o = y.ops[p]
                        if o[0] == "i" and o[1] != x.id and self.f.insts[o[1]].op == "zext": o = self.f.insts[o[1]].ops[0]
                        if o[:2] == ["i", x.id] and self.val(st, y.ops[q])[0] == "c": return True
        return self._keep[x.id] and (v[0] == "c" or v[0] == "t" and v[1] in ("cmp", "not") or x.ty == "i1")
    def prune(self, s):
        """drop facts about values that nothing refers to any more, and objects that cannot be named"""
        at, named = set(), set()
        for d in (s.env, s.mem):
            for v in d.values():
                if v[0] == "p": named.add(v[1])
                elif v[0] == "t": named |= {b for b in self.reachable_objs(s, v)}
                if v[0] not in ("c", "null", "f"): uatoms(v, at)
        for b, z in list(s.obj.items()):
            if z != "live" and b not in named and b[0] == "obj":
                del s.obj[b]
                for k in list(s.mem):
                    if k[0] == b: del s.mem[k]
        for k in list(s.facts):
            ua = uatoms(k, set())
            if any(not (a[0] == "u" and isinstance(a[1], tuple)) and a not in at for a in ua): del s.facts[k]
            elif k[0] == "t" and k[1] == "cmp" and any(v[0] == "p" and v[1][0] in ("obj", "ext", "stk") and v[1] not in named for v in k[3:5]): del s.facts[k]
    def lines(self, key):
        """source lines of the path leading to this state"""
        r = []
        while key is not None:
            b = key[0]
            for x in self.f.blocks[b]:
                if x.d.get("line"): r.append((x.d.get("file", "?").split("/")[-1], x.d["line"])); break
            key = self.parents.get(key)
        out = []
        for l in reversed(r):
            if not out or out[-1] != l: out.append(l)
        return out
    def emit(self, kind, x, st, val=None, info=None, key=None):
        o = Outcome(kind, x, val, st, info); o.trail = key
        self.out.append(o)
    def block(self, b, s, key):
        states = [s]
        for x in self.f.blocks[b]:
            if x.op == "phi": continue
            nxt = []
            for st in states: nxt += self.step(st, x, key)
            # states that agree are merged
            if len(nxt) > 1:
                d = {}
                for st in nxt: d.setdefault(st.freeze(), st)
                nxt = list(d.values())
            states = nxt
            if not states: return
    def reachable_objs(self, st, v):
        r, todo = set(), [v]
        while todo:
            v = todo.pop()
            if v[0] == "p" and v[1] not in r:
                r.add(v[1])
                todo += [w for (b, o, z), w in st.mem.items() if b == v[1]]
            elif v[0] == "t": todo += [a for a in v[2:] if isinstance(a, tuple)]
        return r
    def deref(self, st, p, x, key, what):
        """False if the path ends here"""
        if p == NULL: self.emit("nullderef", x, st, p, what, key); return False
        if p[0] == "p" and st.obj.get(p[1]) == "freed": self.emit("uaf", x, st, p, what, key)
        return True
    def step(self, st, x, key):
        """successor states within the block; edges are taken here"""
        self.steps += 1
        f, op = self.f, x.op
        V = lambda i: self.val(st, x.ops[i])
        if op == "br":
            if not x.ops: self.enter(x.d["succ"][0], x.b, st, key); return []
            c = V(0)
            for t, s in ((True, x.d["succ"][0]), (False, x.d["succ"][1])):
                n = self.assume(st, c, t)
                if n is not None: self.enter(s, x.b, n, key)
            return []
        if op == "switch":
            v = V(0)
            w = v[2] if v[0] == "c" else int(x.d["cases"][0][0][2]) if x.d["cases"] else 32
            rest = st
            for cv, s in x.d["cases"]:
                c = ("c", int(cv[1]) & ((1 << cv[2]) - 1), cv[2])
                cond = ("t", "cmp", "eq", v, c, w)
                n = self.assume(rest, cond, True)
                if n is not None: self.enter(s, x.b, n, key)
                rest = self.assume(rest, cond, False)
                if rest is None: return []
            self.enter(x.d["default"], x.b, rest, key)
            return []
        if op == "ret":
            self.emit("ret", x, st, V(0) if x.ops else None, None, key); return []
        if op == "unreachable": return []
        if op == "call": return self.call(st, x, key)
        if op == "store":
            p, v = V(1), V(0)
            if not self.deref(st, p, x, key, "store"): return []
            st = st.copy()
            if self.onstore: self.onstore(self, st, x, p, v, key)
            self.store(st, p, v, x.d["size"], x.ops[0][0] == "c")
            return [st]
        if op == "load":
            p = V(0)
            if not self.deref(st, p, x, key, "load"): return []
            st = st.copy()
            st.env[x.id] = self.load(st, p, x)
            return [st]
        if x.id not in self.f.uses: return [st]
        st = st.copy()
        if op == "alloca": st.env[x.id] = ("p", ("stk", x.id), 0)
        elif op == "getelementptr":
            p = V(0)
            if p == NULL: st.env[x.id] = NULL
            elif p[0] == "p":
                off = None if p[2] is None or "coff" not in x.d else p[2] + x.d["coff"]
                for o, sc, w in x.d.get("vars") or []:
                    v = self.val(st, o)
                    if v[0] == "c" and off is not None: off += signed(v[1], v[2]) * sc
                    else: off = None
                st.env[x.id] = ("p", p[1], off)
            else: st.env[x.id] = p
        elif op in ("bitcast", "freeze", "addrspacecast"): st.env[x.id] = V(0)
        elif op == "icmp":
            a, b = V(0), V(1)
            w = bits(x.d["opty"])
            r = self.compare(x.d["pred"], a, b, w)
            if r is None:
                if x.d["pred"] in ("ult",) and b == ("c", 1, w): st.env[x.id] = ("t", "cmp", "eq", a, ("c", 0, w), w)
                elif x.d["pred"] == "ugt" and b == ("c", 0, w): st.env[x.id] = ("t", "cmp", "ne", a, b, w)
                else: st.env[x.id] = self.term(st, x, "cmp", x.d["pred"], a, b, w)
            else: st.env[x.id] = ("c", int(r), 1)
        elif op == "fcmp": st.env[x.id] = self.fcmp(st, x, V(0), V(1))
        elif op == "select":
            c = V(0)
            t = self.truth(st, c)
            if t is None and (x.ty == "ptr" or x.ty == "i1" or self.terms and False):
                r = []
                for tv in (True, False):
                    n = self.assume(st, c, tv)
                    if n is not None:
                        n = n.copy(); n.env[x.id] = self.val(n, x.ops[1 if tv else 2]); r.append(n)
                return r
            if t is None: st.env[x.id] = self.term(st, x, "select", x.ty, c, V(1), V(2))
            else: st.env[x.id] = V(1 if t else 2)
        elif op in ("zext", "sext", "trunc"):
            v = V(0); w, sw = bits(x.ty), bits(x.d["sty"])
            if v[0] == "c": st.env[x.id] = ("c", (signed(v[1], sw) if op == "sext" else v[1]) & ((1 << w) - 1), w)
            else: st.env[x.id] = self.term(st, x, op, x.ty, v, sw)
        elif op in ("sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            v = V(0)
            if v[0] == "c" and op in ("sitofp", "uitofp"): st.env[x.id] = ("f", float(signed(v[1], v[2]) if op == "sitofp" else v[1]))
            elif v[0] == "f" and op in ("fpext",): st.env[x.id] = v
            elif v[0] == "f" and op in ("fptosi", "fptoui") and abs(v[1]) < 2**31: st.env[x.id] = ("c", int(v[1]) & ((1 << bits(x.ty)) - 1), bits(x.ty))
            else: st.env[x.id] = self.term(st, x, op, x.ty, v, bits(x.d["sty"]))
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            st.env[x.id] = self.arith(st, x, op, V(0), V(1))
        elif op == "extractvalue": st.env[x.id] = self.term(st, x, "extract", str(x.d.get("idx")), V(0))
        elif op in ("fadd", "fsub", "fmul", "fdiv", "fneg"):
            st.env[x.id] = self.term(st, x, op, x.ty, *[V(i) for i in range(len(x.ops))])
        elif op == "ptrtoint": st.env[x.id] = self.term(st, x, op, x.ty, V(0))
        else: st.env[x.id] = self.fresh(st, x.id)
        if x.ty == "ptr" and st.env[x.id][0] not in ("p", "null"):
            self.forget(st, ("ext", x.id)); st.env[x.id] = ("p", ("ext", x.id), 0)
        return [st]
    def fcmp(self, st, x, a, b):
        p = x.d["pred"]
        if a[0] == "f" and b[0] == "f":
            q = p[1:]
            r = {"eq": a[1] == b[1], "ne": a[1] != b[1], "lt": a[1] < b[1], "le": a[1] <= b[1], "gt": a[1] > b[1], "ge": a[1] >= b[1]}.get(q)
            if r is not None: return ("c", int(r), 1)
        ra = self.rng(a, 64) if a[0] != "f" else (a[1], a[1]); rb = self.rng(b, 64) if b[0] != "f" else (b[1], b[1])
        if ra and rb:
            q = p[1:]
            if q in ("gt", "ge"): ra, rb, q = rb, ra, {"gt": "lt", "ge": "le"}[q]
            if q == "lt" and ra[1] < rb[0] or q == "le" and ra[1] <= rb[0]: return ("c", 1, 1)
            if q == "lt" and ra[0] >= rb[1] or q == "le" and ra[0] > rb[1]: return ("c", 0, 1)
        return self.term(st, x, "fcmp", p, a, b)
    def arith(self, st, x, op, a, b):
        w = bits(x.ty); M = (1 << w) - 1
        if a[0] == "c" and b[0] == "c":
            p, q = a[1], b[1]; sp, sq = signed(p, w), signed(q, w)
            try:
                if op in ("sdiv", "srem"):
                    z = abs(sp) // abs(sq) * (1 if (sp < 0) == (sq < 0) else -1)
                    r = z if op == "sdiv" else sp - sq * z
                else: r = {"add": lambda: p + q, "sub": lambda: p - q, "mul": lambda: p * q, "and": lambda: p & q, "or": lambda: p | q, "xor": lambda: p ^ q, "shl": lambda: p << q if q < w else 0,
                         "lshr": lambda: p >> q, "ashr": lambda: sp >> q, "udiv": lambda: p // q, "urem": lambda: p % q}[op]()
                return ("c", r & M, w)
            except ZeroDivisionError: return self.fresh(st, x.id)
        z = ("c", 0, w)
        if op in ("mul", "and") and (a == z or b == z): return z
        if op in ("add", "or", "xor", "shl", "lshr", "ashr", "sub") and b == z: return a
        if op in ("add", "or", "xor") and a == z: return b
        if op == "mul" and b == ("c", 1, w): return a
        if op == "mul" and a == ("c", 1, w): return b
        if op == "and" and w == 1 and (a == ("c", 1, 1) or b == ("c", 1, 1)): return b if a[0] == "c" else a
        if op == "or" and w == 1 and (a == ("c", 1, 1) or b == ("c", 1, 1)): return ("c", 1, 1)
        if op == "xor" and b == ("c", 1, 1): return self.term(st, x, "not", x.ty, a)
        if op == "sub" and a == b and a[0] != "undef": return z
        if op in ("add", "sub") and a[0] == "t" and a[1] == op and b[0] == "c" and a[4][0] == "c" and self.terms:
            return ("t", op, x.ty, a[3], ("c", (a[4][1] + b[1]) & M, w))
        return self.term(st, x, op, x.ty, a, b)
    # ---- memory
    def escape(self, st, v):
        for b in self.reachable_objs(st, v):
            if b[0] == "obj" and st.obj.get(b) == "live": st.obj[b] = "esc"
            elif b[0] == "arg": self.argesc.add(b[1])
    def store(self, st, p, v, sz, lit=True):
        if p[0] != "p": self.escape(st, v); return
        base, off = p[1], p[2]
        if off is None:
            for k in list(st.mem):
                if k[0] == base: self.escape_dead(st, k); del st.mem[k]
            self.escape(st, v); return
        for k in list(st.mem):
            if k[0] == base and k[1] < off + sz and off < k[1] + k[2]: del st.mem[k]
        if base[0] in ("ext", "glob"):
            self.escape(st, v)
            if base[0] == "ext": return
        if base[0] == "arg": self.escape(st, v)
        if v[0] in ("p", "null") or self.terms or v[0] == "c" and base[0] in ("stk", "obj") and lit: st.mem[(base, off, sz)] = v
    def escape_dead(self, st, k): self.escape(st, st.mem[k])
    def load(self, st, p, x):
        if p[0] == "p" and p[2] is not None:
            v = st.mem.get((p[1], p[2], x.d["size"]))
            if v is not None and v[0] not in ("undef",): return v
            if x.d["size"] == 1 and x.ty != "ptr" and p[1][0] != "stk":
                t = self.cstr(st, p)
                if t is not None: return ("c", ord((t + "\0")[0]), 8)
        if x.ty == "ptr":
            self.forget(st, ("ext", x.id)); 
            return ("p", ("ext", x.id), 0)
        if self.terms and p[0] == "p" and p[2] is not None and p[1][0] in ("arg",) :
            v = ("u", ("cell", p[1], p[2], x.d["size"]))
            st.mem[(p[1], p[2], x.d["size"])] = v
            return v
        return self.fresh(st, x.id)
    def cstr(self, st, v):
        """the constant string a pointer designates, or None"""
        if v[0] != "p" or v[2] is None: return None
        if v[1] in self.strings: s = self.strings[v[1]]; return s[v[2]:] if v[2] <= len(s) else None
        if v[1][0] == "glob":
            g = self.m.globals.get(v[1][1]) or {}
            s = g.get("str")
            if s is not None and g.get("const", True): 
                s = s.split("\0")[0] if isinstance(s, str) else s
                return s[v[2]:] if v[2] <= len(s) else None
        return None
    # ---- calls
    def newobj(self, st, x, key=None):
        used = {b for b in st.obj}
        named = set()
        for v in list(st.env.values()) + list(st.mem.values()):
            if v[0] == "p": named.add(v[1])
        for n in range(6):
            b = ("obj", x.id, n)
            if st.obj.get(b) == "live" and b not in named:
                # no variable or cell refers to the earlier block any more
                self.emit("lost", x, st, ("p", b, 0), x.callee, key); st.obj[b] = "lost"
        for n in range(6):
            b = ("obj", x.id, n)
            if st.obj.get(b) not in ("live", "esc") and b not in named: break
        else: raise Budget("unbounded number of live blocks from one allocation")
        for k in list(st.mem):
            if k[0] == b: del st.mem[k]
        return b
    def setret(self, st, x, v):
        if x.ty != "void": st.env[x.id] = v
    def call(self, st, x, key):
        if not x.callee and x.d.get("cval"):
            v = self.val(st, x.d["cval"])
            if v[0] == "p" and v[1][0] == "fn": x = copy.copy(x); x.d = dict(x.d, callee=v[1][1])
        c = x.callee or ""
        if c.startswith(IGN): return [st]
        args = [self.val(st, o) for o in x.ops]
        if self.hook:
            r = self.hook(self, st, x, args, key)
            if r is not None: return r
        if c in NORETURN: self.emit("noreturn", x, st, None, c, key); return []
        if c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) or c in ("memcpy", "memmove", "memset"):
            if args[2] == ("c", 0, 64): return [st]
            if not self.deref(st, args[0], x, key, c): return []
            if "set" not in c and not self.deref(st, args[1], x, key, c): return []
            st = st.copy()
            if self.onstore: self.onstore(self, st, x, args[0], None, key)
            self.blockcopy(st, x, args, c)
            if x.id in self.f.uses: self.setret(st, x, args[0])
            return [st]
        if c in ALLOCS: return self.alloc(st, x, c, args, key)
        if c in FREES:
            p = args[FREES[c]]
            st = st.copy(); self.release(st, x, p, c, key)
            if x.ty != "void" and x.id in self.f.uses: self.setret(st, x, self.fresh(st, x.id))
            return [st]
        sm = self.summary(c) if self.summary else None
        ok = NULLOK.get(c, set())
        for i, a in enumerate(args):
            if x.d.get("argty", [""] * 99)[i] != "ptr": continue
            if a == NULL and i not in ok and (sm is None and c not in self.m.raw and c not in self.m.vendored and not c.startswith("llvm.") or sm is not None and i in sm["nullderef"]):
                self.emit("nullderef", x, st, a, f"argument {i + 1} of {c}", key); return []
            if a[0] == "p" and st.obj.get(a[1]) == "freed": self.emit("uaf", x, st, a, f"argument {i + 1} of {c}", key)
        st = st.copy()
        # constant results of string routines
        if c == "strcmp" and len(args) == 2:
            s, t = self.cstr(st, args[0]), self.cstr(st, args[1])
            if s is not None and t is not None:
                st.env[x.id] = ("c", (0 if s == t else (1 if s > t else -1)) & 0xffffffff, 32); return [st]
        if c in ("strcasecmp", "strncmp", "strncasecmp") and args[0][0] == "p":
            s, t = self.cstr(st, args[0]), self.cstr(st, args[1])
            if s is not None and t is not None and (len(args) < 3 or args[2][0] == "c"):
                if len(args) > 2: s, t = s[:args[2][1]], t[:args[2][1]]
                if "case" in c: s, t = s.lower(), t.lower()
                st.env[x.id] = ("c", (0 if s == t else (1 if s > t else -1)) & 0xffffffff, 32); return [st]
        if c in ("strchr", "strrchr", "strlen") and self.cstr(st, args[0]) is not None:
            s = self.cstr(st, args[0])
            if c == "strlen": st.env[x.id] = ("c", len(s), 64); return [st]
            if args[1][0] == "c":
                i = (s + "\0").find(chr(args[1][1] & 255)) if c == "strchr" else (s + "\0").rfind(chr(args[1][1] & 255))
                st.env[x.id] = NULL if i < 0 else ("p", args[0][1], args[0][2] + i); return [st]
        if sm is None:
            for i, a in enumerate(args):
                if a[0] == "p" and c not in READS and not c.startswith("llvm."):
                    self.clobber(st, a[1], keepptr=True)
            if x.ty != "void" and x.id in self.f.uses:
                if x.ty == "ptr":
                    if c in ("strcpy", "strcat", "strncpy", "fgets"): st.env[x.id] = args[0]; return [st]
                    self.forget(st, ("ext", x.id))
                    st.env[x.id] = ("p", args[0][1], None) if c in ("strchr", "strrchr", "strstr", "memchr", "strpbrk", "strtok", "strtok_r") and False else ("p", ("ext", x.id), 0)
                elif self.terms and (c in ("fmin", "fmax", "strlen", "sqrt", "fabs", "floor", "ceil", "round") or c.startswith("llvm.")): st.env[x.id] = self.term(st, x, "call:" + c, x.ty, *args)
                else: st.env[x.id] = self.fresh(st, x.id)
            return [st]
        return self.apply_summary(st, x, c, args, sm, key)
    const = frozenset()       # objects nobody modifies
    def clobber(self, st, base, keepptr=False):
        if base in self.const: return
        for k in list(st.mem):
            if k[0] == base:
                if st.mem[k][0] in ("p",) and base[0] == "obj" and keepptr: continue
                self.escape(st, st.mem[k]) if st.mem[k][0] == "p" else None
                del st.mem[k]
    def blockcopy(self, st, x, args, c):
        d = args[0]
        n = args[2][1] if args[2][0] == "c" else None
        if d[0] != "p": return
        if d[2] is None or n is None:
            self.clobber(st, d[1]); return
        new = {}
        if "set" in c:
            if args[1][0] == "c" and args[1][1] == 0 and d[1][0] in ("stk", "obj"): pass
        elif args[1][0] == "p" and args[1][2] is not None:
            s = args[1]
            for (b, o, z), v in st.mem.items():
                if b == s[1] and s[2] <= o and o + z <= s[2] + n: new[(d[1], o - s[2] + d[2], z)] = v
        for k in list(st.mem):
            if k[0] == d[1] and k[1] < d[2] + n and d[2] < k[1] + k[2]: del st.mem[k]
        st.mem.update(new)
        if d[1][0] in ("arg", "ext", "glob"):
            for v in new.values(): self.escape(st, v)
    def alloc(self, st, x, c, args, key):
        r = []
        if c in ("realloc", "reallocarray"):
            p = args[0]
            s = st.copy()
            if p != NULL: self.release(s, x, p, c, key, realloc=True)
            b = self.newobj(s, x, key); s.obj[b] = "live"
            if p[0] == "p":
                for (bb, o, z), v in list(s.mem.items()):
                    if bb == p[1]: s.mem[(b, o, z)] = v
            s.env[x.id] = ("p", b, 0); r.append(s)
        else:
            for i, a in enumerate(args):
                if a == NULL and x.d["argty"][i] == "ptr": self.emit("nullderef", x, st, a, f"argument {i + 1} of {c}", key); return []
                if a[0] == "p" and st.obj.get(a[1]) == "freed": self.emit("uaf", x, st, a, f"argument {i + 1} of {c}", key)
                if a[0] == "p" and c.startswith("stbi"): pass
            s = st.copy()
            if c.startswith("stbi"):
                for a in args:
                    if a[0] == "p": self.clobber(s, a[1])
            b = self.newobj(s, x, key); s.obj[b] = "live"
            s.env[x.id] = ("p", b, 0); r.append(s)
        if self.fail:
            s = st.copy()
            if c.startswith("stbi"):
                for a in args:
                    if a[0] == "p": self.clobber(s, a[1])
            s.env[x.id] = NULL
            if c not in FILES and not c.startswith("stbi"): s.failed = s.failed or (x.id,)
            r.append(s)
        return r
    def release(self, st, x, p, c, key, realloc=False):
        if p == NULL: return
        if p[0] != "p": return
        b = p[1]
        if b[0] == "obj":
            s = st.obj.get(b)
            isf = (self.f.insts[b[1]].callee or "") in FILES
            if s == "freed": self.emit("doublefree", x, st, p, c, key)
            elif isf != (c == "fclose"): self.emit("badfree", x, st, p, f"{c} of a block from {self.f.insts[b[1]].callee}", key)
            elif isinstance(p[2], int) and p[2] != 0: self.emit("badfree", x, st, p, f"{c} of an address inside the block", key)
            else:
                # blocks owned through the cells of the released block
                st.obj[b] = "freed"
        elif b[0] in ("stk", "glob", "fn"): self.emit("badfree", x, st, p, f"{c} of a local or static object", key)
        elif b[0] == "arg":
            self.emit("doublefree" if st.obj.get(b) == "freed" else "argfree", x, st, p, c, key); st.obj[b] = "freed"
    def apply_summary(self, st, x, c, args, sm, key):
        """sm: {'rets': set of 'null','fresh','void','other',('arg',i)}, 'frees': set of arg indices, 'escapes': set, 'nullderef': set, 'writes': set of arg indices}"""
        res = []
        for i in sm["escapes"]:
            if i < len(args): self.escape(st, args[i])
        for i in sm["writes"]:
            if i < len(args) and args[i][0] == "p": self.clobber(st, args[i][1], keepptr=True)
        for k, fr in sorted(sm["outs"], key=str):
            s = st.copy()
            for i in sorted(fr):
                if i < len(args): self.release(s, x, args[i], c, key)
            if k == "null":
                if not self.fail: continue
                s.env[x.id] = NULL; s.failed = s.failed or (x.id,)
            elif k == "fresh":
                b = self.newobj(s, x, key); s.obj[b] = "live"; s.env[x.id] = ("p", b, 0)
            elif k == "void": pass
            elif isinstance(k, tuple) and k[0] == "arg": s.env[x.id] = args[k[1]]
            elif x.ty == "ptr":
                self.forget(s, ("ext", x.id)); s.env[x.id] = ("p", ("ext", x.id), 0)
            elif x.id in self.f.uses: s.env[x.id] = self.fresh(s, x.id)
            res.append(s)
        return res
