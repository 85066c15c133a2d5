"""C09: result images and the intermediate blocks they are made of contain no uninitialised bytes."""
import itertools, time
from fractions import Fraction
import irbuild, devcache
from ir import Module, bits
from contracts import CT
from par import pmap
from poly import Poly
from fa import FA
from moves import Moves, No, Unknown, memop
from target import Target, argix
from soft import Soft, bytemem
import cover
import undef
C = Poly.const
POOL = {"w": (1, 2, 3, 5), "h": (1, 2, 4), "ch": (1, 3, 4), "x": (0, 1), "y": (0, 1), "nw": (1, 2), "nh": (1, 2), "bw": (1, 2), "ow": (2, 3), "oh": (1, 3), "r": (1, 3), "rx": (1, 2),
        "ry": (1, Fraction(1, 2)), "n": (1, 2), "dbl": (0, 1), "bnd": (0, 1), "t": (128,), "sigma": (1,)}
BIG = 6000

class Init(Target):
    def __init__(self, name, fixed, light):
        super().__init__(name, fixed, light)
    def blocks(self):
        """[(allocation, is the result, return block)]"""
        res = {}
        for b, q in self.results():
            if q.base[0] == "heap": res.setdefault(q.base[1], []).append(b)
        out = []
        for i in self.fa.f.insts.values():
            if i.op != "call" or i.b not in self.fa.f.reach or i.callee not in ("malloc", "realloc"): continue
            if i.id in res: out += [(i, True, b) for b in res[i.id]]
            else: out.append((i, False, None))
        return out
    def readers(self, base):
        """instructions that read the block: (instruction, offset or None)"""
        fa, r = self.fa, []
        for i in fa.f.insts.values():
            if i.b not in fa.f.reach: continue
            if i.op == "load" and fa.ptr(i.ops[0]).base == base: r.append((i, fa.ptr(i.ops[0]).off))
            elif i.op == "call":
                if memop(i) in ("memcpy", "memmove"):
                    if fa.isptr(i.ops[1]) and fa.ptr(i.ops[1]).base == base: r.append((i, None))
                elif memop(i) or i.callee == "free": continue
                elif any(isinstance(o, list) and o[0] in ("i", "a") and fa.isptr(o) and fa.ptr(o).base == base for o in i.ops): r.append((i, None))
        return r
    def top(self, b):
        L = self.fa.f.loopof[b]
        while L is not None: b, L = L.header, L.parent
        return b
    def ordered(self, base, reader):
        """every path to the reader has passed the loops that fill the block"""
        f, mv = self.fa.f, self.mv
        rt = self.top(reader.b)
        tops = {self.top(e.ins.b) for e in mv.events(base)}
        blk = f.insts[base[1]].b
        for t in tops:
            if t == rt: continue
            if mv.passes(blk, rt, {t}): return True
        # filled in the same basic block before (straight line code)
        for e in mv.events(base):
            if e.ins.b == reader.b and e.ins.idx < reader.idx and self.fa.f.loopof[reader.b] is None: return True
        return False
    def grid(self, cs=True):
        names = [n for n in self.ct.names if n in POOL and (n not in self.ct.outs or n in ("w", "h"))]
        ints = [n for n in names if argix(self.name, n) not in self.fix]
        fixed = {n: self.fix[argix(self.name, n)] for n in names if argix(self.name, n) in self.fix}
        for vs in itertools.product(*[POOL[n] for n in ints]): yield dict(zip(ints, vs), **fixed)
        ks = sorted({abs(int(o[1])) for i in self.fa.f.insts.values() if i.op in ("icmp", "add", "sub", "and", "urem", "udiv", "select", "phi") and i.b in self.fa.f.reach
                     for o in ([x[0] for x in i.ops] if i.op == "phi" else i.ops) if o[0] == "c" and 6 <= abs(int(o[1])) <= 1100})
        for c in ks[:5]:
            for n in ints:
                if n in ("x", "y", "ch", "dbl", "bnd", "t", "n", "sigma"): continue
                e = {k: POOL[k][0] for k in ints}; e[n] = c + 1
                if n == "nw": e["w"] = c + 1
                if n == "nh": e["h"] = c + 1
                yield dict(e, **fixed)
    def valid(self, env):
        if self.name == "fcv_crop": return env["x"] + env["nw"] <= env["w"] and env["y"] + env["nh"] <= env["h"]
        return True
    def argsof(self, env):
        args = {}
        for n, v in env.items():
            k = argix(self.name, n)
            if n in self.ct.cells: args[("*", k)] = v
            else: args[k] = v
        return args
    def refute(self, i, result, ret):
        """a byte that is never written (result) or read before it is written (intermediate block)"""
        base = ("heap", i.id)
        evs = self.mv.events(base)
        blk = i.b
        src = argix(self.name, "data") if "data" in self.ct.names else None
        last = None
        tried = 0
        end = time.time() + 40
        fs = self.fa.size_of(base)
        limit = 1500000 if fs is not None and fs.isconst() and BIG * 100 > fs.cval() > BIG else 60000
        for env in self.grid():
            if not self.valid(env): continue
            if time.time() > end: break
            for pool in ((0, 255), (1, 0, 7)):
                t = Soft(self.mv, self.argsof(env), bytemem(src, len(pool)), pool)
                t.deadline = min(end, time.time() + 15)
                try:
                    got = t.writes(evs, blk, ret, limit=limit)
                    t.nofree = 1
                    size = t.poly(self.mv.norm(self.fa.size_of(base), blk), {})
                except (Unknown, No) as e: last = e; continue
                tried += 1
                if not isinstance(size, int): continue
                desc = ", ".join(f"{k}={v}" for k, v in env.items())
                if result:
                    miss = [p for p in range(size) if p not in got]
                    if miss: return i.loc(), f"{self.name}: byte {miss[0]} of the {size} bytes of the result is never written for {desc}"
                elif t.unset:
                    r, o, _ = t.unset[0]
                    if 0 <= o < size: return r.loc(), f"{self.name}: byte {o} of the block allocated at line {i.d.get('line', '?')} is read before it is written for {desc}"
                elif not [1 for r, off in self.readers(base) if off is not None]:
                    miss = [p for p in range(size) if p not in got]
                    if miss and self.passedon(base): return i.loc(), f"{self.name}: byte {miss[0]} of the {size} bytes handed to {self.passedon(base)} is never written for {desc}"
        if not tried and last is not None: raise Unknown(str(last))
        return None
    def passedon(self, base):
        for r, off in self.readers(base):
            if off is None and r.op == "call" and r.callee in CT: return r.callee
        return None
    def decide(self, refute):
        """[(allocation, 'proved' | 'violation' | 'undecided', location, text)]"""
        out = []
        for i, result, ret in self.blocks():
            base = ("heap", i.id)
            rd = self.readers(base)
            if not result and not rd: continue
            size = self.fa.size_of(base)
            why = None
            try:
                if i.callee != "malloc" or size is None: why = "block size"
                else: why = cover.covered(self.mv, base, size, ret if result else None) if result else self.filled(base, size, rd)
            except No as e: why = str(e)
            if why is None: out.append((i, "proved", i.loc(), "")); continue
            try: w = self.refute(i, result, ret) if refute else None
            except (No, Unknown) as e: w = None; why += f" [{e}]"
            if w: out.append((i, "violation", w[0], w[1] + f" ({why})"))
            else: out.append((i, "undecided", i.loc(), f"block of {size.show(self.fa.A) if size is not None else '?'} bytes: {why}"))
        return out
    def filled(self, base, size, rd):
        tg = sorted({self.top(r.b) for r, _ in rd})
        bs = cover.buckets(self.mv, self.mv.events(base))
        why = "no unconditional write"
        # the boxes written on every path to each reader
        for t in tg:
            boxes = []
            blk = self.fa.f.insts[base[1]].b
            for o, n, nest, us in bs:
                if not self.mv.always([u.b for u in us], blk, t): continue
                if any(self.top(u.b) == t for u in us) and nest: continue
                try: boxes.append(cover.boxof(self.mv, o, n, nest, us[0].ev))
                except No: continue
            why = cover.anysubset(self.mv, boxes, size)
            if why is not None: return why
        for r, _ in rd:
            if not self.ordered(base, r): return f"read at {r.loc()} not ordered after the writes"
        return None

SPECIAL = {"fcv_add_border": [(("ch", 1),), (("ch", 3),), (("ch", 4),)]}
def jobs():
    m = Module(irbuild.view("num"))
    return [(n, fx) for n in CT if n in m.raw and CT[n].kind in ("image", "inplace") for fx in SPECIAL.get(n, [()])]
def analyse(name, fixed):
    for light, refute in ((True, False), (False, False), (False, True)):
        if not refute: t = Init(name, fixed, light)
        r = t.decide(refute)
        # block contents that depend on the image do not get closed forms from stronger facts
        if all(x[1] == "proved" for x in r): break
        if not refute and all(x[1] == "proved" or x[3].endswith("no unconditional write") for x in r):
            r = t.decide(True); break
    return [(x[0].id,) + x[1:] for x in r]
def one(k): return analyse(*jobs()[k])
def run(ctx):
    ctx.level = "other"
    ctx.rule = ("every malloc'ed block that is returned as an image, or read on the way, is covered: its stores in closed form, jointly over the branches of each loop body, "
                "write each byte of the block on every path to the return or to the reading loop (counting argument on strides and trip counts); zero-allocated blocks need no proof; "
                "an unproven block is a violation when the closed forms leave a byte unwritten at small sizes, and is listed as undecided otherwise")
    ctx.assume = ["images of at most 2^31-1 bytes", "border of 1, 3 or 4 channels"]
    n, bad = undef.check(Module(irbuild.view("paths")))
    ctx.count("functions_for_locals", n)
    seen = set()
    for fn, i in bad:
        if fn in seen: continue
        seen.add(fn)
        ctx.violation(f"{fn}:local", i.loc(), f"{fn}: a local variable is read before it is assigned")
    js = jobs()
    for k, res, err in pmap(one, list(range(len(js))), 420 if ctx.tier == "quick" else 800):
        name, fixed = js[k]
        tag = name + "".join(f"[{a}={v}]" for a, v in fixed)
        ctx.count("functions")
        if err: ctx.undecided.append(f"{tag}: {err.strip().splitlines()[-1]}"); continue
        for i, verdict, loc, text in res:
            ctx.count("blocks")
            if verdict == "proved": ctx.count("proved_blocks")
            elif verdict == "violation": ctx.violation(f"{name}:init", loc, text)
            else: ctx.undecided.append(f"{tag} {loc}: {text}")
        ctx.sample(f"{tag}: {len(res)} blocks, {sum(1 for x in res if x[1] == 'proved')} proved")
    ctx.need("blocks", 15)
