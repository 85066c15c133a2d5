"""C10: one luma formula everywhere."""
import numpy as np
import irbuild, devcache
from ir import Module
from contracts import CT
from par import pmap
from poly import Poly
from moves import No, Tab, Unknown
from pixmap import full_cover
from target import Target, argix, pixels
from expr import Expr, Opaque, luma
C = Poly.const
GREY = {"fcv_rgba_to_grayscale", "fcv_grayscale", "fcv_grayscale_stretch", "fcv_otsu_threshold_rgba", "fcv_bw_smart", "fcv_sobel_edge_detection"}
# grey operations that may receive the colour image
FIRST = {"fcv_rgba_to_grayscale", "fcv_grayscale"}

import itertools
COLOURS = [c for c in itertools.product((0, 255), repeat=4)] + [(k, k, k, a) for k in (1, 64, 127, 128, 254) for a in (255, 128)] + [(254, 255, 255, 255), (1, 2, 3, 0), (10, 200, 30, 1), (90, 40, 160, 254)]
def lum(r, g, b): return (76 * r + 150 * g + 30 * b) >> 8

class FreeTab(Tab):
    """values that depend on a whole-image search stay fixed"""
    def __init__(self, *a, **k):
        super().__init__(*a, **k); self.free = {}
    skiploops = True
    def pick(self, key): return self.free.setdefault(key, self.pool[len(self.free) % len(self.pool)])
    def atom(self, a, env):
        x = self.fa.at(a)
        try: return super().atom(a, env)
        except (Unknown, No):
            if x.key[0] in ("phi", "hphi", "v", "sel", "ld", "load") or "load" in (x.info or {}):
                i = self.f.insts[(x.info["load"].id if "load" in (x.info or {}) else x.key[1])]
                if self.tainted(i): raise
                return self.pick(a)
            raise
    def cond(self, c, env):
        try: return super().cond(c, env)
        except (Unknown, No):
            # a test of values outside the image
            if c[0] != "i" or self.reads(c, set()): raise
            return bool(self.pick(("cond", c[1])) % 2)
    def reads(self, o, seen):
        """may the value depend on the image other than through whole-image results?"""
        if o[0] != "i" or o[1] in seen: return False
        seen.add(o[1])
        i = self.f.insts[o[1]]
        if i.op == "load": return self.fa.ptr(i.ops[0]).base == ("arg", self.src)
        return any(self.reads(x[0] if i.op == "phi" else x, seen) for x in i.ops if isinstance(x, list))
    def tainted(self, i, d=0):
        """does the value read the image directly?"""
        if d > 12: return True
        if i.op == "load": return self.fa.ptr(i.ops[0]).base == ("arg", self.src)
        return False

class Luma(Target):
    def __init__(self, name, fixed, ins):
        super().__init__(name, fixed)
        self.src = argix(name, "data"); self.ins = ins
        self.ex = Expr(self.fa, self.src)
        self.rootmemo = {}
    def isluma(self, o):
        """('luma', offset of channel 0, block) | ('bad', text) | None when the operand is not a formula over one pixel"""
        while o[0] == "i" and self.fa.f.insts[o[1]].op in ("zext", "freeze"): o = self.fa.f.insts[o[1]].ops[0]
        if o[0] != "i": return None
        if o[1] in self.rootmemo: return self.rootmemo[o[1]]
        self.rootmemo[o[1]] = r = self._isluma(o)
        return r
    def _isluma(self, o):
        ls = self.ex.leaves(o)
        if not ls: return None
        px = self.ex.pixel(ls, self.ins)
        if px is None: return None
        if len(set(px[0].values())) < 2: return None
        try: d = self.ex.compare(o, px[0], luma, 3)
        except (Opaque, KeyError, ZeroDivisionError): return None
        if d is None: return ("luma", px[1], px[2])
        return ("bad", f"gives {d[1]} instead of {d[2]} for the colour {d[0]}", d)
    # ---- every colour formula of the function
    def lint(self):
        """[(root, verdict)] for every maximal expression over several channels of a pixel"""
        out = []
        for i, us in self.ex.roots():
            r = self.isluma(["i", i.id]) if i.ty != "i1" else None
            if r is None: continue
            # a zero test or comparison of the raw sum is not a conversion
            if r[0] == "bad" and all(u.op in ("icmp", "switch", "fcmp") for u, k in us): continue
            out.append((i, r))
        return out
    # ---- blocks
    def lumabox(self, e):
        v = e.ins.ops[0] if e.ins.op == "store" else None
        if v is None: return None
        r = self.isluma(v)
        if r is None or r[0] != "luma": return None
        mv = self.mv
        ev = e
        ev.val = ("copy", ("arg", self.src), r[1], self.at(r[2], e))
        return mv.box(ev)
    def at(self, blk, e):
        """an instruction of the block the pixel is read in"""
        return self.fa.f.blocks[blk][0]
    def provegrey(self, base, b, outs):
        fa, mv = self.fa, self.mv
        blk = fa.f.insts[base[1]].b
        boxes = []
        for e in mv.events(base):
            if not mv.always([e.ins.b], blk, b): return f"store at {e.loc()} is conditional"
            x = self.lumabox(e)
            if x is None:
                if outs == 4:
                    x = mv.box(e, withsrc=False)
                    if self.ex.residue(x.off, 4) == 3 and all(self.ex.residue(A, 4) == 0 for A, T, s in x.digits) and x.len == C(1): boxes.append(x); continue
                return f"{e.loc()}: not the luma formula"
            r, lo, hi = pixels(mv, x, x.src, outs, self.ins)
            if r: return f"{e.loc()}: {r}"
            if not fa.prove(lo, 0) or not fa.prove(C(2 if outs == 4 else 0) - hi, 0): return f"{e.loc()}: channel"
            boxes.append(x)
        self.ob += len(boxes)
        return full_cover(mv, boxes, self.v("w") * self.v("h") * outs)
    def refutegrey(self, base, b, outs):
        evs = self.mv.events(base)
        blk = self.fa.f.insts[base[1]].b
        for env, salt in [(e, 0) for e in self.grid()] + [(dict({"ch": self.ins} if "ch" in self.ct.names else {}, w=1, h=1), k) for k in range(1, len(COLOURS) + 1)]:
            if "ch" in env and env["ch"] != self.ins: continue
            pix = (lambda i, _: self.pix(i, 0)) if not salt else (lambda i, _: COLOURS[salt - 1][i] if 0 <= i < 4 else 255)
            args = {argix(self.name, n): v for n, v in env.items()}
            def mem(bs, off, n):
                if bs == ("arg", self.src): return sum(pix(off + j, 0) << (8 * j) for j in range(n))
                raise Unknown(f"memory {bs[0]}")
            got = Tab(self.mv, args, mem).writes(evs, blk, b)
            desc = ", ".join(f"{k}={v}" for k, v in env.items())
            for p in range(env["w"] * env["h"]):
                o = self.ins * p
                want = lum(*(pix(o + j, 0) for j in range(3)))
                for c in range(3 if outs == 4 else 1):
                    have = got.get(outs * p + c)
                    if have is None: return evs[0].loc(), f"{self.name}: the grey of pixel {p} is never computed for {desc}"
                    if have[0] != want: return have[1].loc(), f"{self.name}: the grey of pixel {p} is {have[0]} instead of {want} for the colour {tuple(pix(o + j, 0) for j in range(4))[:self.ins]} ({desc})"
        return None
    def greyblock(self, base, b, outs, out):
        try: why = self.provegrey(base, b, outs)
        except (No, Unknown) as e: why = str(e)
        if why is None: return True
        try: w = self.refutegrey(base, b, outs)
        except (No, Unknown) as e: w = None; why += f" [{e}]"
        out.append(("violation", w[0], w[1] + f" ({why})") if w else ("undecided", self.fa.f.file, why))
        return False
    def internal(self, skip, out):
        """blocks filled with greys that are not the result"""
        n = 0
        for i in self.fa.f.insts.values():
            if i.op != "call" or i.b not in self.fa.f.reach or i.callee not in ("malloc", "calloc") or ("heap", i.id) in skip: continue
            base = ("heap", i.id)
            try: evs = self.mv.events(base)
            except No: continue
            vs = [self.isluma(e.ins.ops[0]) if e.ins.op == "store" else None for e in evs]
            if not evs or not all(v is not None and v[0] == "luma" for v in vs): continue
            if self.fa.f.loopof[i.b] is not None: continue
            n += 1
            tg = None
            self.greyblock(base, tg, 1, out)
        return n
    def passed(self):
        """[(call, callee)] of library operations that receive the colour image"""
        r = []
        for i in self.fa.f.insts.values():
            if i.op == "call" and i.b in self.fa.f.reach and i.callee in CT and "data" in CT[i.callee].names:
                k = CT[i.callee].index("data")
                if k < len(i.ops) and self.fa.isptr(i.ops[k]) and self.fa.ptr(i.ops[k]).base == ("arg", self.src): r.append(i)
        return r
    # ---- the result depends on the colours through the grey only
    PAIRS = [((200, 100, 0), (0, 0, 0))]
    def twins(self):
        """two different colours of the same grey each"""
        if not hasattr(Luma, "_tw"):
            by = {}
            for r in range(0, 256, 5):
                for g in range(0, 256, 7):
                    for b in range(0, 256, 11): by.setdefault(lum(r, g, b), []).append((r, g, b))
            Luma._tw = [v for k, v in sorted(by.items()) if len(v) > 4]
        return Luma._tw
    def interference(self, b, q):
        evs = self.mv.events(q.base)
        blk = self.fa.f.insts[q.base[1]].b
        tw = self.twins()
        pools = ((0, 255), (255, 0), (37, 201, 5, 250, 90), (90,), (1, 254, 3))
        for (w, h, seed), pool in itertools.product(((1, 1, 3), (2, 1, 8), (2, 2, 14), (3, 2, 27), (1, 1, 11), (1, 1, 19), (1, 1, 30)), pools):
            rows = []
            free = {}
            for run in (0, 1):
                cols = [tw[(seed * 7 + 13 * p) % len(tw)] for p in range(w * h)]
                cols = [c[(seed + p) % len(c)] if run == 0 else c[(seed + p + 1 + len(c) // 2) % len(c)] for p, c in enumerate(cols)]
                al = [255, 0, 128, 7, 254, 1] if run == 0 else [0, 255, 3, 200, 1, 77]
                def mem(bs, off, n):
                    if bs == ("arg", self.src):
                        px = lambda o: (cols[o // 4] + (al[(o // 4) % 6],))[o % 4] if 0 <= o < 4 * w * h else 255
                        return sum(px(off + j) << (8 * j) for j in range(n))
                    raise Unknown(f"memory {bs[0]}")
                t = FreeTab(self.mv, {argix(self.name, "w"): w, argix(self.name, "h"): h}, mem)
                t.src = self.src; t.free = free; t.pool = pool
                rows.append((t.writes(evs, blk, b), cols, al))
            (g0, c0, a0), (g1, c1, a1) = rows
            for p in sorted(set(g0) & set(g1)):
                if p % 4 == 3: continue
                if g0[p][0] != g1[p][0]:
                    k = p // 4
                    return g0[p][1].loc(), f"{self.name}: byte {p} of the result is {g0[p][0]} or {g1[p][0]} although the grey of the pixel is the same (colours {c0[k]} alpha {a0[k % 6]} and {c1[k]} alpha {a1[k % 6]} of a {w}x{h} image)"
        return None
    def throughgrey(self, b, q):
        """every stored colour value reads the image through the luma of its own pixel only"""
        fa, mv = self.fa, self.mv
        for e in mv.events(q.base):
            if e.ins.op != "store": return f"{e.loc()}: block copy"
            seen, st, px = set(), [e.ins.ops[0]], []
            while st:
                o = st.pop()
                if o[0] != "i" or o[1] in seen: continue
                seen.add(o[1])
                r = self.isluma(o)
                if r is not None and r[0] == "luma": px.append(r); continue
                i = fa.f.insts[o[1]]
                if i.op == "load":
                    if fa.ptr(i.ops[0]).base == ("arg", self.src): return f"{e.loc()}: reads a colour byte directly"
                    continue
                for x in i.ops: st.append(x[0] if i.op == "phi" else x)
                if i.op == "phi":
                    for v, p in i.ops:
                        t = fa.f.blocks[p][-1]
                        if t.op == "br" and t.ops: st.append(t.ops[0])
            if px:
                for r in px:
                    e.val = ("copy", ("arg", self.src), r[1], self.at(r[2], e))
                    x = mv.box(e)
                    why, lo, hi = pixels(mv, x, x.src, 4, 4)
                    if why: return f"{e.loc()}: {why}"
        return None
    def run(self):
        out = []
        n = 0
        for i, r in self.lint():
            n += 1
            if r[0] == "bad": out.append(("violation", i.loc(), f"{self.name}: this conversion to grey {r[1]}"))
        self.ob += n
        skip = set()
        for b, q in self.results():
            if q.base[0] == "heap": skip.add(q.base)
            if self.name in FIRST:
                if q.base[0] == "ret":
                    c = self.fa.f.insts[q.base[1]]
                    if c.callee not in FIRST: out.append(("undecided", c.loc(), "result of another routine"))
                    continue
                self.greyblock(q.base, b, 4 if self.name == "fcv_grayscale" else 1, out)
            elif self.name == "fcv_grayscale_stretch" and q.base[0] == "heap":
                try: why = self.throughgrey(b, q)
                except (No, Unknown) as e: why = str(e)
                if why is None: self.ob += 1; continue
                try: w = self.interference(b, q)
                except (No, Unknown) as e: w = None; why += f" [{e}]"
                out.append(("violation", w[0], w[1] + f" ({why})") if w else ("undecided", self.fa.f.file, why))
        k = self.internal(skip, out)
        self.ob += k
        for i in self.passed():
            self.ob += 1
            if self.name in FIRST or i.callee in FIRST or i.callee in GREY and i.callee != "fcv_grayscale_stretch" and i.callee != "fcv_sobel_edge_detection": continue
            out.append(("violation", i.loc(), f"{self.name}: the colour image is passed to {i.callee}, the grey is not taken from its pixels"))
        return out

JOBS = [("fcv_rgba_to_grayscale", (), 4), ("fcv_grayscale", (), 4), ("fcv_grayscale_stretch", (), 4), ("fcv_sobel_edge_detection", (("ch", 3),), 3),
        ("fcv_sobel_edge_detection", (("ch", 4),), 4), ("fcv_otsu_threshold_rgba", (), 4), ("fcv_bw_smart", (), 4)]
def one(k):
    t = Luma(*JOBS[k])
    return t.run(), t.ob
def run(ctx):
    m = Module(irbuild.view("num"))
    ctx.level = "other"
    ctx.rule = ("every formula over several colour bytes of one pixel that is stored or used as a value is compared with (76 R + 150 G + 30 B) div 256 for all 2^24 colours (complete tabulation of the expression); "
                "the blocks of greys hold the grey of pixel p at place p for every pixel (closed forms of the stores, coverage by counting); the contrast stretch reads the colours only through that formula; "
                "composed operations hand the colour image only to these conversions")
    ctx.assume = ["images of at most 2^31-1 bytes"]
    jobs = [k for k in range(len(JOBS)) if JOBS[k][0] in m.raw]
    for k, res, err in pmap(one, jobs, 600):
        name, fixed, ins = JOBS[k]
        tag = name + "".join(f"[{a}={v}]" for a, v in fixed)
        ctx.count("functions")
        if err: ctx.undecided.append(f"{tag}: {err.strip().splitlines()[-1]}"); continue
        r, ob = res
        ctx.count("obligations", ob)
        for verdict, loc, text in r:
            if verdict == "violation": ctx.violation(f"{name}:luma", loc, text)
            else: ctx.undecided.append(f"{tag} {loc}: {text}")
        ctx.sample(f"{tag}: {ob} obligations, {'proved' if not r else r[0][0]}")
    ctx.need("functions", 5)
