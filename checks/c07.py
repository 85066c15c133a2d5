"""C07: geometric operations return exactly the specified rearrangement of their input."""
import itertools
import irbuild, devcache
from ir import Module, Function, bits
from contracts import CT
from par import pmap
from poly import Poly
from fa import FA
from moves import Moves, No, Tab, Unknown, specialise, Box
from pixmap import Map, check_linear, full_cover, pdivmod
from target import Target, argix
C = Poly.const
Z, ONE = C(0), C(1)

def spec(name, w, h):
    """result size and source position of result pixel (Y, X): (const, coefficient of Y, coefficient of X)"""
    Y, X = (Z, ONE, Z), (Z, Z, ONE)
    up = (h - 1, -ONE, Z)       # h-1-Y
    rt = (w - 1, Z, -ONE)       # w-1-X
    upx, rty = (h - 1, Z, -ONE), (w - 1, -ONE, Z)
    return {"fcv_flip_x": Map(w, h, Y, rt), "fcv_flip_y": Map(w, h, up, X), "fcv_rotate_180": Map(w, h, up, rt),
            "fcv_transpose": Map(h, w, X, Y), "fcv_transverse": Map(h, w, upx, rty),
            "fcv_rotate_90_cw": Map(h, w, upx, Y), "fcv_rotate_270_cw": Map(h, w, X, rty)}[name]
GEO = ["fcv_flip_x", "fcv_flip_y", "fcv_rotate_180", "fcv_transpose", "fcv_transverse", "fcv_rotate_90_cw", "fcv_rotate_270_cw"]

def compose(outer, inner):
    """first inner, then outer"""
    def app(c):     # value of an affine form of (Ymid, Xmid) after outer's substitution
        return tuple((c[0] if k == 0 else Z) + c[1] * outer.ys[k] + c[2] * outer.xs[k] for k in range(3))
    return Map(outer.ow, outer.oh, app(inner.ys), app(inner.xs))
def same(a, b): return a.ow == b.ow and a.oh == b.oh and tuple(a.ys) == tuple(b.ys) and tuple(a.xs) == tuple(b.xs)

def chain(fa, q, name, w, h, src):
    """the map of a block that is the result of a call of another geometric operation; None if it is not"""
    if q.base == ("arg", src) and not q.off.t:
        return Map(w, h, (Z, ONE, Z), (Z, Z, ONE))
    if q.base[0] != "ret": return None
    i = fa.f.insts[q.base[1]]
    if i.callee not in GEO: return None
    mid = chain(fa, fa.ptr(i.ops[argix(i.callee, "data")]), name, w, h, src)
    if mid is None: return None
    if fa.exact(i.ops[0], False, i.b) != mid.ow or fa.exact(i.ops[1], False, i.b) != mid.oh: return None
    return compose(spec(i.callee, mid.ow, mid.oh), mid)

class Geo(Target):
    def prove(self, b, q):
        fa, mv = self.fa, self.mv
        w, h = self.v("w"), self.v("h")
        sp = spec(self.name, w, h)
        if q.base[0] == "ret":
            m = chain(fa, q, self.name, w, h, argix(self.name, "data"))
            if m is None: return "result of another routine"
            return None if same(m, sp) else "composition of other maps"
        if q.base[0] != "heap" or q.off.t: return "result object"
        evs = mv.events(q.base)
        boxes = self.boxes(q.base, b, evs)
        for e, x in zip(evs, boxes):
            if x.src is None or e.val[1] != ("arg", argix(self.name, "data")): return f"{e.loc()}: value is not copied from the input"
            r = check_linear(mv, x, sp, w, C(4))
            if r: return f"{e.loc()}: {r}"
        return full_cover(mv, boxes, w * h * 4)
    def refute(self, b, q):
        if q.base[0] == "ret":
            w, h = self.v("w"), self.v("h")
            m = chain(self.fa, q, self.name, w, h, argix(self.name, "data"))
            if m is not None and not same(m, spec(self.name, w, h)):
                i = self.fa.f.insts[q.base[1]]
                return i.loc(), f"{self.name}: the combination of the called maps is another map"
            return None
        return super().refute(b, q)
    def expected(self, env):
        w, h = env["w"], env["h"]
        sp = spec(self.name, C(w), C(h))
        ow, oh = int(sp.ow.cval()), int(sp.oh.cval())
        out = {}
        for Y in range(oh):
            for X in range(ow):
                ys, xs = (int(c[0].cval() + c[1].cval() * Y + c[2].cval() * X) for c in (sp.ys, sp.xs))
                for k in range(4):
                    out[4 * (Y * ow + X) + k] = lambda s, o=4 * (ys * w + xs) + k: s.pix(o, 0)
        return out

class Crop(Target):
    def prove(self, b, q):
        fa, mv = self.fa, self.mv
        w, ch, x, y, nw, nh = (self.v(n) for n in ("w", "ch", "x", "y", "nw", "nh"))
        if q.base[0] != "heap" or q.off.t: return "result object"
        evs = mv.events(q.base)
        boxes = self.boxes(q.base, b, evs)
        sp = Map(nw, nh, (y, ONE, Z), (x, Z, ONE))
        for e, bx in zip(evs, boxes):
            if bx.src is None or e.val[1] != ("arg", argix(self.name, "data")): return f"{e.loc()}: value is not copied from the input"
            r = check_linear(mv, bx, sp, w, ch)
            if r: return f"{e.loc()}: {r}"
        return full_cover(mv, boxes, nw * nh * ch)
    def expected(self, env):
        w, h, ch, x, y, nw, nh = (env[k] for k in ("w", "h", "ch", "x", "y", "nw", "nh"))
        if x + nw > w or y + nh > h: return None
        return {ch * (Y * nw + X) + k: (lambda s, o=ch * ((y + Y) * w + x + X) + k: s.pix(o, 0)) for Y in range(nh) for X in range(nw) for k in range(ch)}

class Single(Target):
    def prove(self, b, q):
        fa, mv = self.fa, self.mv
        w, h = self.v("w"), self.v("h")
        if q.base[0] != "heap" or q.off.t: return "result object"
        evs = mv.events(q.base)
        boxes = self.boxes(q.base, b, evs)
        for e, x in zip(evs, boxes):
            pix, k = pdivmod(x.off, C(4))
            for A, T, sa in x.digits:
                p, r = pdivmod(A, C(4))
                if not r.t: pix = pix + p * Poly.atom(fa.A.get(("dig", p.key(), T.key())))
                else: k = k + A * Poly.atom(fa.A.get(("dig", A.key(), T.key())))
            if e.val[0] == "copy" and x.len.isconst() and x.len.cval() == 1:
                if e.val[1] != ("arg", argix(self.name, "data")): return f"{e.loc()}: value is not copied from the input"
                s = x.src
                for A, T, sa in x.digits:
                    p, r = pdivmod(A, C(4))
                    if not r.t: s = s + sa * Poly.atom(fa.A.get(("dig", p.key(), T.key())))
                    elif sa.t: return f"{e.loc()}: source depends on the channel"
                if s != pix: return f"{e.loc()}: source pixel {s.show(fa.A)} instead of {pix.show(fa.A)}"
                hi = k
                for A, T, sa in x.digits:
                    p, r = pdivmod(A, C(4))
                    if r.t: hi = hi.subst({fa.A.get(("dig", A.key(), T.key())).id: T - 1})
                if not fa.prove(C(2) - hi, 0): return f"{e.loc()}: alpha channel"
            elif e.val[0] == "const" and e.val[1] == 255 and x.len == C(1) and k == C(3): pass
            else: return f"{e.loc()}: value is not copied from the input"
        return full_cover(mv, boxes, w * h * 4)
    def expected(self, env):
        w, h = env["w"], env["h"]
        return {4 * p + k: (lambda s, p=p, k=k: s.pix(p, 0) if k < 3 else 255) for p in range(w * h) for k in range(4)}

class Border(Target):
    def prove(self, b, q):
        fa, mv = self.fa, self.mv
        w, h, ch, bw = (self.v(n) for n in ("w", "h", "ch", "bw"))
        if q.base[0] != "heap" or q.off.t: return "result object"
        evs = mv.events(q.base)
        boxes = self.boxes(q.base, b, evs)
        src = ("arg", argix(self.name, "data"))
        cp = [(e, x) for e, x in zip(evs, boxes) if e.val[0] == "copy" and e.val[1] == src]
        fill = [(e, x) for e, x in zip(evs, boxes) if not (e.val[0] == "copy" and e.val[1] == src)]
        ow, oh = w + bw * 2, h + bw * 2
        sp = Map(ow, oh, (-bw, ONE, Z), (-bw, Z, ONE))
        for e, x in cp:
            r = check_linear(mv, x, sp, w, ch)
            if r: return f"{e.loc()}: {r}"
        # every source byte is placed exactly once
        inv = [Box(x.src, x.len, [(sa, T, None) for A, T, sa in x.digits], None, x.evs) for e, x in cp]
        r = full_cover(mv, [mv.positive(i) for i in inv], w * h * ch)
        if r: return "copy of the image: " + r
        r = full_cover(mv, [x for e, x in fill], ow * oh * ch)
        if r: return "border: " + r
        cells = self.colourcells()
        nch = int(ch.cval())
        for e, x in fill:
            L = fa.f.loopof[e.ins.b]
            tops = []
            for e2 in [e] + [c for c, _ in cp]:
                L, b2 = fa.f.loopof[e2.ins.b], e2.ins.b
                while L is not None: b2, L = L.header, L.parent
                tops.append((fa.f.rponum[b2], b2))
            if any(t[1] == tops[0][1] or t[0] < tops[0][0] for t in tops[1:]): return f"{e.loc()}: border written after the image"
            if nch == 1: continue
            k = pdivmod(x.off, ch)[1]
            if not k.isconst() or any(pdivmod(A, ch)[1].t for A, T, s in x.digits) or x.len != C(1): return f"{e.loc()}: channel of the border colour"
            k = int(k.cval())
            if k < 3:
                if e.val[0] != "copy" or cells.get(e.val[1]) != k or e.val[2].t: return f"{e.loc()}: border colour channel {k}"
            elif e.val != ("const", 255): return f"{e.loc()}: border alpha"
        return None
    def expected(self, env):
        w, h, ch, bw = (env[k] for k in ("w", "h", "ch", "bw"))
        ow, oh = w + 2 * bw, h + 2 * bw
        out = {}
        for Y in range(oh):
            for X in range(ow):
                for k in range(ch):
                    y, x = Y - bw, X - bw
                    if 0 <= y < h and 0 <= x < w: out[ch * (Y * ow + X) + k] = lambda s, o=ch * (y * w + x) + k: s.pix(o, 0)
                    elif ch == 1: return None
                    else: out[ch * (Y * ow + X) + k] = lambda s, k=k: 1000 + k if k < 3 else 255
        return out

JOBS = [(Geo, n, ()) for n in GEO] + [(Crop, "fcv_crop", ())] + [(Single, "fcv_single_to_multichannel", ())] + [(Border, "fcv_add_border", (("ch", c),)) for c in (1, 3, 4)]
def one(k):
    cls, name, fixed = JOBS[k]
    t = cls(name, fixed)
    r = t.run()
    return len(t.results()), t.ob, r
def run(ctx):
    m = Module(irbuild.view("num"))
    ctx.level = "other"
    ctx.rule = ("every store into the returned image, in closed form over its loop counters with exact trip counts: the stores cover each byte of the result exactly once (mixed radix argument over the strides), "
                "none is conditional, and each takes its byte from the position the geometric definition prescribes (equality of polynomials); a failed obligation is a violation when the closed forms "
                "give another image for small dimensions, and is listed as undecided otherwise")
    ctx.assume = ["images of at most 2^31-1 bytes", "input and result do not overlap", "border of 1, 3 or 4 channels"]
    jobs = [k for k in range(len(JOBS)) if JOBS[k][1] in m.raw]
    for k, res, err in pmap(one, jobs, 600):
        cls, name, fixed = JOBS[k]
        tag = name + "".join(f"[{a}={v}]" for a, v in fixed)
        ctx.count("functions")
        if err: ctx.undecided.append(f"{tag}: {err.strip().splitlines()[-1]}"); continue
        n, ob, r = res
        ctx.count("results", n); ctx.count("stores", ob)
        if not r and n: ctx.count("proved")
        for verdict, loc, text in r:
            if verdict == "violation": ctx.violation(f"{name}:map", loc, text)
            else: ctx.undecided.append(f"{tag} {loc}: {text}")
        ctx.sample(f"{tag}: {n} results, {ob} stores, {'proved' if not r else r[0][0]}")
    ctx.need("functions", 5)
