"""One library function whose result block is checked byte by byte: proof on closed forms, refutation at small sizes."""
import itertools
import irbuild
from ir import Module, Function, bits
from contracts import CT
from fa import FA
from poly import Poly
from moves import Moves, No, Tab, Unknown, specialise, Box
from pixmap import pdivmod
C = Poly.const
def argix(name, p): return CT[name].index(p)

class Target:
    """one function at one specialisation: proof, or a counterexample, or neither"""
    def __init__(self, name, fixed=(), light=False):
        self.name = name
        m = Module(irbuild.view("num"))
        raw = m.raw[name]
        ct = CT[name]
        self.fix = {ct.index(k): v for k, v in fixed}
        for i, v in self.fix.items():
            raw = specialise(raw, i, v, bits(raw["params"][i]["ty"]))
        self.fa = FA(Function(m, raw), CT, fixed=self.fix, light=light)
        self.mv = Moves(self.fa)
        self.ct = ct
        self.notes, self.ob = [], 0
    def v(self, n): return self.fa.ctval(n)
    def results(self):
        seen = []
        for b, o in self.mv.goodrets():
            q = self.fa.ptr(o)
            if (b, q.base) not in [(x, y.base) for x, y in seen]: seen.append((b, q))
        return seen
    def run(self):
        """[] proved; else list of ('violation'|'undecided', location, text)"""
        out = []
        for b, q in self.results():
            loc = f"{self.fa.f.file}"
            try:
                why = self.prove(b, q)
            except No as e: why = str(e)
            except Unknown as e: why = str(e)
            if why is None: continue
            try: w = self.refute(b, q)
            except (No, Unknown) as e: w = None; why += f" [{e}]"
            if w is not None: out.append(("violation", w[0], w[1] + f" ({why})"))
            else: out.append(("undecided", loc, why))
        return out
    def boxes(self, base, target, events):
        fa, mv = self.fa, self.mv
        blk = fa.f.insts[base[1]].b
        bs = []
        for e in events:
            if not mv.always([e.ins.b], blk, target): raise No(f"store at {e.loc()} is conditional")
            bs.append(mv.box(e))
        self.ob += len(bs)
        return bs
    def grid(self):
        """small argument values"""
        names = [n for n in self.ct.names]
        pools = {"w": (1, 2, 3), "h": (1, 2, 3), "ch": (1, 3, 4), "x": (0, 1), "y": (0, 1), "nw": (1, 2), "nh": (1, 2), "bw": (1, 2)}
        ints = [n for n in names if n in pools and argix(self.name, n) not in self.fix]
        fixed = {n: self.fix[argix(self.name, n)] for n in names if argix(self.name, n) in self.fix}
        for vs in itertools.product(*[pools[n] for n in ints]): yield dict(zip(ints, vs), **fixed)
        # one argument beyond each constant the function compares with
        cs = sorted({int(o[1]) for i in self.fa.f.insts.values() if i.op in ("icmp", "add", "sub", "and", "urem", "udiv", "select", "phi") and i.b in self.fa.f.reach
                     for o in ([x[0] for x in i.ops] if i.op == "phi" else i.ops) if o[0] == "c" and 5 <= abs(int(o[1])) <= 5000})
        cs = [abs(c) for c in cs]
        for c in cs[:4]:
            for d in (c, c + 1):
                for n in ints:
                    if n in ("x", "y", "ch"): continue
                    base = {"w": 2, "h": 2, "ch": 1, "x": 0, "y": 0, "nw": 1, "nh": 1, "bw": 1}
                    e = {k: base[k] for k in ints}; e[n] = d
                    if n == "nw": e["w"] = d
                    if n == "nh": e["h"] = d
                    yield dict(e, **fixed)
    def refute(self, b, q):
        if q.base[0] != "heap": return None
        evs = self.mv.events(q.base)
        blk = self.fa.f.insts[q.base[1]].b
        for env in self.grid():
            exp = self.expected(env)
            if exp is None: continue
            args = {argix(self.name, n): v for n, v in env.items()}
            src = argix(self.name, "data")
            colours = self.colourcells() if self.name == "fcv_add_border" else {}
            def mem(base, off, n):
                if base == ("arg", src):
                    return sum(self.pix(off + j, 0) << (8 * j) for j in range(n))
                if base in colours and n == 1 and off == 0: return 1000 + colours[base]
                raise Unknown(f"memory {base[0]}")
            t = Tab(self.mv, args, mem)
            got = t.writes(evs, blk, b)
            desc = ", ".join(f"{k}={v}" for k, v in env.items())
            for p, want in sorted(exp.items()):
                have = got.get(p)
                if have is None:
                    e = evs[0]
                    return e.loc(), f"{self.name}: byte {p} of the result is never written for {desc}"
                if have[0] != want(self):
                    return have[1].loc(), f"{self.name}: byte {p} of the result is not the byte the geometry prescribes for {desc}"
            for p in got:
                if p not in exp: return got[p][1].loc(), f"{self.name}: byte {p} outside the result is written for {desc}"
        return None
    @staticmethod
    def pix(i, salt): return (i * 37 + 11 + salt) % 251 if i >= 0 else 255
    def colourcells(self):
        """stack cells the border colour is parsed into"""
        r = {}
        for i in self.fa.f.insts.values():
            if i.op == "call" and i.callee == "fcv_parse_hex_color" and i.b in self.fa.f.reach:
                for k in (1, 2, 3): r[self.fa.ptr(i.ops[k]).base] = k - 1
        return r

def pixels(mv, x, src, outs, ins):
    """box of a per-pixel result: (reason | None, lowest channel, highest channel): result pixel p (outs bytes) comes from source pixel p (ins bytes), src at channel 0"""
    fa = mv.fa
    S, r0 = pdivmod(src, C(ins)) if ins > 1 else (src, Poly())
    if r0.t: return "source is not at a pixel", None, None
    pix, k = pdivmod(x.off, C(outs)) if outs > 1 else (x.off, Poly())
    hi = k
    for A, T, sa in x.digits:
        p, r = pdivmod(A, C(outs)) if outs > 1 else (A, Poly())
        s, rs = pdivmod(sa, C(ins)) if ins > 1 else (sa, Poly())
        if not r.t:
            if rs.t or s != p: return "source and result advance differently", None, None
        else:
            if sa.t: return "source depends on the channel", None, None
            hi = hi + A * (T - 1)
    if S != pix: return f"source pixel {S.show(fa.A)} instead of {pix.show(fa.A)}", None, None
    return None, k, hi
