"""Which bytes of a block every run certainly writes: joint coverage over branches."""
import itertools
from poly import Poly
from ir import bits
from moves import Moves, No, Box, memop
from pixmap import full_cover
C = Poly.const

class Unit:
    """a write of a run of bytes that happens once per iteration of the loops left around block 'b'"""
    __slots__ = ("off", "len", "nest", "b", "ev", "val")
    def __init__(self, off, ln, nest, b, ev, val): self.off, self.len, self.nest, self.b, self.ev, self.val = off, ln, nest, b, ev, val

def once(mv, blocks, L):
    """do the blocks jointly run in every iteration of L?"""
    G = set(blocks)
    if L.header in G: return True
    if L.header in L.latches: return False
    for lat in L.latches:
        st = [s for s in mv.f.succ[L.header] if s in L.blocks]
        if not all(s in G or mv.passes(s, lat, G, L.blocks - {L.header}) for s in st): return False
    return True

def units(mv, ev):
    """the event with its inner loops folded in where they continue its run by a constant amount"""
    fa, f = mv.fa, mv.f
    nest = mv.nest(ev.ins.b)
    off, ln = mv.norm(ev.off, ev.ins.b), mv.norm(ev.len, ev.ins.b)
    b = ev.ins.b
    u = Unit(off, ln, list(nest), b, ev, ev.val)
    while u.nest:
        L, T = u.nest[-1]
        n = mv.it(L)
        A, B = u.off.coef_split(n.id)
        if A is None or not T.isconst() or T.cval() < 1 or not u.len.isconst() or A.atoms(): break
        if not (A.isconst() and abs(A.cval()) == u.len.cval()): break
        if L.preheader is None or not once(mv, [u.b], L): break
        if T.cval() * u.len.cval() > 64: break
        if A.cval() < 0: B = B + A * (T - 1)
        u = Unit(B, u.len * T, u.nest[:-1], L.preheader, ev, ev.val)
    return u

def buckets(mv, evs):
    """[(box of one run, units)]: writes of the same bytes on different branches, each run cut into single bytes when short"""
    bs = {}
    for e in evs:
        try: u = units(mv, e)
        except No: continue
        runs = [(u.off + k, C(1)) for k in range(int(u.len.cval()))] if u.len.isconst() and u.len.cval() <= 64 and u.nest else [(u.off, u.len)]
        for o, n in runs:
            key = (o.key(), n.key(), tuple(L.header for L, T in u.nest))
            bs.setdefault(key, (o, n, u.nest, []))[3].append(u)
    return list(bs.values())

def boxof(mv, o, n, nest, ev):
    ds, (off,) = mv.splitflat(nest, [o])
    its = {x.id for x, T in ds}
    digits = []
    for x, T in ds:
        A, B = off.coef_split(x.id)
        if A is None or A.atoms() & its or n.atoms() & its or T.atoms() & its: raise No("offset not affine")
        off = B
        digits.append((A, T, None))
    if off.atoms() & its: raise No("offset not affine")
    return mv.positive(Box(off, n, digits, None, [ev]))

def alwaysboxes(mv, base, evs=None, target=None):
    fa = mv.fa
    blk = fa.f.insts[base[1]].b if base[0] in ("heap", "ret") else 0
    out = []
    for o, n, nest, us in buckets(mv, evs if evs is not None else mv.events(base)):
        if not mv.always([u.b for u in us], blk, target): continue
        try: out.append(boxof(mv, o, n, nest, us[0].ev))
        except No: continue
    return out

def anysubset(mv, bs, size):
    if not bs: return "no unconditional write"
    why = full_cover(mv, bs, size)
    if why is None: return None
    if len(bs) <= 12:
        for k in range(1, min(len(bs), 5)):
            for sub in itertools.combinations(bs, k):
                if full_cover(mv, list(sub), size) is None: return None
    return why
def covered(mv, base, size, target=None, evs=None):
    """None if all 'size' bytes of the block are certainly written, else the reason"""
    return anysubset(mv, alwaysboxes(mv, base, evs, target), size)
