"""Geometric pixel maps: proof that a block holds exactly the specified rearrangement of a source image."""
from poly import Poly
from moves import Moves, No, Tab, Unknown, pdiv, Box
C = Poly.const

def pdivmod(a, b):
    """quotient and remainder with integer coefficients"""
    q, r, n = Poly(), Poly(), 0
    if b.isconst():
        k = int(b.cval())
        q = Poly({m: c // k for m, c in a.t.items() if c // k and (not m or c % k == 0)})
        return q, a - q * k
    lb = max(b.t, key=lambda m: (len(m), m)); cb = b.t[lb]
    while a.t and n < 80:
        n += 1
        la = max(a.t, key=lambda m: (len(m), m))
        m = list(la); ok = a.t[la] % cb == 0
        for x in lb:
            if x in m: m.remove(x)
            else: ok = False; break
        if ok:
            t = Poly({tuple(m): a.t[la] // cb})
            q = q + t; a = a - t * b
        else:
            r = r + Poly({la: a.t[la]}); a = a - Poly({la: a.t[la]})
    return q, r

class Map:
    """source row and column as affine functions of result row and column"""
    def __init__(self, ow, oh, ys, xs):     # ys, xs: (const, coefficient of Y, coefficient of X)
        self.ow, self.oh, self.ys, self.xs = ow, oh, ys, xs
    def linear(self, w, ch):
        """source byte = s0 + sY*Y + sX*X + c"""
        return [ch * (self.ys[k] * w + self.xs[k]) for k in range(3)]

def check_linear(mv, box, m, w, ch):
    """the copied bytes of one box come from where the map says"""
    fa = mv.fa
    s0, sY, sX = m.linear(w, ch)
    row = ch * m.ow
    y0, r = pdivmod(box.off, row)
    x0, k = pdivmod(r, ch)
    runs_x = sX == ch               # consecutive bytes of a row come from consecutive bytes
    flat = sY == sX * m.ow          # consecutive pixels across rows as well
    xr, cr = x0, k + box.len - 1
    xlo, clo = x0, k
    exp = s0 + sY * y0 + sX * x0 + k
    if box.src != exp: return f"source {box.src.show(fa.A)} instead of {exp.show(fa.A)}"
    for A, T, sa in box.digits:
        q, rem = pdivmod(A, row)
        if not rem.t:
            if sa != sY * q: return "row step of the source"
            continue
        q, rem = pdivmod(A, ch)
        if not rem.t:
            if sa != sX * q: return "column step of the source"
            xr = xr + q * (T - 1); continue
        if sa != A: return "channel step of the source"
        cr = cr + A * (T - 1)
    if not fa.prove(clo, 0): return "negative channel"
    if not runs_x and not fa.prove(ch - 1 - cr, 0): return "run across pixels"
    if not flat:
        if not fa.prove(xlo, 0): return "negative column"
        hi = (ch * xr + cr) if runs_x else ch * xr + ch - 1
        if not fa.prove(row - 1 - hi, 0): return "run across rows"
    return None

def full_cover(mv, boxes, size):
    """exactly the bytes [0, size), each exactly once"""
    bs = mv.merge([Box(b.off, b.len, [(A, T, None) for A, T, s in b.digits], None, b.evs) for b in boxes])
    if len(bs) != 1: return f"{len(bs)} separate runs of bytes"
    b = bs[0]
    if b.off.t: return f"first byte written is {b.off.show(mv.fa.A)}"
    r = mv.order(b)
    if r is None: return "strides leave gaps or overlap"
    if r[1] != size: return f"{r[1].show(mv.fa.A)} bytes written of {size.show(mv.fa.A)}"
    return None
