"""Exhaustive evaluation of expressions over one small unknown (a byte or a 16-bit number taken from memory)."""
from ir import bits
import witness

class Leaf(Exception):
    def __init__(self, i): self.i = i
def sg(v, n): return v - (1 << n) if v >> (n - 1) & 1 else v
PRED = {"eq": lambda a, b, x, y: a == b, "ne": lambda a, b, x, y: a != b, "ult": lambda a, b, x, y: a < b, "ule": lambda a, b, x, y: a <= b, "ugt": lambda a, b, x, y: a > b, "uge": lambda a, b, x, y: a >= b,
        "slt": lambda a, b, x, y: x < y, "sle": lambda a, b, x, y: x <= y, "sgt": lambda a, b, x, y: x > y, "sge": lambda a, b, x, y: x >= y}

def ev(fn, o, env):
    """unsigned value of an integer operand; env: {inst id: value}"""
    if o[0] == "c": return int(o[1]) % (1 << int(o[2]))
    if o[0] == "u": return 0
    if o[0] != "i": raise Leaf(o)
    if o[1] in env: return env[o[1]]
    i = fn.insts[o[1]]
    n = bits(i.ty)
    op = i.op
    if op in ("load", "phi", "alloca") or op == "call" and not (i.callee or "").startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax", "llvm.abs", "llvm.bswap")): raise Leaf(i)
    a = [ev(fn, x, env) for x in i.ops] if op != "select" else None
    M = (1 << n) - 1
    if op == "select": r = ev(fn, i.ops[1 if ev(fn, i.ops[0], env) else 2], env)
    elif op == "add": r = a[0] + a[1]
    elif op == "sub": r = a[0] - a[1]
    elif op == "mul": r = a[0] * a[1]
    elif op == "shl": r = a[0] << a[1] if a[1] < n else 0
    elif op == "lshr": r = a[0] >> a[1] if a[1] < n else 0
    elif op == "ashr": r = sg(a[0], n) >> min(a[1], n - 1)
    elif op == "and": r = a[0] & a[1]
    elif op == "or": r = a[0] | a[1]
    elif op == "xor": r = a[0] ^ a[1]
    elif op == "udiv" and a[1]: r = a[0] // a[1]
    elif op == "urem" and a[1]: r = a[0] % a[1]
    elif op in ("sdiv", "srem") and a[1]:
        x, y = sg(a[0], n), sg(a[1], n)
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        r = q if op == "sdiv" else x - q * y
    elif op in ("zext", "trunc", "freeze"): r = a[0]
    elif op == "sext": r = sg(a[0], bits(i.d["sty"]))
    elif op == "icmp" and i.d["opty"] != "ptr":
        k = bits(i.d["opty"])
        r = int(PRED[i.d["pred"]](a[0], a[1], sg(a[0], k), sg(a[1], k)))
    elif op == "call":
        c = i.callee
        x, y = sg(a[0], n), sg(a[1], n) if len(a) > 1 else 0
        r = min(a[:2]) if "umin" in c else max(a[:2]) if "umax" in c else min(x, y) if "smin" in c else max(x, y) if "smax" in c else abs(x) if "abs" in c else int.from_bytes(a[0].to_bytes(n // 8, "little"), "big")
    else: raise Leaf(i)
    return r & M

def assembled(fn, o, depth=12):
    """put together from bytes of memory by shifts, ors and merges only"""
    if o[0] == "c": return int(o[1]) == 0
    if o[0] != "i" or not depth: return False
    i = fn.insts[o[1]]
    if i.op == "load": return True
    if i.op == "zext" or i.op == "trunc" and bits(i.ty) >= 16: return assembled(fn, i.ops[0], depth - 1)
    if i.op in ("shl",): return i.ops[1][0] == "c" and assembled(fn, i.ops[0], depth - 1)
    if i.op == "or": return all(x[0] == "i" and assembled(fn, x, depth - 1) for x in i.ops)
    if i.op == "phi": return i.b not in fn.loops and any(v[0] == "i" for v, p in i.ops) and all(assembled(fn, v, depth - 1) for v, p in i.ops)
    if i.op == "call": return "bswap" in (i.callee or "") and assembled(fn, i.ops[0], depth - 1)
    return False

def source(fn, o):
    """the single assembled value an operand is computed from (instruction id), or None"""
    out, seen, todo = set(), set(), [o]
    while todo:
        v = todo.pop()
        if v[0] != "i" or v[1] in seen: continue
        seen.add(v[1])
        i = fn.insts[v[1]]
        if i.op not in ("icmp",) and assembled(fn, v): out.add(v[1]); continue
        if i.op in ("load", "phi", "alloca") or i.op == "call" and not (i.callee or "").startswith("llvm."): out.add(None); continue
        todo += list(fn.operands(i))
    out2 = set()
    for c in out:       # look through extensions
        while c is not None and fn.insts[c].op in ("zext", "trunc") and bits(fn.insts[c].ty) >= bits(fn.insts[c].d["sty"]) and fn.insts[c].ops[0][0] == "i": c = fn.insts[c].ops[0][1]
        out2.add(c)
    return out2.pop() if len(out2) == 1 else None

def holds(fn, p, b, env):
    """is the edge p->b taken? True, False or None (not decided by env)"""
    t = fn.blocks[p][-1]
    if t.op not in ("br", "switch") or len(fn.succ[p]) < 2: return True
    try: v = ev(fn, t.ops[0], env)
    except Leaf: return None
    if t.op == "br": return (t.d["succ"][0] if v else t.d["succ"][1]) == b
    if t.op == "switch":
        m = (1 << (bits(fn.insts[t.ops[0][1]].ty) if t.ops[0][0] == "i" else 64)) - 1
        return next((c[1] for c in t.d["cases"] if (int(c[0][1]) ^ v) & m == 0), t.d["default"]) == b
    return None

def results(fn, o, blk, edge=()):
    """(source width, set of values operand o can have at the end of blk; conditions on other quantities are taken as possible) or None"""
    if o[0] == "c": return 0, {(int(o[1]) % (1 << int(o[2])), None)}
    c = source(fn, o)
    if c is None: return None
    n = bits(fn.insts[c].ty)
    if n > 16: return None
    try: ways = witness.ways(fn, blk)
    except witness.Imprecise: return None
    vals = set()
    for es in ways:
        es = list(edge) + list(es)
        es = [e for e in es if holds(fn, *e, {}) is not True]
        for v in range(1 << n):
            env = {c: v}
            if any(holds(fn, p, b, env) is False for p, b in es): continue
            try: vals.add((ev(fn, o, env), v))
            except Leaf: return None
    return n, vals

def refused(fn, c, blk, edge, good, const):
    """an orientation c in good that should not give const, for which a way to blk decided by c is taken"""
    try: ways = witness.ways(fn, blk)
    except witness.Imprecise: return None
    B = fn.insts[c].b
    for es in ways:
        es = list(edge) + list(es)
        if not fn.dominates(B, blk) and not any(B in e for e in es): continue
        on = [e for e in es if {holds(fn, *e, {c: v}) for v in good} >= {True, False}]
        if not on: continue
        for v in good:
            if const != (v if 1 <= v <= 8 else 1) and all(holds(fn, *e, {c: v}) is not False for e in es): return v
    return None
