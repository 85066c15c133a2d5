"""Divisors computed from image data: is there a choice of the data values that makes one zero?

The divisor and the branch conditions on every way to it are expressions over values read from memory
(pixels, counts) or merged from them.  Each such value is free within its type; counters and running
sums are not (a sum has a reason to be positive), so a divisor that depends on one is left alone.
"""
from itertools import product
from ir import bits
AR = {"add", "sub", "mul", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "zext", "sext", "trunc", "freeze", "select", "icmp"}
class No(Exception): pass

def leaves(f, o, out, d=0):
    if o[0] == "c": return
    if o[0] != "i": raise No("argument")
    i = f.insts[o[1]]
    if i.op in AR and d < 40:
        for x in i.ops:
            if isinstance(x, list): leaves(f, x, out, d + 1)
        return
    if i.op == "load" and bits(i.ty) == 8: out[first(f, i)] = 8; return
    if i.op == "phi" and bits(i.ty) == 8:  # wider ones are counts, positive for reasons not visible here
        if summing(f, i): raise No("running sum or counter")
        out[o[1]] = bits(i.ty); return
    raise No(i.op)

def canon(f, o, d=0):
    if o[0] != "i" or d > 30: return str(o)
    i = f.insts[o[1]]
    if i.op in ("phi", "call", "alloca"): return "%" + str(i.id)
    return f"{i.op}({','.join(canon(f, x, d + 1) if isinstance(x, list) else str(x) for x in i.ops)}{i.d.get('coff', '')}{i.d.get('vars') if i.op == 'getelementptr' else ''})"

def first(f, i):
    """loads from the same address count as one value"""
    m = f.__dict__.setdefault("_loadcanon", {})
    return m.setdefault(canon(f, i.ops[0]), i.id)

def summing(f, p):
    """does the phi's cycle of merges contain an addition to the value itself"""
    seen, st = set(), [("i", p.id, False)]
    while st:
        _, v, added = st.pop()
        if (v, added) in seen: continue
        seen.add((v, added))
        i = f.insts[v]
        if v == p.id and added: return True
        if i.op == "phi": ops = [o[0] for o in i.ops]
        elif i.op in ("select", "freeze", "zext", "sext", "trunc"): ops = [o for o in i.ops if isinstance(o, list)]
        elif i.op in ("add", "sub"): ops, added = i.ops, True
        else: continue
        for o in ops:
            if o[0] == "i": st.append(("i", o[1], added))
    return False

def wrap(v, n, signed=False):
    v &= (1 << n) - 1
    return v - (1 << n) if signed and v >> (n - 1) else v

def ev(f, o, env):
    if o[0] == "c": return int(o[1])
    if o[0] != "i": raise No("argument")
    if o[1] in env: return env[o[1]]
    i = f.insts[o[1]]
    if i.op == "load":
        k = first(f, i)
        if k in env: return env[k]
    if i.op not in AR: raise No(i.op)
    n = bits(i.ty)
    def w(x): 
        if x[0] == "c": return int(x[2]) if len(x) > 2 and isinstance(x[2], int) else None
        return bits(f.insts[x[1]].ty)
    a = [ev(f, x, env) for x in i.ops if isinstance(x, list)]
    src = next((w(x) for x in i.ops if isinstance(x, list) and x[0] == "i"), None) or n or 32
    if i.op == "icmp":
        p = i.d["pred"]
        s = p[0] == "s"
        x, y = wrap(a[0], src, s), wrap(a[1], src, s)
        r = int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[1:] if p not in ("eq", "ne") else p])
    elif i.op == "select":
        r = a[1] if a[0] & 1 else a[2]
    elif i.op == "sext": r = wrap(a[0], src, True)
    elif i.op in ("zext", "trunc", "freeze"): r = wrap(a[0], src)
    else:
        x, y = a
        s = i.op in ("sdiv", "srem", "ashr")
        x, y = wrap(x, n, s), wrap(y, n, s and i.op != "ashr")
        if i.op == "add": r = x + y
        elif i.op == "sub": r = x - y
        elif i.op == "mul": r = x * y
        elif i.op == "and": r = x & y
        elif i.op == "or": r = x | y
        elif i.op == "xor": r = x ^ y
        elif i.op == "shl": r = x << min(y, 64)
        elif i.op in ("lshr", "ashr"): r = x >> min(y, 64)
        else:
            if y == 0: raise No("division by zero")
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            r = q if i.op in ("udiv", "sdiv") else x - q * y
    r = wrap(r, n or 1)
    return r

def zero(f, x):
    """(verdict, text): an assignment of the data values at which the divisor of x is zero"""
    d = x.ops[1]
    lv = {}
    try: leaves(f, d, lv)
    except No as e: return "undecided", str(e)
    if not lv or len(lv) > 3: return "undecided", "divisor"
    # conditions on the dominating edges
    conds, b = [], x.b
    while b:
        p = f.idom[b]
        if p is None or p == b: break
        t = f.blocks[p][-1]
        if len(f.succ[p]) == 2 and t.op == "br" and t.ops:
            for k, s in enumerate(t.d["succ"]):
                if f.pred[s] == [p] and f.dominates(s, x.b): conds.append((t.ops[0], 1 - k))
        elif t.op == "switch": return "undecided", "switch on the way"
        b = p
    env_leaves = dict(lv)
    use = []
    for c, v in conds:
        l = {}
        try: leaves(f, c, l)
        except No:
            # a condition over something else; it matters only if it also mentions a value of the divisor
            if mentions(f, c, lv): return "undecided", "a condition mixes the divisor's values with others"
            continue
        if set(l) & set(env_leaves) or any(set(l) & set(k) for _, _, k in use): use.append((c, v, l)); env_leaves.update(l)
    if len(env_leaves) > 5: return "undecided", "too many values"
    ks = sorted(env_leaves)
    doms = [[0, 1, 2, 127, 255, 200][:6 if env_leaves[k] >= 8 else 2] for k in ks]
    for vals in product(*doms):
        env = dict(zip(ks, vals))
        try:
            if ev(f, d, env): continue
            if all(ev(f, c, env) & 1 == v for c, v, _ in use):
                return "violation", ", ".join(f"{f.dbg.get(('i', k), (f.insts[k].op + ' ' + str(f.insts[k].loc()),))[0]}={v}" for k, v in env.items())
        except No as e: return "undecided", str(e)
    return "undecided", "no such values found"

def mentions(f, o, lv, d=0, seen=None):
    seen = seen if seen is not None else set()
    if o[0] != "i" or o[1] in seen or d > 40: return False
    seen.add(o[1])
    if o[1] in lv: return True
    i = f.insts[o[1]]
    if i.op == "phi": return False
    if i.op == "load": return first(f, i) in lv
    return any(mentions(f, x, lv, d + 1, seen) for x in i.ops if isinstance(x, list))
