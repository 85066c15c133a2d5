"""C15: termination of the library's loops."""
import time
import irbuild
from ir import Module, bits
from recur import Recur, Count, Give, Way, atoms, isk, witness, says, addl, aslin

def terms(R, L, o):
    w = Way(); w.env, w.mem, w.writes, w.loads, w.ver, w.pos, w.visits = {}, {}, [], {}, 0, {}, {}
    try: return R.val(o, L, w)
    except Give: return None

def narrow(f, R, L, cnt, b, c, phi, st, q, bound, gs):
    """reason when the counter wraps around before it can reach the bound"""
    n = bits(phi.ty)
    if not n or not isinstance(st, int): return None
    ext = ("zext", "sext", "sitofp", "uitofp")
    mine = [f.insts[o[1]] for o in c.ops if o[0] == "i" and f.insts[o[1]].op in ext and cnt.inc(phi, list(f.insts[o[1]].ops[0])) not in (None, "cyc")]
    if not mine: return None
    e = top = mine[0]
    while e.ops[0][0] == "i" and f.insts[e.ops[0][1]].op in ext: e = f.insts[e.ops[0][1]]
    if n > (32 if top.op[1:] == "itofp" else 16): return None
    if bits(f.insts[e.ops[0][1]].ty if e.ops[0][0] == "i" else "i64") != n: return None
    lim = (1 << n) - 1 if e.op in ("zext", "uitofp") else (1 << (n - 1)) - 1
    if q not in ("lt", "le") or st <= 0: return None
    t = terms(R, L, bound)
    if t is None: return None
    k = 0 if q == "le" else 1
    if isk(t): return f"a counter of {n} bits never gets past {t[1]}" if t[1] - k >= lim else None
    asg = witness(f, gs, t, lambda v: v - k >= lim)
    return f"a counter of {n} bits does not get past {lim}, its bound can be larger" + says(f, asg) if asg else None

def floating(f, R, L, phi, st, q, bound, gs):
    if phi.ty not in ("float", "double"): return None
    if not (q in ("lt", "le") and st > 0 or q in ("gt", "ge") and st < 0): 
        return None
    t = terms(R, L, bound)
    if t is None or isk(t): return None
    top = 2.0 ** 24 if phi.ty == "float" else 2.0 ** 53
    asg = witness(f, gs, t, lambda v: v >= top if st > 0 else v <= -top)
    return "a floating-point counter stops growing before its bound" + says(f, asg) if asg else None

def stride(f, R, L, cnt, phi, st, d, q, bound, gs):
    if q != "ne" or not isinstance(st, int) or abs(st) < 2: return None
    t, i0 = terms(R, L, bound), cnt.init(phi)
    i0 = terms(R, L, i0) if i0 else None
    if t is None or i0 is None: return None
    df = aslin(addl(addl(t, i0, -1), ("L", d, ()), -1))
    if not df[2]: return "the counter steps over its end" if df[1] % abs(st) else None
    if all(k % abs(st) == 0 for _, k in df[2]) and df[1] % abs(st) == 0: return None
    asg = witness(f, gs, df, lambda v: v % abs(st) != 0)
    return "the counter steps over its end" + says(f, asg) if asg else None

def vacuous(c, st, q, bound): return c.op == "icmp" and c.d["pred"][0] == "u" and q == "ge" and bound[0] == "c" and int(bound[1]) == 0 and st < 0
def proved(f, L, tests):
    for b, c, phi, st, d, q, bound in tests:
        if vacuous(c, st, q, bound): continue
        if not all(f.dominates(b, l) for l in L.latches): continue
        if bound[0] == "i" and f.insts[bound[1]].b in L.blocks:
            # recomputed from values that stay the same
            if not steady(f, L, bound, set()): continue
        if q in ("lt", "le") and st > 0 or q in ("gt", "ge") and st < 0 or q == "ne" and st in (1, -1): return True
    return False
def steady(f, L, o, seen):
    if o[0] != "i": return True
    i = f.insts[o[1]]
    if i.b not in L.blocks: return True
    if i.op in ("phi", "call") or i.id in seen: return False
    if i.op == "load":
        # a cell of the caller or the function that the loop does not write
        return not any(x.op in ("store", "call") and not (x.op == "call" and (x.callee or "").startswith("llvm.")) for b in L.blocks for x in f.blocks[b] if not private(f, x, i))
    return all(steady(f, L, x, seen | {i.id}) for x in i.ops)
def private(f, x, ld):
    if x.op != "store": return False
    return x.d.get("size") != ld.d.get("size")

def run(ctx):
    ctx.level = "other"
    ctx.rule = ("every loop of the library: counters with a constant step towards a bound that stays the same are discharged; for the others every way from the header back to it is examined for one that "
                "leaves every value its branches depend on (header phis, memory cells, file positions) as it was, which repeats for ever; further: counters too narrow for their bound, floating-point counters "
                "with an unlimited bound, strides that step over an equality test, steps that can be zero, loops without exit, unconditional recursion")
    ctx.assume = ["unsigned and signed 32 and 64 bit counters do not wrap (operands within the documented size limit)", "called C library functions terminate", "loops for which neither a counter nor a repeating way is found are listed as undecided"]
    m = Module(irbuild.view("paths"))
    end = time.time() + (700 if ctx.tier == "thorough" else 400)
    for name in sorted(m.raw):
        f = m.fn(name)
        ctx.count("functions")
        R = Recur(f, m, 60000 if ctx.tier == "thorough" else 20000)
        for h in sorted(f.loops):
            L = f.loops[h]
            ctx.count("loops")
            at = next((i for b in [h] + sorted(L.blocks) for i in f.blocks[b] if i.d.get("line")), f.blocks[h][-1])
            where = f"{f.bname[h]}"
            if not L.exits:
                ctx.violation(f"{name}:{where}:noexit", at.loc(), f"{name}: a loop that nothing leaves"); continue
            cnt = Count(f, L)
            tests = list(cnt.tests())
            gs = R.guards(L)
            bad = None
            for b, c, phi, st, d, q, bound in tests:
                if not cnt.invariant(bound) and not steady(f, L, bound, set()): continue
                bad = bad or narrow(f, R, L, cnt, b, c, phi, st, q, bound, gs) or floating(f, R, L, phi, st, q, bound, gs) or stride(f, R, L, cnt, phi, st, d, q, bound, gs)
            ok = proved(f, L, tests)
            if not ok and not bad:
                for b, c, phi, st, d, q, bound in tests:
                    if vacuous(c, st, q, bound): bad = "an unsigned counter is never below zero"
            if bad:
                wide = [t for t in tests if bits(t[2].ty) and bits(t[2].ty) > 16]
                if not (wide and proved(f, L, wide)):
                    ctx.violation(f"{name}:{where}:counter", at.loc(), f"{name}: {bad}"); continue
            if ok: ctx.count("counted_loops"); continue
            ctx.count("examined_loops")
            if time.time() > end: ctx.undecided.append(f"{name}:{where}: time"); continue
            try:
                r = R.repeats(L)
                if r:
                    w, why = r
                    ln = [next((i.d.get("line") for i in f.blocks[b] if i.d.get("line")), None) for b in w.blocks]
                    lines = [str(x) for k, x in enumerate(ln) if x and (k == 0 or ln[k - 1] != x)]
                    ctx.violation(f"{name}:{where}:repeats", at.loc(), f"{name}: once the way over lines {' '.join(lines[:14])} is taken it repeats for ever: {why}")
                else: ctx.undecided.append(f"{name}:{where} ({at.loc()}): no counter; {getattr(R, 'count', 0)} ways examined, none repeats")
            except Give as e: ctx.undecided.append(f"{name}:{where} ({at.loc()}): {e}")
        for i in f.insts.values():
            if i.op == "call" and i.callee == name and i.b in f.reach:
                rets = [b for b in f.reach if f.blocks[b][-1].op == "ret"]
                if all(f.dominates(i.b, r) for r in rets): ctx.violation(f"{name}:recursion", i.loc(), f"{name}: calls itself on every way")
                else: ctx.undecided.append(f"{name}: recursion")
    ctx.need("loops", 1)
