"""C06: block sizes. No allocation size wraps around, and the returned block has exactly the documented size for the reported dimensions."""
import irbuild, devcache, witness
from ir import Module, bits
from contracts import CT
from par import pmap
from poly import Poly
from fa import FA, ALLOCS
from moves import Moves, No
C = Poly.const

def wraps(fa, p, out, seen):
    """atoms below p that stand for a possible wrap-around"""
    for a in p.atoms():
        if a in seen: continue
        seen.add(a)
        x = fa.at(a)
        d = x.info or {}
        if x.key[0] == "wrap":
            if d.get("bits", 64) >= 32: out.append(a)
            wraps(fa, d["wrap"][0], out, seen)
        for k in ("div", "rem"):
            if k in d:
                for q in d[k][:2]: wraps(fa, q, out, seen)
        for k in ("fpto", "floor", "ceil"):
            if k in d: wraps(fa, d[k][0] if k == "fpto" else d[k], out, seen)
    return out

def cellvalue(fa, mv, name, b):
    """what an output dimension holds when control returns a result from block b (None: not known)"""
    f = fa.f
    i = fa.ct.index(name)
    sg = False
    # stores on the way from b to the return
    path, x = [b], b
    while f.blocks[x][-1].op != "ret":
        if x in mv.retedge: x = mv.retedge[x]
        elif len(f.succ[x]) == 1: x = f.succ[x][0]
        else: return None
        path.append(x)
    last = None
    for k, x in list(enumerate(path))[1:]:
        for st in f.blocks[x]:
            if st.op == "store" and fa.ptr(st.ops[1]).base == ("arg", i):
                if fa.ptr(st.ops[1]).off.t: return None
                o, j = st.ops[0], k
                while o[0] == "i" and f.insts[o[1]].op == "phi" and f.insts[o[1]].b in path[1:]:
                    ph = f.insts[o[1]]; j = path.index(ph.b)
                    vs = [v for v, pb in ph.ops if pb == path[j - 1]]
                    if not vs: return None
                    o = vs[0]
                if o[0] == "i" and f.insts[o[1]].b in path[1:]: return None
                last = fa.exact(o, sg, b)
    if last is not None: return last
    vals, calls = [], []
    for x in f.insts.values():
        if x.b not in mv.good() or not (x.b == b or f.reaches(x.b, b)): continue
        if x.op == "store":
            q = fa.ptr(x.ops[1])
            if q.base == ("arg", i):
                if q.off.t or f.loopof[x.b] is not None: return None
                vals.append((x, fa.exact(x.ops[0], sg, x.b)))
        elif x.op == "call" and x.callee in CT and any(fa.isptr(o) and fa.ptr(o).base == ("arg", i) for o in x.ops if o[0] in ("a", "i")): calls.append(x)
    if calls:
        if vals or len(calls) > 1: return None
        x = calls[0]; ct = CT[x.callee]
        k = [n for n in ct.outs if fa.isptr(x.ops[ct.index(n)]) and fa.ptr(x.ops[ct.index(n)]).base == ("arg", i)]
        if len(k) != 1 or not mv.passes(0, b, {x.b}): return None
        return fa.callout(x, ct, "[" + k[0] + "]")
    if not vals: return fa.ctval(name)
    if any(v[1] != vals[0][1] for v in vals): return None
    if not mv.passes(0, b, {x.b for x, _ in vals}): return None
    return vals[0][1]

def factors(m): return [(a, 1) for a in m]
def searched(fa, a, d=0):
    """does the atom depend on the outcome of a search (a loop-carried value without a closed form)?"""
    x = fa.at(a)
    if "wrap" in (x.info or {}): return d < 4 and any(searched(fa, b, d + 1) for b in x.info["wrap"][0].atoms())
    return x.key[0] in ("phi", "hphi")
def decide(fa, goal, blk, loc, extra=()):
    """None when goal >= 0 is proven at blk, else (verdict, point)"""
    if fa.prove(goal, blk, extra=extra): return None
    r, w = witness.find(fa, goal, fa.f.blocks[blk][-1], extra)
    return ("violation" if r == "witness" else "undecided"), w

def analyse(name):
    m = Module(irbuild.view("num"))
    fn = m.fn(name)
    out, n = [], 0
    fa = None
    for light in (True, False):
        out, n = [], 0
        fa = FA(fn, CT, sizes=False, light=light)
        for i in fn.insts.values():
            if i.op != "call" or i.callee not in ALLOCS or i.callee == "strdup" or i.b not in fn.reach: continue
            for o in (i.ops if i.callee == "calloc" else i.ops[1:] if i.callee == "realloc" else i.ops[:1]):
                n += 1
                p = fa.exact(o, False, i.b)
                for a in wraps(fa, p, [], set()):
                    q, lo, hi = fa.at(a).info["wrap"]
                    for g in (C(hi) - q, q - lo):
                        r = decide(fa, g, i.b, i.loc())
                        if r: out.append(("wrap", i.loc(), f"the size {q.show(fa.A)} of the block leaves the range of its {fa.at(a).info.get('bits', 64)} bit type", *r))
        if not out: break
    # the returned block
    ct = CT[name]
    if ct.ret is not None and ct.kind == "image":
        fa = FA(fn, CT, light=True)
        mv = Moves(fa)
        for b, o in mv.goodrets():
            q = fa.ptr(o)
            n += 1
            s = fa.size_of(q.base)
            why = None
            if s is None: out.append(("size", fn.file, f"result object {q.base[0]} of unknown size", "undecided", "")); continue
            if q.off.t: out.append(("size", fn.file, "the result points into the middle of a block", "violation", {})); continue
            vals = {}
            for c in ct.outs:
                v = cellvalue(fa, mv, c, b)
                if v is not None: vals["[" + c + "]"] = v
            env = lambda k: fa.ctval(k)
            for c in ct.outfacts:
                if "[" + c + "]" not in vals: continue
                n += 1
                for p, strict in ct.outfacts[c](env, vals["[" + c + "]"], fa):
                    # (p, strict): p >= 0, or p > 0
                    if not strict and p == C(0): continue
                    r = decide(fa, p - 1 if strict and all(fa.at(a).isint for a in p.atoms()) else p, b, fn.file)
                    if r:
                        out.append(("dims", fn.file, f"the reported dimension *{c} = {vals['[' + c + ']'].show(fa.A)} is not the documented one", *r)); break
            try: want = ct.ret(lambda k: vals[k] if k in vals else fa.ctval(k))
            except (KeyError, ValueError):
                out.append(("size", fn.file, "reported dimensions not tracked", "undecided", "")); continue
            if s == want: continue
            extra = ()
            if q.base[0] == "ret" and fn.insts[q.base[1]].callee in CT:
                # the callee returned a block: its dimensions were valid
                ci = fn.insts[q.base[1]]; ct2 = CT[ci.callee]; env = fa.callenv(ci, ct2)
                extra = tuple((env(k) - 1, False) for k in ct2.names if k in ("w", "h", "ow", "oh", "nw", "nh", "ch") and not fa.isptr(ci.ops[ct2.index(k)]))
                # a dimension that is positive as a signed number is the same unsigned number
                mp = {}
                for p, _ in extra:
                    for a in p.atoms():
                        x = fa.at(a)
                        if x.key[0] == "wrap" and p + 1 == Poly.atom(x) and x.info["signed"]:
                            lo, hi = fa.interval(x.info["wrap"][0])
                            if lo is not None and lo >= 0 and hi is not None and hi < 1 << x.info["bits"]: mp[a] = x.info["wrap"][0]
                s, want = s.subst(mp), want.subst(mp)
            if s == want: continue
            # a dimension the caller keeps while the block was made for a searched one
            kept = [c for c in ct.outs if "[" + c + "]" in vals and vals["[" + c + "]"] == fa.ctval(c)]
            lost = [c for c in kept if all(not any(a == fa.ctval(c).single() for a, _ in factors(m)) for m in s.t)]
            free = [a for a in s.atoms() if searched(fa, a)]
            if lost and free and len(s.t) == 1:
                loc = fn.insts[q.base[1]].loc() if q.base[0] in ("heap", "ret") else fn.file
                out.append(("size", loc, f"*{lost[0]} keeps the caller's value although the returned block has {s.show(fa.A)} bytes, which depend on the image", "violation", {})); continue
            for g in (s - want, want - s):
                r = decide(fa, g, b, fn.file, extra)
                if r:
                    loc = fn.insts[q.base[1]].loc() if q.base[0] in ("heap", "ret") else fn.file
                    out.append(("size", loc, f"the returned block has {s.show(fa.A)} bytes instead of {want.show(fa.A)}", *r)); break
    return n, out
def one(name):
    return devcache.memo("c06", Module(irbuild.view("num")).raw[name], lambda: analyse(name), __file__, __file__.replace("checks/c06.py", "engine/moves.py"))
def run(ctx):
    m = Module(irbuild.view("num"))
    ctx.level = "other"
    ctx.rule = ("each size passed to an allocation routine is computed without leaving the range of any integer type on the way, for all arguments (no size limit assumed), from the branch conditions before it; "
                "each returned image block has exactly the documented number of bytes for the dimensions the function reports (equality of polynomials); "
                "an unproven obligation is a violation when a point of the constraint system fails it, otherwise it is listed as undecided")
    ctx.assume = ["a floating point value converted to an integer type fits it", "signed loop counters do not overflow (undefined in C)"]
    names = [f for f in CT if f in m.raw]
    for name, res, err in pmap(one, names, 420 if ctx.tier == "quick" else 800):
        ctx.count("functions")
        if err: ctx.undecided.append(f"{name}: {err.strip().splitlines()[-1]}"); continue
        n, out = res
        ctx.count("sizes", n)
        for kind, loc, text, verdict, w in out:
            if verdict == "violation": ctx.violation(f"{name}:{kind}", loc, f"{name}: {text}" + (" for " + ", ".join(f"{k}={v}" for k, v in list(w.items())[:6]) if w else ""))
            else: ctx.count("undecided_sizes"); ctx.undecided.append(f"{name} {loc}: {text} {w}")
        if n: ctx.sample(f"{name}: {n} sizes")
    ctx.need("sizes", 40)
