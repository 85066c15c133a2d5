"""Does an unproven inequality fail for a concrete point of the constraint system?

A proof failure can also come from the limits of the linear arithmetic.  An
obligation is reported only if (1) every quantity it depends on is modelled
exactly (arguments, counted loop counters, bytes of the caller's buffers,
integer operations on those) and (2) a point satisfies all derived facts and
violates the obligation; the point is found by sampling and re-checked with
exact arithmetic.
"""
import random
from fractions import Fraction
from math import floor, ceil
import numpy as np
from poly import Poly
DEF = ("wrap", "div", "rem", "fpto", "floor", "ceil", "fdiv")

class Imprecise(Exception): pass

def parts(fa, a):
    """polynomials an atom is defined by (None: a free quantity)"""
    if a in fa.wdefs: return [fa.wdefs[a]]
    d = fa.at(a).info or {}
    if "wrap" in d: return [d["wrap"][0]]
    if "div" in d: return list(d["div"])
    if "rem" in d: return list(d["rem"][:2])
    if "fpto" in d: return [d["fpto"][0]]
    if "floor" in d: return [d["floor"]]
    if "ceil" in d: return [d["ceil"]]
    if "fdiv" in d: return list(d["fdiv"])
    return None

def value(fa, a, env):
    """exact value of a defined atom"""
    if a in fa.wdefs: return evalp(fa.wdefs[a], env, fa)
    d = fa.at(a).info
    ev = lambda p: evalp(p, env, fa)
    if "wrap" in d:
        p, lo, hi = d["wrap"]
        m = hi - lo + 1
        return (int(ev(p)) - lo) % m + lo
    if "div" in d:
        n, m = ev(d["div"][0]), ev(d["div"][1])
        if m <= 0: raise ZeroDivisionError
        return int(n) // int(m)
    if "rem" in d:
        n, m = ev(d["rem"][0]), ev(d["rem"][1])
        if m <= 0: raise ZeroDivisionError
        return int(n) % int(m)
    if "fpto" in d:
        x, lo, hi = d["fpto"]
        v = ev(x)
        v = floor(v) if v >= 0 else ceil(v)
        if not lo <= v <= hi: raise ZeroDivisionError
        return v
    if "floor" in d: return floor(ev(d["floor"]))
    if "ceil" in d: return ceil(ev(d["ceil"]))
    if "fdiv" in d:
        m = ev(d["fdiv"][1])
        if m == 0: raise ZeroDivisionError
        return Fraction(ev(d["fdiv"][0])) / Fraction(m)
def evalp(p, env, fa):
    r = 0
    for m, c in p.t.items():
        v = c
        for a in m:
            if a not in env: env[a] = value(fa, a, env)
            v = v * env[a]
        r = r + v
    return r

def free_of(fa, p, out=None, seen=None):
    out = set() if out is None else out
    seen = set() if seen is None else seen
    for a in p.atoms():
        if a in seen: continue
        seen.add(a)
        ps = parts(fa, a)
        if ps is None: out.add(a)
        else:
            for q in ps: free_of(fa, q, out, seen)
    return out

def precise(fa, a, seen=frozenset()):
    x = fa.at(a)
    k = x.key[0]
    if k in ("arg", "entry", "slen"): return True
    if k == "hphi":
        h = fa.f.insts[x.key[1]].b
        fs = fa.loopfacts.get(h, [])
        seen = seen | {a}
        ok = lambda p: all(b == a or b not in seen and precise(fa, b, seen) for b in free_of(fa, p))
        pr = fa.prim.get(h)
        if pr is not None and pr[0] == x.key[1]:
            n = (Poly.atom(x) - pr[1]) * pr[2]
            l = fa.interval(n)[0]
            return (l is not None and l >= 0 or n in fs) and ok(pr[1])
        for p in fs:
            if a in p.atoms() and -p in fs and p.coef_split(a)[0] is not None and p.coef_split(a)[0].isconst() and ok(p): return True
        return False
    if k == "ld":
        ins = (x.info or {}).get("load")
        if ins is None: return False
        b = fa.ptr(ins.ops[0]).base
        return b[0] == "arg" and fa.unmodified(ins, b)
    return k in ("rfld", "cout")

def cases(fa, goal, facts, blk, budget=40):
    """choices for the merges in the goal's cone: (facts, value of each merged quantity)"""
    stack = [(facts, {})]
    while stack and budget > 0:
        fs, defs = stack.pop()
        budget -= 1
        fa.wdefs = defs
        pick = None
        for a in sorted(free_of(fa, goal), reverse=True):
            if fa.at(a).key[0] in ("phi", "sel", "minmax"): pick = a; break
        if pick is None: yield fs, defs; continue
        cs = fa.cases(pick, blk)
        if not cs: raise Imprecise("merge " + fa.at(pick).name)
        for mp, ef, via in cs:
            nd = dict(defs)
            for k, v in mp.items():
                if k not in nd: nd[k] = v
            stack.append((list(fs) + list(ef), nd))

def find(fa, goal, ins, extra=(), n=6000, tries=3):
    """('witness', {name: value}) or ('undecided', reason)"""
    blk = ins.b
    fa._at = blk
    facts = list(fa.facts(blk)) + list(extra)
    why = "no witness in the constraint system"
    try:
        for fs, defs in cases(fa, goal, facts, blk):
            fa.wdefs = defs
            try: w = search(fa, goal, fs, blk, n, tries)
            except Imprecise as e: why = str(e); continue
            if w is not None: return "witness", w
    except Imprecise as e: why = str(e)
    finally: fa.wdefs = {}
    return "undecided", why

def postdominates(f, b, d):
    """every way from d leads through b"""
    seen, st = {d}, [d]
    while st:
        x = st.pop()
        if x == b: continue
        if not f.succ[x]: return False
        for y in f.succ[x]:
            if y not in seen: seen.add(y); st.append(y)
    return True
def ways(f, b, n=48):
    """edge lists of the ways from the entry to b (loops are entered, regions that rejoin are skipped)"""
    out, stack = [], [(b, ())]
    while stack:
        b, es = stack.pop()
        chain = f.domchain(b)
        idom = chain[1] if len(chain) > 1 else None
        if idom is None: out.append(es)
        elif len(f.pred[b]) == 1: stack.append((f.pred[b][0], es + ((f.pred[b][0], b),)))
        elif postdominates(f, b, idom): stack.append((idom, es))
        else:
            L = f.loops.get(b)
            for p in f.pred[b]:
                if L is None or p not in L.blocks: stack.append((p, es + ((p, b),)))
        if len(out) + len(stack) > n: raise Imprecise("too many ways to the call")
    return out
def reachable(fa, ins, n=6000, tries=3):
    """is there a point of the constraint system at which control reaches ins?"""
    why = "no point found at which it is reached"
    goal = Poly({(): -1})
    try: ws = ways(fa.f, ins.b)
    except Imprecise as e: return "undecided", str(e)
    for es in ws:
        fa._at = ins.b
        conds, bad = [], None
        for p, b in es:
            t = fa.f.blocks[p][-1]
            if t.op not in ("br", "switch") or len(fa.f.succ[p]) < 2: continue
            ef = fa.edge_facts(p, b)
            if not ef:
                out = set(); leaves(fa, t.ops[0], out, set())
                if out: bad = "a condition on the way is not an inequality"
            conds += ef
        if bad: why = bad; continue
        try:
            facts = list(fa.facts(ins.b)) + conds
            g = goal
            tot = set()
            for p, _ in conds: free_of(fa, p, tot)
            todo = [a for a in tot if fa.at(a).key[0] in ("phi", "sel", "minmax")]
            if todo: why = "merge " + fa.at(todo[0]).name; continue
            w = search(fa, goal, facts, ins.b, n, tries, tot)
            if w is not None: return "witness", w
        except Imprecise as e: why = str(e)
        finally: fa.wdefs = {}
    return "undecided", why

def leaves(fa, op, out, seen):
    """arguments, loads and loop values a condition is computed from"""
    if op[0] == "a": out.add(("arg", op[1]))
    if op[0] != "i" or op[1] in seen: return
    seen.add(op[1])
    i = fa.f.insts[op[1]]
    if i.op == "phi" and i.b in fa.f.loops: out.add(("hphi", i.id)); return
    if i.op == "load": out.add(("ld", i.id)); return
    if i.ty == "ptr" or i.op == "icmp" and i.d["opty"] == "ptr" and any(o[0] == "n" for o in i.ops): return     # was an allocation successful
    if i.op == "fcmp" and (i.d["pred"] in ("ord", "uno") or any(o[0] == "f" and str(o[1]) in ("inf", "-inf", "nan") for o in i.ops)): return
    if i.op == "call" and "fpclass" in (i.callee or ""): return
    for o in fa.f.operands(i): leaves(fa, o, out, seen)
    if i.op == "phi":
        for o, p in i.ops:
            t = fa.f.blocks[p][-1]
            for o in t.ops: leaves(fa, o, out, seen)
            for q in fa.f.pred[p]:
                for o in fa.f.blocks[q][-1].ops: leaves(fa, o, out, seen)
def untranslated(fa, blk):
    """leaves of the conditions on the way to blk that gave no inequality"""
    out = set()
    for b in fa.f.domchain(blk):
        ps = fa.f.pred[b]
        if len(ps) != 1: continue
        t = fa.f.blocks[ps[0]][-1]
        if t.op in ("br", "switch") and len(fa.f.succ[ps[0]]) > 1 and not fa.edge_facts(ps[0], b):
            leaves(fa, t.ops[0], out, set())
    return out

def search(fa, goal, facts, blk, n, tries, gfree=None):
    if gfree is None: gfree = free_of(fa, goal)
    for a in gfree:
        if not precise(fa, a): raise Imprecise("depends on " + fa.at(a).name)
    ut = untranslated(fa, blk)
    for a in gfree:
        if fa.at(a).key[:2] in ut: raise Imprecise(f"a condition on {fa.at(a).name} is not an inequality")
    # quantities bounded together with the goal's own loop counters must be modelled exactly too
    loc = {a for a in gfree if fa.at(a).key[0] not in ("arg", "entry")}
    todo = set(loc)
    conds = []
    for b in fa.f.domchain(blk):
        if len(fa.f.pred[b]) == 1: conds += fa.edge_facts(fa.f.pred[b][0], b)
    while todo:
        a = todo.pop()
        for p, _ in conds:
            fr = free_of(fa, p)
            if a in fr:
                for b in fr - loc:
                    if fa.at(b).key[0] in ("arg", "entry"): continue
                    if not precise(fa, b): raise Imprecise(f"{fa.at(a).name} is related to {fa.at(b).name}")
                    loc.add(b); todo.add(b)
    facts = [f for f in facts if not f[0].isconst()] if not any(p.isconst() and (p.cval() < 0 or p.cval() == 0 and s) for p, s in facts) else None
    if facts is None: return None
    allf = facts + [f for f in fa.closure(goal, facts, blk) if not any(parts(fa, a) is not None and len(f[0].t) <= 2 and False for a in f[0].atoms())]
    rel = []
    for p, s in allf:
        if not p.isconst(): rel.append((p, s))
    rel = list(dict.fromkeys(rel))
    free = set(gfree)
    for p, _ in rel: free_of(fa, p, free, set())
    order = sorted(free, key=lambda a: (0 if fa.at(a).key[0] in ("arg", "entry") else 1, fa.f.domdepth.get((fa.at(a).info or {}).get("defb", 0), 0), a))
    sup = [(p, s, free_of(fa, p)) for p, s in rel]
    gsup = (-goal - (1 if fa.isint(goal) else 0), not fa.isint(goal), gfree)
    rnd = random.Random(1)
    for t in range(tries):
        w = attempt(fa, goal, sup + [gsup], order, rnd, n)
        if w is not None: return {fa.at(a).name: (int(v) if v == int(v) else float(v)) for a, v in w.items() if a in gfree}
    return None

INTS = [1, 1, 2, 2, 3, 4, 5, 6, 8, 9, 16, 33, 64, 255, 256, 1000, 65535, 65536, 1 << 20, (1 << 30), (1 << 31) - 1, (1 << 31), (1 << 32) - 1, 0, -1, -2, -5, -(1 << 31)]
REALS = [0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 10.0, 100.0, 1e5, -1.0, -0.5, 0.25, 4e9]
def attempt(fa, goal, sup, order, rnd, n):
    pop = [dict() for _ in range(400)]
    assigned = set()
    for x in order:
        at = fa.at(x)
        before = set(assigned)
        assigned.add(x)
        mine = [(p, s) for p, s, fr in sup if x in fr and fr <= assigned]
        lin = []
        for p, s in mine:
            A, B = p.coef_split(x)
            if A is None or x in free_of(fa, A) or x in free_of(fa, B): continue
            lin.append((A, B, s))
        new = []
        for env in pop:
            lo, hi = at.lo, at.hi
            try:
                for A, B, s in lin:
                    e = dict(env)
                    k, c = evalp(A, e, fa), evalp(B, e, fa)
                    if k == 0: continue
                    v = Fraction(-c) / Fraction(k)
                    if k > 0:
                        b = ceil(v) if at.isint else v
                        if at.isint and s and b == v: b += 1
                        lo = b if lo is None or b > lo else lo
                    else:
                        b = floor(v) if at.isint else v
                        if at.isint and s and b == v: b -= 1
                        hi = b if hi is None or b < hi else hi
            except (ZeroDivisionError, OverflowError): continue
            if lo is not None and hi is not None and lo > hi: continue
            c = []
            pool = INTS if at.isint else REALS
            for _ in range(3):
                v = rnd.choice(pool)
                c.append(v if at.isint else Fraction(v))
            if lo is not None: c += [lo, lo + 1, lo + rnd.choice(INTS[:14])]
            if hi is not None: c += [hi, hi - 1, hi - rnd.choice(INTS[:14])]
            if lo is not None and hi is not None and hi > lo: c.append(lo + (hi - lo) * Fraction(rnd.randint(1, 15), 16) if not at.isint else rnd.randint(int(lo), int(hi)))
            c = [v for v in set(c) if (lo is None or v >= lo) and (hi is None or v <= hi)]
            rnd.shuffle(c)
            for v in c[:4]:
                e = dict(env); e[x] = v
                if consistent(fa, mine, e): new.append({k: e[k] for k in e if k in assigned})
        if not new: return None
        if len(new) > 400: new = rnd.sample(new, 400)
        pop = new
    return pop[0] if pop else None
def consistent(fa, cons, env):
    try:
        for p, s in cons:
            v = evalp(p, env, fa)
            if v < 0 or s and v == 0: return False
    except (ZeroDivisionError, OverflowError): return False
    return True
