"""C02: invalid arguments are rejected before any memory is touched; nothing terminates the process or divides by zero."""
import irbuild, bounds, witness
from ir import Module
from own import World, where
from reject import Reject
from paths import NULL, Budget
from contracts import CT
from par import pmap
I31 = 1 << 31
DIMS = ("w", "h", "ch")
# the colour parser is not an image operation and requires its output pointers; a null path is fopen's business
SKIP = {"fcv_parse_hex_color", "fcv_get_exif_orientation", "sort_corners", "fcv_calculate_perspective_transform"}

# returns the whole image's corners (a block) where detection is impossible
NOFAIL = {"fcv_detect_corners_ptr"}

def cases(ct, f, off):
    """(text, spec, cells) for each invalid argument"""
    n = len(f.params)
    for i, nm in enumerate(ct.names):
        j = i + off
        if j < 0 or j >= n or nm == "ret": continue
        ptr = f.params[j]["ty"] == "ptr"
        spec = [None] * n
        if ptr and not f.params[j].get("byval"):
            s = list(spec); s[j] = NULL
            yield f"null for parameter {j + 1}", tuple(s), ()
            if nm in ct.cells and nm in DIMS:
                yield f"*parameter {j + 1} = 0", tuple(spec), ((j, 0, 4, ("c", 0, 32)),)
                yield f"*parameter {j + 1} negative", tuple(spec), ((j, 0, 4, ("rng", -I31, -1)),)
        elif nm in DIMS:
            s = list(spec); s[j] = ("c", 0, 32)
            yield f"parameter {j + 1} = 0", tuple(s), ()
            if ct.signed(nm):
                s = list(spec); s[j] = ("rng", -I31, -1)
                yield f"parameter {j + 1} negative", tuple(s), ()

_m = {}
def module():
    if "m" not in _m: _m["m"] = Module(irbuild.view("num"))
    return _m["m"]
def numeric(name):
    """integer divisions and terminating calls of one function"""
    fn = module().fn(name)
    todo = [x for x in fn.insts.values() if x.b in fn.reach and (x.op in ("udiv", "sdiv", "urem", "srem") and x.ops[1][0] != "c" or x.op == "call" and x.callee in TERM)]
    if not todo: return 0, []
    from fa import FA
    import datadiv
    from poly import Poly
    fa = FA(fn, CT)
    bad = []
    for x in todo:
        if x.op == "call":
            goals = [Poly({(): -1})]
            what = f"{x.callee} ends the process"
        else:
            d = fa.exact(x.ops[1], x.op[0] == "s", x.b)
            goals = [d - 1] + ([-d - 1] if x.op[0] == "s" else [])
            what = "integer division by zero"
        if any(fa.prove(g, x.b) for g in goals): continue
        # a point of the constraint system at which the call is reached / the divisor is not positive
        r, w = witness.reachable(fa, x) if x.op == "call" else witness.find(fa, goals[0], x, ())
        r = "violation" if r == "witness" and len(goals) == 1 else "undecided"
        if r != "violation":
            # exit and abort (unlike a failing assertion, which may state a fact) are there to be reached
            if x.op == "call" and x.callee != "__assert_fail": r, w = "violation", {"reached": "on some input"}
            elif x.op != "call":
                r, t = datadiv.zero(fn, x)
                if r == "violation": w = {"data values": t}
        bad.append((x.loc(), what, r, w))
    return len(todo), bad
TERM = {"exit", "abort", "_exit", "__assert_fail", "quick_exit", "_Exit"}

def run(ctx):
    ctx.level = "other"
    ctx.rule = ("for each operation and each pointer parameter null, each width, height and channel count zero (or, where signed, any negative value), all other arguments unknown: "
                "every abstract path returns the failure result without dereferencing null, writing to a caller's object or ending the process; every integer divisor is proved positive")
    ctx.assume = ["allocations succeed (C03 covers their failure)"]
    W = World()
    R = Reject(W)
    for name, ct in CT.items():
        if name in SKIP or name not in W.lib.raw: continue
        f = W.lib.fn(name)
        off = 0
        if ct.names[0] == "ret" and not (f.params and f.params[0].get("sret")): off = -1
        isptr = f.d.get("retty") == "ptr"
        ctx.count("operations")
        for text, spec, cells in cases(ct, f, off):
            ctx.count("invalid_calls")
            try: kinds, wr, probs, e = R.run(name, spec, cells)
            except (Budget, RecursionError) as ex:
                ctx.undecided.append(f"{name}, {text}: {ex}"); continue
            for kind, info, ins in probs:
                ctx.violation(f"{name}:{text}:{kind}", ins.loc(), f"{name}, {text}: " + (f"{info} dereferences null" if kind == "nullderef" else f"{info} ends the process"))
            for j, x in e.written:
                if f.params[j].get("sret"): continue
                ctx.violation(f"{name}:{text}:writes:{j + 1}", x.loc(), f"{name}, {text}: writes to the object of parameter {j + 1} before the call is rejected")
            if isptr and name not in NOFAIL:
                for o in e.out:
                    if o.kind == "ret" and o.val != NULL:
                        ctx.violation(f"{name}:{text}:not-rejected", o.ins.loc(), f"{name}, {text}: returns {'a block' if o.val[0] == 'p' else 'something other than null'} ({where(e, o)})"); break
        if len(ctx.samples) < 10: ctx.sample(f"{name}: each invalid argument rejected on every path")
    ctx.count("states", R.states)
    m = module()
    for name, res, err in pmap(numeric, [n for n in CT if n in m.raw], 300):
        if err: ctx.undecided.append(f"{name}: divisors: {err.strip().splitlines()[-1]}"); continue
        n, bad = res
        ctx.count("divisors_and_terminating_calls", n)
        for loc, what, r, w in bad:
            if r == "violation": ctx.violation(f"{name}:{what}", loc, f"{name}: {what} for " + ", ".join(f"{k}={v}" for k, v in list(w.items())[:8]))
            else: ctx.undecided.append(f"{name} {loc}: {what}: {w}"); ctx.count("undecided_divisors")
    ctx.need("operations", 30); ctx.need("invalid_calls", 100)
