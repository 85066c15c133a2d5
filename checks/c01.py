"""C01: every access of every library function lies inside its object."""
import irbuild, bounds, devcache
from ir import Module
from contracts import CT
from par import pmap
# slowest first
HARD = ["fcv_watershed_segmentation", "fcv_generate_histogram", "fcv_corner_peaks", "fcv_detect_corners", "fcv_trim_threshold", "fcv_sobel_edge_detection", "sort_corners"]
_m = {}
def module():
    if "m" not in _m: _m["m"] = Module(irbuild.view("num"))
    return _m["m"]
def one(name):
    return devcache.memo("c01" + name, module().raw[name], lambda: analyse(name))
def analyse(name):
    fn = module().fn(name)
    fa, n, bad = bounds.check(fn, CT)
    out = []
    for b in bad:
        verdict, w = bounds.triage(fa, b)
        out.append((b["ins"].loc(), b["what"], b["why"], b["obj"], b["goal"].show(fa.A) if b["goal"] is not None else "", verdict, w))
    return n, out
def run(ctx):
    m = module()
    ctx.level = "proof" if False else "other"
    ctx.rule = ("each load, store, memory routine and buffer argument of each library function: 0 <= offset and offset + length <= object size, "
                "derived from branch conditions, loop invariants and the documented buffer sizes (linear arithmetic over polynomials); "
                "an unproven obligation over exactly modelled quantities that fails at a point of the constraint system is a violation, any other is listed as undecided")
    ctx.assume = ["images and results of at most 2^31-1 bytes", "distinct pointer arguments do not overlap", "floating point values as exact reals", "signed loop counters do not overflow (undefined in C)"]
    names = [f for f in CT if f in m.raw]
    missing = [f for f in CT if f not in m.raw]
    for f in missing: ctx.undecided.append(f"{f}: not found")
    names.sort(key=lambda f: HARD.index(f) if f in HARD else 99)
    limit = 420 if ctx.tier == "quick" else 800
    for name, res, err in pmap(one, names, limit):
        ctx.count("functions")
        if err:
            ctx.undecided.append(f"{name}: {err.strip().splitlines()[-1]}"); ctx.count("functions_undecided"); continue
        n, bad = res
        ctx.count("accesses", n)
        for loc, what, why, obj, goal, verdict, w in bad:
            if verdict == "undecided":
                ctx.count("undecided_accesses"); ctx.undecided.append(f"{name} {loc}: {what} {why} ({obj}): {w}"); continue
            ctx.violation(f"{name}:{obj}:{what.split()[0]}:{why.replace(' ', '-')}", loc, f"{name}: {what} {why} of {obj}: {goal} is negative for " + ", ".join(f"{k}={v}" for k, v in list(w.items())[:8]))
        ctx.sample(f"{name}: {n} accesses, {len(bad)} not proven")
    ctx.need("accesses", 600)
