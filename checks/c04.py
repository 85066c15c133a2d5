"""C04: ownership typestate. Every path of every library function and of the program releases what it owns exactly once."""
from own import World, where
from contracts import CT
def site(e, b):
    x = e.f.insts[b[1]]
    n = e.f.dbg.get(("i", x.id))
    return f"block from {x.callee} at {x.loc()}" + (f" ('{n[0]}')" if n else "")
def key(e, b):
    x = e.f.insts[b[1]]
    n = e.f.dbg.get(("i", x.id))
    return f"{x.callee}:{n[0] if n else ''}"
def run(ctx):
    ctx.level = "other"
    ctx.rule = ("abstract execution of every path (states merged when equal, each allocation forks into success and failure): at each return every live block and open file is reachable from the result "
                "or stored in the caller's memory; no release of a released, interior, local, static or caller-owned address; no use of a released block")
    ctx.assume = ["external routines keep no pointer to their arguments and release only what their standard description says", "a block stored at an unknown place of another structure counts as handed over"]
    W = World()
    program = set(W.program())
    for n in W.roots():
        e = W.result(n)
        ctx.count("functions")
        if e is None:
            ctx.undecided.append(f"{n}: {W.err[n]}"); ctx.count("functions_undecided"); continue
        ctx.count("states", e.nstates)
        ctx.count("allocation_sites", len([1 for x in e.f.insts.values() if x.op == "call" and x.b in e.f.reach and (x.callee in __import__('paths').ALLOCS or (W.home(x.callee or "") and W.summary(x.callee) and any(k == "fresh" for k, _ in W.summary(x.callee)["outs"])))]))
        seen = set()
        def rep(k, loc, text):
            if k in seen: return
            seen.add(k); ctx.violation(k, loc, text)
        for o in e.out:
            if o.kind == "ret":
                ctx.count("returns")
                reach = e.reachable_objs(o.st, o.val) if o.val else set()
                for b, z in o.st.obj.items():
                    if z == "live" and b[0] == "obj" and b not in reach:
                        rep(f"{n}:leak:{key(e, b)}", e.f.insts[b[1]].loc(), f"{n}: {site(e, b)} is not released when the function returns by {where(e, o)}")
                    elif z == "freed" and o.val is not None and o.val[0] == "p" and o.val[1] == b:
                        rep(f"{n}:returns-freed:{b[0]}", o.ins.loc(), f"{n}: returns a released block ({where(e, o)})")
                if o.val is not None and o.val[0] == "p" and o.val[1][0] in ("stk", "glob") and n in CT and e.f.d.get("retty") == "ptr":
                    rep(f"{n}:returns-local", o.ins.loc(), f"{n}: returns the address of a {'local' if o.val[1][0] == 'stk' else 'static'} object, which the caller must not free ({where(e, o)})")
            elif o.kind == "lost": rep(f"{n}:leak:{key(e, o.val[1])}", o.ins.loc(), f"{n}: {site(e, o.val[1])} is never released: the only reference to it is overwritten ({where(e, o)})")
            elif o.kind == "uaf": rep(f"{n}:use-after-free:{o.ins.op}", o.ins.loc(), f"{n}: {o.info} uses a released block ({where(e, o)})")
            elif o.kind == "doublefree": rep(f"{n}:double-free", o.ins.loc(), f"{n}: {o.info} releases a block a second time ({where(e, o)})")
            elif o.kind == "badfree": rep(f"{n}:bad-free", o.ins.loc(), f"{n}: {o.info} ({where(e, o)})")
            elif o.kind == "argfree" and n not in program: rep(f"{n}:frees-argument", o.ins.loc(), f"{n}: releases its caller's buffer ({where(e, o)})")
        if len(ctx.samples) < 12: ctx.sample(f"{n}: {e.nstates} states, {len([1 for o in e.out if o.kind == 'ret'])} distinct return states")
    ctx.need("functions", 40); ctx.need("allocation_sites", 60); ctx.need("returns", 120)
