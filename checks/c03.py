"""C03: a failed allocation is noticed on every path."""
from own import World, where
from paths import NULL
from contracts import CT
def run(ctx):
    ctx.level = "other"
    ctx.rule = ("abstract execution of every path with each allocation (and each call that can return null because an allocation in it failed) forked into success and failure: after a failure no null pointer is dereferenced "
                "or passed to a routine that dereferences it, the process is not terminated, and a library function that returns a block returns null")
    ctx.assume = ["external routines accept null only where their standard description says so"]
    W = World()
    for n in W.roots():
        e = W.result(n)
        ctx.count("functions")
        if e is None:
            ctx.undecided.append(f"{n}: {W.err[n]}"); ctx.count("functions_undecided"); continue
        ctx.count("states", e.nstates)
        sites = set()
        seen = set()
        ct = CT.get(n)
        def rep(k, loc, text):
            if k in seen: return
            seen.add(k); ctx.violation(k, loc, text)
        for o in e.out:
            sites |= set(o.st.failed)
            f = ", ".join(f"{e.f.insts[i].callee} at {e.f.insts[i].loc()}" for i in o.st.failed)
            if o.kind == "nullderef":
                rep(f"{n}:null-dereference:{o.ins.op}:{o.info}", o.ins.loc(), f"{n}: {o.info} dereferences null after {f or 'a failed call'} failed ({where(e, o)})")
            elif o.kind == "ret" and o.st.failed:
                ctx.count("failure_returns")
                if ct is not None and ct.ret is not None and e.f.d.get("retty") == "ptr" and o.val != NULL:
                    rep(f"{n}:not-null:{e.f.insts[o.st.failed[0]].callee}", o.ins.loc(), f"{n}: does not return null although {f} failed ({where(e, o)})")
            elif o.kind == "noreturn" and o.st.failed and n in CT:
                rep(f"{n}:terminates", o.ins.loc(), f"{n}: calls {o.info} after {f} failed ({where(e, o)})")
        ctx.count("failing_sites", len(sites))
        if sites: ctx.sample(f"{n}: failures of {len(sites)} sites followed over {e.nstates} states")
    ctx.need("functions", 40); ctx.need("failing_sites", 40); ctx.need("failure_returns", 40)
