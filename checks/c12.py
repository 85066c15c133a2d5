"""C12: the program reports failures and writes complete results only."""
from own import World, where
from program import Program, W0, H0, W1, H1
from paths import Exec, Budget, NULL
from contracts import CT
RUNS = [(n, {}) for n in (1, 2, 3, 4, 5, 9)] + [(4, {1: "in.png", 3: o}) for o in ("out.png", "out.jpg", "out.jpeg", "out.bmp", "out")] + \
       [(5, {1: "in.jpg", 4: "out.png"}), (3, {1: "in.png", 2: "detect_corners"}), (3, {1: "in.png", 2: "grayscale"})]
KNOWN = {W0: "the loaded image's width", H0: "the loaded image's height", W1: "the result's width", H1: "the result's height"}
def times4(v, w):
    """v = 4 * w: True, False (a known other value) or None"""
    if v == ("c", 0, 32) or v == ("c", 0, 64): return True
    if v[0] == "t" and v[1] in ("mul", "shl"):
        a, b = v[3:5]
        for x, y in ((a, b), (b, a)):
            if y is not None and y[0] == "c":
                if x in KNOWN: return x == w and y[1] == (4 if v[1] == "mul" else 2)
    if v[0] == "c" or v in KNOWN: return False
    return None

def check(ctx, what, e, evs_seen, argc):
    viol = set()
    def bad(key, o, text):
        if key in viol: return
        viol.add(key); ctx.violation(key, o.ins.loc(), f"main, {what}: {text} ({where(e, o)})")
    for o in e.out:
        if o.kind not in ("ret", "noreturn"): continue
        ctx.count("outcomes")
        ev = o.st.ev
        kinds = [x[0] for x in ev]
        evs_seen.update(kinds)
        zero = o.kind == "ret" and o.val and o.val[0] == "c" and o.val[1] & 255 == 0        # the status is the low byte
        unknown = not (o.val and o.val[0] == "c") if o.kind == "ret" else o.info == "exit"
        if o.kind == "noreturn" and o.info not in ("exit", "_exit"): continue        # abort is a failure exit
        fails = [x for x in kinds if x in ("parse-failed", "load-failed", "execute-failed", "write-failed")]
        pre = [i for i, x in enumerate(kinds) if x in ("parse-failed", "load-failed", "execute-failed")]
        if fails and zero and fails[-1] != "write-failed" or zero and "write-failed" in fails and "written" not in kinds[kinds.index("write-failed"):]:
            bad(f"main:exit-0-after-{fails[-1]}", o, f"exits 0 although the step failed: {fails[-1]}")
        if unknown and fails: ctx.undecided.append(f"main, {what}: exit status after {fails[-1]} is not a constant")
        if pre and any(x in ("written", "write-failed") for x in kinds[pre[0]:]):
            bad("main:writes-after-failure", o, f"writes the output file after {kinds[pre[0]]}")
        for i, x in enumerate(kinds):
            if x == "success-message" and ("written" not in kinds[:i] or fails): bad("main:success-message", o, "prints the success message without a successful write")
            if x in ("written", "write-failed"):
                if "executed" not in kinds[:i] and "executed" in evs_seen: bad("main:writes-without-pipeline", o, "writes the output file before the pipeline was executed")
                args(ctx, bad, o, ev, i, argc)
        if zero and not fails:
            for need in ("parsed", "loaded", "executed"):
                if need not in kinds: ctx.todo.append((need, f"main:exit-0-without-{need}", o.ins.loc(), f"main, {what}: exits 0 without this step: {need} ({where(e, o)})"))
            if argc >= 4 and "written" not in kinds: ctx.todo.append(("written", "main:exit-0-without-written", o.ins.loc(), f"main, {what}: exits 0 without having written the output file ({where(e, o)})"))
        if not zero and not unknown and "written" in kinds and not fails and "call-failed" not in kinds and not o.st.failed:
            bad("main:failure-after-success", o, "exits non-zero although every step succeeded")

def args(ctx, bad, o, ev, i, argc):
    x = ev[i]
    c, a = x[1], x[2:]
    ex = [y for y in ev[:i] if y[0] == "executed"]
    if not ex or not c.startswith("stbi_write_") or len(a) < 5 or c.endswith("_func"): ctx.undecided.append(f"{c}: arguments"); return
    res = ex[-1][-1]
    ctx.count("writes")
    path, w, h, comp, data = a[:5]
    if path[0] == "p" and path[1][0] == "argv" and path != ("p", ("argv", argc - 1), 0): bad("main:output-path", o, f"{c}: the path is not the last argument")
    elif path[0] != "p" or path[1][0] != "argv": ctx.undecided.append(f"{c}: path {path}")
    same = ex[-1][-1] == ex[-1][3] if len(ex[-1]) > 3 else False
    for v, want, nm in ((w, W1, "width"), (h, H1, "height")):
        if v == want or same and v == ex[-1][1 if nm == "width" else 2]: continue
        if v[0] == "c" or v in KNOWN: bad(f"main:{nm}", o, f"{c}: the {nm} argument is {KNOWN.get(v, v[1])}, not the result's {nm}")
        else: ctx.undecided.append(f"{c}: {nm} argument {v}")
    if comp[0] == "c" and comp[1] != 4: bad("main:components", o, f"{c}: {comp[1]} components per pixel, the result has 4")
    if data[0] == "p" and res[0] == "p" and data != res: bad("main:data", o, f"{c}: saves another buffer than the pipeline's result")
    elif data == NULL: bad("main:data", o, f"{c}: saves a null image")
    if c == "stbi_write_png" and len(a) > 5:
        r = times4(a[5], w)
        if r is False: bad("main:stride", o, f"{c}: the stride is not four times the width")
        elif r is None: ctx.undecided.append(f"{c}: stride {a[5]}")

def run(ctx):
    ctx.level = "other"
    ctx.rule = ("abstract execution of main with every step (parsing, loading, each operation, saving) forked into success and failure: the exit status, the success message, whether a save is attempted and its arguments "
                "follow from the events on the path; the pipeline loop and the operation dispatcher return null when a step in them fails")
    ctx.assume = ["stbi_load returns null on failure, stbi_write_* returns 0 on failure"]
    ctx.todo = []
    W = World()
    P = Program(W)
    if P.overlap: ctx.violation("parse_pipeline:failure-value", "cli.c", "parse_pipeline returns the same value after a failed allocation as on success")
    seen = set()
    runs = []
    for argc, strs in RUNS:
        what = f"{argc - 1} arguments" + (" " + "/".join(f"{k}={v}" for k, v in strs.items()) if strs else "")
        try: e = P.run(argc, strs)
        except (Budget, RecursionError) as ex: ctx.undecided.append(f"main, {what}: {ex}"); continue
        ctx.count("runs"); ctx.count("states", e.nstates)
        for o in e.out: seen.update(x[0] for x in o.st.ev)
        runs.append((what, e, argc))
    for what, e, argc in runs: check(ctx, what, e, seen, argc)
    for need, key, loc, text in ctx.todo:
        if need in seen: ctx.violation(key, loc, text)
        else: ctx.undecided.append(f"no step of main is recognised as '{need}'")
    for x in P.loads:
        if x[0] == "c" and x[1] != 4: ctx.violation("main:load-components", "cli.c", f"main: the image is loaded with {x[1]} components, the operations need 4")
    steps(ctx, W)
    ctx.sample("main: " + ", ".join(sorted(seen)))
    ctx.need("runs", 8)
    ctx.need("outcomes", 50)

def steps(ctx, W):
    """the pipeline loop and the dispatcher: a failed step makes the result null"""
    m = W.cli
    for name, isstep in (("execute_pipeline", lambda c: c == "apply_operation" or c in CT), ("apply_operation", lambda c: c in CT)):
        if name not in m.raw: ctx.undecided.append(f"no function {name}"); continue
        f = m.fn(name)
        if f.d.get("retty") != "ptr": ctx.undecided.append(f"{name} returns no pointer"); continue
        def hook(e, s, x, a, k):
            c = x.callee or ""
            if not isstep(c) or x.ty != "ptr": return None
            t = s.copy(); b = e.newobj(t, x, k); t.obj[b] = "live"; t.env[x.id] = ("p", b, 0); t.ev = tuple(dict.fromkeys(t.ev + (("after", c),))) if s.ev else s.ev
            u = s.copy(); u.env[x.id] = NULL; u.ev = tuple(dict.fromkeys(u.ev + (("after" if s.ev else "failed", c),)))
            return [t, u]
        e = Exec(f, m, summary=W.summary, hook=hook, limit=60000)
        try: e.run()
        except (Budget, RecursionError) as ex: ctx.undecided.append(f"{name}: {ex}"); continue
        ctx.count("states", e.nstates)
        done = set()
        for o in e.out:
            if o.kind != "ret": continue
            ctx.count("step_outcomes")
            fl = [i for i, x in enumerate(o.st.ev) if x[0] == "failed"]
            al = [e.f.insts[i].callee for i in o.st.failed]
            if fl:
                c = o.st.ev[fl[0]][1]
                if o.val != NULL and (name, c) not in done:
                    done.add((name, c)); ctx.violation(f"{name}:not-null-after-{c}", o.ins.loc(), f"{name}: does not return null although {c} returned null ({where(e, o)})")
                if name == "execute_pipeline" and any(x[0] == "after" for x in o.st.ev) and (name, "on") not in done:
                    done.add((name, "on")); ctx.violation(f"{name}:continues-after-failure", o.ins.loc(), f"{name}: runs another operation after one returned null ({where(e, o)})")
            elif al and o.val != NULL and (name, al[0]) not in done:
                done.add((name, al[0])); ctx.violation(f"{name}:not-null-after-{al[0]}", o.ins.loc(), f"{name}: does not return null although {al[0]} failed ({where(e, o)})")
    ctx.need("step_outcomes", 20)
