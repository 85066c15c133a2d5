"""C13: the EXIF orientation is honoured and in range."""
import irbuild, finite
from ir import Module
from own import World, where
from program import Program, W0, H0
from paths import Budget, NULL
from contracts import CT
from poly import Poly
from par import pmap
EXPECT = {2: "fcv_flip_x", 3: "fcv_rotate_180", 4: "fcv_flip_y", 5: "fcv_transpose", 6: "fcv_rotate_90_cw", 7: "fcv_transverse", 8: "fcv_rotate_270_cw"}
JPEG = ("in.jpg", "in.jpeg", "in.JPG", "in.JPEG")
OTHER = ("in.png", "in", "in.jpg.png")
DOTS = "./scan.2/in.page.jpg"        # only the last dot counts
READER = "fcv_get_exif_orientation"

def runs():
    for n in JPEG + OTHER:
        for k in (range(1, 9) if n in JPEG else (1, 6)): yield n, k
    yield DOTS, 6
_w = {}
def one(job):
    name, k = job
    if "w" not in _w: _w["w"] = World(); _w["p"] = Program(_w["w"])
    P = _w["p"]
    try: e = P.run(4, {1: name, 3: "out.png"}, orientation=[k])
    except (Budget, RecursionError) as ex: return 0, 0, [], [f"main, {name}, orientation {k}: {ex}"], 0
    viol, und, n, seen = {}, [], 0, 0
    what = f"main, {name}, orientation {k}"
    for o in e.out:
        ev = o.st.ev
        idx = [i for i, x in enumerate(ev) if x[0] in ("executed", "execute-failed")]
        seen += any(x[0] == "orientation" for x in ev)
        if not idx:
            if o.kind == "ret" and o.val == ("c", 0, 32) and any(x[0] == "call-failed" for x in ev):
                viol.setdefault("exit-0", (o.ins.loc(), f"{what}: exits 0 although the transformation failed ({where(e, o)})"))
            continue
        n += 1
        w, h, img = ev[idx[0]][1:4]
        before = ev[:idx[0]]
        loaded = [x for x in before if x[0] == "loaded"]
        if not loaded or any(x[0] == "load-failed" for x in before): und.append(f"{what}: no loaded image"); continue
        src = loaded[-1][-1]
        want = EXPECT.get(k) if any(x[0] == "orientation" for x in before) else None
        calls = [x for x in before if x[0] in ("call", "call-failed")]
        def bad(key, text): viol.setdefault(key, (o.ins.loc(), f"{what}: {text} ({where(e, o)})"))
        ok = [x for x in calls if x[0] == "call"]
        failed = [x for x in calls if x[0] == "call-failed"]
        swapped = False
        if img == src:
            if ok: und.append(f"{what}: transformed but the loaded image is used"); continue
            if want and not failed: bad("not-applied", "the pipeline gets the image as stored"); continue
        else:
            src_of = [x for x in ok if x[-1] == img]
            if not src_of: und.append(f"{what}: unknown image"); continue
            c = src_of[-1]
            if len(ok) > 1: und.append(f"{what}: several transformations"); continue
            if want is None: bad("applied", f"{c[1]} is applied to an image that needs no transformation"); continue
            if c[1] != want:
                if c[1] in EXPECT.values(): bad("wrong", f"{c[1]} is applied instead of {want}")
                else: und.append(f"{what}: {c[1]} is applied")
                continue
            a = c[2:5]
            if a[0] != W0 or a[1] != H0:
                if all(x in (W0, H0) or x[0] == "c" for x in a[:2]): bad("args", f"{c[1]} is called with the wrong dimensions")
                else: und.append(f"{what}: dimensions of the call of {c[1]}")
            if a[2] != src: und.append(f"{what}: image passed to {c[1]}")
            swapped = k >= 5
        exp = (H0, W0) if swapped else (W0, H0)
        if (w, h) != exp:
            if all(x in (W0, H0) for x in (w, h)): bad("dims", f"the dimensions are {'not ' if swapped else ''}swapped although the image is {'' if swapped else 'not '}turned")
            else: und.append(f"{what}: dimensions {w} {h}")
    return e.nstates, n, list(viol.items()), und, seen

def in_range():
    """(number of returned values, [(loc, verdict, detail)]) for the reader's result"""
    m = Module(irbuild.view("num"))
    if READER not in m.raw: return 0, []
    fn = m.fn(READER)
    res, n, fa = [], 0, None
    stored, consts = set(), []
    for x in fn.insts.values():
        if x.op != "ret" or x.b not in fn.reach or not x.ops: continue
        todo, seen = [(x.ops[0], x.b, ())], set()
        while todo:
            o, b, edge = todo.pop()
            i = fn.insts[o[1]] if o[0] == "i" else None
            if i is not None and i.op == "phi" and i.b not in fn.loops and not finite.assembled(fn, o):
                if i.id in seen: continue
                seen.add(i.id)
                todo += [(v, p, ((p, i.b),)) for v, p in i.ops if p in fn.reach]; continue
            n += 1
            if o[0] == "u": continue
            loc = fn.blocks[b][-1].loc()
            r = finite.results(fn, o, b, edge)
            if r is not None:
                bad = sorted(((v - (1 << 32) if v >> 31 else v), src) for v, src in r[1] if not 1 <= v <= 8)
                if bad: res.append((loc, "outside 1..8", "witness", f"{bad[0][0]}" + (f" when the file holds {bad[0][1]}" if bad[0][1] is not None else "")))
                wrong = sorted((src, v) for v, src in r[1] if src is not None and r[0] == 16 and v != (src if 1 <= src <= 8 else 1) and 1 <= v <= 8)
                if wrong: res.append((loc, "another value than the stored one", "witness", f"{wrong[0][1]} when the file holds {wrong[0][0]}"))
                if o[0] == "i" and r[0] == 16: stored.add(finite.source(fn, o))
                elif o[0] == "c": consts.append((o, b, edge, loc))
                continue
            if fa is None:
                from fa import FA
                fa = FA(fn, CT)
            v = fa.exact(o, True, b)
            for g in (v - 1, Poly({(): 8}) - v):
                if not fa.prove(g, b): res.append((loc, "outside 1..8", "undecided", "not an expression over one 16-bit value of the file")); break
    if len(stored) == 1:
        c = stored.pop()
        for o, b, edge, loc in consts:
            v = finite.refused(fn, c, b, edge, [*range(11), 255, 256, 65535], int(o[1]))
            if v is not None: res.append((loc, "another value than the stored one", "witness", f"{int(o[1])} when the file holds {v}"))
    return n, res

def run(ctx):
    ctx.level = "other"
    ctx.rule = ("abstract execution of main for every orientation 1..8 and each JPEG extension: the image and dimensions handed to the pipeline are the result and the dimensions of the transformation the EXIF standard prescribes "
                "(or, when it fails, the program stops or keeps the loaded image with its own dimensions); numeric analysis: each value the reader returns is in 1..8")
    ctx.assume = ["the transformations themselves are correct (C07)"]
    tot = 0
    for job, res, err in pmap(one, list(runs()), 200):
        if err: ctx.undecided.append(f"{job}: {err.strip().splitlines()[-1]}"); continue
        st, n, viol, und, seen = res
        ctx.count("runs"); ctx.count("states", st); ctx.count("pipeline_starts", n)
        tot += seen
        ctx.undecided += sorted(set(und))[:5]
        if job[0] in JPEG + (DOTS,) and not seen and st: ctx.skipped = getattr(ctx, "skipped", []) + [job]
        for key, (loc, text) in viol: ctx.violation(f"main:{key}:{job[1]}", loc, text)
    if tot:
        for name, k in getattr(ctx, "skipped", []): ctx.violation(f"main:not-read:{name}", "cli.c", f"main: the orientation of {name} is not read")
    else: ctx.undecided.append("main does not call the EXIF reader by its name")
    n, res = in_range()
    ctx.count("reader_results", n)
    for loc, what, r, w in res:
        if r == "witness": ctx.violation(f"{READER}:{what}", loc, f"{READER}: the result can be {what} ({w})")
        else: ctx.undecided.append(f"{READER} {loc}: result {what}: {w}")
    ctx.sample(f"orientation mapping checked for {', '.join(JPEG)}")
    ctx.need("runs", 30); ctx.need("pipeline_starts", 30)
