"""C11: each operation name runs exactly its operation, with the user's parameters and the right dimensions."""
from own import World, where
from paths import Exec, State, Budget, NULL
from contracts import CT
from dispatch import Tokens, W, H, same, leaves
from pipeline import Parser, CASES, case, executor
from par import pmap
IMG = "IMG"
ANY = "*"
def OUT(c, n): return ("u", ("out", c, n))
def P(i): return ("P", i)
def F(d): return ("t", "atof", "double", ("u", ("str", d)))
def div(a, b): return ("t", "fdiv", "double", a, b)
Wf, Hf = ("t", "sitofp", "double", W, 32), ("t", "sitofp", "double", H, 32)
P100 = ("f", 100.0)
def I(n): return ("c", n & 0xffffffff, 32)
def B(n): return ("c", n, 1)
def R(i): return ("R", i)
def corner(i): return ("u", ("corner", i))
def C(c, *a): return (c,) + a
WH, SW = (W, H), (H, W)
def one(c, *a, dims=WH, flags=()): return dict(flags=flags, alts=[([C(c, *a)], R(0), dims)])
def morph(c): return dict(flags=("has_param",), alts=[([C("fcv_rgba_to_grayscale", W, H, IMG), C(c, R(0), W, H, ("t", "fptosi", "i32", P("param"), 0)), C("fcv_single_to_multichannel", W, H, R(1))], R(2), WH)])
RS = ("fcv_resize", W, H)
RD = (OUT("fcv_resize", "ow"), OUT("fcv_resize", "oh"))
def rs(a, b): return ([C(*RS, a, b, ANY, ANY, IMG)], R(0), RD)
def turn(deg, c, dims): return dict(flags=("has_param",), vals={"param": ("f", float(deg))}, alts=[([C(c, W, H, IMG)], R(0), dims)] if c else [([C("copy", ANY, IMG)], "COPY", WH)])
def ti(p): return ("t", "fptosi", "i32", P(p), 0)
def sub(a, b): return ("t", "sub", "i32", a, b)
def crops():
    out = []
    for x in (ti("param"), I(0)):
        for y in (ti("param2"), I(0)):
            for w in (ti("param3"), sub(W, x)):
                for h in (ti("param4"), sub(H, y)):
                    out.append(([C("fcv_crop", W, H, I(4), IMG, x, y, w, h)], R(0), (w, h)))
    return out
def drawn(c): return dict(flags=("has_param", "has_param2", "has_param3", "has_string_param"), alts=[([C("copy", ANY, IMG), C(c, W, H, I(4), ("STR", "S#"), P("param"), P("param2"), P("param3"), "COPY")], "COPY", WH)])
SPEC = {
 "grayscale": one("fcv_grayscale", W, H, IMG),
 "blur": one("fcv_apply_gaussian_blur", W, H, P("param"), IMG, flags=("has_param",)),
 "resize percent": dict(op="resize", flags=("has_string_param",), text={"x": False, "%": True}, alts=[rs(div(F("S"), P100), div(F("S"), P100))]),
 "resize two percentages": dict(op="resize", flags=("has_string_param",), text={"x": True, "%": True}, alts=[rs(div(F("S"), P100), div(F("S|x"), P100))]),
 "resize absolute": dict(op="resize", flags=("has_string_param",), text={"x": True, "%": False}, alts=[rs(div(F("S"), Wf), div(F("S|x"), Hf))]),
 "resize one number": dict(op="resize", flags=("has_param",), alts=[rs(P("param"), P("param"))]),
 "resize two numbers": dict(op="resize", flags=("has_param", "has_param2"), alts=[rs(P("param"), P("param2"))]),
 "threshold": one("fcv_otsu_threshold_rgba", W, H, B(0), IMG),
 "bw_smart": one("fcv_bw_smart", W, H, B(0), IMG),
 "bw_smooth": one("fcv_bw_smart", W, H, B(1), IMG),
 "detect_corners": dict(flags=(), alts=[([C("fcv_detect_corners", ANY, IMG, W, H), C("copy", ANY, IMG)], "COPY", WH)]),
 "draw_corners": dict(flags=(), alts=[([C("fcv_detect_corners", ANY, IMG, W, H), C("copy", ANY, IMG)] + [C("fcv_draw_disk", W, H, I(4), ANY, ANY, corner(2 * i), corner(2 * i + 1), "COPY") for i in range(4)], "COPY", WH)], anyorder=True),
 "sobel": dict(flags=(), alts=[([C("fcv_sobel_edge_detection", W, H, I(4), IMG), C("fcv_single_to_multichannel", W, H, R(0))], R(1), WH)]),
 "circle": drawn("fcv_draw_circle"), "disk": drawn("fcv_draw_disk"),
 "watershed": dict(flags=("has_string_param",), alts=[([C("fcv_rgba_to_grayscale", W, H, IMG), C("fcv_watershed_segmentation", W, H, R(0), ANY, ANY, B(0))], R(1), WH)]),
 "crop": dict(flags=("has_param", "has_param2", "has_param3", "has_param4"), alts=crops()),
 "extract_document": one("fcv_extract_document_auto", W, H, IMG, ANY, ANY, dims=(OUT("fcv_extract_document_auto", "ow"), OUT("fcv_extract_document_auto", "oh"))),
 "extract_document_to": one("fcv_extract_document", W, H, IMG, ti("param"), ti("param2"), dims=(ti("param"), ti("param2")), flags=("has_param", "has_param2")),
 "flip_x": one("fcv_flip_x", W, H, IMG), "flip_y": one("fcv_flip_y", W, H, IMG),
 **{f"rotate {d}": dict(turn(d, c, dm), op="rotate") for d, c, dm in ((90, "fcv_rotate_90_cw", SW), (180, "fcv_rotate_180", WH), (270, "fcv_rotate_270_cw", SW), (-90, "fcv_rotate_270_cw", SW), (-180, "fcv_rotate_180", WH), (450, "fcv_rotate_90_cw", SW), (0, None, WH), (360, None, WH))},
 "rotate 45": dict(op="rotate", flags=("has_param",), vals={"param": ("f", 45.0)}, alts=[]),
 "trim": one("fcv_trim", "WP", "HP", I(4), IMG, dims=(OUT("fcv_trim", "w"), OUT("fcv_trim", "h"))),
 "trim number": dict(one("fcv_trim_threshold", "WP", "HP", I(4), IMG, P("param"), dims=(OUT("fcv_trim_threshold", "w"), OUT("fcv_trim_threshold", "h")), flags=("has_param",)), op="trim"),
 "histogram": one("fcv_generate_histogram", W, H, I(4), IMG, ANY, ANY, dims=(OUT("fcv_generate_histogram", "ow"), OUT("fcv_generate_histogram", "oh"))),
 "border": one("fcv_add_border", W, H, I(4), ("STR", "S"), ti("param"), IMG, ANY, ANY, dims=(OUT("fcv_add_border", "ow"), OUT("fcv_add_border", "oh")), flags=("has_string_param", "has_param")),
 "erode": morph("fcv_binary_erosion_disk"), "dilate": morph("fcv_binary_dilation_disk"), "close": morph("fcv_binary_closing_disk"), "open": morph("fcv_binary_opening_disk"),
 "unknown name": dict(op="nosuchoperation", flags=(), alts=[]), "empty name": dict(op="", flags=(), alts=[]), "prefix": dict(op="bl", flags=("has_param",), alts=[]), "longer": dict(op="flip_xx", flags=("has_param",), alts=[]),
}
SPEC["trim percent"] = dict(op="trim", flags=("has_string_param",), text={"%": True}, alts=[([C("fcv_trim_threshold", "WP", "HP", I(4), IMG, F("S"))], R(0), (OUT("fcv_trim_threshold", "w"), OUT("fcv_trim_threshold", "h")))])
NAMES = ["width", "height", "operation", "param", "has_param", "param2", "has_param2", "param3", "has_param3", "param4", "has_param4", "param_str", "has_string_param", "input_data"]

class Disp:
    def __init__(self, world):
        self.w, self.m = world, world.cli
        self.f = self.m.fn("apply_operation")
        nm = [p.get("name") for p in self.f.params]
        self.role = {n: nm.index(n) for n in NAMES if n in nm}
        self.missing = [n for n in NAMES if n not in nm]
    def run(self, spec, name):
        st = State()
        r = self.role
        st.mem[(("arg", r["width"]), 0, 4)] = W
        st.mem[(("arg", r["height"]), 0, 4)] = H
        tk = Tokens({("S", ch): v for ch, v in spec.get("text", {}).items()}); tk.names[("arg", r["param_str"])] = "S"
        args = []
        for j, p in enumerate(self.f.params):
            v = ("p", ("arg", j), 0) if p["ty"] == "ptr" else ("u", ("arg", j))
            args.append(v)
        for n, j in r.items():
            if n.startswith("has_"): args[j] = I(1 if n in spec["flags"] else 0)
            if n in spec.get("vals", {}): args[j] = spec["vals"][n]
        marks = []
        def hook(e, s, x, a, k):
            c = x.callee or ""
            if c.startswith("llvm.memcpy") or c in ("memcpy", "memmove"):
                t = s.copy(); e.clobber(t, a[0][1]) if a[0][0] == "p" else None
                if a[0][0] == "p" and a[1][0] == "p" and a[0][1][0] == "obj": t.ev = t.ev + (("copy", a[0], a[1], None),)
                if x.id in e.f.uses: t.env[x.id] = a[0]
                return [t]
            if not c:
                t = s.copy(); t.ev = t.ev + (("?",),)
                if x.id in e.f.uses: t.env[x.id] = e.fresh(t, x.id) if x.ty != "ptr" else ("p", ("ext", x.id), 0)
                return [t]
            if c not in CT:
                r2 = tk.hook(e, s, x, a, k)
                return r2
            t = s.copy(); v = None
            if x.ty == "ptr":
                b = e.newobj(t, x, k); t.obj[b] = "live"; v = ("p", b, 0); t.env[x.id] = v
            elif x.id in e.f.uses: t.env[x.id] = e.fresh(t, x.id)
            ct = CT[c]
            sret = e.m.sret(c) if hasattr(e.m, "sret") else None
            off = 0
            if c == "fcv_detect_corners" and a and a[0][0] == "p":
                for i in range(8):
                    t.mem[(a[0][1], (a[0][2] or 0) + 8 * i, 8)] = corner(i)
            else:
                for j, q in enumerate(a):
                    if j < len(ct.names) and ct.names[j] in ct.cells and q[0] == "p" and q[2] is not None:
                        for kk in [kk for kk in t.mem if kk[0] == q[1] and kk[1] < q[2] + 4 and q[2] < kk[1] + kk[2]]: del t.mem[kk]
                        t.mem[(q[1], q[2], 4)] = OUT(c, ct.names[j])
            t.ev = t.ev + ((c,) + tuple(a) + (v,),)
            if len(t.ev) > 16: raise Budget("operation calls in a loop")
            return [t]
        def onstore(e, s, x, p, v, k):
            if v and v[0] == "t" and v[1] == "atof":
                g = e.f.insts.get(x.ops[1][1]) if x.ops[1][0] == "i" else None
                co, n = 0, 0
                while g is not None and g.op == "getelementptr" and n < 4:
                    co += g.d.get("coff", 0); n += 1
                    g = e.f.insts.get(g.ops[0][1]) if g.ops[0][0] == "i" and not g.d.get("vars") else None
                if p[0] == "p" and p[1][0] == "obj": marks.append((co % 16, v[3][1][1], x.loc()))
        e = Exec(self.f, self.m, args=args, summary=self.w.summary, hook=hook, fail=False, strings={("arg", r["operation"]): spec.get("op", name)}, terms=True, limit=6000, onstore=onstore)
        e.run(st)
        e.tk, e.marks = tk, marks
        return e
    def match(self, e, got, want, res):
        r = self.role
        if want == ANY: return True
        if want == IMG: want = ("p", ("arg", r["input_data"]), 0)
        elif want == "WP": want = ("p", ("arg", r["width"]), 0)
        elif want == "HP": want = ("p", ("arg", r["height"]), 0)
        elif want == "COPY":
            if got[0] == "p" and got in [x[1] for x in res if x[0] == "copy"]: return True
            return False if got[0] in ("p", "null") and got[1:2] != (("ext",),) else None
        elif want[0] == "R":
            want = res[want[1]][-1] if want[1] < len(res) else None
            if want is None: return None
        elif want[0] == "STR":
            if got == NULL: return True if want[1].endswith("#") else False
            d = e.tk.desc(got[1]) if got[0] == "p" else None
            if d is None: return None
            return True if (d == want[1] or want[1].endswith("#") and d.startswith(want[1])) else (False if want[1] == "S" or d != "S" else None)
        want = self.subst(want)
        if got[0] == "c" and want[0] == "c": return got[1] == want[1]
        return same(got, want, self.known())
    def subst(self, v):
        if not isinstance(v, tuple): return v
        if v[0] == "P": return ("u", ("arg", self.role[v[1]]))
        return tuple(self.subst(x) if isinstance(x, tuple) else x for x in v)
    def known(self):
        s = {W, H} | {("u", ("arg", j)) for j in self.role.values()} | {corner(i) for i in range(8)}
        return s | {OUT(c, n) for c in CT for n in CT[c].cells}
    def compare(self, e, o, spec):
        """None if some alternative matches, else (kind, text)"""
        best = None
        res = [x for x in o.st.ev]
        if not any("copy" == y[0] for alt in spec["alts"] for y in alt[0]): res = [x for x in res if x[0] != "copy"]
        if any(x[0] == "?" for x in res): return ("undecided", "a call through a pointer")
        if not spec["alts"]: return ("violation", "the name is accepted: " + (", ".join(x[0] for x in res) or "an image is returned"))
        for seq, ret, dims in spec["alts"]:
            names, want = [x[0] for x in res], [x[0] for x in seq]
            pairing = list(zip(res, seq))
            if names != want:
                if spec.get("anyorder") and sorted(names) == sorted(want): pass
                else: best = best or ("violation", f"runs {', '.join(names) or 'no operation'} instead of {', '.join(want)}"); continue
            verdict, text = True, ""
            def note(v, t):
                nonlocal verdict, text
                if v is True: return
                if verdict is True or v is False and verdict is None: verdict, text = v, t
            if spec.get("anyorder"):
                pool = list(seq)
                for g in res:
                    hit = [s for s in pool if s[0] == g[0] and all(self.match(e, x, y, res) is True for x, y in zip(g[1:], s[1:]))]
                    if hit: pool.remove(hit[0])
                    else:
                        und = any(s[0] == g[0] and all(self.match(e, x, y, res) is not False for x, y in zip(g[1:], s[1:])) for s in pool)
                        note(None if und else False, f"arguments of {g[0]}")
            else:
                for g, s in pairing:
                    for i, (x, y) in enumerate(zip(g[1:], s[1:])): note(self.match(e, x, y, res), f"argument {i + 1} of {g[0]}")
            note(self.match(e, o.val, ret, res), "the returned image")
            for n, d in zip(("width", "height"), dims):
                v = o.st.mem.get((("arg", self.role[n]), 0, 4))
                if v is None: note(None, f"the {n} afterwards"); continue
                note(self.match(e, v, d, res), f"the {n} afterwards")
            if verdict is True: return None
            r = ("violation" if verdict is False else "undecided", f"wrong {text}" if verdict is False else text)
            if best is None or r[0] == "undecided" or best[1].startswith("runs"): best = r if best is None or best[0] != "undecided" else best
        return best

_w = {}
def disp():
    if "d" not in _w: _w["d"] = Disp(World())
    return _w["d"]
def job(name):
    D = disp(); spec = SPEC[name]
    try: e = D.run(spec, name)
    except (Budget, RecursionError) as ex: return 0, 0, [], [f"{name}: {ex}"]
    n, viol, und = 0, {}, []
    for o in e.out:
        if o.kind != "ret": continue
        if o.val == NULL:
            continue
        n += 1
        r = D.compare(e, o, spec)
        if r is None: continue
        if r[0] == "violation": viol.setdefault(r[1], (o.ins.loc(), f"operation '{name}': {r[1]} ({where(e, o)})"))
        else: und.append(f"operation '{name}': {r[1]}")
    if not n and spec["alts"]: viol["never"] = ("cli.c", f"operation '{name}': no path returns an image")
    if name == "watershed":
        for co, d, loc in e.marks:
            if (co == 8) != ("|x" in d): viol.setdefault("markers", (loc, "operation 'watershed': the x and y coordinates of a marker are exchanged"))
    return e.nstates, n, list(viol.items()), und

def parsejob(nc):
    if "p" not in _w: _w["p"] = Parser(disp().w)
    P = _w["p"]; name = nc[0]; forced, forms = case(*nc)
    try: e = P.run(name, forced)
    except (Budget, RecursionError) as ex: return 0, 0, {}, [f"parsing of '{name}': {ex}"]
    evs = {ev for o in e.out for ev in o.st.ev if ev[0] == "add"}
    viol, und, used = {}, [], 0
    for ev in sorted(evs, key=str):
        r = P.check(ev, name, forms); used += 1
        if r is None: und.append(f"parsing of '{name}': an add_operation call")
        elif r is not True: viol.setdefault(r, (ev[1], f"parsing of '{name}'{' ' if r.startswith('gives') else ': '}{r}"))
    if not evs: viol["never"] = ("cli.c", f"parsing of '{name}' adds no operation" + ("" if forced[("P", " ")] else " when it has no parameters"))
    return e.nstates, used, viol, und

def run(ctx):
    ctx.level = "other"
    ctx.rule = ("abstract execution of the dispatcher for each operation name with symbolic dimensions and parameters: the library calls made, their arguments (as expressions over the parameters), the returned image and the "
                "dimensions left behind equal the documented ones on every path that returns an image; unknown names return null")
    ctx.assume = ["the library operations do what their names say (the other properties)"]
    W_ = World()
    if "apply_operation" not in W_.cli.raw or disp().missing:
        ctx.undecided.append("the dispatcher apply_operation is not in its usual form"); ctx.count("operations", 0)
    else:
        for name, r, err in pmap(job, list(SPEC), 300):
            if err: ctx.undecided.append(f"{name}: {err.strip().splitlines()[-1]}"); continue
            st, n, viol, und = r
            ctx.count("operations"); ctx.count("states", st); ctx.count("successful_paths", n)
            for k, (loc, text) in viol: ctx.violation(f"{name}:{k}", loc, text)
            for u in sorted(set(und)): ctx.undecided.append(u); ctx.count("undecided_operations")
        ctx.sample("operations: " + ", ".join(SPEC))
    need = ("parse_pipeline", "add_operation", "execute_pipeline", "apply_operation")
    if any(n not in W_.cli.raw for n in need) or not set(["op", "param", "param2", "param3", "param4", "has_param", "has_param2", "has_param3", "has_param4", "param_str", "has_string_param"]) <= {p.get("name") for p in W_.cli.fn("add_operation").params}:
        ctx.undecided.append("the list of operations is not in its usual form")
    else:
        for name, r, err in pmap(parsejob, CASES, 300):
            if err: ctx.undecided.append(f"parsing of {name[0]}: {err.strip().splitlines()[-1]}"); continue
            st, n, viol, und = r
            ctx.count("parsed_operations"); ctx.count("states", st); ctx.count("add_operation_calls", n)
            for k, (loc, text) in viol.items(): ctx.violation(f"parse:{name[0]}:{k}", loc, text)
            for u in sorted(set(und)): ctx.undecided.append(u); ctx.count("undecided_operations")
        try: ctx.count("executor_obligations", executor(W_, lambda k, loc, t: ctx.violation("executor:" + k, loc, t), ctx.undecided))
        except (Budget, RecursionError, KeyError, ValueError, IndexError) as ex: ctx.undecided.append(f"execute_pipeline: {ex}")
