"""How the command line program's parser, its list of operations and its executor hand parameters to the dispatcher."""
from paths import Exec, State, Budget, NULL
from dispatch import Tokens, teval, Opaque
import random
PAR = ["param", "param2", "param3", "param4"]
def F(d): return ("num", "atof", d)
def N(d): return ("num", "atoi", d)
Q = "P| "                                    # what follows the name
NONE, ONE, TWO = {}, {"param": F(Q)}, {"param": F(Q), "param2": F(Q + "| ")}
STR = {"param_str": Q}
DRAW = {"param": F(Q + "| "), "param2": F(Q + "| | "), "param3": F(Q + "| | |x"), "param_str": Q}
def crops():
    return [{"param": x, "param2": y, "param3": N(Q), "param4": N(Q + "~")} for x in (("f", 0.0), N(Q + "~~")) for y in (("f", 0.0), N(Q + "~~~"))]
# (text present, forms accepted): text present says which separators the user's parameter text contains
PS = ("P", " ")
def has(**k): return {PS: True, **{(Q, {"sp": " ", "pct": "%", "x": "x"}[n]): v for n, v in k.items()}}
BARE = ({PS: False}, [NONE])
NUM = [(has(sp=False), [ONE]), (has(sp=True), [TWO])]
LOOSE = [(has(), [NONE, ONE, TWO])]
FORMS = {n: [(has(sp=True), [DRAW])] for n in ("circle", "disk")}
FORMS.update({"watershed": [(has(), [STR])], "crop": [(has(), crops())],
  "resize": [(has(pct=True), [STR]), (has(pct=False, x=True), [STR]), (has(pct=False, x=False, sp=False), [ONE]), (has(pct=False, x=False, sp=True), [TWO])],
  "trim": [(has(pct=True), [STR]), (has(pct=False, sp=False), [ONE])], "border": [(has(sp=True), [{"param": F(Q + "| "), "param_str": Q}])],
  "extract_document_to": [(has(x=True), [{"param": N(Q), "param2": N(Q + "|x")}])], "extract_document": [(has(), [NONE])]})
for n in ("blur", "rotate", "erode", "dilate", "close", "open"): FORMS[n] = [(has(sp=False), [ONE])]
for n in ("grayscale", "threshold", "bw_smart", "bw_smooth", "detect_corners", "draw_corners", "sobel", "flip_x", "flip_y", "histogram"): FORMS[n] = LOOSE
CASES = [(n, i) for n in FORMS for i in range(len(FORMS[n]) + 1)]
def case(n, i): return (FORMS[n] + [BARE])[i]

class PTokens(Tokens):
    def desc(self, base):
        if base[0] == "rest": 
            d = self.desc(base[1]); return None if d is None else d + "~"
        return super().desc(base)

def chain(f, o):
    """(constant offset, innermost instruction or operand, variable part) of a pointer operand"""
    off, var, n = 0, [], 0
    while o[0] == "i" and n < 12:
        i = f.insts[o[1]]
        if i.op != "getelementptr": break
        off += i.d.get("coff", 0); var += i.d.get("vars") or []; o = i.ops[0]; n += 1
    return off, o, var

class Parser:
    def __init__(self, world):
        self.m = world.cli; self.w = world
        self.f, self.add = self.m.fn("parse_pipeline"), self.m.fn("add_operation")
        self.nm = [p.get("name") for p in self.add.params]
    def run(self, name, forced):
        tk = PTokens(forced); tk.names[("piece",)] = "P"
        self.tk = tk
        def hook(e, s, x, a, k):
            c = x.callee or ""
            def val(v):
                t = s.copy(); t.env[x.id] = v; return t
            if c in ("strtok_r", "strtok"):
                if a[0] == NULL: return [val(NULL)]
                return [val(("p", ("piece",), 0)), val(NULL)]
            if c in ("strcmp", "strncmp", "strcasecmp", "strcoll"):
                for i in (0, 1):
                    if a[i][0] == "p" and tk.desc(a[i][1]) == "P":
                        t = e.cstr(s, a[1 - i])
                        if t is None: return None
                        n = name
                        if c == "strncmp":
                            if a[2][0] != "c": return None
                            t, n = t[:a[2][1]], n[:a[2][1]]
                        if c == "strcasecmp": t, n = t.lower(), n.lower()
                        return [val(("c", 0 if t == n else 1, 32))]
            if c in ("strchr", "strrchr", "strpbrk") and a[0][0] == "p" and tk.desc(a[0][1]) == "P":
                if c == "strchr" and a[1][0] == "c" and chr(a[1][1] & 255) == " ": return [val(("p", ("part", a[0][1], " "), 0)) if tk.forced[PS] else val(NULL)]
                return [val(("p", ("ext", x.id), 0)), val(NULL)]
            if c == "strlen" and a[0][0] == "p" and tk.desc(a[0][1]): return [val(e.fresh(s, x.id))]
            if c in ("strtol", "strtoul", "strtod") and a[0][0] == "p" and len(a) > 1 and a[1][0] == "p" and tk.desc(a[0][1]):
                t = s.copy(); d = tk.desc(a[0][1])
                t.env[x.id] = ("num", "atof" if c == "strtod" else "atoi", d)
                if a[1][2] is not None: t.mem[(a[1][1], a[1][2], 8)] = ("p", ("rest", a[0][1]), 0)
                return [t]
            if c == "strrchr": return None
            if c == "add_operation":
                t = s.copy(); t.ev = t.ev + (("add", x.loc()) + tuple(a),)
                if len(t.ev) > 2: raise Budget("several operations per fragment")
                return [t]
            r = tk.hook(e, s, x, a, k)
            if r:
                for t in r:
                    v = t.env.get(x.id)
                    if v and v[0] == "t" and v[1] in ("atof", "atoi"): t.env[x.id] = ("num", v[1], v[3][1][1])
            return r
        st = State()
        args = [("p", ("arg", j), 0) if p["ty"] == "ptr" else ("u", ("arg", j)) for j, p in enumerate(self.f.params)]
        e = Exec(self.f, self.m, args=args, summary=self.w.summary, hook=hook, fail=False, terms=True, limit=30000, strings={("piece",): name})
        e.run(st)
        return e
    def value(self, got, want):
        """compares a number handed to add_operation"""
        from dispatch import leaves
        def norm(v):
            if not isinstance(v, tuple): return v
            if v and v[0] == "num": return ("u", v)
            return tuple(norm(x) for x in v)
        g, w = norm(got), norm(want)
        if g == w: return True
        ls = leaves(g, set()) | leaves(w, set())
        for l in ls:
            if l[0] != "u" or not isinstance(l[1], tuple) or l[1][0] != "num": return None
        gk, wk = {l[1] for l in leaves(g, set())}, {l[1] for l in leaves(w, set())}
        if any(k[1] != k2[1] and k[2] == k2[2] for k in gk for k2 in wk): return None       # the same text read by another routine
        rnd = random.Random(3)
        for _ in range(30):
            env = {l: float(rnd.choice([1, 2, 3, 5, 8, 13, 21])) if l[1][1] == "atof" else rnd.randint(1, 200) for l in sorted(ls, key=str)}
            try: 
                if abs(teval(g, env) - teval(w, env)) > 1e-9: return False
            except (Opaque, OverflowError, ValueError): return None
        return True
    def check(self, ev, name, forms):
        """True, None or a text saying what is wrong with one add_operation call"""
        loc, a = ev[1], dict(zip(self.nm, ev[2:]))
        d = self.tk.desc(a["op"][1]) if a["op"][0] == "p" else None
        if d is None:
            s = None
            return None
        if d != "P": return f"operation name taken from elsewhere"
        flags = {}
        for n in PAR + ["param_str"]:
            h = a["has_" + ("string_param" if n == "param_str" else n)]
            if h[0] != "c": return None
            flags[n] = h[1] != 0
        sel = [f for f in forms if {n for n in f} == {n for n in flags if flags[n]}]
        if not sel: return "gives the parameters " + (", ".join(n for n in flags if flags[n]) or "(none)")
        best = None
        for f in sel:
            v, t = True, ""
            for n, w in f.items():
                g = a[n]
                if n == "param_str":
                    dd = self.tk.desc(g[1]) if g[0] == "p" else None
                    if g == NULL: r = False
                    elif dd is None: r = None
                    else:
                        dd = dd[4:] if dd.startswith("fmt:") else dd
                        r = True if dd.rstrip() == w.rstrip() else (False if dd.startswith("P") else None)
                else: r = self.value(g, w)
                if r is False: v, t = False, f"{n} is not what the user gave"; break
                if r is None: v = None; t = n
            if v is True: return True
            if best is None or v is None: best = (v, t)
        return None if best[0] is None else best[1]

def argload(f, o):
    """(field offset, index description) of an operand loaded from a structure, or of an address inside it"""
    n = 0
    while o[0] == "i" and f.insts[o[1]].op in ("trunc", "zext", "sext", "freeze", "bitcast") and n < 4: o = f.insts[o[1]].ops[0]; n += 1
    if o[0] != "i": return None
    i = f.insts[o[1]]
    if i.op == "load":
        off, base, var = chain(f, i.ops[0])
        return ("load", off, base, var)
    off, base, var = chain(f, o)
    return ("addr", off, base, var)

def fields_written(world):
    """parameter of add_operation -> [(field offset, instruction, text)]"""
    m = world.cli; f = m.fn("add_operation")
    nm = [p.get("name") for p in f.params]
    out = {}; cuts = []
    tk = Tokens()
    for j, p in enumerate(f.params):
        if p["ty"] == "ptr": tk.names[("arg", j)] = nm[j]
    def ops_field(x, o):
        off, base, var = chain(f, o)
        if base[0] == "i" and f.insts[base[1]].op == "phi" and not var: return None
        return off if var else None
    def onstore(e, s, x, p, v, k):
        if v is None: return
        off = ops_field(x, x.ops[1])
        if off is None: return
        if v[0] == "u" and v[1][0] == "arg": out.setdefault(nm[v[1][1]], set()).add((off, x.loc()))
        elif v[0] == "p":
            d = tk.desc(v[1])
            if d in nm: out.setdefault(d, set()).add((off, x.loc()))
        elif v[0] == "t": out.setdefault("?", set()).add((off, x.loc()))
    def hook(e, s, x, a, k):
        c = x.callee or ""
        if c in ("strncpy", "strcpy", "memcpy", "snprintf", "strlcpy") and len(a) > 1:
            src = [v for v in a[1:] if v[0] == "p" and tk.desc(v[1]) in nm]
            off = ops_field(x, x.ops[0])
            if src and off is not None:
                out.setdefault(tk.desc(src[0][1]), set()).add((off, x.loc()))
                b = [v[1] for v in a[1:] if v[0] == "c"]
                if b and c != "memcpy": cuts.append((tk.desc(src[0][1]), min(b) - (1 if c != "strncpy" else 0), x.loc()))
        if c == "strndup" and a[0][0] == "p" and tk.desc(a[0][1]) in nm and a[1][0] == "c": cuts.append((tk.desc(a[0][1]), a[1][1], x.loc()))
        return tk.hook(e, s, x, a, k)
    st = State()
    args = [("p", ("arg", j), 0) if p["ty"] == "ptr" else ("u", ("arg", j)) for j, p in enumerate(f.params)]
    e = Exec(f, m, args=args, summary=world.summary, hook=hook, fail=False, terms=True, limit=6000, onstore=onstore)
    e.run(st)
    return out, cuts, any(i.callee == "strlen" for i in f.insts.values() if i.op == "call")

def executor(world, violation, undecided):
    """checks execute_pipeline's use of the list and of the images; returns the number of obligations"""
    m = world.cli; f = m.fn("execute_pipeline"); ap = m.fn("apply_operation")
    nm = [p.get("name") for p in ap.params]
    en = [p.get("name") for p in f.params]
    ji = nm.index("input_data"); n = 0
    seen = {}
    LAST = (("last",), 0, 8)
    def hook(e, s, x, a, k):
        if x.callee != "apply_operation": return None
        t = s.copy(); b = e.newobj(t, x, k); t.obj[b] = "live"
        expect = s.mem.get(LAST)
        seen[x.loc()] = x
        if expect is None: undecided.append("which image an operation is applied to")
        elif not sameptr(a[ji], expect): violation("chain", x.loc(), "an operation is applied to another image than the previous operation's result")
        for w in ("width", "height"):
            if w in nm and w in en and a[nm.index(w)] != ("p", ("arg", en.index(w)), 0): violation("dims", x.loc(), f"an operation is given another {w} than the current one")
        r = ("p", b, 0)
        t.env[x.id] = r; t.ev = (("applied",),); t.mem[LAST] = r
        z = s.copy(); z.env[x.id] = NULL; z.ev = (("failed",),)
        return [t, z]
    st = State()
    args = [("p", ("arg", j), 0) if p["ty"] == "ptr" else ("u", ("arg", j)) for j, p in enumerate(f.params)]
    st.mem[LAST] = args[en.index("input_data")]
    e = Exec(f, m, args=args, summary=world.summary, hook=hook, fail=False, terms=True, limit=8000)
    e.const = {("last",)}
    e.run(st)
    if not seen: undecided.append("execute_pipeline: no call of apply_operation"); return 0
    for o in e.out:
        if o.kind != "ret": continue
        n += 1
        last = o.st.ev[-1] if o.st.ev else None
        if last and last[0] == "failed":
            if o.val != NULL: violation("failed", o.ins.loc(), "an image is returned although an operation failed")
        elif o.val == NULL: violation("null", o.ins.loc(), "no image is returned although every operation succeeded")
        elif o.val[0] == "p" and o.st.mem.get(LAST) is not None and not sameptr(o.val, o.st.mem[LAST]): violation("last", o.ins.loc(), "the returned image is not the last operation's result")
    got, cuts, guarded = fields_written(world)
    for x in seen.values():
        for j, name in enumerate(nm):
            src = "op" if name == "operation" else name
            if src not in PAR + ["op", "param_str", "has_string_param"] + ["has_" + p for p in PAR]: continue
            r = argload(f, x.ops[j]); w = got.get(src)
            other = sorted(k for k, z in got.items() if k not in (src, "?") and r and r[1] in {o for o, _ in z})
            if r and not w and other: violation("field:" + name, x.loc(), f"the dispatcher's {name} is read from the field in which the parser's {other[0]} is stored"); n += 1; continue
            if r is None or not w: undecided.append(f"how {name} reaches the dispatcher"); continue
            n += 1
            offs = {o for o, _ in w}
            if r[1] not in offs or len(offs) > 1: violation("field:" + name, x.loc(), f"the dispatcher's {name} is read from another field than the one the parser's {src} is stored in")
        r = argload(f, x.ops[nm.index("operation")])
        if r and len(r[3]) == 1:
            v = r[3][0][0] if isinstance(r[3][0], (list, tuple)) else None
            if v and v[0] == "i" and f.insts[v[1]].op in ("sext", "zext"): v = f.insts[v[1]].ops[0]
            if v and v[0] == "i" and f.insts[v[1]].op == "phi":
                ph = f.insts[v[1]]; n += 1
                for o, _ in ph.ops:
                    c = const(o)
                    if c is not None and c != 0: violation("first", x.loc(), "the first operations of the pipeline are skipped")
                    if o[0] == "i" and f.insts[o[1]].op == "add" and any(q == ("i", ph.id) or list(q) == ["i", ph.id] for q in f.insts[o[1]].ops):
                        s = [const(q) for q in f.insts[o[1]].ops if const(q) is not None]
                        if s and s[0] != 1: violation("step", x.loc(), "operations of the pipeline are skipped")
            else: undecided.append("order of the operations")
    for d, b, loc in cuts:
        n += 1
        if d == "param_str" and not guarded: violation("cut", loc, f"a string parameter is cut off after {b} characters without an error")
        if d == "op" and b < 19: violation("cutname", loc, f"operation names are cut off after {b} characters")
    return n
def const(o):
    if o[0] != "c": return None
    try: return int(o[1])
    except (TypeError, ValueError): return None

def sameptr(a, b): return a == b or a[0] == b[0] == "p" and a[1] == b[1] and (a[2] is None or b[2] is None)
