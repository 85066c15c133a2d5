"""Abstract runs of the command line program's main with a protocol of the steps it performs."""
from paths import Exec, State, Budget, NULL
from contracts import CT
W0, H0, C0 = ("u", ("loaded", "width")), ("u", ("loaded", "height")), ("u", ("loaded", "channels"))
W1, H1 = ("u", ("result", "width")), ("u", ("result", "height"))

class Program:
    def __init__(self, world):
        self.w = world
        self.m = world.cli
        self.fn = self.m.fn("main")
        self.overlap, self.loads = False, []
        self.okvals, self.failvals = self.parse_results()
    def parse_results(self):
        """(values of parse_pipeline on success, on failure): failure values are those returned after a failed allocation"""
        if "parse_pipeline" not in self.m.raw: return {("c", 1, 32)}, {("c", 0, 32)}
        e = self.w.result("parse_pipeline")
        if e is None: return {("c", 1, 32)}, {("c", 0, 32)}
        al = {o.val for o in e.out if o.kind == "ret" and o.val and o.val[0] == "c"}
        bad = {o.val for o in e.out if o.kind == "ret" and o.st.failed and o.val and o.val[0] == "c"}
        good = {o.val for o in e.out if o.kind == "ret" and not o.st.failed and o.val and o.val[0] == "c"}
        self.overlap = bool(bad) and not (good - bad)
        return (al - bad) or {("c", 1, 32)}, bad or {("c", 0, 32)}
    def cellset(self, e, s, p, v):
        if p[0] == "p" and p[2] is not None:
            for k in list(s.mem):
                if k[0] == p[1] and k[1] < p[2] + 4 and p[2] < k[1] + k[2]: del s.mem[k]
            s.mem[(p[1], p[2], 4)] = v
    def cell(self, e, s, p): return s.mem.get((p[1], p[2], 4)) if p[0] == "p" and p[2] is not None else None
    def hook(self, e, s, x, a, k):
        c = x.callee or ""
        def out(v, ev, obj=False, **cells):
            t = s.copy(); t.ev = t.ev + ((ev,) if ev else ())
            if obj:
                b = e.newobj(t, x, k); t.obj[b] = "live"; v = ("p", b, 0)
                t.ev = t.ev[:-1] + (t.ev[-1] + (v,),)
            if len(t.ev) != len(set(t.ev)): t.ev = tuple(reversed(dict.fromkeys(reversed(t.ev))))
            if c in ("parse_pipeline", "execute_pipeline"):
                for v2 in a:
                    if v2[0] == "p" and v2[1][0] == "obj": e.clobber(t, v2[1], keepptr=True)
            for j, cv in cells.items(): self.cellset(e, t, a[int(j[1:])], cv)
            if x.ty != "void": t.env[x.id] = v
            return t
        if c == "parse_pipeline":
            return [out(v, ("parsed",)) for v in sorted(self.okvals)] + [out(v, ("parse-failed",)) for v in sorted(self.failvals)]
        if c.startswith("stbi_load"):
            if c == "stbi_load" and len(a) == 5: self.loads.append(a[4])
            return [out(None, ("loaded",), True, _1=W0, _2=H0, _3=C0), out(NULL, ("load-failed",))]
        if c in ("execute_pipeline", "apply_operation"):
            i = len(a) - 1
            ev = (self.cell(e, s, a[0]), self.cell(e, s, a[1]), a[i])
            if c == "execute_pipeline" and not self.opts.get("newdims"): pass
            r = [out(None, ("executed",) + ev, True, _0=W1, _1=H1), out(NULL, ("execute-failed",) + ev, _0=W1, _1=H1)]
            if c == "execute_pipeline":
                t = out(a[i], ("executed",) + ev + (a[i],)); r.append(t)       # a pipeline of no operations
            return r
        if c == "fcv_get_exif_orientation":
            vals = self.opts.get("orientation") or range(1, 9)
            return [out(("c", v, 32), ("orientation", v)) for v in vals]
        if c in CT and e.f.d and x.ty == "ptr":
            ev = (c,) + tuple(a)
            return [out(None, ("call",) + ev, True), out(NULL, ("call-failed",) + ev)]
        if c.startswith("stbi_write_"):
            ev = (c,) + tuple(a)
            return [out(("c", 1, 32), ("written",) + ev), out(("c", 0, 32), ("write-failed",) + ev)]
        if c in ("printf", "fprintf", "puts", "fputs", "fwrite"):
            for v in a:
                t = e.cstr(s, v)
                if t and "uccess" in t:
                    st = out(e.fresh(s, x.id) if x.id in e.f.uses else None, ("success-message",))
                    return [st]
        return None
    def run(self, argc=None, strings=None, fail=False, **opts):
        self.opts = opts
        st = State()
        args = [("u", ("arg", 0)) if argc is None else ("c", argc, 32), ("p", ("arg", 1), 0)]
        strs = {}
        for i in range(8 if argc is None else argc):
            st.mem[(("arg", 1), 8 * i, 8)] = ("p", ("argv", i), 0)
            if strings and i in strings: strs[("argv", i)] = strings[i]
        e = Exec(self.fn, self.m, args=args, summary=self.w.summary, hook=self.hook, fail=fail, strings=strs, terms=True, limit=20000)
        e.const = {('arg', 1)}
        e.run(st)
        return e
