"""Runs the path engine on every function of the library and of the program, with call summaries computed bottom-up."""
import irbuild
from ir import Module
from contracts import CT
from paths import Exec, Budget, NULL

class World:
    def __init__(self, limit=60000):
        self.lib = Module(irbuild.view("paths"))
        self.cli = Module(irbuild.view("paths", cli=True))
        self.limit, self.sums, self.res, self.err, self.busy = limit, {}, {}, {}, set()
    def home(self, name):
        if name in self.lib.raw: return self.lib
        if name in self.cli.raw: return self.cli
    def roots(self):
        """functions analysed on their own: the library's and the program's"""
        return [n for n in CT if n in self.lib.raw] + self.program()
    def program(self):
        """main and the functions it calls that were not inlined"""
        out, todo = [], ["main"]
        while todo:
            n = todo.pop()
            if n in out or n not in self.cli.raw: continue
            out.append(n)
            for b in self.cli.raw[n]["blocks"]:
                for i in b["insts"]:
                    if i["op"] == "call" and i.get("callee"): todo.append(i["callee"])
        return out
    def explore(self, name, **kw):
        m = self.home(name)
        e = Exec(m.fn(name), m, summary=self.summary, limit=kw.pop("limit", self.limit), **kw)
        e.run()
        return e
    def result(self, name):
        if name not in self.res:
            try: self.res[name] = self.explore(name)
            except (Budget, RecursionError) as ex: self.res[name] = None; self.err[name] = str(ex)
        return self.res[name]
    def summary(self, name):
        if name in self.sums: return self.sums[name]
        m = self.home(name)
        if m is None or name in self.busy: return None
        self.busy.add(name)
        try:
            f = m.fn(name)
            e = self.result(name)
            ct = CT.get(name)
            ptrs = [i for i, p in enumerate(f.params) if p["ty"] == "ptr"]
            off = 1 if f.params and f.params[0].get("sret") and ct and ct.names[0] != "ret" else 0
            wr = {i for i in ptrs if ct is None or i - off < 0 or not ct.readonly(i - off)}
            isptr = f.d.get("retty", "") == "ptr"
            s = {"outs": set(), "escapes": set(), "nullderef": set(), "writes": wr}
            if e is None: s["outs"] = {(k, frozenset()) for k in (("null", "fresh") if isptr else ("void",) if f.d.get("retty") == "void" else ("other",))}
            else:
                for o in e.out:
                    if o.kind != "ret": continue
                    v = o.val
                    k = "void" if v is None else "null" if v == NULL else "fresh" if v[0] == "p" and v[1][0] == "obj" else ("arg", v[1][1]) if v[0] == "p" and v[1][0] == "arg" else "other"
                    s["outs"].add((k, frozenset(b[1] for b, z in o.st.obj.items() if b[0] == "arg" and z == "freed")))
                s["escapes"] = set(e.argesc)
            for i in ptrs:
                if f.params[i].get("sret") or f.params[i].get("byval"): continue
                try:
                    args = [("p", ("arg", j), 0) if p["ty"] == "ptr" else ("u", ("arg", j)) for j, p in enumerate(f.params)]
                    args[i] = NULL
                    g = self.explore(name, args=args, fail=False)
                    if any(o.kind == "nullderef" for o in g.out): s["nullderef"].add(i)
                except Budget: pass
            self.sums[name] = s
            return s
        finally: self.busy.discard(name)
def where(e, o):
    t = e.lines(o.trail)
    return " -> ".join(f"{f}:{l}" for f, l in t[-8:])
