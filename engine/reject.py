"""Context-sensitive exploration of library functions with given abstract arguments (null pointers, zero or negative numbers)."""
from paths import Exec, Budget, NULL, State
from contracts import CT

class Reject:
    def __init__(self, world): self.w, self.memo, self.busy, self.states = world, {}, set(), 0
    def sret(self, name):
        f = self.w.home(name).fn(name)
        return bool(f.params and f.params[0].get("sret"))
    def run(self, name, spec, cells=()):
        """spec: per parameter None | NULL | ('c', v, bits) | ('rng', lo, hi);  cells: ((param, off, size, value or ('rng',lo,hi)),...)
        -> (frozenset of result kinds, frozenset of written params, list of problems, Exec)"""
        key = (name, spec, cells)
        if key in self.memo: return self.memo[key]
        if key in self.busy: return None
        self.busy.add(key)
        m = self.w.home(name)
        f = m.fn(name)
        args, ranges = [], {}
        for j, p in enumerate(f.params):
            s = spec[j] if j < len(spec) else None
            d = ("p", ("arg", j), 0) if p["ty"] == "ptr" else ("u", ("arg", j))
            if s is not None and s[0] == "rng": ranges[d] = s[1:]
            elif s is not None: d = s
            args.append(d)
        st = State()
        for i, off, sz, v in cells:
            if v[0] == "rng":
                ranges[("u", ("cell", ("arg", i), off, sz))] = v[1:]
                v = ("u", ("cell", ("arg", i), off, sz))
            st.mem[(("arg", i), off, sz)] = v
        written, calls = set(), []
        def hook(e, s, x, a, k):
            c = x.callee or ""
            if c not in CT: return None
            sp = []
            for j, v in enumerate(a):
                if v == NULL or v[0] == "c": sp.append(v)
                elif v[0] == "p": sp.append(None)
                else:
                    r = e.rng(v, 0)
                    sp.append(("rng",) + r if r and r != (0, 2**32 - 1) else None)
            r = self.run(c, tuple(sp))
            if r is None: return None
            kinds, wr, probs, _ = r
            for kind, txt, ins in probs: e.emit(kind, x, s, None, f"{c}: {txt}", k)
            for j in wr:
                if j < len(a) and a[j][0] == "p" and a[j][1][0] == "arg": written.add((a[j][1][1], x))
            res = []
            for kd in sorted(kinds, key=str):
                t = s.copy()
                for j in wr:
                    if j < len(a) and a[j][0] == "p": e.clobber(t, a[j][1], keepptr=True)
                if kd == "null": t.env[x.id] = NULL
                elif kd == "fresh":
                    b = e.newobj(t, x, k); t.obj[b] = "live"; t.env[x.id] = ("p", b, 0)
                elif kd == "void": pass
                elif isinstance(kd, tuple): t.env[x.id] = a[kd[1]]
                elif x.id in e.f.uses: t.env[x.id] = e.fresh(t, x.id)
                res.append(t)
            return res
        def onstore(e, s, x, p, v, k):
            if p[0] == "p" and p[1][0] == "arg": written.add((p[1][1], x))
        try:
            e = Exec(f, m, args=args, ranges=ranges, summary=self.w.summary, hook=hook, fail=False, onstore=onstore, limit=self.w.limit)
            e.run_from(st)
        finally: self.busy.discard(key)
        self.states += e.nstates
        kinds, probs = set(), []
        for o in e.out:
            if o.kind == "ret":
                v = o.val
                kinds.add("void" if v is None else "null" if v == NULL else "fresh" if v[0] == "p" and v[1][0] == "obj" else ("arg", v[1][1]) if v[0] == "p" and v[1][0] == "arg" else "other")
            elif o.kind in ("nullderef", "noreturn"): probs.append((o.kind, o.info, o.ins))
        r = (frozenset(kinds), frozenset(i for i, _ in written), probs, e)
        e.written = written
        self.memo[key] = r
        return r
