"""Explores the command line program's dispatcher (and parser) with symbolic parameters; values are terms compared by evaluation."""
import random
from paths import Exec, State, Budget, NULL, signed
from contracts import CT
W, H = ("u", "W"), ("u", "H")

class Tokens:
    """where a piece of a string comes from: S (the parameter string), S|x (after the first x), S#' ' (a token)"""
    def __init__(self, forced=None): self.dup, self.names, self.forced = {}, {}, forced or {}
    def desc(self, base):
        if base in self.names: return self.names[base]
        if base in self.dup: return self.dup[base]
        if base[0] in ("part", "tok"):
            d = self.desc(base[1])
            return None if d is None else d + ("|" if base[0] == "part" else "#") + base[2]
        if base == ("again",): return "S"
        return None
    def hook(self, e, s, x, a, k):
        """string routines; None if x is not one of them"""
        c = x.callee or ""
        def val(v):
            t = s.copy(); t.env[x.id] = v; return t
        if c in ("strdup", "strndup", "__strdup") and a[0][0] == "p":
            t = s.copy(); b = e.newobj(t, x, k); t.obj[b] = "live"; t.env[x.id] = ("p", b, 0)
            d = self.desc(a[0][1])
            if d is not None: self.dup[b] = d
            else: self.dup.pop(b, None)
            return [t]
        if c in ("strchr", "strrchr", "strstr") and a[0][0] == "p" and e.cstr(s, a[0]) is None:
            ch = chr(a[1][1] & 255) if c != "strstr" and a[1][0] == "c" else e.cstr(s, a[1]) if c == "strstr" else None
            if ch is None or self.desc(a[0][1]) is None: return None
            yes, no = val(("p", ("part", a[0][1], ch), 0)), val(NULL)
            w = self.forced.get((self.desc(a[0][1]), ch)) if c == "strchr" else None
            return [yes] if w else [yes, no] if w is None else [no]
        if c in ("strtok", "strtok_r"):
            d = e.cstr(s, a[1]) or "?"
            if a[0] == NULL: return [val(("p", ("tok", ("again",), d), 0)), val(NULL)]
            if self.desc(a[0][1]) is None: return None
            return [val(("p", ("tok", a[0][1], d), 0)), val(NULL)]
        if c in ("atof", "strtod", "atoi", "atol", "strtol", "strtoul") and a[0][0] == "p":
            d = self.desc(a[0][1])
            if d is None: return None
            t = s.copy(); t.env[x.id] = ("t", "atof" if c in ("atof", "strtod") else "atoi", x.ty, ("u", ("str", d)))
            if c.startswith("strto") and len(a) > 1 and a[1][0] == "p":
                e.clobber(t, a[1][1], keepptr=False)
            return [t]
        if c in ("snprintf", "sprintf") and a[0][0] == "p":
            f = [v for v in a[1:] if e.cstr(s, v)]
            if f:
                i = a.index(f[0])
                arg = a[i + 1] if len(a) > i + 1 else None
                fm = e.cstr(s, f[0])
                t = s.copy(); e.clobber(t, a[0][1])
                if x.id in e.f.uses: t.env[x.id] = e.fresh(t, x.id)
                if arg and arg[0] == "p" and fm.startswith("%s") and self.desc(arg[1]): self.names[a[0][1]] = "fmt:" + self.desc(arg[1]) + fm[2:3]
                else: self.names.pop(a[0][1], None)
                return [t]
        return None

class Opaque(Exception): pass
def teval(v, env):
    k = v[0]
    if k == "c": return signed(v[1], v[2])
    if k == "f": return v[1]
    if k == "u":
        if v in env: return env[v]
        raise Opaque(str(v))
    if k == "null": return 0
    if k == "t":
        op, ty = v[1], v[2]
        if v in env: return env[v]
        if op in ("atof", "atoi"): raise Opaque(str(v))
        if op == "select": return teval(v[4 if teval(v[3], env) else 5], env)
        if op in ("cmp", "fcmp", "not"): 
            if op == "not": return 1 - teval(v[3], env)
            a, b = teval(v[3], env), teval(v[4], env)
            p = v[2][1:] if op == "fcmp" else v[2]
            if p in ("eq", "ne"): return int((a == b) == (p == "eq"))
            if p[0] in "us" and op == "cmp":
                if p[0] == "u":
                    w = v[5]; a %= 1 << w; b %= 1 << w
                p = p[1:]
            return int({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p])
        a = [teval(x, env) for x in v[3:5] if isinstance(x, tuple)]
        n = int(ty[1:]) if ty[0] == "i" and ty[1:].isdigit() else 0
        if op in ("fadd", "add"): r = a[0] + a[1]
        elif op in ("fsub", "sub"): r = a[0] - a[1]
        elif op in ("fmul", "mul"): r = a[0] * a[1]
        elif op == "fdiv":
            if a[1] == 0: raise Opaque("division by zero")
            r = a[0] / a[1]
        elif op == "fneg": r = -a[0]
        elif op in ("sitofp", "uitofp", "fpext", "fptrunc"): return float(a[0] % (1 << v[4]) if op == "uitofp" else a[0])
        elif op in ("fptosi", "fptoui"): r = int(a[0])
        elif op in ("zext", "sext", "trunc"): r = a[0] % (1 << v[4]) if op == "zext" else a[0]
        elif op == "shl": r = a[0] << a[1]
        elif op in ("lshr", "ashr") and a[0] >= 0: r = a[0] >> a[1]
        elif op == "and": r = a[0] & a[1]
        elif op == "or": r = a[0] | a[1]
        elif op in ("sdiv", "udiv", "srem", "urem") and a[1]:
            q = int(abs(a[0]) // abs(a[1])) * (1 if (a[0] < 0) == (a[1] < 0) else -1)
            r = q if op[1:] == "div" else a[0] - q * a[1]
        else: raise Opaque(op)
        return signed(int(r) % (1 << n), n) if n and op[0] != "f" else signed(int(r) % (1 << n), n) if n else r
    raise Opaque(str(k))

def leaves(v, out):
    if v[0] == "t" and v[1] in ("atof", "atoi") or v[0] == "u": out.add(v)
    elif v[0] == "t":
        for x in v[3:]:
            if isinstance(x, tuple): leaves(x, out)
    return out

def same(got, want, known):
    """True, False, or None (not comparable)"""
    if got == want: return True
    if got is None: return None
    if got[0] == "p" or want[0] == "p": return False if got[0] == want[0] else None
    ls = leaves(got, set()) | leaves(want, set())
    if any(l not in known and l[0] == "u" and not isinstance(l[1], str) for l in ls): return None
    rnd = random.Random(7)
    n = 0
    for _ in range(60):
        env = {}
        for l in sorted(ls, key=str):
            env[l] = rnd.choice([1.0, 2.5, 3.0, 5.75, 8.0, 13.25, 21.0, 34.5, 55.0, 89.75, 7.0, 40.0]) if l not in (W, H) else rnd.randint(60, 4000)
        try: a, b = teval(got, env), teval(want, env)
        except (Opaque, OverflowError, ValueError): return None
        n += 1
        if abs(a - b) > 1e-9 * max(1, abs(a), abs(b)): return False
    return True
