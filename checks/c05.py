"""C05: effects. Every write of a library function goes to its own objects or to an output argument; no static state; no impure callee."""
import irbuild
from ir import Module
from ptrs import Roots, ALLOC
from contracts import CT
IMPURE = set("""time clock clock_gettime gettimeofday timespec_get rand srand random srandom rand_r drand48 lrand48 mrand48 erand48 arc4random getrandom getentropy
 getenv secure_getenv setenv putenv unsetenv strtok localtime gmtime ctime asctime strftime mktime setlocale localeconv getpid getppid gettid pthread_self tmpnam tmpfile mkstemp signal
 system popen strerror fork getcwd gethostname uname rdtsc sleep usleep nanosleep lgamma gamma setjmp longjmp srand48 sched_getcpu times getrusage sysconf getpagesize""".split())
# argument positions an external routine writes through
WRITES = {"memcpy": [0], "memmove": [0], "memset": [0], "memccpy": [0], "qsort": [0], "qsort_r": [0], "snprintf": [0], "sprintf": [0], "vsnprintf": [0], "strcpy": [0], "strncpy": [0], "strcat": [0],
          "strncat": [0], "fread": [0], "fgets": [0], "modf": [1], "modff": [1], "frexp": [1], "frexpf": [1], "strtol": [1], "strtoul": [1], "strtod": [1], "strtof": [1], "strtoull": [1], "strtoll": [1],
          "sincos": [1, 2], "sincosf": [1, 2], "remquo": [2], "sscanf": range(2, 20), "fscanf": range(2, 20), "free": [], "realloc": []}
OKGLOB = {"stderr", "stdout", "stdin"}

class Summary:
    def __init__(self, m, name):
        self.name, self.writes, self.notes = name, {}, []      # root -> first instruction
        self.m, self.f = m, m.fn(name)
        self.R = Roots(self.f)
    def targets(self, sums):
        f, R = self.f, self.R
        for x in f.insts.values():
            if x.b not in f.reach: continue
            if x.op == "store": yield x, R.roots(x.ops[1]), "store"
            elif x.op in ("cmpxchg", "atomicrmw"): yield x, R.roots(x.ops[0]), "atomic update"
            elif x.op == "call":
                c = x.callee or ""
                if c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")): yield x, R.roots(x.ops[0]), c.split(".")[1]
                elif c in sums:
                    for r in list(sums[c].writes):
                        if r[0] == "arg" and r[1] < len(x.ops): yield x, R.roots(x.ops[r[1]]), f"call of {c}"
                        elif r[0] in ("glob", "gval"): yield x, {r}, f"call of {c}"
                elif c in WRITES:
                    for i in WRITES[c]:
                        if i < len(x.ops): yield x, R.roots(x.ops[i]), c

def run(ctx):
    ctx.level = "other"
    ctx.rule = ("every store, block write and call argument written through, of every function of the library: the objects the address can be derived from are local, allocated by the call, "
                "or arguments documented as written; no static object is written or read from outside; no non-deterministic or non-reentrant routine is called")
    ctx.assume = ["external routines write only through the argument positions of their C standard description"]
    m = Module(irbuild.view("flow"))
    sums = {n: Summary(m, n) for n in m.raw}
    ch = True
    while ch:
        ch = False
        for s in sums.values():
            for x, roots, what in s.targets(sums):
                for r in roots:
                    if r[0] in ("arg", "glob", "gval") and r not in s.writes: s.writes[r] = (x, what); ch = True
    unknown = set()
    for n, s in sums.items():
        ctx.count("functions")
        f = s.f
        ct = CT.get(n)
        off = 1 if f.params and f.params[0].get("sret") and ct and ct.names and ct.names[0] != "ret" else 0
        for x, roots, what in s.targets(sums):
            ctx.count("writes")
            if any(r[0] == "unk" for r in roots): ctx.undecided.append(f"{n} {x.loc()}: {what} through a pointer of unknown origin")
        for r, (x, what) in s.writes.items():
            if r[0] == "arg":
                i = r[1] - off
                if ct is None or i < 0: continue
                if f.params[r[1]].get("sret") or f.params[r[1]].get("byval"): continue
                if ct.readonly(i):
                    nm = f.params[r[1]]["name"]
                    ctx.violation(f"{n}:argument-{i + 1}:written", x.loc(), f"{n} writes to its input argument '{nm}' ({what})")
            elif r[0] == "glob":
                ctx.violation(f"{n}:static:{r[1]}", x.loc(), f"{n} modifies static object '{r[1]}' ({what})")
            elif r[0] == "gval":
                ctx.violation(f"{n}:static:{r[1]}", x.loc(), f"{n} writes to memory reached through static pointer '{r[1]}' ({what})")
        for x in f.insts.values():
            if x.b not in f.reach: continue
            if x.op == "call":
                c = x.callee or ""
                ctx.count("calls")
                if c in IMPURE: ctx.violation(f"{n}:calls:{c}", x.loc(), f"{n} calls {c}, whose result or effect does not depend on the arguments alone")
                elif c == "": ctx.undecided.append(f"{n} {x.loc()}: indirect call")
            for o in f.operands(x):
                if o[0] == "g":
                    g = m.globals.get(o[1])
                    if g and g.get("ext") and o[1] not in OKGLOB and o[1] not in m.raw and o[1] not in m.decls:
                        ctx.violation(f"{n}:external:{o[1]}", x.loc(), f"{n} uses external variable '{o[1]}'")
    ctx.need("functions", 30); ctx.need("writes", 150)
    for n in ("fcv_grayscale", "fcv_resize", "fcv_draw_circle"): 
        if n in sums: ctx.sample(f"{n}: writes " + ", ".join(sorted(f"argument {r[1] + 1}" for r in sums[n].writes if r[0] == "arg")) if sums[n].writes else f"{n}: writes only local and fresh memory")
