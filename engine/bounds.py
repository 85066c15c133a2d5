"""C01: every access of a function lies inside its object (numeric view)."""
from poly import Poly
from fa import FA, C, Ptr
CT_NONE = ("free", "exit", "abort", "__assert_fail")
STR_ARGS = {"strlen": [0], "fopen": [0, 1], "strcmp": [0, 1], "fprintf": [1], "printf": [0], "puts": [0], "sscanf": [0, 1], "perror": [0],
            "strchr": [0], "strdup": [0], "atoi": [0], "atof": [0], "strtol": [0], "strtod": [0], "isspace": [], "fputs": [0]}

def accesses(fa, ins):
    """(pointer operand, size polynomial list, what)"""
    d, c = ins.d, ins.callee or ""
    if ins.op == "load": yield ins.ops[0], [C(d["size"])], "read"
    elif ins.op == "store": yield ins.ops[1], [C(d["size"])], "write"
    elif ins.op == "call":
        if c.startswith(("llvm.memcpy", "llvm.memmove")) or c in ("memcpy", "memmove"):
            k = fa.U(ins.ops[2], ins.b)
            yield ins.ops[0], [k], "write"
            yield ins.ops[1], [k], "read"
        elif c.startswith("llvm.memset") or c == "memset": yield ins.ops[0], [fa.U(ins.ops[2], ins.b)], "write"
        elif c == "memcmp" or c == "bcmp":
            k = fa.U(ins.ops[2], ins.b)
            yield ins.ops[0], [k], "read"
            yield ins.ops[1], [k], "read"
        elif c in ("fread", "fwrite"): yield ins.ops[0], [fa.U(ins.ops[1], ins.b) * fa.U(ins.ops[2], ins.b)], "write"
        elif c == "fgets": yield ins.ops[0], [fa.U(ins.ops[1], ins.b)], "write"
        elif c in ("snprintf", "vsnprintf"): yield ins.ops[0], [fa.U(ins.ops[1], ins.b)], "write"
        elif c in fa.contracts:
            ct = fa.contracts[c]
            for nm, e in ct.bufs.items():
                i = ct.index(nm)
                if i >= len(ins.ops): continue
                if e is None: continue
                if e == "str": yield ins.ops[i], "str", "string"; continue
                env = fa.callenv(ins, ct)
                es = e if isinstance(e, (list, tuple)) else [e]
                dims = tuple((env(k) - 1, False) for k in ("w", "h", "ch", "n") if k in ct.names and not fa.isptr(ins.ops[ct.index(k)]))
                yield ins.ops[i], [x(env) if callable(x) else C(x) for x in es], f"argument {nm!r} of {c}", dims
        elif c in STR_ARGS:
            for i in STR_ARGS[c]: yield ins.ops[i], "str", "string"

def objname(fa, base):
    """stable description of an object: parameter position, allocation by callee, local"""
    k = base[0]
    if k == "arg": return f"argument-{base[1] + 1}"
    if k == "glob": return f"global-{base[1]}"
    if k == "heap": return "heap-block"
    if k == "stack": return "local-object"
    if k == "ret": return "result-of-" + (fa.f.insts[base[1]].callee or "call")
    if k == "fld": return f"field-{base[2]}-of-{objname(fa, base[1])}"
    return "unknown-object"

def check(fn, contracts):
    """(analysis, number of obligations, unproven obligations)"""
    fa = FA(fn, contracts)
    n, bad = 0, []
    def fail(ins, what, why, base, goal=None, fs=()): bad.append({"ins": ins, "what": what, "why": why, "obj": objname(fa, base), "goal": goal, "facts": tuple(fs)})
    for ins in fn.insts.values():
        if ins.b not in fn.reach: continue
        for o, sizes, what, *dims in accesses(fa, ins):
            n += 1
            dims = dims[0] if dims else ()
            for p, fs in fa.alternatives(o):
                if p.base[0] == "null": continue
                fs = tuple(fs)
                if sizes == "str":
                    if p.base[0] == "glob" or fa.isstr(p.base):
                        if p.base[0] == "glob" and p.off.isconst(): continue
                        if not fa.prove(p.off, ins.b, extra=fs): fail(ins, what, "before the string", p.base, p.off, fs)
                        elif fa.isstr(p.base) and not fa.prove(fa.slen(p.base) - p.off, ins.b, extra=fs): fail(ins, what, "beyond the string", p.base, fa.slen(p.base) - p.off, fs)
                    else: fail(ins, what, "not known to be a terminated string", p.base)
                    continue
                fs += tuple(dims)
                s = fa.size_of(p.base)
                if s is None: fail(ins, what, "of an unknown object", p.base); continue
                if not fa.prove(p.off, ins.b, extra=fs): fail(ins, what, "before the start", p.base, p.off, fs)
                for sz in sizes:
                    if not fa.prove(s - p.off - sz, ins.b, extra=fs): fail(ins, what, "beyond the end", p.base, s - p.off - sz, fs)
    return fa, n, bad

def triage(fa, b):
    """unproven obligation -> ('violation', witness) or ('undecided', reason)"""
    import witness
    if b["goal"] is None: return "undecided", b["why"]
    r, w = witness.find(fa, b["goal"], b["ins"], b["facts"])
    return ("violation" if r == "witness" else "undecided"), w
