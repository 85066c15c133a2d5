"""C16: colour strings."""
import irbuild
from ir import Module
from contracts import CT
from strset import Run, judge, text
FN = "fcv_parse_hex_color"

def run(ctx):
    ctx.level = "other"
    ctx.rule = ("value-set abstract interpretation of the parser over all strings: per character the set of possible bytes, split at branches; outputs as sums of tables over single characters; "
                "every returning state is compared with the specified language and digits, reads behind a possible terminator are reported; uses of the parser: the three outputs go to distinct places")
    ctx.assume = ["strlen, sscanf and strtol with %x/base 16 and the ctype routines behave as in the C locale", "strings whose length exceeds ten characters are one case"]
    m = Module(irbuild.view("paths"))
    if FN not in m.raw:
        ctx.undecided.append("parser not found"); ctx.need("obligations", 1); return
    f = m.fn(FN)
    outs = [CT[FN].index(k) for k in ("r", "g", "b")]
    r = Run(f, m, CT[FN].index("hex"), outs)
    ctx.count("functions")
    r.run()
    why = r.unknown[0] if r.unknown else None
    ctx.count("obligations"); ctx.count("returning_states", len(r.rets))
    for st, at, t in r.beyond[:1]:
        ctx.violation(f"{FN}:read", at.loc(), f"{FN}: {t} (strings such as \"{text(st)}\")")
    for st in r.rets:
        w = judge(r, st, outs)
        if w:
            ctx.violation(f"{FN}:value", f"{f.file}:{r.f.blocks[st.p][-1].d.get('line', 0) if st.p >= 0 else 0}", f"{FN}: {w}")
            break
    if why: ctx.undecided.append(f"{FN}: {why}")
    else: ctx.sample(f"{FN}: {len(r.rets)} classes of strings cover all strings")
    # every caller reads what it asked for
    for name in m.raw:
        g = m.fn(name)
        for i in g.insts.values():
            if i.op == "call" and i.callee == FN and i.b in g.reach:
                ctx.count("call_sites")
                ps = [str(o) for o in i.ops[1:4]]
                if len(set(ps)) < 3: ctx.violation(f"{name}:outputs", i.loc(), f"{name}: two colour channels are written to the same place")
    ctx.need("obligations", 1)
