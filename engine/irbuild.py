"""Compiles /repo's current sources to LLVM IR and dumps the analysis views (never runs them)."""
import hashlib, os, subprocess, sys, glob, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FCV_REPO", "/repo")
BUILD = os.environ.get("FCV_BUILD", os.path.join(VERIF, "build"))
CFLAGS = "-O0 -Xclang -disable-O0-optnone -g -fno-discard-value-names -std=gnu17 -Wno-everything".split()
VIEWS = {
    # numeric view: helpers inlined, memory cells promoted, loops simplified
    "num": ["--noalias", "--keep", "@CT,*vendored*", "--pre", "always-inline,function(sroa,early-cse<memssa>)", "--promote",
            "--passes", "function(sroa,early-cse<memssa>,instsimplify,sccp,gvn<no-pre;no-load-pre>,loop-simplify)"],
    # structural view: helpers inlined into the exported functions, locals in SSA form, nothing else changed
    # path view: as written, helpers inlined, locals in SSA form
    "paths": ["--keep", "@CT,*vendored*,parse_pipeline,add_operation,apply_operation,execute_pipeline", "--pre", "always-inline,function(sroa)", "--passes", "function(sroa)"],
    "flow": ["--keep", "@CT,*vendored*", "--pre", "always-inline,function(sroa)", "--passes", "function(sroa,simplifycfg)"],
}
class BuildError(Exception): pass

def run(cmd, out=None):
    if out is None: r = subprocess.run(cmd, capture_output=True, text=True)
    else:
        with open(out, "w") as f: r = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode: raise BuildError(f"{' '.join(cmd)[:200]}: {r.stderr[-2000:]}")
    return r

def tool():
    t = os.path.join(VERIF, "build", "irdump")
    src = os.path.join(VERIF, "tool/irdump.cpp")
    if not os.path.exists(t) or os.path.getmtime(t) < os.path.getmtime(src):
        run(["bash", os.path.join(VERIF, "build.sh")])
    return t

def sources():
    s = sorted(glob.glob(os.path.join(REPO, "src/*.c")))
    if len(s) < 5: raise BuildError("no sources in " + REPO)
    return s

def key():
    h = hashlib.sha256()
    for f in sources() + sorted(glob.glob(os.path.join(REPO, "include/*.h"))) + [os.path.join(VERIF, "tool/irdump.cpp"), __file__, os.path.join(VERIF, "engine/contracts.py")]:
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]

def view(name, cli=False):
    """path of the JSON dump of a view of the library (or of the command line program)"""
    from contracts import CT
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t = tool()
        d = os.path.join(BUILD, "ir-" + key())
        if not os.path.isdir(d):
            for o in glob.glob(os.path.join(BUILD, "ir-*")):
                for f in os.listdir(o): os.unlink(os.path.join(o, f))
                os.rmdir(o)
            os.makedirs(d)
        procs, bcs = [], []
        for s in sources():
            bc = os.path.join(d, os.path.basename(s)[:-2] + ".bc")
            if os.path.basename(s) != "cli.c": bcs.append(bc)
            if not os.path.exists(bc):
                procs.append((s, bc, subprocess.Popen(["/usr/bin/clang-18", *CFLAGS, "-I" + os.path.join(REPO, "include"), "-c", "-emit-llvm", s, "-o", bc + ".tmp"],
                                                      stderr=subprocess.PIPE, text=True)))
        for s, bc, p in procs:
            err = p.communicate()[1]
            if p.returncode: raise BuildError(f"{s} does not compile: {err[-1500:]}")
            os.rename(bc + ".tmp", bc)
        lib = os.path.join(d, "lib.bc")
        if not os.path.exists(lib):
            run(["/usr/bin/llvm-link", *bcs, "-o", lib + ".tmp"]); os.rename(lib + ".tmp", lib)
        out = os.path.join(d, ("cli-" if cli else "lib-") + name + ".json")
        if not os.path.exists(out):
            a = [x.replace("@CT", ",".join(CT)) for x in VIEWS[name]]
            run([t, os.path.join(d, "cli.bc") if cli else lib, *a], out + ".tmp"); os.rename(out + ".tmp", out)
        return out
if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    for v in sys.argv[1:]: print(view(*([v.split(":")[1], True] if ":" in v else [v])))
