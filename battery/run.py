#!/usr/bin/env python3-vt
"""run.py [-p C01,C02] [-k bug|ref] [name substring...]: runs the checks on edited copies (a development tool; no check uses it)."""
import sys, os, subprocess, time, argparse, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import edit, glob, importlib
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "items_*.py"))): importlib.import_module(os.path.basename(f)[:-3])
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument("-p"); ap.add_argument("-k"); ap.add_argument("-j", type=int, default=2); ap.add_argument("-v", action="store_true"); ap.add_argument("names", nargs="*")
a = ap.parse_args()
allp = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(V, "checks/c[0-9]*.py")))
def one(it):
    name, kind, props, edits = it
    t = edit.Tree()
    out = []
    try:
        for op, args in edits: getattr(t, op)(*args)
        ps = a.p.split(",") if a.p else (allp if kind == "ref" else props)
        changed = subprocess.run(["diff", "-rq", edit.REPO + "/src", t.d + "/src"], capture_output=True, text=True).stdout
        for p in ps:
            env = dict(os.environ, FCV_REPO=t.d, FCV_BUILD=t.d + "/build", FCV_EVIDENCE=t.d + "/evidence", FCV_CACHE=os.environ.get("FCV_CACHE", "/tmp/w/cache"))
            t0 = time.time()
            r = subprocess.run([V + "/check", p], capture_output=True, text=True, env=env)
            exp = 1 if kind == "bug" and p in props else 0
            tag = "ok " if r.returncode == exp else ("MISS" if exp == 1 and r.returncode == 0 else "ALARM" if r.returncode == 1 else "BROKEN")
            out.append(f"{tag:6} {kind} {name:34} {p} rc={r.returncode} {time.time()-t0:.0f}s")
            if a.v or tag in ("ALARM", "BROKEN"):
                out.append("    " + "\n    ".join((r.stdout + r.stderr[-1500:]).splitlines()[-8:]))
            elif r.returncode == 1: out.append("    " + (r.stdout.splitlines() + ["", ""])[1][:220])
    finally: t.rm()
    return "\n".join(out)
from concurrent.futures import ThreadPoolExecutor
todo = [i for i in edit.ITEMS if (not a.k or i[1] == a.k) and (not a.names or any(n in i[0] for n in a.names)) and (i[1] == "ref" or not a.p or set(a.p.split(",")) & set(i[2]))]
with ThreadPoolExecutor(a.j) as ex:
    for s in ex.map(one, todo): print(s, flush=True)
