#!/usr/bin/env python3
"""mkseed.py <id>...: (re)writes seeded/<id>/{patch.diff,meta.json,demo.sh} from the table in seeds.py; demo.c is written by hand."""
import sys, os, json, subprocess, difflib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import edit
from seeds import SEEDS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds the demonstration against the sources in the current directory and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
gcc -g -O1 %s -Iinclude -o "$d/demo" "$here/demo.c" $(ls src/*.c | grep -v 'src/cli\\.c') -lm %s 2>"$d/log" || { cat "$d/log"; exit 2; }
cd "$d" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
'''
CLI = '''#!/bin/bash
# builds the command line program from the sources in the current directory and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
gcc -w -O1 -Iinclude -o "$d/flatcv" src/*.c -lm 2>"$d/log" || { cat "$d/log"; exit 2; }
cd "$d" && timeout 120 python3 "$here/demo.py" "$d/flatcv"
'''
WRAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup"
for i in sys.argv[1:] or SEEDS:
    prop, edits, needs, breaks, mode = SEEDS[i]
    d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
    t = edit.Tree()
    for op, args in edits: getattr(t, op)(*args)
    out = []
    for f in sorted(set(a[0] for op, a in edits)):
        p = f if "/" in f else "src/" + f
        out += [f"diff --git a/{p} b/{p}\n"] + list(difflib.unified_diff(open("/repo/" + p).readlines(), open(t.d + "/" + p).readlines(), "a/" + p, "b/" + p))
    t.rm()
    open(d + "/patch.diff", "w").write("".join(out))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if mode == "cli": open(d + "/demo.sh", "w").write(CLI)
    elif mode != "own":
        open(d + "/demo.sh", "w").write(DEMO % (("-fsanitize=address" if mode == "asan" else ""), (WRAP if mode == "wrap" else "")))
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], capture_output=True, text=True)
    print(i, "applies" if r.returncode == 0 else r.stderr[:300])
