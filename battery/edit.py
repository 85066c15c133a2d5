"""Applies a list of edits to a scratch copy of the sources.

fn(file, name, text): replaces the definition of a function;  sub(file, old, new): replaces one occurrence.
"""
import re, os, shutil, tempfile
REPO = os.environ.get("BAT_REPO", "/repo")
class Tree:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="fcvbat-", dir="/tmp")
        for s in ("src", "include"): shutil.copytree(os.path.join(REPO, s), os.path.join(self.d, s))
        for h in ("bindings",):
            if os.path.isdir(os.path.join(REPO, h)): shutil.copytree(os.path.join(REPO, h), os.path.join(self.d, h), ignore=shutil.ignore_patterns("dist*", ".stack-work", "*.o"))
    def path(self, f): return os.path.join(self.d, f if "/" in f else "src/" + f)
    def fn(self, file, name, text):
        p = self.path(file); s = open(p).read()
        m = re.search(r"^(?:static )?[a-zA-Z_][\w \*]*?\n?[\w \*]*\b" + re.escape(name) + r"\(", s, re.M)
        while m and not re.match(r"[^;{]*\{", s[m.start():]): m = re.compile(r"^(?:static )?[a-zA-Z_][\w \*]*?\n?[\w \*]*\b" + re.escape(name) + r"\(", re.M).search(s, m.end())
        if not m: raise SystemExit(f"{file}: no function {name}")
        e = s.index("\n}\n", m.start()) + 3
        open(p, "w").write(s[:m.start()] + text.strip("\n") + "\n" + s[e:])
    def sub(self, file, old, new, nth=0):
        p = self.path(file); s = open(p).read()
        ms = list(re.finditer(self.pat(old), s))
        if len(ms) <= nth: raise SystemExit(f"{file}: text not found: {old[:150]!r}")
        m = ms[nth]
        open(p, "w").write(s[:m.start()] + new + s[m.end():])
    @staticmethod
    def pat(old):
        """white space and comments between words may differ"""
        ws = r"(?:\s|//[^\n]*\n)"
        body = (ws + "+").join(re.escape(w) for w in old.split())
        return body
    def allsub(self, file, old, new):
        p = self.path(file); s = open(p).read()
        if old not in s: raise SystemExit(f"{file}: text not found: {old[:150]!r}")
        open(p, "w").write(s.replace(old, new))
    def rm(self): shutil.rmtree(self.d)
ITEMS = []     # (name, kind, props, edits)
def item(name, kind, props, *edits): ITEMS.append((name, kind, props.split(), edits))
def fn(*a): return ("fn", a)
def sub(*a): return ("sub", a)
def allsub(*a): return ("allsub", a)
