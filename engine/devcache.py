"""Development only (FCV_CACHE=<directory>): reuses results of functions whose IR, the engine and the check are unchanged."""
import os, json, hashlib, pickle
D = os.environ.get("FCV_CACHE")
_eng = None
def strip(x):
    if isinstance(x, dict): return {k: strip(v) for k, v in x.items() if k not in ("line", "col", "file", "inl")}
    if isinstance(x, list): return [strip(v) for v in x]
    return x
def memo(tag, fndict, f, *srcs):
    if not D: return f()
    global _eng
    if _eng is None:
        h = hashlib.sha256()
        e = os.path.dirname(os.path.abspath(__file__))
        for n in ("fa.py", "lp.py", "poly.py", "ir.py", "bounds.py", "contracts.py", "witness.py"): h.update(open(os.path.join(e, n), "rb").read())
        _eng = h.hexdigest()
    k = hashlib.sha256((tag + _eng + json.dumps(strip(fndict), sort_keys=True)).encode())
    for s in srcs: k.update(open(s, "rb").read())
    p = os.path.join(D, k.hexdigest())
    if os.path.exists(p): return pickle.load(open(p, "rb"))
    r = f()
    os.makedirs(D, exist_ok=True)
    with open(p + f".{os.getpid()}", "wb") as o: pickle.dump(r, o)
    os.rename(p + f".{os.getpid()}", p)
    return r
