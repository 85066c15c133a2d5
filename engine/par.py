"""Runs a function over items in parallel processes, each with its own time limit."""
import multiprocessing as mp, os, signal, traceback
class Timeout(Exception): pass
def _run(a):
    fn, x, limit = a
    def on(*_): raise Timeout()
    signal.signal(signal.SIGALRM, on)
    signal.alarm(limit)
    try: return x, fn(x), None
    except Timeout: return x, None, "time limit"
    except Exception: return x, None, traceback.format_exc()
    finally: signal.alarm(0)
def pmap(fn, items, limit=600):
    items = list(items)
    with mp.Pool(min(len(os.sched_getaffinity(0)), max(1, len(items))), maxtasksperchild=4) as p:
        yield from p.imap_unordered(_run, [(fn, x, limit) for x in items], chunksize=1)
