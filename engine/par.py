"""fork-based parallel map (the analysed module is shared copy-on-write)"""
import multiprocessing as mp, os, traceback

_fn = None


def _call(x):
    try:
        return ("ok", _fn(x))
    except Exception as e:
        return ("err", "%s: %s" % (e.__class__.__name__, e), traceback.format_exc())


def pmap(fn, items, chunk=None, stop=None):
    """results in order; stop(result): count of problems, the rest is skipped after 40"""
    global _fn
    items = list(items)
    _fn = fn
    n = min(8, os.cpu_count() or 1)
    if n == 1 or len(items) < 4:
        return [fn(x) for x in items]
    if chunk is None:
        chunk = max(1, min(64, len(items) // (n * 8) or 1))
    with mp.get_context("fork").Pool(n) as pool:
        if stop is None:
            res = pool.map(_call, items, chunk)
        else:
            res, bad = [], 0
            for r in pool.imap(_call, items, chunk):
                res.append(r)
                bad += stop(r[1]) if r[0] == "ok" else 1
                if bad >= 40:
                    break
            pool.terminate()
    out = []
    for r in res:
        if r[0] == "err":
            from sai import AnalysisError
            if os.environ.get("VERIF_TRACE"):
                print(r[2])
            raise AnalysisError(r[1])
        out.append(r[1])
    return out
