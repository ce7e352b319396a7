"""map over independent analysis tasks with forked workers (results must be picklable)"""
import os
import multiprocessing as mp

_JOB = None


def _run(i):
    f, items = _JOB
    return f(items[i])


def pmap(f, items):
    global _JOB
    items = list(items)
    n = min(8, os.cpu_count() or 1, len(items))
    if n <= 1 or os.environ.get('VERIF_SERIAL'):
        return [f(x) for x in items]
    _JOB = (f, items)
    with mp.get_context('fork').Pool(n) as pool:
        return pool.map(_run, range(len(items)), chunksize=1)
