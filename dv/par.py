"""fork-based work distribution"""
import os, multiprocessing as mp, time, traceback

NPROC = int(os.environ.get('DV_JOBS', '0')) or min(8, os.cpu_count() or 8)
_fn = None

def _work(task):
    t = time.time()
    try:
        r = _fn(task)
        return task, r, time.time() - t, None
    except Exception:
        return task, None, time.time() - t, traceback.format_exc()

def run(fn, tasks, deadline=None):
    """yield (task, result, seconds, error)"""
    global _fn
    _fn = fn
    if NPROC == 1:
        for t in tasks: yield _work(t)
        return
    ctx = mp.get_context('fork')
    with ctx.Pool(NPROC, maxtasksperchild=400) as pool:
        it = pool.imap_unordered(_work, tasks, chunksize=1)
        n = 0
        while n < len(tasks):
            try:
                to = None if deadline is None else max(0.1, deadline - time.time())
                r = it.next(timeout=to)
            except mp.TimeoutError:
                pool.terminate()
                yield None, None, 0, 'timeout'
                return
            n += 1
            yield r
