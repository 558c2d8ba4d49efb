"""Completion-order control of the pools used by the code under test.

ThreadPoolExecutor / ProcessPoolExecutor are replaced (at concurrent.futures, which the code looks up at call time) by an
executor that runs the submitted jobs one at a time in the prescribed order: the schedule is owned by the explorer.
"""
import concurrent.futures as cf
import contextlib


class OrderedExecutor:
    order = None      # permutation of job indices (applied per batch of len(order) jobs; others in FIFO order)
    log = None

    def __init__(self, *a, **k):
        self.jobs = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.flush()
        return False

    def shutdown(self, *a, **k):
        self.flush()

    def submit(self, fn, *a, **k):
        fut = cf.Future()
        self.jobs.append((fut, fn, a, k))
        ex = self
        orig = fut.result

        def result(timeout=None):
            ex.flush()
            return orig(timeout)
        fut.result = result
        return fut

    def map(self, fn, *its, timeout=None, chunksize=1):
        futs = [self.submit(fn, *a) for a in zip(*its)]

        def gen():
            for f in futs:
                yield f.result()
        return gen()

    def flush(self):
        jobs, self.jobs = self.jobs, []
        n = len(jobs)
        order = [i for i in (self.order or []) if i < n] + [i for i in range(n) if i not in (self.order or [])]
        for i in order:
            fut, fn, a, k = jobs[i]
            if self.log is not None:
                self.log.append(i)
            try:
                fut.set_result(fn(*a, **k))
            except BaseException as e:  # noqa
                fut.set_exception(e)


@contextlib.contextmanager
def executor_order(mod, order, log=None):
    cls = type('Ordered', (OrderedExecutor,), dict(order=list(order), log=log))
    saved = (cf.ThreadPoolExecutor, cf.ProcessPoolExecutor, cf.as_completed)
    mods = {}

    def as_completed(fs, timeout=None):
        fs = list(fs)
        for f in fs:
            f.exception() if f.done() else None
        # drain, then hand out in completion order
        for f in fs:
            f.result() if not f.done() else None
        n = len(fs)
        o = [i for i in order if i < n] + [i for i in range(n) if i not in order]
        return iter([fs[i] for i in o])
    cf.ThreadPoolExecutor = cf.ProcessPoolExecutor = cls
    cf.as_completed = as_completed
    for name in ('ThreadPoolExecutor', 'ProcessPoolExecutor', 'as_completed'):
        if name in vars(mod):
            mods[name] = vars(mod)[name]
            setattr(mod, name, cls if name != 'as_completed' else as_completed)
    try:
        yield cls
    finally:
        cf.ThreadPoolExecutor, cf.ProcessPoolExecutor, cf.as_completed = saved
        for k, v in mods.items():
            setattr(mod, k, v)
