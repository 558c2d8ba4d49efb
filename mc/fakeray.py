"""Explorer-owned replacement of ray and of multiprocessing.Pool: remote tasks run in-process in a prescribed completion order,
arguments and results are pickled across the (virtual) process border as the real ones are."""
import contextlib
import cloudpickle
import pickle


class _Handle:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw, self.done, self.val, self.exc = fn, args, kw, False, None, None


class FakeRay:
    def __init__(self, order=()):
        self.order, self.up, self.pending, self.log = list(order), False, [], []
        self.inits = 0

    def is_initialized(self):
        return self.up

    def init(self, *a, **k):
        if self.up:
            raise RuntimeError('ray.init called twice')
        self.up = True
        self.inits += 1

    def shutdown(self):
        self.up = False

    def remote(self, fn):
        ray = self

        class R:
            @staticmethod
            def remote(*a, **k):
                if not ray.up:
                    raise RuntimeError('ray is not running')
                h = _Handle(fn, a, k)
                ray.pending.append(h)
                return h
        return R

    def get(self, hs):
        one = isinstance(hs, _Handle)
        if one:
            hs = [hs]
        todo = [h for h in self.pending if not h.done]
        n = len(todo)
        order = [i for i in self.order if i < n] + [i for i in range(n) if i not in self.order]
        for i in order:
            h = todo[i]
            fn, a, k = cloudpickle.loads(cloudpickle.dumps((h.fn, h.args, h.kw)))
            self.log.append(i)
            h.val = pickle.loads(pickle.dumps(fn(*a, **k)))
            h.done = True
        self.pending = [h for h in self.pending if not h.done]
        res = [h.val for h in hs]
        return res[0] if one else res


class FakePool:
    order = ()

    def __init__(self, n=None):
        pass

    def starmap_async(self, f, args):
        class A:
            def get(s):
                args_ = list(args)
                n = len(args_)
                order = [i for i in self.order if i < n] + [i for i in range(n) if i not in self.order]
                out = [None] * n
                for i in order:
                    fn, a = cloudpickle.loads(cloudpickle.dumps((f, tuple(args_[i]))))
                    out[i] = pickle.loads(pickle.dumps(fn(*a)))
                return out
        return A()

    def starmap(self, f, args):
        return self.starmap_async(f, args).get()

    def map(self, f, args):
        return self.starmap_async(f, [(a,) for a in args]).get()

    def close(self):
        pass

    def join(self):
        pass

    def terminate(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


@contextlib.contextmanager
def owned(mod, order=(), cpus=None):
    """mod: pyforecaster.big_data_utils (and any module holding cpu_count)"""
    fr = FakeRay(order)
    pool = type('P', (FakePool,), dict(order=list(order)))
    saved = {}
    for m in (mod if isinstance(mod, (list, tuple)) else [mod]):
        for name, val in (('ray', fr), ('Pool', pool), ('cpu_count', (lambda: cpus) if cpus else None)):
            if val is not None and hasattr(m, name):
                saved[(m, name)] = getattr(m, name)
                setattr(m, name, val)
    try:
        yield fr
    finally:
        for (m, name), v in saved.items():
            setattr(m, name, v)
