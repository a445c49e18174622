"""Stand-in for multiprocessing.Pool: the work is done here, one after another,
on pickled copies of the arguments, and the results are pickled back."""
import multiprocessing
import multiprocessing.pool
import pickle

from . import env  # noqa: F401


def through(x):
    return pickle.loads(pickle.dumps(x))


class Result(object):
    def __init__(self, fn):
        try:
            self.v, self.e = through(fn()), None
        except Exception as e:
            self.v, self.e = None, e

    def get(self, timeout=None):
        if self.e is not None:
            raise self.e
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.e is None


class Pool(object):
    made = 0

    def __init__(self, processes=None, *a, **k):
        Pool.made += 1
        self.open = True

    def one(self, fn, args, kwds=None):
        assert self.open, "pool is closed"
        return Result(lambda: through(fn)(*through(tuple(args)), **through(kwds or {})))

    def apply_async(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        r = self.one(fn, args, kwds)
        if r.e is None and callback is not None:
            callback(r.v)
        if r.e is not None and error_callback is not None:
            error_callback(r.e)
        return r

    def apply(self, fn, args=(), kwds=None):
        return self.one(fn, args, kwds).get()

    def map(self, fn, it, chunksize=None):
        rs = [self.one(fn, (x,)) for x in it]
        return [r.get() for r in rs]

    def starmap(self, fn, it, chunksize=None):
        rs = [self.one(fn, x) for x in it]
        return [r.get() for r in rs]

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        rs = [self.one(fn, (x,)) for x in it]
        out = Result(lambda: [r.get() for r in rs])
        return out

    def imap(self, fn, it, chunksize=1):
        rs = [self.one(fn, (x,)) for x in it]
        return (r.get() for r in rs)

    imap_unordered = imap

    def close(self):
        self.open = False

    def terminate(self):
        self.open = False

    def join(self):
        assert not self.open

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.open = False


class patched(object):
    def __enter__(self):
        self.real = multiprocessing.Pool
        multiprocessing.Pool = Pool
        # should the code reach a real pool all the same, let it have children
        self.p = multiprocessing.current_process()
        self.d = self.p._config.get("daemon")
        self.p._config["daemon"] = False
        return self

    def __exit__(self, *a):
        multiprocessing.Pool = self.real
        self.p._config["daemon"] = self.d
