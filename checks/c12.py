"""C12: observable arrays behave as arrays and report every in-place change."""
import copy
import operator
import pickle

import numpy as np

from mc import env
from mc.canon import heap_key
from mc.explore import System, enumerate_cases, explore
from mc.report import Violation

from paramz import ObsAr, Param

LEVEL = "model_checking"

IOPS = ["iadd", "isub", "imul", "itruediv", "ifloordiv", "imod", "ipow", "imatmul", "iand", "ior", "ixor", "ilshift", "irshift"]

VIEWS = {"a": lambda a: a, "a[0]": lambda a: a[0], "a[:,1:]": lambda a: a[:, 1:], "a.T": lambda a: a.T, "a.reshape": lambda a: a.reshape(-1),
         "a[::-1]": lambda a: a[::-1], "a[...,None]": lambda a: a[..., None], "a[1:][:,::2]": lambda a: a[1:][:, ::2], "a.ravel": lambda a: a.ravel(),
         "a.view": lambda a: a.view(), "a.T[0:1]": lambda a: a.T[0:1]}

INDEX = {":": slice(None), "0": 0, "-1": -1, "0:1": slice(0, 1), "::2": slice(None, None, 2), "[0]": [0], "[0,1]": [0, 1], "[1,0,1]": [1, 0, 1], "...": Ellipsis,
         "mask": "mask", "0,0": (0, 0), ":,0": (slice(None), 0), "[0],[1]": ([0], [1]), "None": None, "empty": slice(0, 0), "9": 9, "arr": np.array([0, -1])}

VALUES = {"2.5": lambda t: 2.5, "3": lambda t: 3, "one": lambda t: np.array([2.0]), "ramp": lambda t: np.arange(1.0, t.size + 1).reshape(t.shape),
          "self": lambda t: t, "selfT": lambda t: np.asarray(t).T.copy(), "bad": lambda t: np.arange(17.0), "word": lambda t: "word", "int": lambda t: np.ones(t.shape, int),
          "obsar": lambda t: ObsAr(np.ones(t.shape) * 2), "bool": lambda t: True, "sq": lambda t: np.ones((t.shape[-1], t.shape[-1]))}

DTYPES = {"float": lambda x: ObsAr(x), "int": lambda x: ObsAr(x).astype(np.int64), "bool": lambda x: ObsAr(x).astype(bool), "f4": lambda x: ObsAr(x).astype(np.float32),
          "param": lambda x: Param("p", x)}
SHAPES = {"(2,3)": (2, 3), "(3,)": (3,), "(1,)": (1,), "(2,2)": (2, 2), "(2,0)": (2, 0)}


class Watcher(object):
    def __init__(self, subject):
        self.log = []
        self.subject = subject

    def note(self, me, which=None):
        self.log.append((me, which, self.subject.values.copy()))


def index_for(name, shape):
    ix = INDEX[name]
    if isinstance(ix, str):
        m = np.zeros(shape, bool)
        m.flat[::2] = True
        return m
    return ix


def single(case):
    """one in-place operation on a fresh array, through one view of it"""
    dt, sh, view, kind, arg, val = case
    shape = SHAPES[sh]
    base = (np.arange(int(np.prod(shape))) + 1.0).reshape(shape)
    a = DTYPES[dt](base.copy())
    ref = a.values.copy()
    wa, wb = Watcher(a), Watcher(a)
    a.add_observer(wa, wa.note, 0)
    a.add_observer(wb, wb.note, 3)
    try:
        rv = VIEWS[view](ref)
    except IndexError:
        return None
    if not np.shares_memory(rv, ref) and ref.size:
        return None               # a.ravel etc. may copy: no view
    v = VIEWS[view](a)
    if not isinstance(rv, np.ndarray):
        return None

    def run(t, plain):
        if kind == "set":
            t[index_for(arg, t.shape)] = VALUES[val](t) if not plain else plainvalue(VALUES[val](t))
            return t
        return getattr(operator, kind)(t, plainvalue(VALUES[val](t)) if plain else VALUES[val](t))

    def plainvalue(x):
        return x.view(np.ndarray) if isinstance(x, ObsAr) else x

    try:
        rr = run(rv, True)
        want = None
    except Exception as e:
        want = type(e)
    try:
        got = None
        r = run(v, False)
    except Exception as e:
        got = type(e)
    if (got is None) != (want is None):
        raise Violation("raised %s, a plain array raises %s" % (got, want), "raise:%s" % kind)
    if got is not None and not (issubclass(got, want) or issubclass(want, got)):
        raise Violation("raised %s, a plain array raises %s" % (got, want), "raise:%s" % kind)
    if a.values.dtype != ref.dtype or a.values.shape != ref.shape or not np.array_equal(a.values, ref, equal_nan=ref.dtype.kind == "f"):
        raise Violation("contents are %s, a plain array gives %s" % (a.values.tolist(), ref.tolist()), "contents:%s" % kind)
    if got is None and kind != "set":
        # what the name is bound to after `v += x`: the same array, seen as an array
        if not isinstance(r, np.ndarray) or r.shape != v.shape or (r.size and not np.shares_memory(r, v.values)) or not np.array_equal(np.asarray(r), v.values, equal_nan=ref.dtype.kind == "f"):
            raise Violation("evaluates to %r, the array is %s" % (r, v.values.tolist()), "result:%s" % kind)
    n = 0 if got is not None else 1
    # the object the in-place operator evaluates to is documented not to be observable: `a += r` rebinds a
    for w in (wa, wb):
        if len(w.log) != n:
            raise Violation("%d notifications instead of %d" % (len(w.log), n), "count:%s" % kind)
        if n:
            me, which, snap = w.log[0]
            if me is not v or which is not v:
                raise Violation("the notification names another object", "me:%s" % kind)
            if not np.array_equal(snap, ref, equal_nan=ref.dtype.kind == "f"):
                raise Violation("notified before the change was complete: %s, finally %s" % (snap.tolist(), ref.tolist()), "early:%s" % kind)
    return (dt, sh, view, kind, arg, val, repr(ref.tolist()) if got is None else got.__name__)


def _exprs():
    E = {}
    for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "eq", "ne", "lt", "le", "gt", "ge"):
        f = getattr(operator, n)
        E["a %s 2" % n] = lambda a, f=f: f(a, 2)
        E["2 %s a" % n] = lambda a, f=f: f(2, a)
        E["a %s a" % n] = lambda a, f=f: f(a, a)
        E["a %s array" % n] = lambda a, f=f: f(a, np.ones(a.shape))
        E["array %s a" % n] = lambda a, f=f: f(np.ones(a.shape), a)
        E["a %s higher" % n] = lambda a, f=f: f(a, np.ones((2,) + a.shape) * 2)
        E["higher %s a" % n] = lambda a, f=f: f(np.ones((2,) + a.shape) * 2, a)
        E["a %s 0-d" % n] = lambda a, f=f: f(a, np.array(2.0))
        E["column %s a" % n] = lambda a, f=f: f(np.array([[2.0], [3.0]]), a[0] if a.ndim > 1 else a)
        E["a %s part" % n] = lambda a, f=f: f(a, a[:1])
        E["part %s a" % n] = lambda a, f=f: f(a[:1], a)
        E["a %s ObsAr" % n] = lambda a, f=f: f(a, ObsAr(np.ones(a.shape)))
        E["a %s list" % n] = lambda a, f=f: f(a, [2.0] * a.shape[-1])
    for n in ("neg", "pos", "abs"):
        E[n] = lambda a, f=getattr(operator, n): f(a)
    for n in ("exp", "sqrt", "sin", "square", "sign", "isfinite", "floor"):
        E["np." + n] = lambda a, f=getattr(np, n): f(a)
    E["np.add"] = lambda a: np.add(a, 1)
    E["np.maximum"] = lambda a: np.maximum(a, 2)
    E["np.add.outer"] = lambda a: np.add.outer(a, np.ones(2))
    E["np.add.reduce"] = lambda a: np.add.reduce(a)
    E["np.add.accumulate"] = lambda a: np.add.accumulate(a)
    E["np.dot"] = lambda a: np.dot(a, np.ones(a.shape[-1]))
    E["a.dot"] = lambda a: a.dot(np.ones((a.shape[-1], 4)))
    E["np.modf"] = lambda a: np.modf(a)[0]
    E["np.hypot"] = lambda a: np.hypot(a, a)
    E["invert"] = lambda a: ~a
    E["and"] = lambda a: a & a
    E["all"] = lambda a: a.all()
    E["any0"] = lambda a: a.any(0)
    E["std0"] = lambda a: a.std(0)
    E["min1"] = lambda a: a.min(-1)
    E["a@a.T"] = lambda a: a @ a.T
    E["a.T@a"] = lambda a: a.T @ a
    E["sum"] = lambda a: a.sum()
    E["sum0"] = lambda a: a.sum(0)
    E["mean0"] = lambda a: a.mean(0)
    E["max"] = lambda a: a.max()
    E["cumsum"] = lambda a: a.cumsum()
    E["prod0"] = lambda a: a.prod(0)
    E["np.sum"] = lambda a: np.sum(a, 0)
    E["np.where"] = lambda a: np.where(a > 1, a, 0)
    E["divmod"] = lambda a: divmod(a, 2)[0]
    E["divmod1"] = lambda a: divmod(a, 2)[1]
    E["clip"] = lambda a: a.clip(0, 1)
    return E


EXPRS = _exprs()


def pure(case):
    """arithmetic which is not in place"""
    dt, sh, view, expr = case
    shape = SHAPES[sh]
    a = DTYPES[dt]((np.arange(int(np.prod(shape))) + 1.0).reshape(shape))
    w = Watcher(a)
    a.add_observer(w, w.note)
    try:
        v = VIEWS[view](a)
        p = VIEWS[view](a.values)
    except IndexError:
        return None
    if not isinstance(p, np.ndarray):
        return None
    before = a.values.copy()
    try:
        want = EXPRS[expr](p)
        we = None
    except Exception as e:
        we = type(e)
    try:
        got = EXPRS[expr](v)
        ge = None
    except Exception as e:
        ge = type(e)
    if (we is None) != (ge is None):
        raise Violation("raised %s, a plain array raises %s" % (ge, we), "raise:" + expr)
    if w.log:
        raise Violation("a reading operation notified the observers", "notify:" + expr)
    if not np.array_equal(a.values, before):
        raise Violation("a reading operation changed the array", "changed:" + expr)
    if we is not None:
        return (expr, "raises")
    if isinstance(got, ObsAr) or getattr(got, "observers", None) is not None:
        raise Violation("the result is a %s which still has observers" % type(got).__name__, "type:" + expr)
    if isinstance(want, np.ndarray):
        if got.dtype != want.dtype or got.shape != want.shape or not np.array_equal(got, want, equal_nan=want.dtype.kind == "f"):
            raise Violation("the result is %r, a plain array gives %r" % (got, want), "value:" + expr)
        if got.size and np.shares_memory(got, a.values):
            raise Violation("the result shares memory with the array", "share:" + expr)
        if got.size and got.flags.writeable:
            got[...] = 0
            if w.log or not np.array_equal(a.values, before):
                raise Violation("changing the result changed or notified the array", "share:" + expr)
    elif not (got == want or (got != got and want != want)):
        raise Violation("the result is %r, a plain array gives %r" % (got, want), "value:" + expr)
    return (dt, sh, view, expr)


class Env(object):
    pass


class Sequence(System):
    """sequences of changes, copies and registrations over arrays which may share memory"""

    def __init__(self, name, dt, sh):
        self.name, self.dt, self.sh = name, dt, sh

    def build(self):
        e = Env()
        shape = SHAPES[self.sh]
        x = (np.arange(int(np.prod(shape))) + 1.0).reshape(shape)
        e.src = x.copy()
        a = DTYPES[self.dt](e.src)
        e.arr = {"a": a}                  # name -> observable array
        e.ref = {"a": a.values.copy()}    # name -> plain array, views of each other like the real ones
        e.fam = {"a": "a"}                # name -> owner of the observers
        e.w = {}
        e.on = {"a": True}
        self.watch(e, "a")
        return e

    def watch(self, e, n):
        w = Watcher(e.arr[n])
        e.w.setdefault(e.fam[n], []).append(w)
        e.arr[n].add_observer(w, w.note, 0)

    def ops(self, e):
        out = []
        for n in sorted(e.arr):
            out += [("set", n, ":", 2.5), ("set", n, "0", 1.5), ("iadd", n, None, 1.0), ("imul", n, None, 2.0), ("ipow", n, None, 2.0), ("unset", n, "9", 0.0)]
            if len(e.arr) < 4:
                m = "xyz"[len(e.arr) - 1]
                out += [("view", n, m, "a[0]"), ("view", n, m, "a.T"), ("copy", n, m), ("deepcopy", n, m), ("pickle", n, m)]
            if len(e.w.get(e.fam[n], [])) < 3:
                out.append(("watch", n))
            if e.w.get(e.fam[n]):
                out.append(("unwatch", n))
        return out

    def apply(self, e, op):
        k, n = op[0], op[1]
        for ws in e.w.values():
            for w in ws:
                del w.log[:]
        notify = None
        if k == "set":
            e.arr[n][index_for(op[2], e.arr[n].shape)] = op[3]
            e.ref[n][index_for(op[2], e.ref[n].shape)] = op[3]
            notify = n
        elif k in ("iadd", "imul", "ipow"):
            f = getattr(operator, k)
            f(e.arr[n], op[3])
            e.ref[n] = f(e.ref[n], op[3])
            notify = n
        elif k == "unset":
            try:
                e.arr[n][9] = 0.0
            except IndexError:
                pass
        elif k == "view":
            v = VIEWS[op[3]](e.ref[n])
            if isinstance(v, np.ndarray) and isinstance(VIEWS[op[3]](e.arr[n]), ObsAr):
                e.arr[op[2]] = VIEWS[op[3]](e.arr[n])
                e.ref[op[2]] = v
                e.fam[op[2]] = e.fam[n]
        elif k in ("copy", "deepcopy", "pickle"):
            if k == "copy":
                c = e.arr[n].copy()
            elif k == "deepcopy":
                c = copy.deepcopy(e.arr[n])
            else:
                c = pickle.loads(pickle.dumps(e.arr[n], 2))
            if not isinstance(c, ObsAr):
                raise Violation("the %s is a %s" % (k, type(c).__name__), "copytype")
            e.arr[op[2]] = c
            e.ref[op[2]] = e.ref[n].copy()
            e.fam[op[2]] = op[2]
            e.w[op[2]] = []
        elif k == "watch":
            self.watch(e, n)
        elif k == "unwatch":
            w = e.w[e.fam[n]].pop()
            e.arr[n].remove_observer(w)
        for fam, ws in e.w.items():
            want = 1 if notify is not None and e.fam[notify] == fam else 0
            for w in ws:
                if len(w.log) != want:
                    raise Violation("an observer of %s was called %d times, expected %d" % (fam, len(w.log), want), "count")

    def key(self, e):
        return heap_key([sorted(e.arr.items())])

    def check(self, e):
        names = sorted(e.arr)
        for n in names:
            if not np.array_equal(e.arr[n].values, e.ref[n], equal_nan=True) or e.arr[n].shape != e.ref[n].shape:
                raise Violation("%s is %s, expected %s" % (n, e.arr[n].values.tolist(), e.ref[n].tolist()), "contents")
            mine = len(list(e.arr[n].observers))
            if mine != len(e.w[e.fam[n]]):
                raise Violation("%s has %d observers, expected %d" % (n, mine, len(e.w[e.fam[n]])), "observers")
        for n in names:
            for m in names:
                if n < m and np.shares_memory(e.arr[n].values, e.arr[m].values) != np.shares_memory(e.ref[n], e.ref[m]):
                    raise Violation("%s and %s: sharing of memory is wrong" % (n, m), "share")


def systems():
    S = [Sequence("seq", "float", "(2,2)"), Sequence("seq1", "float", "(3,)")]
    return {s.name: s for s in S}


def case_functions():
    return {"single": single, "pure": pure}


def cases(thorough):
    dts = sorted(DTYPES)
    shs = sorted(SHAPES)
    for dt in dts:
        for sh in shs:
            if dt == "param" and sh == "(2,0)":
                continue
            for v in sorted(VIEWS):
                for ix in INDEX:
                    for val in VALUES:
                        if val != "selfT" and val != "sq":
                            yield (dt, sh, v, "set", ix, val)
                for k in IOPS:
                    for val in VALUES:
                        yield (dt, sh, v, k, None, val)


def run(report):
    enumerate_cases("single", single, list(cases(env.THOROUGH)), report)
    enumerate_cases("pure", pure, [(d, s, v, x) for d in sorted(DTYPES) for s in sorted(SHAPES) for v in sorted(VIEWS) for x in sorted(EXPRS)
                                   if not (d == "param" and s == "(2,0)")], report)
    S = systems()
    explore(S["seq"], 6 if env.THOROUGH else 4, report)
    explore(S["seq1"], 5 if env.THOROUGH else 3, report)
