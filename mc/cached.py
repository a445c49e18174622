"""Worlds of cached functions with a reference cache; used by C13 (results) and C14 (reuse)."""
import gc
import operator
import weakref

import numpy as np

from . import env  # noqa: F401
from .canon import heap_key
from .explore import System
from .report import Violation

from paramz import ObsAr, Param, Parameterized
from paramz.caching import Cache_this, Cacher
from paramz.core.parameter_core import Parameterizable


class Boom(RuntimeError):
    pass


class Res(object):
    """a result; weakly referenceable, so that it shows whether it is kept"""
    def __init__(self, *v):
        self.v = v


def snap(x):
    if isinstance(x, np.ndarray):
        return ("A",) + tuple(x.view(np.ndarray).ravel().tolist())
    if isinstance(x, Parameterizable):
        return ("N",) + tuple(np.asarray(x.param_array).ravel().tolist())
    if isinstance(x, list):
        return ("L",) + tuple(x)
    if isinstance(x, (int, float, str)) or x is None:
        return repr(x)          # (1, 1.0 and True are equal, functions may tell them apart)
    return type(x).__name__


class Rec(object):
    calls = 0
    fail = False


class RefCache(object):
    """what a cache with that limit has to hold"""
    def __init__(self, limit):
        self.limit = limit
        self.enabled = True
        self.store = {}         # key -> [contents, touched, weak result]

    def clear(self):
        self.store = {}


def overlap(x, y):
    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
        return np.may_share_memory(x, y)
    if isinstance(x, Parameterizable) or isinstance(y, Parameterizable):
        return True
    return False


def trackable(x):
    return isinstance(x, (ObsAr, Parameterizable, int, float, str)) or x is None


class CacheSystem(System):
    """arguments by name in w.arg, caches by name in w.ref (reference) and w.fn (callable)"""
    strict = False

    def note(self, w, *what):
        """something was written"""
        for rc in w.ref.values():
            for key, e in rc.store.items():
                if any(overlap(a, x) for a in e[3] for x in what):
                    e[1] = True

    def call(self, w, cache, args, kw, key=None, expect=None, fails=False, forced=False, keyargs=None):
        fn, rc = w.fn[cache], w.ref[cache]
        key = key if key is not None else (tuple(args), tuple(sorted(kw.items())))
        A = [w.arg[a] for a in args]
        K = {k: w.arg[v] for k, v in kw.items()}
        allargs = ([w.arg[a] for a in keyargs] if keyargs is not None else A + list(K.values())) + w.implied.get(cache, [])
        now = tuple(snap(x) for x in allargs)
        can = rc.enabled and not forced and all(trackable(x) for x in allargs)
        n0 = Rec.calls
        Rec.fail = fails
        try:
            got = fn(*A, **K)
        except Boom:
            got = None
        finally:
            Rec.fail = False
        n = Rec.calls - n0
        e = rc.store.get(key) if can else None
        valid = e is not None and e[0] == now
        what = "%s%r%r" % (cache, tuple(args), kw)
        if got is None:
            if not fails or (valid and not e[1] and self.strict):
                raise Violation("%s raised" % what, "raised")
            if can:
                rc.clear()
            return
        want = expect(A, K)
        if got.v != want:
            raise Violation("%s returned %r, the function returns %r" % (what, got.v, want), "stale")
        if fails and not (valid and n == 0):
            raise Violation("%s: the failure was lost" % what, "failure")
        if n > 1:
            raise Violation("%s called the function %d times" % (what, n), "twice")
        if n == 0 and e is None:
            # the right result, but the reference forgot it
            if self.strict:
                raise Violation("%s returned a stored result although none can be stored" % what, "kept")
        if self.strict and valid and not e[1]:
            if n != 0:
                raise Violation("%s was computed again although nothing changed" % what, "again")
            if got is not e[2]():
                raise Violation("%s returned another object than it had stored" % what, "other")
        if not can:
            return
        r = weakref.ref(got)
        if e is not None:
            if n or not valid:
                e[0], e[1], e[2] = now, False, r
        else:
            if len(rc.store) >= rc.limit:
                del rc.store[next(iter(rc.store))]
            rc.store[key] = [now, False, r, allargs]
        got = None

    def alive(self, w):
        """exactly the results of the reference are alive"""
        keep = {id(e[2]()) for rc in w.ref.values() for e in rc.store.values()}
        live = [r() for r in Rec.made if r() is not None]
        lost = [k for rc in w.ref.values() for k, e in rc.store.items() if e[2]() is None]
        if lost:
            raise Violation("the results for %s were dropped" % (lost,), "dropped")
        more = [x.v for x in live if id(x) not in keep]
        if more:
            raise Violation("more results than allowed are kept: %r" % (more,), "limit")

    def key(self, w):
        return heap_key([w], skip_attrs=("calls", "keep"))

    def check(self, w):
        if self.strict:
            self.alive(w)


class World(object):
    version = 0

    def __init__(self):
        self.implied = {}
        self.fn = {}
        self.ref = {}
        self.arg = {"1": 1, "2": 2, "S": "text", "0": 0, "E": "", "None": None, "-1": -1, "-2": -2, "T": True, "F": False, "1.0": 1.0, "big": 2 ** 61, "0.0": -0.0, "L": [1, 2]}
        Rec.calls = 0
        Rec.made = []
        Rec.fail = False


def made(*v):
    r = Res(*v)
    Rec.made.append(weakref.ref(r))
    return r


def ran():
    Rec.calls += 1
    if Rec.fail:
        raise Boom("scripted")


def plain(x, y=None, z=None, force=None):
    ran()
    return made(snap(x), snap(y), snap(z))


def expect_plain(A, K):
    d = dict(zip(("x", "y", "z", "force"), A))
    d.update(K)
    return (snap(d.get("x")), snap(d.get("y")), snap(d.get("z")))


def toggle(x, i, lo, hi):
    """the other of two values at one place"""
    v = x.view(np.ndarray)[i]
    return hi if v == lo else lo


class Function(CacheSystem):
    """a Cacher around a function, with observable arrays and views of them"""
    def __init__(self, name, limit, combos, writes, switches=(), strict=False, fails=(), ignore=(), force=()):
        self.name, self.limit, self.combos, self.writes, self.switches = name, limit, combos, writes, switches
        self.strict, self.fails, self.ignore, self.force = strict, fails, ignore, force

    def build(self):
        w = World()
        a = ObsAr(np.array([1.0, 2.0, 3.0]))
        w.arg.update(a=a, b=ObsAr(np.array([4.0, 5.0])), v=a[1:], w=a[::2], n=np.array([1.0]))
        w.fn["f"] = w.c = Cacher(plain, self.limit, ignore_args=self.ignore, force_kwargs=self.force)
        w.ref["f"] = RefCache(self.limit)
        return w

    def ops(self, w):
        out = [("call", i) for i in range(len(self.combos))] + [("fail", i) for i in self.fails]
        return out + [("w",) + x for x in self.writes] + [(s,) for s in self.switches]

    def fmt(self, op):
        if op[0] in ("call", "fail"):
            a, k = self.combos[op[1]]
            return "%s f(%s)" % (op[0], ", ".join(list(a) + ["%s=%s" % x for x in k.items()]))
        return " ".join(str(x) for x in op)

    def apply(self, w, op):
        k = op[0]
        if k in ("call", "fail"):
            args, kw = self.combos[op[1]]
            forced = any(f in kw and kw[f] != "None" for f in self.force)
            ka = [a for i, a in enumerate(list(args) + [v for _, v in sorted(kw.items())]) if i not in self.ignore]
            kn = tuple(n for i, n in enumerate(sorted(kw)) if len(args) + i not in self.ignore)
            kk = tuple((a, w.version) if a == "v" else a for a in ka)
            self.call(w, "f", args, kw, key=(kk, kn), keyargs=ka, fails=(k == "fail"), forced=forced,
                      expect=self.expect)
        elif k == "w":
            self.write(w, *op[1:])
        elif k == "reset":
            w.c.reset()
            w.ref["f"].clear()
        elif k == "disable":
            w.c.disable_cacher()
            w.ref["f"].clear()
            w.ref["f"].enabled = False
        elif k == "enable":
            w.c.enable_cacher()
            w.ref["f"].enabled = True
        elif k == "newview":
            # the old view dies unless it is stored; its address may be used again
            w.version += 1
            w.arg["v"] = None
            w.arg["v"] = w.arg["a"][1:]

    @staticmethod
    def expect(A, K):
        return expect_plain(A, K)

    def write(self, w, name, how):
        x = w.arg[name]
        if how == "set":
            x[0] = toggle(x, 0, 1.0, 7.0)
        elif how == "last":
            x[-1] = toggle(x, -1, 3.0, 9.0)
        elif how == "iadd":
            operator.imul(x, -1)
        elif how == "tmp":
            # through a view which is gone afterwards
            y = x[1:]
            y[0] = toggle(y, 0, 2.0, 8.0)
        elif how == "tmp2":
            y = x[::-1][:2]
            operator.iadd(y, 1)
            operator.isub(y, 1)
            operator.imul(y[1:], -1)
        elif how == "same":
            x[...] = x.view(np.ndarray).copy()
        elif how == "mask":
            x[x.view(np.ndarray) > 2] = 2.5
        self.note(w, x)


class Ignoring(Function):
    @staticmethod
    def expect(A, K):
        return (snap(A[0]),)

    def build(self):
        w = super(Ignoring, self).build()

        def part(x, tag):
            ran()
            return made(snap(x))

        w.fn["f"] = w.c = Cacher(part, self.limit, ignore_args=self.ignore)
        return w


# ---------------------------------------------------------------- decorated methods
class Deco(object):
    def __init__(self, tag):
        self.tag = tag

    @Cache_this(limit=2, ignore_args=(0,), force_kwargs=("force",))
    def f(self, x, y=None, force=None):
        ran()
        return made(self.tag, "f", snap(x), snap(y))

    @Cache_this(limit=1, ignore_args=(0,))
    def g(self, x):
        ran()
        return made(self.tag, "g", snap(x))

    @Cache_this(limit=2)
    def h(self, x):
        ran()
        return made(self.tag, "h", snap(x))

    @Cache_this(limit=2, ignore_args=(0,), force_kwargs=("again",))
    def e(self, x, y=None, again=False):
        ran()
        return made(self.tag, "e", snap(x), snap(y))


class Sub(Deco):
    @Cache_this(limit=1, ignore_args=(0,))
    def g(self, x):
        ran()
        return made(self.tag, "sub g", snap(x))


class Methods(CacheSystem):
    """methods with caches of several objects"""
    def __init__(self, name, calls, writes=("a",), switches=(), strict=False, fails=()):
        self.name, self.calls, self.writes, self.switches, self.strict, self.fails = name, calls, writes, switches, strict, fails

    def build(self):
        w = World()
        w.arg.update(a=ObsAr(np.array([1.0, 2.0])), b=ObsAr(np.array([4.0, 5.0])))
        w.o = {"o": Deco("o"), "q": Sub("q")}
        for n in ("o", "q"):
            self.register(w, n)
        return w

    def register(self, w, n):
        lim = {"e": 2, "f": 2, "g": 1, "h": 2}
        for m in lim:
            w.fn[n + "." + m] = Late(w, n, m)
            w.ref[n + "." + m] = RefCache(lim[m])
        w.on = getattr(w, "on", {})
        w.on[n] = True

    def ops(self, w):
        return [("call", i) for i in range(len(self.calls))] + [("fail", i) for i in self.fails] + [("w", x) for x in self.writes] + [(s, n) for s in self.switches for n in ("o", "q") if not (s == "copy" and n == "q")]

    def fmt(self, op):
        if op[0] in ("call", "fail"):
            m, a, k = self.calls[op[1]]
            return "%s %s(%s)" % (op[0], m, ", ".join(list(a) + ["%s=%s" % x for x in k.items()]))
        return " ".join(str(x) for x in op)

    def apply(self, w, op):
        k = op[0]
        if k in ("call", "fail"):
            cache, args, kw = self.calls[op[1]]
            n, m = cache.split(".")
            if n not in w.o:
                return
            full = list(args) + ["None"] * (2 - len(args)) if m in "ef" else list(args)
            for kk, v in kw.items():
                if kk == "y":
                    full[1] = v
                if kk == "x":
                    full[0] = v
            if m in "ef":
                full = full[:2]
            forced = kw.get("force", kw.get("again", "None")) != "None"
            tag = w.o[n].tag

            def expect(A, K):
                d = dict(zip(("x", "y"), A))
                d.update(K)
                name = "sub g" if m == "g" and isinstance(w.o[n], Sub) else m
                return (tag, name, snap(d["x"])) + ((snap(d.get("y")),) if m in "ef" else ())

            if m == "h":
                w.arg["obj" + n] = w.o[n]
                self.call(w, cache, args, kw, key=tuple(full), keyargs=full + ["obj" + n], fails=(k == "fail"), expect=expect)
                del w.arg["obj" + n]
            else:
                self.call(w, cache, args, kw, key=tuple(full), keyargs=full, fails=(k == "fail"), forced=forced, expect=expect)
        elif k == "w":
            x = w.arg[op[1]]
            x[0] = toggle(x, 0, 1.0, 7.0)
            self.note(w, x)
        elif k == "copy":
            import copy
            w.o["k"] = copy.deepcopy(w.o["o"])
            w.o["k"].tag = "k"
            on = w.on["o"]
            self.register(w, "k")
            w.on["k"] = on
            for m in "efgh":
                w.ref["k." + m].enabled = on
        else:
            n = op[1]
            cache = getattr(w.o[n], "cache", None)
            if cache is None:
                return
            if k == "reset":
                cache.reset()
            elif k == "disable":
                cache.disable_caching()
            elif k == "enable":
                cache.enable_caching()
            for m in "efgh":
                rc = w.ref[n + "." + m]
                if k != "enable":
                    rc.clear()
                if k == "disable":
                    rc.enabled = w.on[n] = False
                if k == "enable":
                    rc.enabled = w.on[n] = True


class Late(object):
    """the method is looked up when called"""
    def __init__(self, w, n, m):
        self.w, self.n, self.m = w, n, m

    def __call__(self, *a, **k):
        return getattr(self.w.o[self.n], self.m)(*a, **k)


# --------------------------------------------------------------- cachers held by objects
class Holder(object):
    def __init__(self, tag):
        self.tag = tag
        self.cf = Cacher(self.f, 2)
        self.cg = Cacher(self.g, 1)

    def f(self, x):
        ran()
        return made(self.tag, "f", snap(x))

    def g(self, x):
        ran()
        return made(self.tag, "g", snap(x))


class HolderNode(Parameterized):
    def __init__(self, tag):
        super(HolderNode, self).__init__("node" + tag)
        self.p = Param("p", np.array([1.0, 2.0]))
        self.link_parameter(self.p)
        self.tag = tag
        self.cf = Cacher(self.f, 2)
        self.cg = Cacher(self.g, 1)

    def f(self, x):
        ran()
        return made(self.tag, "f", snap(x), snap(self.p))

    def g(self, x):
        ran()
        return made(self.tag, "g", snap(x), snap(self.p))


class Held(CacheSystem):
    """caches around bound methods, and copies of the objects which have them"""
    def __init__(self, name, node, strict=False):
        self.name, self.node, self.strict = name, node, strict

    def build(self):
        w = World()
        w.arg.update(a=ObsAr(np.array([1.0, 2.0])), b=ObsAr(np.array([4.0, 5.0])))
        w.o = {"o": (HolderNode if self.node else Holder)("o")}
        w.on = {}
        self.register(w, "o")
        return w

    def register(self, w, n):
        for m, lim in (("cf", 2), ("cg", 1)):
            w.fn[n + "." + m] = Late(w, n, m)
            w.ref[n + "." + m] = RefCache(lim)

    def ops(self, w):
        out = [("w",)]
        for n in sorted(w.o):
            out += [("call", n, "cf", "a"), ("call", n, "cf", "b"), ("call", n, "cg", "a"), ("call", n, "cg", "b"), ("reset", n), ("disable", n), ("enable", n), ("tag", n)]
            out += [("fail", n, "cf", "a")]
        if "k" not in w.o:
            out += [("copy",)]
        return out

    def apply(self, w, op):
        k = op[0]
        if k in ("call", "fail"):
            _, n, m, a = op
            o = w.o[n]
            self.call(w, n + "." + m, [a], {}, fails=(k == "fail"),
                      expect=lambda A, K: (o.tag, m[1], snap(A[0])) + ((snap(o.p),) if self.node else ()))
        elif k == "w":
            x = w.arg["a"]
            x[0] = toggle(x, 0, 1.0, 7.0)
            self.note(w, x)
        elif k == "copy":
            import copy
            w.o["k"] = w.o["o"].copy() if self.node else copy.deepcopy(w.o["o"])
            w.o["k"].tag = "k"
            if self.node:
                w.o["k"].p[0] = 11.0
                w.o["k"].cache.reset()
            self.register(w, "k")
            # switched off ones may stay off or not: settle it
            w.o["k"].cache.enable_caching()
        elif k == "tag":
            # the object itself changes: its owner drops the results
            w.o[op[1]].tag = {"o": "O", "O": "o", "k": "K", "K": "k"}[w.o[op[1]].tag]
            w.o[op[1]].cache.reset()
            self.clear(w, op[1])
        elif k == "reset":
            w.o[op[1]].cache.reset()
            self.clear(w, op[1])
        elif k == "disable":
            (w.o[op[1]].disable_caching if self.node else w.o[op[1]].cache.disable_caching)()
            self.clear(w, op[1])
            for m in ("cf", "cg"):
                w.ref[op[1] + "." + m].enabled = False
        elif k == "enable":
            (w.o[op[1]].enable_caching if self.node else w.o[op[1]].cache.enable_caching)()
            for m in ("cf", "cg"):
                w.ref[op[1] + "." + m].enabled = True

    def clear(self, w, n):
        for m in ("cf", "cg"):
            w.ref[n + "." + m].clear()


# ------------------------------------------------------------------------- hierarchies
class Node(Parameterized):
    def __init__(self, name, *parameters):
        super(Node, self).__init__(name)
        self.seen = None
        self.link_parameters(*parameters)

    @Cache_this(limit=2)
    def total(self, x=None):
        ran()
        return made("total", snap(self), snap(x))

    def parameters_changed(self):
        # as models do: use the cached method while re-evaluating
        self.seen = self.total(None).v


class Tree(CacheSystem):
    """cached methods of nodes of a hierarchy, changed through all handles"""
    def __init__(self, name, calls, strict=False, structure=True):
        self.name, self.calls, self.strict, self.structure = name, calls, strict, structure

    def build(self):
        w = World()
        w.a, w.c = Param("a", np.array([1.0, 2.0])), Param("c", np.array([3.0]))
        w.k = Node("k", w.a)
        w.s = Node("s", w.k)
        w.m = Node("m", w.s, w.c)
        w.arg.update(m=w.m, s=w.s, k=w.k, a=w.a, c=w.c, x=ObsAr(np.array([9.0, 8.0])))
        w.up = True
        w.on = True
        w.free = False
        return w

    def ops(self, w):
        out = [("leaf",), ("slice",), ("held",), ("node",), ("opt",), ("array",), ("x",), ("constrain",), ("unconstrain",), ("iadd",), ("fix",)]
        if w.up:
            out += [("call", i) for i in range(len(self.calls))] + [("disable",), ("enable",)]
        out += [("off",)] if w.up else [("on",)]
        if self.structure and w.up:
            out += [("unlink",)] if not w.free else [("relink",)]
            out += [("copy",)]
        return out

    def apply(self, w, op):
        k = op[0]
        v = w.a.view(np.ndarray)
        if k == "call":
            n, x = self.calls[op[1]]
            node = w.arg[n]
            x = w.arg[x]
            want = ("total", snap(node), snap(x))
            got = node.total(x) if x is not None else node.total()
            if got.v != want:
                raise Violation("%s.total(%s) returned %r instead of %r" % (n, self.calls[op[1]][1], got.v, want), "stale")
            if self.strict:
                # nothing changed in between, so it has to be stored now
                n0 = Rec.calls
                again = node.total(x) if x is not None else node.total()
                if w.on and (again is not got or Rec.calls != n0):
                    raise Violation("%s was computed again although nothing changed" % (self.calls[op[1]],), "again")
                if not w.on and again is got:
                    raise Violation("a result was stored although caching is disabled", "kept")
            return
        if k == "leaf":
            w.a[0] = 3.0 - v[0] if v[0] in (1.0, 2.0) else 1.0
        elif k == "slice":
            w.a[:1][...] = 5.0
        elif k == "held":
            s = w.a[1:]
            s[0] = 6.0 if v[1] == 2.0 else 2.0
        elif k == "iadd":
            w.a[1:] += 1.0
            w.a[1:] -= 2.0
            w.a[1:] *= -1
        elif k == "node":
            if not w.free:
                w.s[:] = np.array([1.5, 2.5])
        elif k == "opt":
            if w.m._size_transformed():
                w.m.optimizer_array = np.arange(w.m._size_transformed()) * 0.5 + 0.25
        elif k == "array":
            w.m[:] = 0.75
        elif k == "x":
            x = w.arg["x"]
            x[0] = toggle(x, 0, 9.0, 1.0)
        elif k == "constrain":
            w.a[0] = -1.0
            w.a.constrain_positive(warning=False)
        elif k == "unconstrain":
            w.a.unconstrain()
        elif k == "fix":
            w.a[:1].fix(warning=False)
        elif k == "off":
            w.m.update_model(False)
            w.up = False
        elif k == "on":
            w.m.update_model(True)
            w.up = True
        elif k == "unlink":
            # (changes of the structure do not re-evaluate on their own)
            w.k.unlink_parameter(w.a)
            w.k.trigger_update()
            w.free = True
        elif k == "relink":
            w.m.link_parameter(w.a)
            w.m.unlink_parameter(w.a)
            w.k.link_parameter(w.a)
            w.k.trigger_update()
            w.free = False
        elif k == "copy":
            mine = list(Rec.made)
            d = w.m.copy()
            for n in (d, d.s, d.s.k):
                if n.total().v != ("total", snap(n), snap(None)):
                    raise Violation("the copy returns %r" % (n.total().v,), "copy")
            Rec.made = mine
            before = w.m.total().v
            mine = list(Rec.made)
            d.c[0] = 77.0
            if d.total().v != ("total", snap(d), snap(None)):
                raise Violation("the changed copy returns %r" % (d.total().v,), "copy")
            if w.m.total().v != before:
                raise Violation("the original of a copy returns %r" % (w.m.total().v,), "copy")
            Rec.made = mine
        elif k == "disable":
            w.m.disable_caching()
            w.on = False
            if self.strict:
                left = [r().v for r in Rec.made if r() is not None]
                if left and not w.free:
                    raise Violation("results are kept after disabling: %r" % left, "kept")
        elif k == "enable":
            w.m.enable_caching()
            w.on = True

    def check(self, w):
        if not w.up:
            return
        for n in (w.m, w.s, w.k):
            if n is not w.m and w.free and not n.size:
                continue
            want = ("total", snap(n), snap(None))
            if n.total().v != want:
                raise Violation("%s.total() returns %r instead of %r" % (n.name, n.total().v, want), "stale")
            if n.seen is not None and n.seen != want:
                raise Violation("%s was re-evaluated with %r instead of %r" % (n.name, n.seen, want), "seen")


# --------------------------------------------------------------------- re-entrant use
class Recursive(CacheSystem):
    """the function calls itself through its cache, may fail inside, or is
    called by an observer of its argument"""
    def __init__(self, name, limit, observer=None):
        self.name, self.limit, self.obs = name, limit, observer

    def build(self):
        w = World()
        a = ObsAr(np.array([1.0, 2.0]))
        w.arg["a"] = a
        w.failing = frozenset()
        w.guard = True
        w.wrong = []

        def f(x, n):
            ran()
            if n in w.failing:
                raise Boom("inner")
            sub = None
            if n > 0:
                try:
                    sub = w.c(x, n - 1).v
                except Boom:
                    if not w.guard:
                        raise
                    sub = "failed"
            return made(snap(x), n, sub)

        def ref(x, n):
            if n in w.failing:
                raise Boom("inner")
            sub = None
            if n > 0:
                try:
                    sub = ref(x, n - 1)
                except Boom:
                    if not w.guard:
                        raise
                    sub = "failed"
            return (snap(x), n, sub)

        w.c = Cacher(f, self.limit)
        w.rf = ref
        if self.obs is not None:
            w.watch = Watch(w)
            a.add_observer(w.watch, w.watch.see, self.obs)
        return w

    def ops(self, w):
        return [("call", 0), ("call", 1), ("call", 2), ("w",), ("w2",), ("failing", 0), ("failing", 1), ("failing", None), ("guard",), ("reset",), ("view",)]

    def apply(self, w, op):
        k = op[0]
        a = w.arg["a"]
        if k == "call":
            try:
                want = w.rf(a, op[1])
            except Boom:
                want = None
            try:
                got = w.c(a, op[1]).v
            except Boom:
                got = None
            # whether the function fails now is no matter of its arguments, so a
            # result of before may be returned; it has to be one for these arguments
            if got != want and not (got is not None and w.failed_since and self.similar(got, want, a, op[1])):
                raise Violation("f(a, %d) returned %r, the function returns %r" % (op[1], got, want), "stale")
        elif k == "w":
            a[0] = toggle(a, 0, 1.0, 7.0)
        elif k == "view":
            a[1:][0] = toggle(a, 1, 2.0, 5.0)
        elif k == "w2":
            a[:] += 1
            operator.isub(a, 1)
        elif k == "failing":
            w.failing = frozenset() if op[1] is None else frozenset([op[1]])
            w.c.reset()
        elif k == "guard":
            w.guard = not w.guard
            w.c.reset()
        elif k == "reset":
            w.c.reset()
        if w.wrong:
            raise Violation("an observer of the argument got %r instead of %r" % w.wrong[0], "observer")

    def similar(self, got, want, a, n):
        return False

    def key(self, w):
        return heap_key([w.arg, w.c.__dict__, sorted(w.failing), w.guard, w.wrong, len(w.wrong)], skip_attrs=("calls",))

    def check(self, w):
        for n in (2, 0, 1):
            self.apply(w, ("call", n))


class Watch(object):
    def __init__(self, w):
        self.w = weakref.ref(w)

    def see(self, me, which=None):
        w = self.w()
        try:
            want = w.rf(w.arg["a"], 0)
        except Boom:
            return
        got = w.c(w.arg["a"], 0).v
        if got != want:
            w.wrong.append((got, want))


World.failed_since = False


def freeze():
    gc.collect()
    gc.freeze()
