"""C14: caches reuse results, stay within their limit and recover from failures."""
import gc
import itertools
import weakref

import numpy as np

from checks import c13
from mc import env
from mc.cached import Rec, World, freeze, plain
from mc.explore import enumerate_cases, explore
from mc.report import Violation

from paramz import ObsAr
from paramz.caching import Cacher

LEVEL = "model_checking"


def systems():
    return {s.name: s for s, _ in c13.systems_for(True)}


# ----------------------------------------------------------- the hold on the arguments
def hold(case):
    """arguments which only the cache holds live exactly as long as a result for them is stored"""
    limit, seq = case
    World()
    c = Cacher(plain, limit)
    other = ObsAr(np.array([0.5]))
    refs = {}
    order = []
    enabled = True
    for op in seq:
        if op[0] == "call":
            args = []
            for n in op[1:]:
                x = refs[n]() if n in refs else None
                if x is None:
                    x = ObsAr(np.array([float(len(n))]))
                    refs[n] = weakref.ref(x)
                args.append(x)
            x = None
            c(*args)
            if enabled and op[1:] not in order:
                if len(order) == limit:
                    order.pop(0)
                order.append(op[1:])
            del args[:]
        elif op[0] == "change":
            x = refs[op[1]]() if op[1] in refs else None
            if x is not None:
                x[0] += 1
            x = None
        elif op[0] == "reset":
            c.reset()
            order = []
        elif op[0] == "off":
            c.disable_cacher()
            order, enabled = [], False
        elif op[0] == "on":
            c.enable_cacher()
            enabled = True
        elif op[0] == "fail":
            Rec.fail = True
            try:
                c(other)
            except RuntimeError:
                pass
            finally:
                Rec.fail = False
            if enabled:
                order = []
        gc.collect()
        for n, r in refs.items():
            kept = any(n in o for o in order)
            if not kept and r() is not None:
                raise Violation("%s is still held by the cache (limit %d)" % (n, limit), "hold")
            if kept and r() is None:
                raise Violation("%s is gone although a result for it is stored" % n, "gone")
    return (limit, tuple(order))


OPS = [("call", "x"), ("call", "yy"), ("call", "x", "yy"), ("call", "x", "x"), ("change", "x"), ("reset",), ("off",), ("on",), ("fail",)]


def registered(case):
    """the cache observes exactly the arguments for which a result is stored"""
    limit, seq = case
    World()
    c = Cacher(plain, limit)
    xs = dict((n, ObsAr(np.array([float(len(n))]))) for n in ("x", "yy"))
    other = ObsAr(np.array([0.5]))
    order = []
    enabled = True
    for op in seq:
        if op[0] == "call":
            c(*[xs[n] for n in op[1:]])
            if enabled and op[1:] not in order:
                if len(order) == limit:
                    order.pop(0)
                order.append(op[1:])
        elif op[0] == "change":
            xs[op[1]][0] += 1
        elif op[0] == "reset":
            c.reset()
            order = []
        elif op[0] == "off":
            c.disable_cacher()
            order, enabled = [], False
        elif op[0] == "on":
            c.enable_cacher()
            enabled = True
        elif op[0] == "fail":
            Rec.fail = True
            try:
                c(other)
            except RuntimeError:
                pass
            finally:
                Rec.fail = False
            if enabled:
                order = []
        for n, x in xs.items():
            kept = any(n in o for o in order)
            if kept != (len(x.observers) > 0):
                raise Violation("%s has %d observers, although %s result for it is stored (limit %d)" % (n, len(x.observers), "a" if kept else "no", limit), "registered")
    return (limit, tuple(order), tuple(float(x[0]) for x in xs.values()))


def hold_cases(thorough):
    for limit in (1, 2):
        for n in range(1, 6 if thorough else 5):
            for seq in itertools.product(OPS, repeat=n):
                yield (limit, seq)


def case_functions():
    return {"hold": hold, "registered": registered}


def run(report):
    freeze()
    enumerate_cases("hold", hold, list(hold_cases(env.THOROUGH)), report)
    enumerate_cases("registered", registered, list(hold_cases(env.THOROUGH)), report)
    for s, (q, t) in c13.systems_for(True):
        explore(s, t if env.THOROUGH else q, report, budget_s=150)
