"""C20: objective failures while optimizing are tolerated up to the limit, then raised."""
import itertools

import numpy as np

from mc import env
from mc.canon import heap_key
from mc.explore import System, enumerate_cases, explore
from mc.objective import build, ref_f
from mc.report import Violation
from mc.stub import Scripted
from mc.tree import fl, fmt, same

LEVEL = "model_checking"


class Custom(ValueError):
    pass


EXC = {"LinAlg": np.linalg.LinAlgError, "Zero": ZeroDivisionError, "Value": ValueError, "Custom": Custom,
       "Key": KeyError, "Runtime": RuntimeError, "Float": FloatingPointError, "Type": TypeError, "Assert": AssertionError, "Memory": MemoryError}
TOLERATED = ("LinAlg", "Zero", "Value", "Custom")
SITES = {"f": ("update", "objective"), "fp": ("update", "gradient"), "f_fp": ("update", "objective", "gradient")}
XS = [[0.5, -0.25, 1.0], [-1.5, 2.0, 0.25], [30.0, -12.0, 3.0]]
SH = [("a", (2,), "s"), ("b", (1,), "s"), ("c", (1,), "r")]


def make(limit):
    W = build([None, "pos", "b10", None], (3,), SH)
    if limit is not None:
        W.m._allowed_failures = limit
    W.count = 0
    W.limit = 10 if limit is None else limit
    W.step = None

    def hook(site):
        if W.step is not None and W.step[0] == site:
            if W.step[2]:
                for p in W.m.flattened_parameters:
                    p.gradient[...] = W.step[2]
            raise W.step[1]

    W.m.hook = hook
    return W


def call(W, f_fp, f, fp, cb, xi, fail):
    """one callback; fail: None or (site, exception name, garbage left in the gradient)"""
    x = np.array(XS[xi])
    exc = None
    if fail is not None:
        exc = EXC[fail[1]]("scripted")
        W.step = (fail[0], exc, fail[2])
    fires = fail is not None and fail[0] in SITES[cb]
    try:
        got = {"f": f, "fp": fp, "f_fp": f_fp}[cb](x)
        raised = None
    except Exception as e:
        raised = e
    W.step = None
    what = "%s at %s with %s" % (cb, xi, fail)
    if not fires:
        if raised is not None:
            raise Violation("%s raised %r" % (what, raised), "raise")
        W.count = 0
        v = W.at(XS[xi])
        W.v = [W.v[k] if k in W.fixed else v[k] for k in range(len(v))]
        gf = got if cb == "f" else got[0] if cb == "f_fp" else None
        gg = got if cb == "fp" else got[1] if cb == "f_fp" else None
        if gf is not None and not same([float(gf)], [ref_f(W.v)], 1e-9):
            raise Violation("%s: objective %r, expected %r" % (what, gf, ref_f(W.v)), "after")
        if gg is not None and not same(fl(gg), W.grad(W.v), 1e-7):
            raise Violation("%s: gradient %s, expected %s" % (what, fmt(fl(gg)), fmt(W.grad(W.v))), "after")
        if not same(W.values(), W.v, 1e-9):
            raise Violation("%s: parameters %s, expected %s" % (what, fmt(W.values()), fmt(W.v)), "after")
        return "ok"
    W.v = W.at(XS[xi])        # wherever it failed, the vector was set
    if fail[1] not in TOLERATED:
        if raised is not exc:
            raise Violation("%s: got %r instead of the exception" % (what, raised if raised is not None else got), "other")
        return "other"
    if W.count >= W.limit:
        if raised is not exc:
            raise Violation("%s: failure %d with %d allowed was not raised but gave %r" % (what, W.count + 1, W.limit, raised if raised is not None else got), "limit")
        return "limit"
    W.count += 1
    if raised is not None:
        raise Violation("%s: failure %d with %d allowed was raised: %r" % (what, W.count, W.limit, raised), "tolerated")
    gf = got if cb == "f" else got[0] if cb == "f_fp" else None
    gg = got if cb == "fp" else got[1] if cb == "f_fp" else None
    if gf is not None and not float(gf) == np.inf:
        raise Violation("%s: objective %r instead of infinity" % (what, gf), "inf")
    if gg is not None:
        gg = np.asarray(gg)
        if gg.shape != (len(W.free()),) or not np.all(np.isfinite(gg)) or np.max(np.abs(gg)) > 1e100:
            raise Violation("%s: gradient %s is not finite and bounded, or not of the right length" % (what, gg), "finite")
    return "tolerated"


class Faults(System):
    """the callbacks are kept from an optimization, every sequence of them"""

    def __init__(self, name, limit, alphabet):
        self.name, self.limit, self.alphabet = name, limit, alphabet

    def build(self):
        W = make(self.limit)

        def script(opt, x0, f_fp, f, fp):
            W.cb = (f_fp, f, fp)
            opt.x_opt, opt.f_opt = np.array(x0), 0.0

        W.m.optimize(optimizer=Scripted(script))
        W.m.optimization_runs = []
        return W

    def ops(self, W):
        return self.alphabet

    def apply(self, W, op):
        W.last = call(W, W.cb[0], W.cb[1], W.cb[2], *op)

    def outcome(self, W):
        return (W.last, W.count)

    def key(self, W):
        h, W.m.hook = W.m.hook, None
        try:
            return heap_key([W.m, W.count], skip_attrs=("evals",))
        finally:
            W.m.hook = h

    def check(self, W):
        # the next vector is evaluated correctly, by each callback
        for cb in ("f_fp", "f", "fp"):
            call(W, W.cb[0], W.cb[1], W.cb[2], cb, 1, None)


def sequence(case):
    """a whole optimization: the calls are made while it runs, the last failure may escape"""
    limit, seq, catch = case
    W = make(limit)
    out = []

    def script(opt, x0, f_fp, f, fp):
        for cb, xi, fail in seq:
            r = call(W, f_fp, f, fp, cb, xi, fail)
            out.append(r)
            if r in ("other", "limit") and not catch:
                raise Escape()
        opt.x_opt, opt.f_opt = np.array(XS[0]), 0.0

    class Escape(Exception):
        pass

    n = len(W.m.optimization_runs)
    try:
        W.m.optimize(optimizer=Scripted(script))
        escaped = False
    except Escape:
        escaped = True
    if len(W.m.optimization_runs) != n + (0 if escaped else 1):
        raise Violation("%d runs were recorded" % (len(W.m.optimization_runs) - n), "runs")
    if not escaped:
        W.v = W.at(XS[0])
        if not same(W.values(), W.v, 1e-9):
            raise Violation("after optimizing the parameters are %s, expected %s" % (fmt(W.values()), fmt(W.v)), "final")

    def script2(opt, x0, f_fp, f, fp):
        if not same(fl(x0), W.x(), 1e-6):
            raise Violation("the next run starts at %s, expected %s" % (fmt(fl(x0)), fmt(W.x())), "next")
        for cb in ("fp", "f_fp", "f"):
            call(W, f_fp, f, fp, cb, 1, None)
        opt.x_opt, opt.f_opt = np.array(XS[0]), 0.0

    W.m.optimize(optimizer=Scripted(script2))
    W.v = W.at(XS[0])
    if not same(W.values(), W.v, 1e-9) or not same([float(W.m.objective_function())], [ref_f(W.v)], 1e-9):
        raise Violation("after the next run the model is not evaluated at its optimum", "next")
    return (limit, tuple(out))


def real_optimizers(case):
    """the shipped optimizers survive as many failures as are allowed"""
    name, first, site, excname = case
    W = make(None)
    n = [0]
    inner = W.m.hook

    def hook(s):
        if s == "update":
            n[0] += 1
            W.step = (site, EXC[excname]("scripted"), None) if first <= n[0] < first + 3 else None
        inner(s)

    W.m.hook = hook
    start = W.values()
    W.m.optimize(name, max_iters=30)
    W.m.hook = None
    if W.values()[3] != start[3]:
        raise Violation("the fixed parameter moved", "fixed")
    r = W.m.optimization_runs[-1]
    if not np.all(np.isfinite(r.x_opt)):
        raise Violation("%s ended at %s" % (name, r.x_opt), "real")
    return (case, n[0])


def systems():
    some = []
    for cb in ("f", "fp", "f_fp"):
        some.append((cb, 0, None))
        for s in SITES[cb]:
            some.append((cb, 1, (s, "LinAlg", None)))
    full = []
    for cb in ("f", "fp", "f_fp"):
        for xi in (0, 1, 2):
            full.append((cb, xi, None))
        for s in ("update", "objective", "gradient"):
            for x in sorted(EXC):
                full.append((cb, 1, (s, x, None)))
            for g in (float("nan"), float("inf"), -1e300):
                full.append((cb, 2, (s, "Value", g)))
    S = [Faults("limit%d" % L, L, some) for L in (0, 1, 2, 3)] + [Faults("full", 1, full), Faults("default", None, [some[0], some[1], some[-1], some[-2], ("f", 0, ("update", "Key", None))])]
    return {s.name: s for s in S}


def case_functions():
    return {"sequence": sequence, "real_optimizers": real_optimizers}


def sequences(thorough):
    steps = [("f_fp", 0, None), ("f", 1, ("objective", "Zero", None)), ("fp", 1, ("update", "Value", float("nan"))), ("f_fp", 2, ("gradient", "LinAlg", None)),
             ("f_fp", 1, ("update", "LinAlg", None)), ("f", 0, ("update", "Key", None)), ("fp", 2, None)]
    for L in (0, 1, 2):
        for n in range(1, (5 if thorough else 4) + 1):
            for seq in itertools.product(steps, repeat=n):
                for catch in (False, True) if n < 4 or thorough else (False,):
                    yield (L, seq, catch)
    # the default limit
    fails = [("f", 1, ("objective", "Zero", None)), ("fp", 1, ("update", "Value", None)), ("f_fp", 2, ("objective", "LinAlg", None)), ("f_fp", 2, ("gradient", "LinAlg", None))]
    for i, a in enumerate(fails):
        for n in (9, 10, 11, 12):
            yield (None, (a,) * n, False)
            yield (None, tuple(fails[(i + j) % 4] for j in range(n)), True)
            for at in range(n):
                seq = [a] * (n + 3)
                seq[at] = ("fp", 0, None)
                yield (None, tuple(seq), False)


def run(report):
    S = systems()
    for L in (0, 1, 2, 3):
        explore(S["limit%d" % L], 8 if env.THOROUGH else 5, report)
    explore(S["full"], 4 if env.THOROUGH else 2, report)
    explore(S["default"], 14, report)
    enumerate_cases("sequence", sequence, list(sequences(env.THOROUGH)), report)
    enumerate_cases("real_optimizers", real_optimizers,
                    [(o, f, s, x) for o in ("lbfgsb", "scg", "simplex", "fmin_tnc", "org-bfgs") for f in range(1, 12 if env.THOROUGH else 8) for s in ("update", "objective", "gradient")
                     for x in ("LinAlg", "Zero")], report)
