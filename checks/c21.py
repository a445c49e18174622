"""C21: optimizing leaves the model at the reported optimum; restarts keep the best."""
import itertools
import math

import numpy as np

from mc import climin, env, pool
from mc.canon import heap_key
from mc.explore import System, enumerate_cases, explore
from mc.objective import Obj, build, ref_f
from mc.report import Violation
from mc.stub import Scripted
from mc.tree import fl, fmt, same

from paramz import Model, Param

LEVEL = "model_checking"
SH = [("a", (2,), "s"), ("b", (1,), "s"), ("c", (1,), "r")]
GRID = [[0.5, -0.25, 1.0, 0.75], [-1.5, 2.0, 0.25, 1.25], [3.0, -2.0, -1.0, 0.5]]


def settled(W, what):
    """parameters and evaluated state are those of W.v"""
    if not same(W.values(), W.v, 1e-8):
        raise Violation("%s the parameters are %s, expected %s" % (what, fmt(W.values()), fmt(W.v)), "params")
    if not same([float(W.m.objective_function())], [ref_f(W.v)], 1e-8):
        raise Violation("%s the model is not evaluated at its parameters" % what, "evaluated")


def fixed_vals(W):
    return [W.values()[k] for k in sorted(W.fixed)]


def optimize(W, start, evals, xopt, inplace, via):
    """one optimization by a scripted optimizer"""
    n = len(W.free())
    fx = fixed_vals(W)
    runs = len(W.m.optimization_runs)
    given = None if start is None else np.array(GRID[start][:n])
    kept = None if given is None else given.copy()
    seen = []

    def script(opt, x0, f_fp, f, fp):
        want = W.x() if given is None else list(kept)
        # (far out a transformation can not tell its arguments apart)
        if len(x0) != n or not same(W.at(fl(x0)), W.at(want), 1e-7):
            raise Violation("started at %s, expected %s" % (fmt(fl(x0)), fmt(want)), "start")
        first = fl(x0)
        for k, e in enumerate(evals):
            x = np.array(GRID[e][:n])
            (f, fp, f_fp)[k % 3](x)
            if fl(x0) != first:
                raise Violation("the start vector turned into %s when the model was evaluated at %s" % (fmt(fl(x0)), fmt(fl(x))), "startchanged")
        seen.append(x0)
        opt.x_opt = np.array(GRID[xopt][:n])
        if inplace:
            x0[...] = opt.x_opt
            opt.x_opt = x0
        opt.f_opt = 1.0

    kw = {} if start is None else {"start": given}
    o = Scripted(script)
    if via == "restarts":
        got = W.m.optimize_restarts(1, optimizer=o, verbose=False, **kw)
        if got is not W.m.optimization_runs:
            raise Violation("optimize_restarts returned %r" % (got,), "returned")
    else:
        got = W.m.optimize(o, **kw)
        if got is not o:
            raise Violation("optimize returned %r instead of the run" % (got,), "returned")
    W.v = W.at(GRID[xopt][:n])
    if given is not None and not inplace and not np.array_equal(given, kept):
        raise Violation("the given start vector was changed", "start")
    if len(W.m.optimization_runs) != runs + 1 or W.m.optimization_runs[-1] is not o:
        raise Violation("%d runs were recorded" % (len(W.m.optimization_runs) - runs), "runs")
    if not same(fl(o.x_opt), GRID[xopt][:n], 0):
        raise Violation("the reported optimum was changed", "xopt")
    if fixed_vals(W) != fx:
        raise Violation("fixed parameters went from %s to %s" % (fx, fixed_vals(W)), "fixed")
    settled(W, "after optimizing")


def single(case):
    toks, fixed, off, start, evals, xopt, inplace, via = case
    W = build(list(toks), fixed, SH)
    if off:
        W.m.update_model(False)
    optimize(W, start, evals, xopt, inplace, via)
    optimize(W, None, (0, 1), 0, False, "optimize")
    return case


def singles(thorough):
    confs = [((None,) * 4, ()), ((None, "pos", "b10", None), (0,)), (("exp", None, "pos", "pos"), (2, 3)), ((None, "neg", None, None), (1, 2, 3)), (("b10",) * 4, ())]
    for toks, fixed in confs:
        for off in (False, True):
            for start in (None, 0, 1):
                for evals in [e for r in range(0, 4 if thorough else 3) for e in itertools.product((0, 1, 2), repeat=r)]:
                    for xopt in (0, 1, 2):
                        for inplace in (False, True):
                            for via in ("optimize", "restarts"):
                                yield (toks, fixed, off, start, evals, xopt, inplace, via)


# ------------------------------------------------------------------------ restarts
CENTERS = [[1.0, 2.0, -1.0], [-2.0, 0.5, 1.5], [4.0, -3.0, 0.25], [0.0, 1.0, 3.0], [2.5, -1.5, -2.5]]


class Boom(RuntimeError):
    pass


class Basins(Obj):
    """restart k finds the minimum vals[k] at CENTERS[k] (for the free parameters)"""
    count = 0
    outcomes = ()

    def __init__(self, name="r"):
        super(Basins, self).__init__(name)
        self.k = 0

    def randomize(self, *a, **kw):
        Basins.count += 1
        self.k = Basins.count
        x = np.array(CENTERS[self.k % 5] + [6.5]) + 0.5
        return super(Basins, self).randomize(lambda size: x[:int(np.prod(size))])

    def parameters_changed(self):
        v = self.flat()
        if v.size != 4:
            return
        d = v - np.array(CENTERS[self.k % 5] + [0.0])
        d[3] = 0
        self.stored = float((d * d).sum())
        i = 0
        for p in self.flattened_parameters:
            p.gradient = 2 * d[i:i + p.size].reshape(p.shape)
            i += p.size

    def objective_function(self):
        o = Basins.outcomes[self.k] if self.k < len(Basins.outcomes) else 0.0
        if o == "raise":
            raise Boom("scripted")
        if o == "key":
            raise KeyError("scripted")
        return self.stored + o


def restarts(W, outcomes, robust, parallel, optimizer):
    """optimize_restarts with the given outcome per restart"""
    m = W.m
    runs = list(m.optimization_runs)
    before = W.values()
    m.k = 0
    Basins.count = 0
    Basins.outcomes = outcomes
    n = len(outcomes)
    kw = {"parallel": True, "num_processes": 2} if parallel else {}
    raised = None
    with pool.patched():
        try:
            got = m.optimize_restarts(n, robust=robust, verbose=False, optimizer=optimizer, max_iters=50 if optimizer != "simplex" else 400, **kw)
        except Exception as e:
            raised = e
    Basins.outcomes = ()
    fails = [o for o in outcomes if isinstance(o, str)]
    after = W.values()
    if 3 in W.fixed and after[3] != before[3]:
        raise Violation("the fixed parameter went from %r to %r" % (before[3], after[3]), "fixed")
    W.v = after
    new = m.optimization_runs[len(runs):]
    if any(a is not b for a, b in zip(runs, m.optimization_runs)) or len(m.optimization_runs) < len(runs):
        raise Violation("earlier runs were lost", "runs")
    if fails and not robust:
        if not isinstance(raised, (Boom, KeyError)):
            raise Violation("restarts %s raised %r" % (outcomes, raised), "raise")
        return "raised"
    if raised is not None:
        raise Violation("restarts %s raised %r" % (outcomes, raised), "raise")
    if got is not m.optimization_runs:
        raise Violation("returned %r" % (got,), "returned")
    if len(new) != n - len(fails):
        raise Violation("%d runs were recorded for the outcomes %s" % (len(new), outcomes), "runs")
    good = [o for o in outcomes if not isinstance(o, str) and math.isfinite(o)]
    if len(fails) == n:
        if not same(after, before, 1e-8):
            raise Violation("all restarts failed, the parameters went from %s to %s" % (fmt(before), fmt(after)), "allfailed")
        return "all failed"
    if not good:
        return "none finite"
    best = min(good)
    where = [k for k, o in enumerate(outcomes) if o == best]
    if not any(same(after[:3], CENTERS[k], 1e-3) for k in where):
        raise Violation("restarts %s (optima at %s): the best is %r, the model was left at %s" % (outcomes, CENTERS[:n], best, fmt(after)), "best")
    fo = [float(o.f_opt) for o in new if math.isfinite(float(o.f_opt))]
    if not fo or abs(min(fo) - best) > 1e-3:
        raise Violation("recorded optima %s, the best is %r" % (fo, best), "runs")
    return "best %s" % where


def world(fixed=(3,)):
    W = build([None] * 4, fixed, SH, cls=Basins, vals=[0.3, 0.6, 0.9, 7.0])
    return W


def restart_case(case):
    prior, outcomes, robust, parallel, optimizer = case[:5]
    W = world(*case[5:])
    for p in prior:
        # earlier optimizations, some of them much better than everything later
        Basins.outcomes = (p,)
        W.m.k = 0
        W.m.optimize(optimizer, max_iters=50)
        Basins.outcomes = ()
        W.v = W.values()
    r = restarts(W, outcomes, robust, parallel, optimizer)
    return (r, robust, parallel)


OUT = [1.0, 2.0, -3.0, float("inf"), float("nan"), "raise"]


def restart_cases(thorough):
    for n in (1, 2, 3) + ((4,) if thorough else ()):
        for outs in itertools.product(OUT, repeat=n):
            for parallel in (False, True):
                for robust in (False, True):
                    yield ((), outs, robust, parallel, "lbfgsb")
                    if n < 3:
                        # nothing is fixed
                        yield ((), outs, robust, parallel, "lbfgsb", ())
                        yield ((5.0,), outs, robust, parallel, "scg", ())
                    if n < 3 or thorough:
                        yield ((-100.0,), outs, robust, parallel, "lbfgsb")
                        yield ((5.0, -100.0), outs, robust, parallel, "scg")
    yield ((), (1.0, "key", 5.0, -4.0), True, False, "simplex")


def real_pool(report):
    """the same with real worker processes"""
    import multiprocessing
    outs = [(1.0, -3.0, 2.0), (1.0, "raise", -1.0), ("raise", "raise"), (float("nan"), 2.0)]
    n = 0
    for o in outs:
        W = world()
        Basins.outcomes = o
        real = pool.patched
        pool.patched = Nothing
        try:
            restarts(W, o, True, True, "lbfgsb")
            n += 1
        except Violation as v:
            report.violation(v, {"system": "restart", "case": [[], list(o), True, True, "lbfgsb"]})
        finally:
            pool.patched = real
    report.add_part(system="real multiprocessing.Pool", executions=n, note="conformance of the stand-in pool")


class Nothing(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


# ------------------------------------------------------------- shipped optimizers
KINDS = {"lbfgsb": "opt_lbfgsb", "scg": "opt_SCG", "simplex": "opt_simplex", "fmin_tnc": "opt_tnc", "org-bfgs": "opt_bfgs", "adadelta": "Opt_Adadelta", "rprop": "RProp", "adam": "Adam"}


def shipped(case):
    name, toks, fixed, start, iters = case
    W = build(list(toks), fixed, SH)
    fx = fixed_vals(W)
    n = len(W.free())
    f0 = ref_f(W.v)
    kw = {}
    if start is not None:
        kw["start"] = np.array(GRID[start][:n])
        f0 = ref_f(W.at(GRID[start][:n]))
    made = dict.fromkeys(("_objective", "_grads", "_objective_grads"), 0)

    def counted(k, fn):
        def call(*a, **kk):
            made[k] += 1
            return fn(*a, **kk)
        return call

    for k in made:
        setattr(W.m, k, counted(k, getattr(W.m, k)))
    if name.startswith("preferred "):
        # the default, or the one which is said to be preferred
        if name != "preferred ":
            W.m.preferred_optimizer = name.split()[1]
        o = W.m.optimize(max_iters=iters, **kw)
    else:
        o = W.m.optimize(name, max_iters=iters, **kw)
    if KINDS.get(name.split()[-1], None) not in (None, type(o).__name__):
        raise Violation("optimizing by %s was done by %s" % (name, type(o).__name__), "kind")
    for k in made:
        delattr(W.m, k)
    if W.m.optimization_runs != [o]:
        raise Violation("recorded %s" % (W.m.optimization_runs,), "runs")
    # whether evaluating the start and the gradients counts is up to the optimizer
    least, most = made["_objective"] + made["_objective_grads"] - 1, sum(made.values())
    if not least <= o.funct_eval <= most:
        raise Violation("%s reports %s evaluations, made were %s" % (name, o.funct_eval, made), "evaluations")
    if name == "simplex" and most > iters or most > 25 + 12 * iters:
        raise Violation("%s evaluated %d times, allowed were %d iterations" % (name, most, iters), "limit")
    x = fl(o.x_opt)
    if len(x) != n:
        raise Violation("optimum of length %d" % len(x), "xopt")
    v = W.at(x)
    if not same(W.values(), v, 1e-8):
        raise Violation("%s left the model at %s, it reported %s" % (name, fmt(W.values()), fmt(v)), "params")
    if not same([float(o.f_opt)], [ref_f(v)], 1e-7):
        raise Violation("%s reports the objective %r, at its optimum it is %r" % (name, float(o.f_opt), ref_f(v)), "fopt")
    if float(o.f_opt) > f0 + 1e-9 * (1 + abs(f0)):
        raise Violation("%s ended at %r, it started at %r" % (name, float(o.f_opt), f0), "worse")
    if fixed_vals(W) != fx:
        raise Violation("fixed parameters went from %s to %s" % (fx, fixed_vals(W)), "fixed")
    W.v = v
    settled(W, "after %s" % name)
    str(o)
    return case


def climin_case(case):
    """the optimizers of climin, on a stand-in of it"""
    with climin.installed():
        return shipped(case)


def climin_restarts(case):
    with climin.installed():
        return restart_case(case)


def climin_cases():
    for name in ("adadelta", "rprop", "adam", "preferred adam"):
        for toks, fixed in [((None,) * 4, ()), ((None, None, None, None), (0, 2)), ((None, None, None, "pos"), (3,))]:
            for start in (None, 0, 2):
                for it in (1, 2, 5, 50):
                    yield (name, toks, fixed, start, it)


def shipped_cases():
    for name in ("preferred ", "preferred scg", "preferred simplex", "preferred fmin_tnc", "preferred org-bfgs"):
        yield (name, (None, "pos", "b10", None), (0,), None, 5)
    confs = [((None,) * 4, ()), ((None, "pos", "b10", None), (0,)), (("exp", None, "pos", "pos"), (2, 3)), ((None, "neg", None, None), (1, 2, 3)), (("b10",) * 4, ())]
    for name in ("lbfgsb", "scg", "simplex", "fmin_tnc", "org-bfgs", "lbfgs", "tnc", "bfgs"):
        for toks, fixed in confs:
            for start in (None, 0, 2):
                for it in (0, 1, 2, 5, 50) if name not in ("fmin_tnc", "tnc") else (1, 2, 5, 50):
                    if name == "simplex" and it == 0:
                        continue
                    yield (name, toks, fixed, start, it)


# ----------------------------------------------------------------- stopping early
LOOSE = {"lbfgsb": [("gtol",), ("bfgs_factor",)], "org-bfgs": [("gtol",)], "fmin_tnc": [("xtol",), ("ftol",), ("gtol",)], "simplex": [("xtol", "ftol")], "scg": [("xtol",), ("ftol",), ("gtol",)]}
TIGHT = [("org-bfgs", "gtol"), ("scg", "gtol"), ("fmin_tnc", "ftol")]


def limits(case):
    """huge tolerances end a run early, its iteration limit ends it and is named as the reason"""
    name, toks, fixed, what, tol = case

    def go(limit, **kw):
        W = build(list(toks), fixed, SH)
        f0 = ref_f(W.v)
        o = W.m.optimize(name, max_iters=limit, **kw)
        if not same(W.values(), W.at(fl(o.x_opt)), 1e-8) or W.m.optimization_runs != [o]:
            raise Violation("%s%s left the model at %s, it reported %s" % (name, kw, fmt(W.values()), fmt(fl(o.x_opt))), "params")
        if not float(o.f_opt) <= f0 + 1e-9:
            raise Violation("%s%s ended at %r, it started at %r" % (name, kw, o.f_opt, f0), "worse")
        return o

    if what == "limit":
        o, ref = go(tol), go(400)
        if not o.funct_eval < ref.funct_eval:
            raise Violation("%s made %d evaluations with %d iterations, %d with 400" % (name, o.funct_eval, tol, ref.funct_eval), "limit")
        if "max" not in o.status.lower():
            raise Violation("%s stopped at its limit of %d says %r" % (name, tol, o.status), "status")
        return case
    o, ref = go(150, **dict.fromkeys(what, tol)), go(150)
    if tol > 1:
        if not o.funct_eval < ref.funct_eval:
            raise Violation("%s made %d evaluations with %s of %g, %d without" % (name, o.funct_eval, what, tol, ref.funct_eval), "tolerance")
        if "max" in o.status.lower():
            raise Violation("%s stopped by its tolerance says %r" % (name, o.status), "status")
    elif not o.funct_eval > ref.funct_eval:
        raise Violation("%s made %d evaluations with %s of %g, %d without" % (name, o.funct_eval, what, tol, ref.funct_eval), "tolerance")
    return case


def limit_cases():
    confs = [((None,) * 4, ()), ((None, "pos", "b10", None), (0,)), (("exp", None, "pos", "pos"), (2, 3))]
    for name, tols in LOOSE.items():
        for toks, fixed in confs:
            for it in (1, 2, 3):
                yield (name, toks, fixed, "limit", it)
            for t in tols:
                yield (name, toks, fixed, t, 1e17 if t == ("bfgs_factor",) else 1e9)
    for name, t in TIGHT:
        yield (name, confs[0][0] if name != "fmin_tnc" else confs[1][0], confs[0][1] if name != "fmin_tnc" else confs[1][1], (t,), 1e-14)


# optimizers by the functions of scipy they are documented to run, with the names of the tolerances there
DIRECT = {"simplex": {"xtol": "xtol", "ftol": "ftol"}, "fmin_tnc": {"xtol": "xtol", "ftol": "ftol", "gtol": "pgtol"}, "lbfgsb": {"gtol": "pgtol", "bfgs_factor": "factr"},
          "org-bfgs": {"gtol": "gtol"}, "scg": {"xtol": "xtol", "ftol": "ftol", "gtol": "gtol"}}
DEGREES = {"xtol": (None, 1e3, 1e-9), "ftol": (None, 1e3, 1e-12), "gtol": (None, 1e3, 1e-9), "bfgs_factor": (None, 1e14, 10.)}


def direct(case):
    """the tolerances asked for arrive at what stops the run: the same point as that of the function run directly"""
    name, toks, fixed, limit, tols = case
    import contextlib
    import io
    from scipy import optimize as so
    from paramz.optimization.scg import SCG
    tols = dict((k, v) for k, v in tols if v is not None)
    kw = dict((DIRECT[name][k], v) for k, v in tols.items())

    def script(opt, x0, f_fp, f, fp):
        x0 = np.array(x0)
        if name == "simplex":
            x = so.fmin(f, x0, disp=False, maxfun=limit, **kw)
        elif name == "fmin_tnc":
            x = so.fmin_tnc(f_fp, x0, maxfun=limit, messages=0, **kw)[0]
        elif name == "lbfgsb":
            x = so.fmin_l_bfgs_b(f_fp, x0, maxfun=limit, maxiter=limit, **kw)[0]
        elif name == "org-bfgs":
            x = so.fmin_bfgs(f, x0, fp, maxiter=limit, disp=False, **kw)
        else:
            x = SCG(f, fp, x0, maxiters=limit, **kw)[0]
        opt.x_opt = np.array(x)
        opt.f_opt = float(f(opt.x_opt))

    out = []
    for o, more in ((name, dict(max_iters=limit, **tols)), (Scripted(script), {})):
        W = build(list(toks), fixed, SH)
        with contextlib.redirect_stdout(io.StringIO()):
            out.append(fl(W.m.optimize(o, **more).x_opt))
    if not same(out[0], out[1], 1e-7):
        raise Violation("%s with %s ends at %s, the function itself at %s" % (name, tols, fmt(out[0]), fmt(out[1])), "tolerance")
    return (name, tuple(sorted(tols)), tuple(round(v, 6) for v in out[0]))


def direct_cases():
    confs = [((None,) * 4, ()), ((None, "pos", "b10", None), (0,))]
    for name, names in DIRECT.items():
        for toks, fixed in confs:
            for limit in (4, 25, 400):
                for vals in itertools.product(*[DEGREES[k] for k in sorted(names)]):
                    yield (name, toks, fixed, limit, tuple(zip(sorted(names), vals)))


# an objective and gradient which are not those of any smooth function
ODD = {
    "nan": (lambda x: float("nan"), lambda x: x), "inf": (lambda x: float("inf"), lambda x: x), "-inf": (lambda x: -float("inf"), lambda x: x),
    "constant": (lambda x: 1.0, lambda x: 0 * x), "uphill": (lambda x: (x ** 2).sum(), lambda x: -2 * x), "unbounded": (lambda x: x.sum(), lambda x: 0 * x + 1),
    "nan gradient": (lambda x: (x ** 2).sum(), lambda x: float("nan") * x), "inf gradient": (lambda x: (x ** 2).sum(), lambda x: float("inf") * x),
    "kink": (lambda x: abs(x).sum(), lambda x: np.sign(x)), "huge": (lambda x: 1e300 * (x ** 2).sum(), lambda x: 2e300 * x),
    "nan inside": (lambda x: (x ** 2).sum() if abs(x).max() >= 1 else float("nan"), lambda x: 2 * x), "overflow": (lambda x: -np.exp(x).sum(), lambda x: -np.exp(x)),
}


def odd(case):
    """a run on an odd objective still ends, is recorded once and leaves the model where it says"""
    name, kind, start = case
    f, g = ODD[kind]

    class Odd(Model):
        def __init__(self, name):
            super(Odd, self).__init__(name)
            self.link_parameter(Param("p", np.array(start)))

        def objective_function(self):
            return f(np.array(self.parameters[0]))

        def parameters_changed(self):
            self.parameters[0].gradient = g(np.array(self.parameters[0]))

    with np.errstate(all="ignore"):
        m = Odd("m")
        o = m.optimize(name, max_iters=40)
        if m.optimization_runs != [o]:
            raise Violation("recorded %s" % (m.optimization_runs,), "runs")
        if not np.array_equal(m.param_array, np.ravel(o.x_opt), equal_nan=True):
            raise Violation("%s left the model at %s, it reported %s" % (name, fmt(fl(m.param_array)), fmt(fl(o.x_opt))), "params")
        want = float(np.clip(f(np.ravel(o.x_opt)), -1e300, np.inf)) if kind != "-inf" else float(o.f_opt)
        if kind not in ("huge", "overflow") and not np.array_equal(float(o.f_opt), want, equal_nan=True) and not np.isclose(float(o.f_opt), want):
            raise Violation("%s reports the objective %r, at its optimum it is %r" % (name, float(o.f_opt), want), "fopt")
        str(o)
    return case


def odd_cases():
    for name in LOOSE:
        for kind in ODD:
            for start in ([1.0, 2.0], [0.5], [1e5], [0.0, 0.0, -3.0]):
                yield (name, kind, start)


# ------------------------------------------------------------------------ histories
class Hist(System):
    def __init__(self, name):
        self.name = name

    def build(self):
        return build([None, "pos", None, "b10"], (), SH)

    def ops(self, W):
        out = [("set", 0.5), ("upd", False), ("upd", True), ("fix", "b"), ("fix", "c"), ("unfix", "s"), ("fixall",), ("unfixall",)]
        if W.free():
            out += [("opt", None, 1), ("opt", 2, 0), ("optin", None, 2), ("fail", "f"), ("fail", "opt"), ("restarts",), ("short",)]
        else:
            out += [("none",)]
        return out

    def apply(self, W, op):
        k = op[0]
        m = W.m
        if k == "set":
            W.leaves["a"][1:] = op[1]
            W.v[1] = op[1]
        elif k == "upd":
            m.update_model(op[1])
        elif k == "fix":
            W.leaves[op[1]].fix(warning=False)
            W.fixed |= set(W.pos[op[1]])
        elif k == "unfix":
            W.s.unfix()
            W.fixed -= {0, 1, 2}
        elif k == "fixall":
            m.fix(warning=False)
            W.fixed = {0, 1, 2, 3}
        elif k == "unfixall":
            m.unfix()
            W.fixed = set()
        elif k == "opt":
            optimize(W, op[1], (0, 1), op[2], False, "optimize")
        elif k == "optin":
            optimize(W, None, (1,), op[2], True, "optimize")
        elif k == "none":
            runs = len(m.optimization_runs)
            if m.optimize() is not None or len(m.optimization_runs) != runs:
                raise Violation("something was optimized although all parameters are fixed", "none")
        elif k == "fail":
            n = len(W.free())
            runs = len(m.optimization_runs)

            def script(opt, x0, f_fp, f, fp):
                f(np.array(GRID[1][:n]))
                W.v = W.at(GRID[1][:n])
                if op[1] == "opt":
                    raise Boom("in the optimizer")
                m.hook = lambda site: boom()
                try:
                    f(np.array(GRID[0][:n]))
                finally:
                    W.v = W.at(GRID[0][:n])
                    m.hook = None

            def boom():
                raise Boom("in the model")

            try:
                m.optimize(Scripted(script))
                raise Violation("the exception was swallowed", "swallowed")
            except Boom:
                pass
            if len(m.optimization_runs) != runs:
                raise Violation("a failed run was recorded", "runs")
        elif k == "restarts":
            vals = iter([3.0, 1.0, 2.0])
            n = len(W.free())
            fx = fixed_vals(W)
            runs = len(m.optimization_runs)
            best = []

            class Fresh(object):
                pass

            real = np.random.normal
            np.random.normal = lambda loc=0.0, scale=1.0, size=None: np.full(size, 0.125)
            try:
                m.optimize_restarts(2, verbose=False, optimizer="lbfgsb", max_iters=3)
            finally:
                np.random.normal = real
            new = m.optimization_runs[runs:]
            if len(new) != 2:
                raise Violation("%d runs were recorded" % len(new), "runs")
            b = min(new, key=lambda o: o.f_opt)
            W.v = W.at(fl(b.x_opt))
            if fixed_vals(W) != fx:
                raise Violation("fixed parameters moved", "fixed")
            settled(W, "after restarts")
            W.v = W.values()
        elif k == "short":
            o = m.optimize("scg", max_iters=1)
            W.v = W.at(fl(o.x_opt))
            settled(W, "after a short run")
            W.v = W.values()

    def key(self, W):
        runs, W.m.optimization_runs = W.m.optimization_runs, []
        try:
            return heap_key([W.m], skip_attrs=("evals",)) + bytes([min(len(runs), 3)])
        finally:
            W.m.optimization_runs = runs

    def check(self, W):
        if not same(W.values(), W.v, 1e-7):
            raise Violation("parameters are %s, expected %s" % (fmt(W.values()), fmt(W.v)), "params")
        if W.free():
            optimize(W, None, (2,), 0, False, "optimize")


def systems():
    return {"hist": Hist("hist")}


def case_functions():
    return {"single": single, "restart": restart_case, "shipped": shipped, "limits": limits, "direct": direct, "odd": odd, "climin": climin_case, "climin restart": climin_restarts}


def run(report):
    enumerate_cases("single", single, list(singles(env.THOROUGH)), report)
    enumerate_cases("restart", restart_case, list(restart_cases(env.THOROUGH)), report)
    enumerate_cases("shipped", shipped, list(shipped_cases()), report)
    enumerate_cases("limits", limits, list(limit_cases()), report)
    enumerate_cases("direct", direct, list(direct_cases()), report)
    enumerate_cases("odd", odd, list(odd_cases()), report)
    enumerate_cases("climin", climin_case, list(climin_cases()), report)
    enumerate_cases("climin restart", climin_restarts, [c[:4] + ("adam" if c[2] else "rprop",) + c[5:] for c in restart_cases(False) if len(c[1]) < 3], report)
    real_pool(report)
    explore(Hist("hist"), 4 if env.THOROUGH else 3, report)
