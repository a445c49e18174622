"""C22: scaled conjugate gradients reports what it has seen and never gets worse.

The objective and its gradient are the environment: every answer is a choice,
and every sequence of choices up to a number of evaluations is run (a depth
first search over choice points; after the last choice the environment answers
the first alternative). The same point is always answered the same."""
import itertools

import numpy as np

from mc import env
from mc.explore import enumerate_cases
from mc.report import Violation
from mc.tree import fl

from paramz.optimization.optimization import opt_SCG
from paramz.optimization.scg import SCG

LEVEL = "model_checking"
INF, NAN = float("inf"), float("nan")

# the objective relative to the best one so far
F = {"better": lambda b: b - 1.0, "hair": lambda b: b - 1e-8, "equal": lambda b: b, "worse": lambda b: b + 0.5, "far": lambda b: b + 1e6, "bit": lambda b: b + 1e-9,
     "deep": lambda b: b - 1e5, "inf": lambda b: INF, "nan": lambda b: NAN, "-inf": lambda b: -INF}
G = {1: {"up": [1.0], "down": [-1.0], "steep": [40.0], "flat": [0.01], "tiny": [1e-9], "zero": [0.0], "sdown": [-0.25]},
     2: {"up": [1.0, 0.5], "down": [-1.0, -0.5], "turn": [-0.5, 1.0], "flat": [0.01, 0.0], "steep": [-30.0, 20.0], "zero": [0.0, 0.0], "axis": [0.0, 2.0]}}


class Env(object):
    def __init__(self, n, script, falts, galts, default_f, default_g):
        self.n, self.script = n, list(script)
        self.falts, self.galts = falts, galts
        self.rest = (default_f, default_g)
        self.pos = 0
        self.widths = []
        self.seen = {}          # point -> objective, in order
        self.grads = {}
        self.calls = 0
        self.order = []
        self.best = None
        self.args = None
        self.held = []

    def choose(self, alts, default):
        k = self.pos
        self.pos += 1
        if k < len(self.script):
            return alts[self.script[k]]
        self.widths.append(len(alts))
        return default

    def point(self, x, args, what):
        if tuple(args) != self.args:
            raise Violation("%s was called with the extra arguments %r, expected %r" % (what, args, self.args), "optargs")
        x = np.asarray(x)
        if x.shape != (self.n,):
            raise Violation("%s was called with an array of shape %s" % (what, x.shape), "point")
        self.calls += 1
        k = x.tobytes()
        self.order.append((what, k))
        self.held.append((x, k))
        if not np.all(np.isfinite(x)):
            raise Violation("%s was evaluated at %s" % (what, fl(x)), "nonfinite")
        return k

    def f(self, x, *args):
        k = self.point(x, args, "objective")
        if k not in self.seen:
            name = self.choose(self.falts, self.rest[0])
            b = 10.0 if self.best is None else self.best
            v = F[name](b)
            self.seen[k] = v
            if self.best is None:
                self.best = v if np.isfinite(v) else 10.0
            elif v < self.best and np.isfinite(v):
                self.best = v
        return self.seen[k]

    def g(self, x, *args):
        k = self.point(x, args, "gradient")
        if k not in self.grads:
            self.grads[k] = np.array(G[self.n][self.choose(self.galts, self.rest[1])])
        return self.grads[k].copy()


def same(a, b):
    return a == b or (a != a and b != b)


def judge(E, x0, kept, res, maxiters, tol, via):
    x, flog, count, status = res
    xtol, ftol, gtol = [d if t is None else t for t, d in zip(tol, (1e-6, 1e-6, 1e-5))]
    if x0.tobytes() != kept:
        raise Violation("%s: the starting vector was changed to %s" % (via, fl(x0)), "x0")
    for a, k in E.held:
        if a.tobytes() != k:
            raise Violation("%s: a point given to the objective was changed afterwards" % via, "held")
    x = np.asarray(x)
    k = x.tobytes()
    if k not in E.seen:
        raise Violation("%s: returned %s, where the objective was not evaluated" % (via, fl(x)), "returned")
    flog = [float(v) for v in flog]
    first = E.seen[kept]
    if not same(flog[0], first):
        raise Violation("%s: the first recorded objective is %s, it was %s" % (via, flog[0], first), "flog")
    for a, b in zip(flog, flog[1:]):
        if b > a:
            raise Violation("%s: the recorded objectives %s increase" % (via, flog), "increase")
    if not same(flog[-1], E.seen[k]):
        raise Violation("%s: the last recorded objective is %s, that of the returned point %s" % (via, flog[-1], E.seen[k]), "last")
    shorter(E, kept, via)
    vals = list(E.seen.values())
    for v in flog:
        if not any(same(v, w) for w in vals):
            raise Violation("%s: recorded %s which was never seen" % (via, v), "flog")
    if count != E.calls:
        raise Violation("%s: reported %s evaluations, made %d" % (via, count, E.calls), "count")
    steps = len(flog) - 1
    if steps > maxiters:
        raise Violation("%s: %d iterations with a limit of %d" % (via, steps, maxiters), "limit")
    s = str(status).lower()
    if "maxiter" in s:
        if steps != maxiters:
            raise Violation("%s: status %r after %d of %d iterations" % (via, status, steps, maxiters), "status")
    elif "objective" in s:
        if not steps or not abs(flog[-1] - flog[-2]) < ftol:
            raise Violation("%s: status %r with the objectives %s" % (via, status, flog), "status")
    elif "stepsize" in s:
        pts = [b for w, b in E.order if w == "objective"]
        at = [i for i, b in enumerate(pts) if b == k]
        prev = kept
        best = None
        for b in pts:           # the point it was at before the returned one
            if b == k:
                break
            v = E.seen[b]
            if best is None or v <= best:
                best, prev = v, b
        d = np.abs(np.frombuffer(k) - np.frombuffer(prev)).max() if at else INF
        if not d < xtol * (1 + 1e-6) + 1e-12:
            raise Violation("%s: status %r after a step of %s" % (via, status, d), "status")
    elif "gradient" in s:
        if k not in E.grads or not E.grads[k].dot(E.grads[k]) <= gtol:
            raise Violation("%s: status %r with the gradient %s at the returned point" % (via, status, E.grads.get(k)), "status")
    else:
        raise Violation("%s: status %r names no reason" % (via, status), "status")
    if steps < maxiters and "maxiter" in s:
        raise Violation("%s: stopped early" % via, "status")
    return s.split(" ")[-1]


def shorter(E, kept, via):
    """a trial which did not succeed is not followed by a longer one (where the
    curvature seen is extreme it can be equal in floating point)"""
    pts = [(np.frombuffer(b), E.seen[b]) for w, b in E.order if w == "objective"]
    x, fx = pts[0]
    last = None
    for y, fy in pts[1:]:
        if not (np.isfinite(fy) and np.isfinite(fx)):
            return
        step = np.abs(y - x).max()
        if last is not None and not step <= last * (1 + 1e-9) + 1e-12 * max(1.0, np.abs(x).max()):
            raise Violation("%s: after a step of %s from %s, where the objective got worse, it tried one of %s" % (via, last, fl(x), step), "shorter")
        if fy <= fx:
            x, fx, last = y, fy, None
        else:
            last = step


def one(conf, script):
    n, maxiters, tol, args, via, falts, galts, df, dg, start = conf
    E = Env(n, script, falts, galts, df, dg)
    E.args = args
    x0 = np.array(start, float)
    kept = x0.tobytes()
    if via == "SCG":
        res = SCG(E.f, E.g, x0, optargs=args, maxiters=maxiters, xtol=tol[0], ftol=tol[1], gtol=tol[2])
    else:
        o = opt_SCG(max_iters=maxiters, xtol=tol[0], ftol=tol[1], gtol=tol[2])
        o.run(x0, f=E.f, fp=E.g, f_fp=None)
        res = (o.x_opt, o.trace, o.funct_eval, o.status)
        if not same(o.f_opt, E.seen.get(np.asarray(o.x_opt).tobytes())):
            raise Violation("opt_SCG: f_opt is %s" % o.f_opt, "f_opt")
    return E, judge(E, x0, kept, res, maxiters, tol, via)


def search(case):
    """all continuations of a prefix of choices, by depth first search"""
    conf, depth, prefix = case
    stack = [tuple(prefix)]
    runs = 0
    outs = set()
    while stack:
        s = stack.pop()
        try:
            E, st = one(conf, s)
        except Violation as v:
            raise Violation("%s of %s, answers %s: %s" % (conf[4], conf[:3], names(conf, s), v.msg), v.sig)
        runs += 1
        outs.add((st, len(E.order)))
        # the choices made by default beyond the script become alternatives
        if len(s) < depth and E.widths:
            for a in range(E.widths[0]):
                stack.append(s + (a,))
    return (runs, tuple(sorted(outs)))


def names(conf, s):
    """which kind each choice was is only known when running: list the numbers"""
    return list(s)


def confs():
    T = env.THOROUGH
    f6 = ("better", "hair", "equal", "worse", "far", "inf")
    f4 = ("better", "equal", "worse", "deep")
    fx = ("better", "bit", "nan", "-inf", "inf", "deep")
    g1 = ("up", "down", "steep", "zero")
    g1b = ("up", "tiny", "sdown", "flat")
    g2 = ("up", "turn", "steep", "zero")
    g2b = ("down", "axis", "flat", "steep")
    none = (None, None, None)
    out = []
    d = 10 if T else 8
    for mi in (1, 3, 12):
        out.append(((1, mi, none, (), "SCG", f6, g1, "better", "up", (0.5,)), d))
        out.append(((2, mi, none, (), "SCG", f6, g2, "worse", "down", (0.5, -1.0)), d))
    out.append(((1, 0, none, (), "SCG", f6, g1, "better", "up", (0.5,)), 2))
    out.append(((1, 6, none, (3, "k"), "SCG", fx, g1, "worse", "steep", (-2.0,)), d))
    out.append(((2, 6, none, (), "SCG", fx, g2b, "better", "turn", (0.0, 0.0)), d))
    out.append(((1, 5, (1e-1, None, None), (), "SCG", f4, g1b, "worse", "steep", (0.5,)), d))
    out.append(((1, 5, (None, 2.0, None), (), "SCG", f4, g1b, "worse", "up", (0.5,)), d))
    out.append(((2, 5, (None, None, 0.5), (), "SCG", f4, g2b, "worse", "up", (0.5, 1.0)), d))
    out.append(((2, 5, (0.0, 0.0, 0.0), (), "SCG", f4, g2, "worse", "up", (0.5, 1.0)), d))
    for mi in (2, 7):
        out.append(((1, mi, none, (), "opt_SCG", f4, g1, "worse", "up", (0.5,)), d))
        out.append(((2, mi, (1e-3, 1e-2, 1e-1), (), "opt_SCG", f4, g2, "better", "down", (0.5, 0.5)), d))
    return out


def cases():
    out = []
    for conf, depth in confs():
        out.append((conf, 0, ()))
        wf, wg = len(conf[5]), len(conf[6])
        # the first two choices are the objective and the gradient at the start
        for a in range(wf):
            for b in range(wg):
                for c in range(wg):
                    out.append((conf, depth, (a, b, c)))
    return out


# ------------------------------------------------------- where it must arrive
def quadratic(case):
    n, eig, rot, start, centre = case
    A = np.diag(eig)
    if rot and n > 1:
        c, s = np.cos(rot), np.sin(rot)
        R = np.eye(n)
        R[:2, :2] = [[c, -s], [s, c]]
        A = R.dot(A).dot(R.T)
    c = np.array(centre[:n], float)
    x0 = np.array(start[:n], float)
    pts = {}
    calls = [0]

    def f(x):
        calls[0] += 1
        v = 0.5 * (x - c).dot(A).dot(x - c) + 2.0
        pts[x.tobytes()] = v
        return v

    def g(x):
        calls[0] += 1
        return A.dot(x - c)

    x, flog, count, status = SCG(f, g, x0, maxiters=500)
    what = "quadratic with the eigenvalues %s, turned by %s, around %s from %s" % (eig, rot, fl(c), fl(x0))
    if "conv" not in status.lower():
        raise Violation("%s: status %r after %d iterations" % (what, status, len(flog) - 1), "quadratic")
    if count != calls[0] or flog[-1] != pts.get(x.tobytes()) or any(b > a for a, b in zip(flog, flog[1:])):
        raise Violation("%s: reports %s evaluations of %d, objectives %s, at the end %s" % (what, count, calls[0], flog, pts.get(x.tobytes())), "quadratic")
    if flog[-1] - 2.0 > 1e-3 * max(1.0, flog[0] - 2.0):
        raise Violation("%s: ended with %s above the minimum" % (what, flog[-1] - 2.0), "quadratic")
    return (case, len(flog))


def quadratics():
    T = env.THOROUGH
    starts = [(0.0, 0.0, 0.0, 0.0), (1.0, -1.0, 2.0, 0.5), (10.0, 3.0, -7.0, 1.0), (1.0, 2.0, 3.0, 4.0)]
    centres = [(1.0, 2.0, 3.0, 4.0), (-5.0, 0.5, 0.0, 1.0)]
    for n in (1, 2, 3) + ((4,) if T else ()):
        for eig in itertools.combinations_with_replacement((0.1, 1.0, 3.0, 25.0), n):
            for rot in (0.0, 0.5, 1.2) if n > 1 else (0.0,):
                for s in starts:
                    for c in centres:
                        yield (n, eig, rot, s, c)


def logcosh(t):
    return np.logaddexp(t, -t) - np.log(2.0)


SMOOTH = {"logcosh": (lambda t: logcosh(t).sum(), np.tanh),
          "root": (lambda t: np.sqrt(1.0 + t * t).sum() - t.size, lambda t: t / np.sqrt(1.0 + t * t)),
          "quartic": (lambda t: (t ** 4 + 0.5 * t * t).sum(), lambda t: 4.0 * t ** 3 + t),
          "exp": (lambda t: (np.exp(t) - t - 1.0).sum(), lambda t: np.exp(t) - 1.0),
          "coupled": (lambda t: (t * t).sum() + t.sum() ** 4, lambda t: 2.0 * t + 4.0 * t.sum() ** 3)}


def smooth(case):
    name, n, start, centre = case
    f0, g0 = SMOOTH[name]
    c, x0 = np.array(centre[:n]), np.array(start[:n])
    x, flog, count, status = SCG(lambda x: f0(x - c), lambda x: g0(x - c), x0, maxiters=500)
    what = "%s around %s from %s" % (name, fl(c), fl(x0))
    if "conv" not in status.lower():
        raise Violation("%s: status %r after %d iterations" % (what, status, len(flog) - 1), "smooth")
    if any(b > a for a, b in zip(flog, flog[1:])) or flog[-1] != f0(x - c):
        raise Violation("%s: objectives %s, at the end %s" % (what, flog, f0(x - c)), "smooth")
    if flog[-1] > 1e-3 * max(1.0, flog[0]):
        raise Violation("%s: ended with %s above the minimum" % (what, flog[-1]), "smooth")
    return (case, len(flog))


def smooths():
    far = [(3.0, -2.0, 0.5), (-4.0, 5.0, 1.0), (0.1, 0.2, -0.1), (6.0, 6.0, 6.0), (-2.5, -2.5, 1.5)]
    for name in sorted(SMOOTH):
        for n in (1, 2, 3):
            for s in far:
                for c in [(0.0, 0.0, 0.0), (1.0, -2.0, 0.5)] + ([(-3.0, 2.5, 4.0), (0.25, 8.0, -1.0)] if env.THOROUGH else []):
                    yield (name, n, s, c)


def case_functions():
    return {"answers": search, "quadratic": quadratic, "smooth": smooth}


def run(report):
    cs = cases()
    enumerate_cases("answers", search, cs, report, chunk=4, executions=lambda out: out[0])
    enumerate_cases("quadratic", quadratic, list(quadratics()), report)
    enumerate_cases("smooth", smooth, list(smooths()), report)
