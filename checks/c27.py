"""C27: the ridge-regression example computes its documented objective.

f(w) = sum (Y - sum_i phi_i(X) w_i)^2 + penalty(w), in plain loops over plain
numbers, for the weights and data as they are; after every history of weight and
data changes, copies and caching switches."""
import itertools

import numpy as np

from mc import env
from mc.canon import heap_key
from mc.explore import System, enumerate_cases, explore
from mc.report import Violation
from mc.tree import fl, fmt

from paramz import ObsAr
from paramz.examples import Lasso, Polynomial, RidgeRegression
from paramz.examples.ridge_regression import Basis, Regularizer, Ridge

LEVEL = "model_checking"


class Waves(Basis):
    """a basis of the user"""

    def basis(self, X, i):
        return np.cos(0.5 * i * X) + 0.25 * i


class Smooth(Regularizer):
    """a regularizer of the user"""

    def __init__(self, lambda_, name="Smooth"):
        super(Smooth, self).__init__(lambda_, name)

    def update_error(self):
        self.error = self.lambda_ * np.sqrt(1.0 + self.weights.values ** 2).sum(1)
        self.weights.gradient[:] = self.lambda_ * self.weights.values / np.sqrt(1.0 + self.weights.values ** 2)


BASIS = {"poly": (Polynomial, lambda x, i: x ** i if i else 1.0), "waves": (Waves, lambda x, i: float(np.cos(0.5 * i * x)) + 0.25 * i)}
REG = {"ridge": (Ridge, lambda w: w * w, lambda w: 2.0 * w), "lasso": (Lasso, abs, lambda w: float((w > 0) - (w < 0))),
       "smooth": (Smooth, lambda w: (1.0 + w * w) ** 0.5, lambda w: w / (1.0 + w * w) ** 0.5)}


class Ref(object):
    """the model on paper"""

    def __init__(self, X, Y, basis, deg, reg, lam):
        self.X = [list(map(float, r)) for r in X]
        self.Y = [float(r[0]) for r in Y]
        self.b, self.deg, self.r, self.lam = basis, deg, reg, lam
        self.w = [[0.0] * len(self.X[0]) for _ in range(deg + 1)]

    def phi(self, rows, degrees):
        b = BASIS[self.b][1]
        return [[[b(x, i) * self.w[i][d] for d, x in enumerate(r)] for r in rows] for i in degrees]

    def predict(self, rows):
        p = self.phi(rows, range(self.deg + 1))
        return [sum(sum(p[i][n]) for i in range(self.deg + 1)) for n in range(len(rows))]

    def errors(self):
        return [self.lam * sum(REG[self.r][1](v) for v in row) for row in self.w]

    def objective(self):
        return sum((y - p) ** 2 for y, p in zip(self.Y, self.predict(self.X))) + sum(self.errors())

    def gradient(self):
        res = [y - p for y, p in zip(self.Y, self.predict(self.X))]
        b = BASIS[self.b][1]
        return [[self.lam * REG[self.r][2](self.w[i][d]) - 2.0 * sum(r * b(x[d], i) for r, x in zip(res, self.X)) for d in range(len(self.w[i]))] for i in range(self.deg + 1)]


def near(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9)


def differs(what, got, want):
    raise Violation("%s is %s, by the formula %s" % (what, fmt(fl(np.asarray(got))), fmt(fl(np.asarray(want)))), what.split(" ")[0])


def current(m, R):
    """what was computed at the last update"""
    if not near(m.weights.values, R.w):
        differs("weights", m.weights.values, R.w)
    f = np.asarray(m.objective_function(), float)
    if f.size != 1 or not near(f.ravel()[0], R.objective()):
        differs("objective", m.objective_function(), R.objective())
    if not near(m.regularizer.error, R.errors()):
        differs("error", m.regularizer.error, R.errors())
    if not near(m.weights.gradient, R.gradient()):
        differs("gradient", m.weights.gradient, R.gradient())
    if not near(m.gradient, np.ravel(R.gradient())):
        differs("gradient of the model", m.gradient, np.ravel(R.gradient()))


def predictions(m, R, news):
    for name, A, rows in news:
        for rep in (0, 1):
            got = m.predict(A)
            if not near(got, np.array(R.predict(rows))[:, None]):
                differs("prediction for %s" % name, got, R.predict(rows))
        got = m.phi(A)
        if not near(got, R.phi(rows, range(R.deg + 1))):
            differs("phi for %s" % name, got, R.phi(rows, range(R.deg + 1)))
        for degs in ([R.deg], list(range(R.deg, -1, -1)), [0, 0], np.array([0])):
            got = m.phi(A, degs)
            if not near(got, R.phi(rows, degs)):
                differs("phi for %s, degrees %s" % (name, list(degs)), got, R.phi(rows, degs))


# ----------------------------------------------------------------------- all shapes
VALS = [0.5, -1.25, 2.0, 0.0, 1.5, -0.75, 3.0, 0.25, -2.0]


def data(n, d, k):
    X = [[VALS[(i * d + j + k) % 9] for j in range(d)] for i in range(n)]
    Y = [[VALS[(2 * i + 3 * k + 1) % 9] + 0.1 * i] for i in range(n)]
    return X, Y


def weights(deg, d, k):
    return [[VALS[(i * d + j + 2 * k) % 9] * (1 - 0.5 * (k % 2)) for j in range(d)] for i in range(deg + 1)]


def make(n, d, basis, deg, reg, lam, k):
    env.fresh()
    X, Y = data(n, d, k)
    kw = {}
    if basis is not None:
        kw["basis"] = BASIS[basis][0](deg, name="base")
    if reg is not None:
        kw["regularizer"] = REG[reg][0](lam)
    m = RidgeRegression(np.array(X), np.array(Y), **kw)
    R = Ref(X, Y, basis or "poly", deg if basis else 1, reg or "ridge", lam if reg else 1.0)
    R.w = [[float(v) for v in r] for r in m.weights.values]
    return m, R


def shape(case):
    n, d, basis, deg, reg, lam, k = case
    m, R = make(*case)
    if m.degree != R.deg or tuple(m.weights.shape) != (R.deg + 1, d) or m.weights is not m.regularizer.weights:
        raise Violation("degree %s, weights of shape %s" % (m.degree, m.weights.shape), "shape")
    current(m, R)
    new, _ = data(2, d, k + 1)
    news = [("the training data", m.X, R.X), ("new data", np.array(new), new), ("observable new data", ObsAr(np.array(new)), new)]
    predictions(m, R, news)
    for j in range(3):
        R.w = weights(R.deg, d, k + j)
        if j == 0:
            m.weights[...] = np.array(R.w)
        elif j == 1:
            m.optimizer_array = np.ravel(R.w)
        else:
            for i in range(R.deg + 1):
                m.regularizer.weights[i] = np.array(R.w[i])
        current(m, R)
        predictions(m, R, news)
        flat = [abs(v) for r in R.w for v in r]
        if j < 2 and reg != "lasso" or min(flat) > 1e-3:
            if not m.checkgrad():
                raise Violation("gradient check fails", "checkgrad")
    return case + (round(R.objective(), 9),)


def shapes():
    T = env.THOROUGH
    for n in (1, 2, 3, 5):
        for d in (1, 2, 3):
            yield (n, d, None, 1, None, 1.0, n)
            for basis in ("poly", "waves"):
                for deg in (0, 1, 2, 3) + ((4, 6) if T else ()):
                    for reg in ("ridge", "lasso", "smooth"):
                        for lam in (0.0, 0.1, 3.0):
                            for k in (0, 1, 2) if T else (0, 1):
                                yield (n, d, basis, deg, reg, lam, k)


# ------------------------------------------------------------------------- histories
class World(object):
    pass


NEWX = [[[1.0, 0.5], [2.0, -0.5]], [[-1.5, 3.0], [0.25, 1.0]]]


class History(System):
    def __init__(self, name, basis, deg, reg, alphabet, d=1):
        self.name, self.basis, self.deg, self.reg, self.alphabet, self.d = name, basis, deg, reg, alphabet, d

    def build(self):
        W = World()
        W.m, W.R = make(2, self.d, self.basis, self.deg, self.reg, 0.5, 0)
        W.fresh = True         # evaluated since the data changed
        W.on = True
        W.other = None
        W.P = [r[:self.d] for r in NEWX[0]]
        W.plain = np.array(W.P)
        W.obs = ObsAr(np.array(W.P))
        predictions(W.m, W.R, self.news(W))
        return W

    def news(self, W):
        return [("the training data", W.m.X, W.R.X), ("an array", W.plain, W.P), ("an observable array", W.obs, W.P)]

    def ops(self, W):
        return [o for o in self.alphabet if not (o[0] == "x" and o[2] >= self.d)
                and not (o[0] == "copy" and W.other is not None)]

    def stale(self, W):
        W.fresh = False

    def changed(self, W):
        """weights changed: re-evaluated if updates are on"""
        W.fresh = W.on

    def apply(self, W, op):
        m, R, k = W.m, W.R, op[0]
        if k == "w":
            R.w = weights(R.deg, self.d, op[1])
            m.weights[...] = np.array(R.w)
            self.changed(W)
        elif k == "w1":
            R.w[op[1]] = [op[2]] * self.d
            m.weights[op[1]] = op[2]
            self.changed(W)
        elif k == "opt":
            R.w = weights(R.deg, self.d, op[1])
            m.optimizer_array = np.ravel(R.w)
            self.changed(W)
        elif k == "x":
            R.X[op[1]][op[2]] = op[3]
            m.X[op[1], op[2]] = op[3]
            self.stale(W)
        elif k == "xadd":
            R.X = [[v + op[1] for v in r] for r in R.X]
            m.X += op[1]
            self.stale(W)
        elif k == "xview":
            R.X[-1] = [op[1]] * self.d
            m.X[-1:][...] = op[1]
            self.stale(W)
        elif k == "newx":
            R.X = [r[:self.d] for r in NEWX[op[1]]]
            m.X = ObsAr(np.array(R.X))
            self.stale(W)
        elif k == "y":
            R.Y[op[1]] = op[2]
            m.Y[op[1]] = op[2]
            self.stale(W)
        elif k == "lam":
            R.lam = op[1]
            m.regularizer.lambda_ = op[1]
            self.stale(W)
        elif k == "update":
            if W.on:
                m.regularizer.trigger_update()
                W.fresh = True
        elif k == "on":
            m.update_model(True)
            W.on = True
            if not W.fresh:      # all of it again
                m.regularizer.trigger_update()
            W.fresh = True
        elif k == "off":
            m.update_model(False)
            W.on = False
        elif k == "p":
            W.P[op[1]] = [op[2]] * self.d
            W.plain[op[1]] = op[2]
            W.obs[op[1]] = op[2]
        elif k == "predict":
            predictions(m, R, self.news(W)[op[1]:op[1] + 1])
        elif k == "copy":
            W.other = (m, self.clone(R), W.fresh, W.on)
            W.m = m.copy() if op[1] == "copy" else self.deep(m)
            if W.m is m or np.may_share_memory(W.m.X, m.X) or np.may_share_memory(W.m.weights, m.weights):
                raise Violation("the copy shares arrays with the original", "copy")
        elif k == "swap":
            if W.other is not None:
                mine = (W.m, W.R, W.fresh, W.on)
                W.m, W.R, W.fresh, W.on = W.other
                W.other = mine
        elif k == "cache":
            c = m.basis.cache
            {"off": c.disable_caching, "on": c.enable_caching, "reset": c.reset}[op[1]]()
        elif k == "fix":
            m.weights[op[1]:op[1] + 1].fix(warning=False)
            m.weights[op[1]:op[1] + 1].unfix()
            self.changed(W)
        else:
            raise AssertionError(op)

    def deep(self, m):
        import copy
        return copy.deepcopy(m)

    def clone(self, R):
        import copy
        return copy.deepcopy(R)

    def key(self, W):
        return heap_key([W.m, W.other and W.other[0], W.obs, (W.fresh, W.on, W.other and W.other[2:]), W.plain])

    def one(self, m, R, fresh, on, W):
        if not np.array_equal(np.asarray(m.X), np.array(R.X)) or not np.array_equal(np.ravel(m.Y), np.array(R.Y)):
            raise Violation("data are %s, %s" % (fl(m.X), fl(m.Y)), "data")
        if not near(m.weights.values, R.w):
            differs("weights", m.weights.values, R.w)
        if fresh:
            current(m, R)

    def check(self, W):
        for m, R, fresh, on in [(W.m, W.R, W.fresh, W.on)] + ([W.other] if W.other else []):
            self.one(m, R, fresh, on, W)
        news = self.news(W)
        predictions(W.m, W.R, news)
        if W.other:
            m, R = W.other[:2]
            predictions(m, R, [("the training data", m.X, R.X)] + news[1:])
        # in the end all of it is evaluated again, and again
        for m, R, fresh, on in [(W.m, W.R, W.fresh, W.on)] + ([W.other] if W.other else []):
            m.update_model(True)
            m.regularizer.trigger_update()
            current(m, R)
            R.w = weights(R.deg, self.d, 3)
            m.weights[...] = np.array(R.w)
            current(m, R)
            m.X[0, 0] = R.X[0][0] = 0.125
            m.regularizer.trigger_update()
            current(m, R)

    def outcome(self, W):
        return (round(W.R.objective(), 6), W.fresh, W.on)


ALPHA = [("w", 0), ("w", 1), ("w1", 0, 2.5), ("opt", 2), ("x", 0, 0, 4.0), ("x", 1, 0, -1.0), ("x", 0, 1, 0.5), ("xadd", 0.5), ("xview", 1.75), ("newx", 1), ("y", 0, 3.0), ("lam", 2.0),
         ("update",), ("on",), ("off",), ("p", 0, 2.0), ("predict", 1), ("predict", 2), ("copy", "copy"), ("copy", "deep"), ("swap",), ("cache", "off"), ("cache", "on"), ("cache", "reset"), ("fix", 0)]
CORE = [("w", 1), ("opt", 2), ("x", 0, 0, 4.0), ("xadd", 0.5), ("newx", 1), ("y", 0, 3.0), ("update",), ("p", 0, 2.0), ("copy", "copy"), ("swap",), ("cache", "off"), ("cache", "on")]

TIGHT = [("w", 1), ("x", 0, 0, 4.0), ("newx", 1), ("update",), ("p", 0, 2.0), ("copy", "copy"), ("swap",)]


def systems():
    S = [History("ridge", "poly", 2, "ridge", ALPHA, 1), History("lasso", "poly", 1, "lasso", ALPHA, 2), History("waves", "waves", 1, "smooth", CORE, 2), History("core", "poly", 1, "ridge", CORE, 1),
         History("tight", "poly", 1, "ridge", TIGHT, 1)]
    return {s.name: s for s in S}


def case_functions():
    return {"shape": shape}


def run(report):
    enumerate_cases("shape", shape, list(shapes()), report)
    S = systems()
    T = env.THOROUGH
    explore(S["ridge"], 3 if T else 2, report)
    explore(S["lasso"], 3 if T else 2, report)
    explore(S["waves"], 4 if T else 3, report)
    explore(S["core"], 4 if T else 3, report)
    explore(S["tight"], 6 if T else 4, report)
