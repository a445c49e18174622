"""A model with a known objective, its reference, and the tree it lives in.

The objective couples all elements:  f(v) = sum_k w_k v_k + sum_k v_k^2 / 2 + (sum_k v_k)^2 / 10.
parameters_changed stores it (as the example models do), so that a missing
re-evaluation, a stale value or a wrong order of the elements is visible."""
import numpy as np

from . import env  # noqa: F401
from .xform import TOK

from paramz import Model, Param, Parameterized


def weights(n):
    return 1.0 + 0.5 * np.arange(n) * (-1.0) ** np.arange(n)


def ref_f(v):
    v = np.asarray(v, float)
    w = weights(v.size)
    return float((w * v).sum() + 0.5 * (v * v).sum() + 0.1 * v.sum() ** 2)


def ref_g(v):
    v = np.asarray(v, float)
    return weights(v.size) + v + 0.2 * v.sum()


class Part(Parameterized):
    def __init__(self, name="s"):
        super(Part, self).__init__(name)
        self.evals = 0

    def parameters_changed(self):
        self.evals += 1


class Obj(Model):
    def __init__(self, name="r"):
        super(Obj, self).__init__(name)
        self.evals = 0
        self.err = {}              # position -> error added to the gradient
        self.hook = None           # hook(site): may raise
        self.stored = None

    def flat(self):
        return np.concatenate([np.zeros(0)] + [p.values.ravel() for p in self.flattened_parameters])

    def call(self, site):
        if self.hook is not None:
            self.hook(site)

    def parameters_changed(self):
        self.evals += 1
        self.call("update")
        v = self.flat()
        self.stored = ref_f(v)
        g = ref_g(v)
        for k, e in self.err.items():
            g[k] += e
        i = 0
        for p in self.flattened_parameters:
            p.gradient = g[i:i + p.size].reshape(p.shape)
            i += p.size

    def objective_function(self):
        self.call("objective")
        return self.stored

    def objective_function_gradients(self):
        self.call("gradient")
        return self.gradient


START = {None: 0.75, "pos": 0.8, "exp": 1.2, "sq": 0.9, "neg": -0.7, "nexp": -1.1, "b10": 4.0, "b1": 0.25}
SHAPES = [("a", (2,), "s"), ("b", (1,), "s"), ("c", (1, 2), "r")]


def build(toks, fixed=(), shapes=SHAPES, cls=Obj, vals=None):
    """toks: token per element; fixed: positions. The order in the tree is s(a, b), c."""
    env.fresh()
    m = cls("r")
    s = Part("s")
    leaves = {}
    k = 0
    v = []
    pos = {}
    for name, shape, parent in shapes:
        n = int(np.prod(shape))
        x = [(START[t] + 0.05 * (k + j) * (1 if START[t] > 0 else -1)) if vals is None else vals[k + j] for j, t in enumerate(toks[k:k + n])]
        p = Param(name, np.array(x).reshape(shape))
        leaves[name] = p
        pos[name] = list(range(k, k + n))
        v += x
        k += n
    for name, shape, parent in shapes:
        if parent == "s":
            s.link_parameter(leaves[name])
    if any(p == "s" for _, _, p in shapes):
        m.link_parameter(s)
    for name, shape, parent in shapes:
        if parent == "r":
            m.link_parameter(leaves[name])
    for name, shape, parent in shapes:
        p = leaves[name]
        for j in range(len(pos[name])):
            t = toks[pos[name][j]]
            ix = tuple(slice(q, q + 1) for q in np.unravel_index(j, shape))
            if t is not None:
                p[ix].constrain(TOK[t].make(), warning=False)
    for name, shape, parent in shapes:
        p = leaves[name]
        for j in range(len(pos[name])):
            ix = tuple(slice(q, q + 1) for q in np.unravel_index(j, shape))
            if pos[name][j] in fixed:
                p[ix].fix(warning=False)
    W = World()
    W.m, W.s, W.leaves, W.pos, W.toks, W.fixed, W.v = m, s, leaves, pos, list(toks), set(fixed), list(v)
    return W


class World(object):
    def free(self):
        return [k for k in range(len(self.v)) if k not in self.fixed]

    def x(self):
        return [self.v[k] if self.toks[k] is None else TOK[self.toks[k]].finv(self.v[k]) for k in self.free()]

    def at(self, x):
        """all values when the optimizer asks for x"""
        v = list(self.v)
        for k, xi in zip(self.free(), x):
            v[k] = float(xi) if self.toks[k] is None else TOK[self.toks[k]].f(float(xi))
        return v

    def grad(self, v, err=()):
        g = ref_g(v)
        for k, e in dict(err).items():
            g[k] += e
        return [g[k] if self.toks[k] is None else g[k] * TOK[self.toks[k]].dfdx(v[k]) for k in self.free()]

    def values(self):
        return [float(q) for q in self.m.flat()]
