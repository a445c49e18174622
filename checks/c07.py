"""C07: transformations are bijections onto their domain with correct derivatives."""
import copy
import gc
import itertools
import math
import pickle

import numpy as np

from mc import env
from mc.explore import System, enumerate_cases, explore
from mc.report import Violation
from mc.xform import close

from paramz import transformations as T

LEVEL = "model_checking"

BOUNDS = [(0.0, 10.0), (-1.0, 1.0), (-5.0, -2.0), (0.0, 1e-9), (1e-12, 1e-10), (0.0, 1e8), (-1e8, 1e8), (0.1, 0.3), (0.7, 0.8),
          (1000.0, 1001.0), (-1e-3, 1e-3), (0.1, 0.7), (-0.1, 0.2), (1.1, 2.2), (0.3, 0.9), (1e-6, 1.0), (2, 3), (-4, 11)]

_sp = lambda x: x + math.log1p(math.exp(-x)) if x > 0 else math.log1p(math.exp(x))
_sig = lambda x: 1 / (1 + math.exp(-x)) if x >= 0 else math.exp(x) / (1 + math.exp(x))

# name -> (make, supported optimizer values, f, derivative of f at x, log jacobian implemented, lower, upper)
SPECS = {
    "Logexp": (T.Logexp, lambda x: -700 <= x <= 1e300, _sp, _sig, True, 0.0, math.inf),
    "NegativeLogexp": (T.NegativeLogexp, lambda x: -700 <= x <= 1e300, lambda x: -_sp(x), lambda x: -_sig(x), False, -math.inf, 0.0),
    "Exponent": (T.Exponent, lambda x: -36 <= x <= 36, math.exp, math.exp, True, 0.0, math.inf),
    "NegativeExponent": (T.NegativeExponent, lambda x: -36 <= x <= 36, lambda x: -math.exp(x), lambda x: -math.exp(x), True, -math.inf, 0.0),
    "Square": (T.Square, lambda x: x == 0 or 1e-150 <= x <= 1e150, lambda x: x * x, lambda x: 2 * x, False, 0.0, math.inf),
}
for lo, up in BOUNDS:
    SPECS["Logistic(%r,%r)" % (lo, up)] = (
        (lambda lo=lo, up=up: T.Logistic(lo, up)), lambda x: abs(x) <= 15,
        lambda x, lo=lo, up=up: lo + (up - lo) * _sig(x), lambda x, lo=lo, up=up: (up - lo) * _sig(x) * _sig(-x), False, float(lo), float(up))

GRID = sorted(set([0.0, 1e-300, 1e-12, 1e-6, 1e-3, 0.1, 0.5, 0.999, 1.0, 1.5, 2.0, 3.0, 5.0, 8.0, 9.5, 12.0, 14.9, 15.0, 20.0, 30.0, 35.9, 36.0, 36.1, 37.0,
                   50.0, 100.0, 299.0, 300.0, 301.0, 600.0, 700.0, 709.0, 710.0, 800.0, 1e4, 1e10, 1e100]))
GRID = sorted(set(GRID + [-g for g in GRID]))
FINE = [round(-40 + 0.25 * i, 6) for i in range(321)]
SHAPES = [(1,), (3,), (2, 2), (1, 3), ()]


def embed(x, k):
    """arrays which contain x among others"""
    if k == 0:
        return np.array([x]), 0
    if k == 1:
        return np.array([0.25, x, -0.5]), 1
    if k == 2:
        return np.array([[1.0, x], [2.0, 40.0]]), 1
    return np.array([-400.0, 400.0, x]), 2


def point(case):
    name, x, k = case
    make, ok, f, df, haslj, lo, up = SPECS[name]
    t = make()
    arr, pos = embed(x, k)
    keep = arr.copy()
    y = np.asarray(t.f(arr))
    if y.shape != arr.shape or not np.array_equal(arr, keep):
        raise Violation("%s.f changed its argument or the shape" % name, "mutates:" + name)
    if not (np.all(y >= lo) and np.all(y <= up)):
        raise Violation("%s.f(%r) = %r is outside of the domain [%r, %r]" % (name, arr.tolist(), y.tolist(), lo, up), "domain:" + name)
    yv = float(y.flat[pos])
    if not ok(x):
        return None
    want = f(x)
    scale = (up - lo) if math.isfinite(up - lo) else 0.0
    tol = 1e-10
    eq = lambda a, b, extra=0.0: a == b or abs(a - b) <= tol * (abs(a) + abs(b)) + extra
    rel = scale * 1e-13 + 4e-16 * max(abs(lo) if math.isfinite(lo) else 0, abs(up) if math.isfinite(up) else 0)
    if not eq(yv, want, rel):
        raise Violation("%s.f(%r) = %r, expected %r" % (name, x, yv, want), "f:" + name)
    yk = y.copy()
    back = np.asarray(t.finv(y))
    if not np.array_equal(y, yk):
        raise Violation("%s.finv changed its argument" % name, "mutates:" + name)
    xb = float(back.flat[pos])
    # how far x moves when y changes by rounding
    d = abs(df(x))
    slack = (4e-16 * abs(want) + rel + 1e-300) / d if d > 0 else math.inf
    if math.isfinite(slack) and not abs(xb - x) <= 1e-9 * (1 + abs(x)) + 4 * slack:
        raise Violation("%s: finv(f(%r)) = %r" % (name, x, xb), "roundtrip:" + name)
    yy = float(np.asarray(t.f(back)).flat[pos])
    if not eq(yy, yv, rel + 1e-300):
        raise Violation("%s: f(finv(%r)) = %r" % (name, yv, yy), "roundtrip:" + name)
    if k in (0, 1):
        y1 = np.array([yv, t.f(np.array([0.75]))[0]])
        for g in (1.0, -3.5, 0.0):
            dL = np.array([g, 1.0])
            kk = (y1.copy(), dL.copy())
            for meth in ("gradfactor", "gradfactor_non_natural"):
                got = np.asarray(getattr(t, meth)(y1, dL))
                if got.shape != (2,) or not (np.array_equal(kk[0], y1) and np.array_equal(kk[1], dL)):
                    raise Violation("%s.%s changed its arguments or the shape" % (name, meth), "mutates:" + name)
                if not abs(got[0] - g * df(x)) <= 1e-8 * abs(g * df(x)) + abs(g) * rel + 1e-300:
                    raise Violation("%s.%s(%r, %r) = %r, the derivative gives %r" % (name, meth, yv, g, float(got[0]), g * df(x)),
                                    "gradfactor:" + name)
    if haslj and -36 < x < 1e6 and d > 0:
        lj = float(np.asarray(t.log_jacobian(np.array([yv])))[0])
        if not close(lj, math.log(d), 1e-8):
            raise Violation("%s.log_jacobian(%r) = %r, expected %r" % (name, yv, lj, math.log(d)), "logjac:" + name)
        if abs(x) < 30:
            # derivative of log|f'| with respect to the model value
            if "Logexp" in name:
                w = 1.0 / math.expm1(abs(yv))
            else:
                w = 1.0 / yv
            g = float(np.asarray(t.log_jacobian_grad(np.array([yv])))[0])
            if not close(g, w, 1e-6):
                raise Violation("%s.log_jacobian_grad(%r) = %r, expected %r" % (name, yv, g, w), "logjac:" + name)
    return (name, k, round(xb, 6))


def model_values(name):
    lo, up = SPECS[name][5:7]
    out = [0.0, 1e-9, 1e-3, 0.5, 1.0, 2.0, 3.0, 10.0, 11.0, 35.0, 37.0, 100.0, 1e6, 1e12]
    out += [-v for v in out if v]
    if math.isfinite(lo) and math.isfinite(up):
        out += [lo + (up - lo) * q for q in (0.0, 1e-8, 1e-6, 0.01, 0.25, 0.5, 0.75, 0.99, 1.0 - 1e-6)] + [up, lo - 1e-3, up + 1e-3, 2 * up - lo]
    return out


def initial(case):
    """initialize: into the domain, inside values untouched; finv there and back"""
    name, v, k = case
    make, ok, f, df, haslj, lo, up = SPECS[name]
    t = make()
    arr, pos = embed(v, k)
    keep = arr.copy()
    got = np.asarray(t.initialize(arr))
    if got.shape != arr.shape or not np.array_equal(arr, keep):
        raise Violation("%s.initialize changed its argument or the shape" % name, "mutates:" + name)
    for a, b in zip(arr.flat, got.flat):
        if lo <= a <= up:
            if a != b:
                raise Violation("%s.initialize(%r) = %r moved a value inside of the domain" % (name, a, b), "init:" + name)
        elif not lo <= b <= up:
            raise Violation("%s.initialize(%r) = %r is outside of the domain" % (name, a, b), "init:" + name)
    b = float(got.flat[pos])
    lo2, up2 = (lo, up)
    inside = (lo2 + 1e-9 * (up2 - lo2) < b < up2 - 1e-9 * (up2 - lo2)) if math.isfinite(up2 - lo2) else 1e-12 < abs(b) < 1e15
    if inside:
        x = np.asarray(t.finv(np.array([b])))
        yy = float(np.asarray(t.f(x))[0])
        if not abs(yy - b) <= 1e-6 * (up - lo if math.isfinite(up - lo) else abs(b)):
            raise Violation("%s: f(finv(%r)) = %r" % (name, b, yy), "roundtrip:" + name)
    return (name, b)


MAKE = {"L10": lambda: T.Logistic(0, 10), "L10f": lambda: T.Logistic(0.0, 10.0), "L1": lambda: T.Logistic(-1, 1),
        "L01": lambda: T.Logistic(0, 1), "pos": T.Logexp, "exp": T.Exponent, "nexp": T.NegativeExponent, "neg": T.NegativeLogexp, "sq": T.Square}
SAME = {"L10f": "L10"}


class Env(object):
    pass


class Instances(System):
    """create / drop / recreate / copy histories of transformation objects"""
    name = "instances"

    def __init__(self, names):
        self.names = names

    def build(self):
        env.fresh()
        for c in (T.Logexp, T.Exponent, T.NegativeExponent, T.NegativeLogexp, T.Square):
            if "_instance" in vars(c):
                c._instance = None
        e = Env()
        e.live = {}
        e.hist = ()
        return e

    def ops(self, e):
        out = [("new", n) for n in self.names] + [("bad",), ("gc",)]
        for n in sorted(e.live):
            out += [("drop", n), ("pickle2", n), ("pickle5", n), ("deepcopy", n), ("copy", n)]
        return out

    def apply(self, e, op):
        e.hist += (op,)
        if op[0] == "new":
            n = SAME.get(op[1], op[1])
            t = MAKE[op[1]]()
            if n in e.live and e.live[n] is not t:
                raise Violation("asking for %s again gave another instance" % op[1], "identity")
            for m, o in e.live.items():
                if m != n and o is t:
                    raise Violation("%s and %s are the same instance" % (op[1], m), "identity")
            e.live[n] = t
        elif op[0] == "bad":
            try:
                T.Logistic(1, 0)
            except Exception as ex:
                e.exc = ex
            else:
                raise Violation("Logistic(1, 0) was accepted", "bounds")
        elif op[0] == "drop":
            del e.live[op[1]]
        elif op[0] == "gc":
            gc.collect()
        else:
            o = e.live[op[1]]
            c = {"pickle2": lambda: pickle.loads(pickle.dumps(o, 2)), "pickle5": lambda: pickle.loads(pickle.dumps(o, 5)),
                 "deepcopy": lambda: copy.deepcopy([o])[0], "copy": lambda: copy.copy(o)}[op[0]]()
            if c is not o:
                raise Violation("%s of %s is another instance" % (op[0], op[1]), "identity")

    def key(self, e):
        # the registry of the library is hidden state: distinguish by history of creations
        return repr((sorted(e.live), [o for o in e.hist if o[0] in ("new", "drop", "bad")])).encode()

    def check(self, e):
        for n, o in e.live.items():
            if n.startswith("L"):
                want = {"L10": (0, 10), "L1": (-1, 1), "L01": (0, 1)}[n]
                if (o.lower, o.upper) != want:
                    raise Violation("%s has the bounds %r" % (n, (o.lower, o.upper)), "bounds")
                mid = float(o.f(np.array([0.0]))[0])
                if not close(mid, sum(want) / 2.0):
                    raise Violation("%s maps 0 to %r" % (n, mid), "bounds")
            if MAKE[n]() is not o:
                raise Violation("asking for %s again gave another instance" % n, "identity")


NB = [(0.0, 1.0), (0, 1), (0.0, 1.0 + 1e-15), (0.0, 1.0 + 1e-9), (0.0, 1.0 + 1e-6), (1e-15, 1.0), (1e-9, 1.0), (1e-6, 1.0), (-1e-12, 1.0), (0.0, 1e-9), (0.0, 3e-9), (-1e-9, 1e-9), (-1.0, 0.0), (-1.0, 1.0),
      (0.0, 2.0), (1.0, 2.0), (0.0, 1e-300), (0.0, 1e300), (1e8, 1e8 + 1), (1e8, 1e8 + 2), (-2.0, -1.0), (1.0, 3.0), (-0.0, 1.0), (0.5, 1.0), (0.0, 0.5), (np.float64(0), np.float64(1)), (np.float32(0.5), 1)]


def bounds_pair(case):
    """transformations with other bounds are other transformations, however close; and asking in between for a third one does not matter"""
    i, j, k = case
    env.fresh()
    live = {}
    for n in (i, j) + ((k,) if k is not None else ()) + (i, j):
        lo, up = NB[n]
        t = T.Logistic(lo, up)
        key = (float(lo), float(up))
        if live.setdefault(key, t) is not t:
            raise Violation("asking for the bounds %r again gave another instance" % (key,), "identity")
        for (l, u), o in live.items():
            if (o.lower, o.upper) != (l, u):
                raise Violation("after asking for %r the transformation for %r has the bounds %r" % (key, (l, u), (o.lower, o.upper)), "bounds")
            mid, tail = np.asarray(o.f(np.array([0.0, 800.0])))
            if not (abs(mid - (l + (u - l) / 2)) <= 1e-12 * max(abs(l), abs(u)) and tail == u):
                raise Violation("after asking for %r the transformation for %r maps 0 and 800 to %r, %r" % (key, (l, u), mid, tail), "bounds")
    return case


def systems():
    return {"instances": Instances(["L10", "L10f", "L1", "L01", "pos", "exp", "nexp", "neg"])}


def case_functions():
    return {"points": point, "initial": initial, "bounds": bounds_pair}


def run(report):
    xs = sorted(set(GRID + FINE)) if not env.THOROUGH else sorted(set(GRID + FINE + [round(-60 + 0.03125 * i, 6) for i in range(3841)]))
    enumerate_cases("points", point, [(n, x, k) for n in sorted(SPECS) for x in xs for k in range(4)], report)
    enumerate_cases("initial", initial, [(n, v, k) for n in sorted(SPECS) for v in model_values(n) for k in range(4)], report)
    enumerate_cases("bounds", bounds_pair, [(i, j, k) for i in range(len(NB)) for j in range(len(NB)) for k in ([None] if not env.THOROUGH else [None] + list(range(len(NB))))], report)
    explore(systems()["instances"], 5 if env.THOROUGH else 4, report)
