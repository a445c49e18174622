"""Independent reference for the transformations (plain math on floats)."""
import math

from . import env  # noqa: F401
from paramz import transformations as T

LIM = 36.0


class Ref(object):
    def __init__(self, make, dom, f, finv, dfdx, project):
        self.make = make          # -> real transformation
        self.dom = dom            # value -> is inside the (closed) domain
        self.f = f                # optimizer space -> model space
        self.finv = finv
        self.dfdx = dfdx          # derivative of f, at the model value
        self.project = project    # where initialise sends an outside value (None: anywhere inside)


def _softplus(x):
    return x if x > LIM else math.log1p(math.exp(x))


def _softplus_inv(y):
    return y if y > LIM else math.log(math.expm1(y))


def _dsoftplus(y):
    return 1.0 if y > LIM else -math.expm1(-y)


def _logistic(lo, up):
    return Ref(lambda: T.Logistic(lo, up),
               lambda v: lo <= v <= up,
               lambda x: lo + (up - lo) / (1.0 + math.exp(-x)),
               lambda y: math.log((y - lo) / (up - y)),
               lambda y: (y - lo) * (up - y) / (up - lo),
               None)


TOK = {
    "pos": Ref(lambda: T.Logexp(), lambda v: v >= 0, _softplus, _softplus_inv, _dsoftplus, None),
    "neg": Ref(lambda: T.NegativeLogexp(), lambda v: v <= 0, lambda x: -_softplus(x),
               lambda y: _softplus_inv(-y), lambda y: -_dsoftplus(-y), None),
    "exp": Ref(lambda: T.Exponent(), lambda v: v >= 0, math.exp, math.log, lambda y: y, None),
    "nexp": Ref(lambda: T.NegativeExponent(), lambda v: v <= 0, lambda x: -math.exp(x),
                lambda y: math.log(-y), lambda y: y, None),
    "sq": Ref(lambda: T.Square(), lambda v: v >= 0, lambda x: x * x, math.sqrt,
              lambda y: 2 * math.sqrt(y), None),
    "b10": _logistic(0.0, 10.0),
    "b1": _logistic(-1.0, 1.0),
}


def token_of(t):
    """name of a real index-operation key"""
    if isinstance(t, str):
        return t
    n = type(t).__name__
    if n == "Logistic":
        if (t.lower, t.upper) == (0.0, 10.0):
            return "b10"
        if (t.lower, t.upper) == (-1.0, 1.0):
            return "b1"
        return "Logistic(%g,%g)" % (t.lower, t.upper)
    return {"Logexp": "pos", "NegativeLogexp": "neg", "Exponent": "exp",
            "NegativeExponent": "nexp", "Square": "sq"}.get(n, n)


def interior(tok, v):
    """inside the open domain, away from the border (finv is finite)"""
    if tok is None:
        return True
    if tok in ("pos", "exp", "sq"):
        return v > 1e-6
    if tok in ("neg", "nexp"):
        return v < -1e-6
    if tok == "b10":
        return 1e-4 < v < 10 - 1e-4
    if tok == "b1":
        return -1 + 1e-4 < v < 1 - 1e-4
    raise KeyError(tok)


def close(a, b, tol=1e-8):
    a = float(a)
    b = float(b)
    if a == b:
        return True
    if a != a and b != b:
        return True
    return abs(a - b) <= tol * (1.0 + abs(a) + abs(b))
