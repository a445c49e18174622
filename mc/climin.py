"""A stand-in for the climin library (not installed), installed as the module `climin`: its minimizers are
iterated, move the given vector in place by the gradient, and report the iteration number."""
import sys
import types


class Minimizer(object):
    def __init__(self, wrt, fprime, **kw):
        self.wrt = wrt
        self.fprime = fprime
        self.options = kw
        self.n_iter = 0

    def __iter__(self):
        while True:
            g = self.fprime(self.wrt)
            self.wrt -= 0.25 * g
            self.n_iter += 1
            yield {"n_iter": self.n_iter, "gradient": g, "step": -0.25 * g, "args": (), "kwargs": {}}


class installed(object):
    def __enter__(self):
        self.old = {k: sys.modules.get(k) for k in ("climin", "climin.adadelta", "climin.rprop", "climin.adam")}
        top = types.ModuleType("climin")
        for mod, cls in (("adadelta", "Adadelta"), ("rprop", "Rprop"), ("adam", "Adam")):
            m = types.ModuleType("climin." + mod)
            setattr(m, cls, Minimizer)
            setattr(top, mod, m)
            setattr(top, cls, Minimizer)
            sys.modules["climin." + mod] = m
        sys.modules["climin"] = top

    def __exit__(self, *a):
        for k, m in self.old.items():
            if m is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = m
