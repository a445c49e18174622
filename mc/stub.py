"""An optimizer whose behaviour is a script: the environment of a model."""
from . import env  # noqa: F401
from paramz.optimization import Optimizer


class Scripted(Optimizer):
    """runs fn(self, x_init, f_fp, f, fp), which sets x_opt and f_opt"""

    def __init__(self, fn, *a, **k):
        Optimizer.__init__(self, *a, **k)
        self.opt_name = "scripted"
        self.fn = fn

    def opt(self, x_init, f_fp=None, f=None, fp=None):
        self.funct_eval = 0
        self.status = "scripted"
        self.fn(self, x_init, f_fp, f, fp)

    def __getstate__(self):
        return dict(self.__dict__, fn=None)
