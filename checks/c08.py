"""C08: optimizers are given the objective and the chain-rule gradient of the free part."""
import itertools

import numpy as np

from mc import env
from mc.explore import System, enumerate_cases, explore
from mc.canon import heap_key
from mc.objective import World, build, ref_f
from mc.report import Violation
from mc.stub import Scripted
from mc.tree import fl, fmt, same
from mc.xform import TOK

LEVEL = "model_checking"

MARKS = [None, "pos", "neg", "exp", "nexp", "sq", "b10", "b1"]
# a mark: (token, fixed)
OPTS = [(t, False) for t in MARKS] + [(None, True), ("pos", True), ("b10", True)]
CBS = ["f", "fp", "f_fp"]


def query(W, cb, x, f_fp, f, fp, mutate):
    """one callback; everything it returned and left is compared with the reference"""
    v = W.at(x)
    xx = np.array(x, float)
    want_f, want_g = ref_f(v), W.grad(v)
    if cb == "f":
        gf, gg = f(xx), None
    elif cb == "fp":
        gf, gg = None, fp(xx)
    else:
        gf, gg = f_fp(xx)
    if xx.tolist() != [float(q) for q in x]:
        raise Violation("%s changed the vector it was given: %s -> %s" % (cb, fmt(x), fmt(xx)), "vector")
    if gf is not None and not same([float(gf)], [want_f], 1e-9):
        raise Violation("%s at %s returned the objective %r, expected %r" % (cb, fmt(x), float(gf), want_f), "objective")
    if gg is not None:
        if not same(fl(gg), want_g, 1e-7):
            raise Violation("%s at %s returned the gradient %s, expected %s" % (cb, fmt(x), fmt(fl(gg)), fmt(want_g)), "gradient")
        if mutate:
            gg *= 0.0            # optimizers may work in the array they were given
            gg -= 7.0
            xx += 1.0
    got = W.values()
    for k in range(len(v)):
        if k in W.fixed:
            if got[k] != W.v[k]:
                raise Violation("fixed element %d went from %r to %r" % (k, W.v[k], got[k]), "fixed")
        elif not same([got[k]], [v[k]], 1e-9):
            raise Violation("at %s the model has %s, expected %s" % (fmt(x), fmt(got), fmt(v)), "params")
    W.v = [W.v[k] if k in W.fixed else v[k] for k in range(len(v))]


GRID = [[0.5, -0.25, 1.0, 0.125, -0.75], [-1.5, 2.0, 0.0, -0.5, 1.25], [30.0, -30.0, 12.0, -12.0, 3.0], [0.5, -0.25, 1.0, 0.125, 1.75]]


def config(case):
    """case: (marks of the five elements, sequence of (callback, vector))"""
    marks, seq, mutate = case
    toks = [OPTS[i][0] for i in marks]
    fixed = [k for k, i in enumerate(marks) if OPTS[i][1]]
    W = build(toks, fixed)
    n = len(W.free())
    if n == 0:
        if W.m.optimize(optimizer=Scripted(lambda *a: None)) is not None:
            raise Violation("something was optimized although all elements are fixed", "nothing")
        if W.values() != W.v:
            raise Violation("values changed", "fixed")
        return ("nothing", marks)
    ran = []

    def script(opt, x0, f_fp, f, fp):
        x0 = fl(x0)
        if not same(x0, W.x(), 1e-7):
            raise Violation("started at %s, expected %s" % (fmt(x0), fmt(W.x())), "start")
        for cb, xi in seq:
            query(W, cb, GRID[xi][:n], f_fp, f, fp, mutate)
            ran.append(cb)
        opt.x_opt = np.array(GRID[seq[-1][1]][:n])
        opt.f_opt = 0.0

    W.m.optimize(optimizer=Scripted(script))
    if len(ran) != len(seq):
        raise Violation("the optimizer was not run", "run")
    return (marks, seq)


def configs(thorough):
    N = len(OPTS)
    short = [((("f_fp", 0), ("f_fp", 1)), True), ((("fp", 0), ("f", 0), ("fp", 1)), True), ((("f_fp", 2),), False)]
    # every assignment to four elements (the fifth follows the first), with fixed call sequences
    for marks in itertools.product(range(N), repeat=4):
        if not thorough and sum(marks) % 2:
            continue          # quick: every triple with one of two values of the fourth
        full = marks + (marks[0],)
        j = sum(marks)
        if thorough:
            for seq, mu in short:
                yield (full, seq, mu)
        else:
            seq, mu = short[j % 3]
            yield (full, seq, mu)
    # every sequence of calls, for selected assignments
    sel = [(0, 1, 0, 6, 0), (8, 1, 9, 3, 5), (1, 8, 2, 10, 7), (0, 0, 0, 0, 0), (8, 8, 8, 8, 1), (4, 10, 5, 0, 8)]
    calls = [(cb, x) for cb in CBS for x in (0, 1, 3)]
    for marks in sel:
        for L in (1, 2) + ((3, 4) if thorough else ()):
            for seq in itertools.product(calls, repeat=L):
                yield (marks, seq, bool(len(seq) % 2))


class Hist(System):
    """histories of changes of the model, then and in between optimizer callbacks"""

    def __init__(self, name):
        self.name = name

    def build(self):
        W = build([None, "pos", None, "b10", None])
        return W

    def sl(self, W, k):
        for name in W.pos:
            if k in W.pos[name]:
                p = W.leaves[name]
                j = W.pos[name].index(k)
                return p[tuple(slice(q, q + 1) for q in np.unravel_index(j, p.shape))]

    HANDLES = {"a": [0, 1], "b": [2], "c": [3, 4], "s": [0, 1, 2], "r": [0, 1, 2, 3, 4]}

    def handle(self, W, h):
        if isinstance(h, int):
            return self.sl(W, h), [h]
        o = {"s": W.s, "r": W.m}.get(h)
        return (o if o is not None else W.leaves[h]), self.HANDLES[h]

    def ops(self, W):
        out = []
        for h in (0, "c", "s", "r") if not env.THOROUGH else (0, 3, "a", "b", "c", "s", "r"):
            out += [("fix", h), ("unfix", h), ("unc", h)]
            ks = self.handle(W, h)[1]
            for t in ("exp", "b10") if not env.THOROUGH else ("pos", "b10", "exp"):
                if all(W.v[k] > 1e-3 and W.v[k] < 9.9 for k in ks):
                    out.append(("con", h, t))
            if all(W.toks[k] not in ("neg", "nexp") for k in ks):
                out.append(("set", h, 0.5))
        n = len(W.free())
        if n:
            for cb in CBS:
                out.append(("run", cb))
            out.append(("upd", False))
        out.append(("upd", True))
        return out

    def apply(self, W, op):
        k = op[0]
        if k == "upd":
            W.m.update_model(op[1])
            return
        if k == "run":
            self.run(W, [(op[1], 0), (op[1], 3)])
            return
        o, ks = self.handle(W, op[1])
        if k == "fix":
            o.fix(warning=False)
            W.fixed |= set(ks)
        elif k == "unfix":
            o.unfix()
            W.fixed -= set(ks)
        elif k == "unc":
            o.unconstrain()
            W.fixed -= set(ks)
            for q in ks:
                W.toks[q] = None
        elif k == "con":
            o.constrain(TOK[op[2]].make(), warning=False)
            W.fixed -= set(ks)
            for q in ks:
                W.toks[q] = op[2]
        elif k == "set":
            o[:] = op[2]
            for q in ks:
                W.v[q] = op[2]

    def run(self, W, seq):
        n = len(W.free())
        now = W.values()
        if not same(now, W.v, 1e-9):
            raise Violation("values are %s, expected %s" % (fmt(now), fmt(W.v)), "params")
        W.v = now          # fixed elements have to keep exactly what they have

        def script(opt, x0, f_fp, f, fp):
            if not same(fl(x0), W.x(), 1e-7):
                raise Violation("started at %s, expected %s" % (fmt(fl(x0)), fmt(W.x())), "start")
            for cb, xi in seq:
                query(W, cb, GRID[xi][:n], f_fp, f, fp, True)
            opt.x_opt = np.array(GRID[seq[-1][1]][:n])
            opt.f_opt = 0.0

        W.m.optimize(optimizer=Scripted(script))

    def key(self, W):
        m = W.m
        runs, m.optimization_runs = m.optimization_runs, []
        try:
            return heap_key([m], skip_attrs=("evals",))
        finally:
            m.optimization_runs = runs

    def check(self, W):
        if W.free():
            self.run(W, [("fp", 0), ("f_fp", 1), ("f", 3)])


def systems():
    return {"hist": Hist("hist")}


def case_functions():
    return {"config": config}


def run(report):
    enumerate_cases("config", config, list(configs(env.THOROUGH)), report)
    explore(Hist("hist"), 4 if env.THOROUGH else 3, report)
