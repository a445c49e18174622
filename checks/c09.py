"""C09: the gradient checker's verdict is right and it leaves the model alone."""
import contextlib
import io
import itertools
import re

import numpy as np

from mc import env
from mc.explore import enumerate_cases
from mc.objective import build, ref_f, ref_g, weights
from mc.report import Violation
from mc.tree import fmt
from mc.xform import TOK, token_of

LEVEL = "model_checking"

# handle -> (positions, how to get it)
HANDLES = {
    "model": ([0, 1, 2, 3, 4], lambda W: W.m),
    "node": ([0, 1, 2], lambda W: W.s),
    "leaf a": ([0, 1], lambda W: W.leaves["a"]),
    "leaf b": ([2], lambda W: W.leaves["b"]),
    "leaf c": ([3, 4], lambda W: W.leaves["c"]),
    "a[1:]": ([1], lambda W: W.leaves["a"][1:]),
    "a[::-1]": ([1, 0], lambda W: W.leaves["a"][::-1]),
    "c[:,1]": ([4], lambda W: W.leaves["c"][:, 1]),
    "c[0,:]": ([3, 4], lambda W: W.leaves["c"][0, :]),
    "a[mask]": ([0], lambda W: W.leaves["a"][np.array([True, False])]),
    "rex ac": ([0, 1, 3, 4], lambda W: W.m[".*[ac]$"]),
    "rex all": ([0, 1, 2, 3, 4], lambda W: W.m[""]),
    "rex bc": ([2, 3, 4], lambda W: W.m[".*[bc]$"]),
}
TOKS = {"none": [None] * 5, "mixed": [None, "pos", "b10", None, "exp"], "all": ["exp", "neg", "pos", "sq", "b1"]}
N = 5


def point(name):
    """values at which the gradient has a chosen shape (no constraints)"""
    target = {"flat": np.zeros(5), "cancel": np.array([1.0, -1.0, 1.0, -1.0, 1.0]), "pair": np.array([2.0, -2.0, 2.0, 2.0, -2.0]),
              "mixed": np.array([3.0, 0.0, -0.5, 20.0, 0.0]),
              "large": 1e3 * np.array([1.0, -2.0, 4.0, -8.0, 16.0])}[name]
    A = np.eye(5) + 0.2
    return list(np.linalg.solve(A, target - weights(5)))


ROW = re.compile("\033\\[(9[0-9])m (.*?) \033\\[0m *(\\|.*)")
LABEL = ["r.s.a[[0]]", "r.s.a[[1]]", "r.s.b", "r.c[[0 0]]", "r.c[[0 1]]"]


def table(text, free, true, given, wrong, acc):
    """the rows of the verbose check: one per free selected element, with its gradient and the one measured"""
    rows = [m.groups() for m in (ROW.match(line) for line in text.split("\n")) if m]
    if [r[1] for r in rows] != [LABEL[k] for k in free]:
        raise Violation("rows for %s, free and selected are %s" % ([r[1] for r in rows], [LABEL[k] for k in free]), "rows")
    if not free and "No free parameters" not in text:
        raise Violation("nothing is free, printed %r" % text, "rows")
    for (colour, name, cells), k in zip(rows, free):
        ratio, diff, ana, num = [float(c) for c in cells.strip("|").split("|")[:4]]
        for what, a, b, tol in (("gradient", ana, given[k], 2e-6), ("numerical gradient", num, true[k], 1e-4), ("difference", diff, abs(true[k] - given[k]), 1e-4)):
            if not abs(a - b) <= tol * (1.0 + abs(b)) + acc:
                raise Violation("row of %s: %s %r, it is %r" % (name, what, a, b), "rows")
        if abs(given[k]) > 1e-3 and not abs(ratio - true[k] / given[k]) <= 1e-3 * (1.0 + abs(ratio) + acc) / min(1.0, abs(given[k])):
            raise Violation("row of %s: ratio %r of %r and %r" % (name, ratio, true[k], given[k]), "rows")
        if (colour == "92" and k in wrong) or (colour == "91" and k not in wrong):
            raise Violation("row of %s is marked %s" % (name, "right" if colour == "92" else "wrong"), "rows")


def run_case(case):
    handle, tokname, fixed, pt, err, verbose, signs = case
    W = build(TOKS[tokname], fixed, vals=None if pt is None else point(pt))
    v0 = W.values()
    g = ref_g(v0)
    pos = HANDLES[handle][0]
    free = [k for k in pos if k not in fixed]
    kind, arg = err
    E = {}
    if kind == "one":
        E = {arg[0]: arg[1] * (1.0 + abs(g[arg[0]]))}
    elif kind == "zero":       # a forgotten gradient
        E = {k: -g[k] for k in range(N)}
    elif kind == "scale":
        E = {k: (arg - 1.0) * g[k] for k in range(N)}
    elif kind == "others":     # everything which must not matter
        E = {k: 5.0 + k for k in range(N) if k not in free}
    factor = {k: 1.0 if W.toks[k] is None else abs(TOK[W.toks[k]].dfdx(v0[k])) for k in range(N)}
    wrong = [k for k in free if abs(E.get(k, 0.0)) * factor[k] > 1e-2 and abs(E[k]) > 0.05 * abs(g[k])]
    slight = [k for k in free if k not in wrong and abs(E.get(k, 0.0)) > 0]
    if slight:
        return None
    W.m.err = E
    W.m.update_model(True)
    before = W.values()
    h = HANDLES[handle][1](W)
    drawn = []

    def uniform(lo=0.0, hi=1.0, size=None):
        n = int(np.prod(size)) if size is not None else 1
        drawn.append(n)
        s = np.array([1.0 if signs >> i & 1 else -1.0 for i in range(n)]) * 0.5
        return s if size is not None else float(s[0])

    real = np.random.uniform
    np.random.uniform = uniform
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            got = h.checkgrad(verbose=verbose)
    finally:
        np.random.uniform = real
    if verbose:
        sign = {k: 1.0 if W.toks[k] is None else TOK[W.toks[k]].dfdx(v0[k]) for k in range(N)}
        table(out.getvalue(), free, {k: g[k] * sign[k] for k in free}, {k: (g[k] + E.get(k, 0.0)) * sign[k] for k in free}, wrong,
              1e-9 * abs(ref_f(v0)))
    if wrong and kind in ("zero", "scale") and not verbose:
        # the summary compares the derivative in one direction; with every element wrong
        # in proportion, the directional derivative has to be away from zero
        if pt in ("cancel", "pair", "mixed", "flat"):
            s = [(1 if signs >> i & 1 else -1) for i in range(len(free))]
            if abs(sum(si * g[k] for si, k in zip(s, free))) < 0.5 or len(free) == 2:
                wrong = None
    if wrong is not None and bool(got) != (not wrong):
        raise Violation("checkgrad is %r; gradient %s, errors %s, free and selected %s, at %s" % (
            got, fmt(g), {k: E[k] for k in wrong}, free, fmt(v0)), "verdict:%s" % ("right" if not wrong else "wrong"))
    after = W.values()
    for k in range(N):
        if (k in W.fixed and after[k] != before[k]) or abs(after[k] - before[k]) > 1e-9 * (1 + abs(before[k])):
            raise Violation("element %d went from %r to %r" % (k, before[k], after[k]), "left")
    tok = [None] * N
    fx = set()
    for t, ind in W.m.constraints.items():
        for i in ind:
            if token_of(t) == "fixed":
                fx.add(int(i))
            else:
                tok[int(i)] = token_of(t)
    if fx != W.fixed or tok != W.toks:
        raise Violation("constraints are now %s, %s" % (tok, fx), "left")
    # and the model is still evaluated at its parameters
    if abs(float(W.m.objective_function()) - ref_f(after)) > 1e-8 * (1 + abs(ref_f(after))):
        raise Violation("the model was left evaluated elsewhere", "left")
    return (case, bool(got))


def cases(thorough):
    fixes = [(), (0,), (2,), (4,), (0, 1), (2, 4), (1, 2, 3), (0, 1, 2, 3, 4)]
    if thorough:
        fixes = [f for r in range(6) for f in itertools.combinations(range(5), r)]
    errs = [("none", None), ("zero", None), ("scale", -1.0), ("scale", 2.0), ("others", None)]
    errs += [("one", (k, e)) for k in range(5) for e in ((0.3, -2.0) if thorough else (0.3,))]
    for h in sorted(HANDLES):
        pos = HANDLES[h][0]
        for f in fixes:
            nf = len([k for k in pos if k not in f])
            for err in errs:
                for tk in ("none", "mixed", "all"):
                    yield (h, tk, f, None, err, True, 0)
                    for signs in range(2 ** nf) if (nf != 2 and (thorough or tk == "mixed")) else (0, 2 ** nf - 1, 5 % (2 ** nf)):
                        yield (h, tk, f, None, err, False, signs)
                for pt in ("flat", "cancel", "pair", "mixed", "large"):
                    if err[0] in ("none", "others", "zero", "one"):
                        yield (h, "none", f, pt, err, True, 0)
                        for signs in range(2 ** nf) if thorough else (0, 1 % (2 ** nf), 2 ** nf - 1):
                            yield (h, "none", f, pt, err, False, signs)


def options(case):
    """step and tolerance as asked for"""
    handle, tokname, fixed, size, step, tol, verbose, how = case
    W = build(TOKS[tokname], fixed)
    v0 = W.values()
    g = ref_g(v0)
    free = [k for k in HANDLES[handle][0] if k not in fixed]
    sign = {k: 1.0 if W.toks[k] is None else TOK[W.toks[k]].dfdx(v0[k]) for k in range(N)}
    W.m.err = {k: size * (1.0 + abs(g[k])) for k in free}
    W.m.update_model(True)
    h = HANDLES[handle][1](W)
    true = {k: g[k] * sign[k] for k in free}
    given = {k: (g[k] + W.m.err[k]) * sign[k] for k in free}
    if not verbose:                # along the ones
        true = {0: sum(true.values())}
        given = {0: sum(given.values())}
    want = True
    for k in true:
        d = abs(true[k] - given[k])
        r = abs(1.0 - true[k] / given[k])
        # the summary compares the difference of the objectives, 2 step times as large
        far = lambda x: x < tol / 1.3 or x > tol * 1.3
        if not (far(d) and far(r)):
            return None
        if not (d < tol or r < tol):
            want = False
    real = np.random.uniform
    np.random.uniform = lambda lo=0.0, hi=1.0, size=None: np.ones(size) * 0.5
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            got = h.checkgrad(verbose, step, tol) if how == "positional" else h.checkgrad(verbose=verbose, tolerance=tol, step=step)
    finally:
        np.random.uniform = real
    if bool(got) != want:
        raise Violation("checkgrad with step %g and tolerance %g is %r; gradient %s, errors %s" % (step, tol, got, fmt(g), W.m.err), "options")
    after = W.values()
    if any(abs(a - b) > 1e-9 * (1 + abs(b)) for a, b in zip(after, v0)):
        raise Violation("parameters went from %s to %s" % (fmt(v0), fmt(after)), "left")
    return (case, want)


def option_cases():
    for h in sorted(HANDLES):
        for tk in ("none", "mixed"):
            for fixed in ((), (1,), (0, 3)):
                if not [k for k in HANDLES[h][0] if k not in fixed]:
                    continue
                for size in (0.0, 1e-4, 0.02, 0.3, -0.2):
                    for step in (1e-6, 1e-5, 1e-4):
                        for tol in (1e-2, 1e-3, 0.1, 0.5):
                            for verbose in (False, True):
                                yield (h, tk, fixed, size, step, tol, verbose, "positional" if len(h) % 2 else "keywords")


def case_functions():
    return {"checkgrad": run_case, "options": options}


def run(report):
    enumerate_cases("checkgrad", run_case, list(dict.fromkeys(cases(env.THOROUGH))), report, max_violations=12)
    enumerate_cases("options", options, list(option_cases()), report)
