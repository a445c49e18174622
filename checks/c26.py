"""C26: progress reporting has no influence on the optimization.

Everything the optimizer and the clock do is scripted; each script runs on two
models, with and without messages, and everything but the printed text has to
be the same. The printed runtime is compared with the scripted clock."""
import contextlib
import io
import itertools
import re
import time

import numpy as np

from mc import env
from mc.explore import enumerate_cases
from mc.objective import build
from mc.report import Violation
from mc.stub import Scripted

LEVEL = "model_checking"
SH = [("a", (2,), "s"), ("b", (1,), "s"), ("c", (1,), "r")]
XS = [[0.5, -0.25, 1.0], [-1.5, 2.0, 0.25], [3.0, -2.0, -1.0], [0.1, 0.2, 0.3]]
EXC = {"LinAlg": np.linalg.LinAlgError, "Zero": ZeroDivisionError, "Key": KeyError, "Stop": StopIteration, "Interrupt": KeyboardInterrupt, "Float": FloatingPointError}
SPECIAL = {"inf": np.inf, "-inf": -np.inf, "nan": np.nan, "0": 0.0, "huge": 1e300, "tiny": -1e-300, "array": np.array([[2.5]]), "int": 3}


class Clock(object):
    """time stands still but for the script"""

    def __init__(self, start=1.0e9):
        self.now = start

    def __call__(self):
        return self.now


@contextlib.contextmanager
def clocked(clock):
    names = ("time", "monotonic", "perf_counter")
    kept = {n: getattr(time, n) for n in names}
    try:
        for n in names:
            setattr(time, n, clock)
        yield
    finally:
        for n in names:
            setattr(time, n, kept[n])


def bits(x):
    if x is None:
        return None
    a = np.asarray(x, dtype=float)
    return (a.shape, np.where(np.isnan(a), np.nan, a).tobytes())


def observers(m):
    return sorted((str(p), type(o).__name__, getattr(c, "__name__", str(c))) for p, o, c in m.observers)


def play(case, messages):
    """one script; everything observable but the text"""
    toks, fixed, steps, end, via, startfail = case
    W = build(list(toks), fixed, SH)
    m = W.m
    clock = Clock()
    log = []
    state = {"fails": {}, "special": {}, "k": 0}
    orig = m.objective_function

    def where():
        return bits(m.flat())

    def hook(site):
        e = state["fails"].get((where(), site))
        if site == "update":
            log.append(("updated", where()))
        if e is not None:
            raise EXC[e](site)

    def objective():
        v = orig()
        s = state["special"].get(where())
        return v if s is None else SPECIAL[s]

    m.hook = hook
    m.objective_function = objective
    m.add_observer(W, lambda me, which: log.append(("seen", where())), 3)
    m.add_observer(W.s, lambda me, which: log.append(("seen late", where())), -10)
    m.update_model(True)
    before = observers(m)
    if startfail:
        state["fails"][(where(), "objective")] = startfail

    def script(opt, x0, f_fp, f, fp):
        opt.status = "went %d" % len(steps)
        opt.trace = []
        for cb, xi, special, fail, exc, dt in steps:
            x = np.array(XS[xi])
            at = bits(W.at(XS[xi]))
            state["fails"].clear()
            state["special"].clear()
            if fail:
                state["fails"][(at, fail)] = exc
            if special:
                state["special"][at] = special
            clock.now += dt
            try:
                got = {"f": f, "fp": fp, "f_fp": f_fp}[cb](x)
                log.append((cb, [bits(g) for g in got] if cb == "f_fp" else bits(got)))
            except Exception as e:
                log.append((cb, type(e).__name__, str(e)))
                opt.status = "failed"
                raise
            opt.trace.append(log[-1][1])
        state["fails"].clear()
        state["special"].clear()
        opt.x_opt = np.array(XS[3])
        opt.f_opt = float(state["k"])
        state["k"] += 1
        clock.now += 0.5
        if end:
            opt.status = "broken"
            raise EXC[end]("the end")

    o = Scripted(script)
    np.random.seed(7)
    raised = kept = None
    out = io.StringIO()
    try:
        with clocked(clock), contextlib.redirect_stdout(out), np.errstate(all="ignore"):
            if via == "optimize":
                m.optimize(o, messages=messages)
            else:
                m.optimize_restarts(2, robust=(via == "robust"), verbose=False, optimizer=o, messages=messages)
    except Violation:
        raise
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt) and end != "Interrupt":
            raise
        raised = (type(e).__name__, str(e))
        kept = e        # as a debugger or a notebook would: with all its frames
    if observers(m) != before:
        raise Violation("%s messages, observers went from %s to %s" % ("with" if messages else "without", before, observers(m)), "observers")
    n = len(log)
    state["fails"].clear()
    state["special"].clear()
    after = [("values", where()), ("optimizer vector", bits(m.optimizer_array)), ("runs", [(r.status, r.trace, bits(r.x_opt), r.f_opt) for r in m.optimization_runs]),
             ("last gradient", bits(m.obj_grads)), ("exception", raised), ("updates", m.evals), ("random numbers", tuple(np.random.get_state()[1]) + (np.random.get_state()[2],))]
    # and it goes on the same
    m.optimizer_array = np.array(XS[1])
    after.append(("later", where()))
    after.append(("later events", log[n:]))
    kept = None
    return log[:n], after, out.getvalue()


def compare(case):
    a, afa, _ = play(case, False)
    b, afb, text = play(case, True)
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y:
            raise Violation("with messages event %d is %s, without %s" % (k, show(y), show(x)), "event")
    if len(a) != len(b):
        raise Violation("with messages there were %d events, without %d: %s" % (len(b), len(a), show((a + b)[min(len(a), len(b)):][:1])), "events")
    for (n, x), (_, y) in zip(afa, afb):
        if x != y:
            raise Violation("%s with messages: %s, without: %s" % (n, show(y), show(x)), n)
    if not text.strip():
        raise Violation("nothing was printed with messages on", "silent")
    return (tuple(str(e[0]) for e in a), afa[4][1])


def show(x):
    return repr(x)[:200]


def steps_all(T):
    """kinds of one evaluation"""
    out = []
    for cb in ("f", "fp", "f_fp"):
        out.append((cb, 0, None, None, None, 0.1))
        for site in {"f": ("objective", "update"), "fp": ("objective", "gradient", "update"), "f_fp": ("objective", "gradient")}[cb]:
            for exc in ("LinAlg", "Key") + (("Zero", "Float") if T else ()):
                out.append((cb, 1, None, site, exc, 0.1))
        for sp in ("inf", "nan", "0") + (("-inf", "huge", "tiny", "array", "int") if T else ("array",)):
            out.append((cb, 2, sp, None, None, 1.5))
    return out


def scripts():
    T = env.THOROUGH
    confs = [((None,) * 4, (3,))] + ([((None, "pos", "b10", None), (0,))])
    one = steps_all(True)
    two = steps_all(T)
    for toks, fixed in confs:
        for via in ("optimize", "robust", "restarts"):
            for sf in (None, "LinAlg", "Key"):
                yield (toks, fixed, (), None, via, sf)
                for end in ("LinAlg", "Key", "Interrupt", "Stop"):
                    yield (toks, fixed, (), end, via, sf)
                    for s in [x for x in one if x[3] is None]:
                        yield (toks, fixed, (s,), end, via, sf)
                for s in one:
                    yield (toks, fixed, (s,), None, via, sf)
        for a, b in itertools.product(two, repeat=2):
            for via in ("optimize", "robust") + (("restarts",) if T else ()):
                yield (toks, fixed, (a, b), None, via, None)
        three = [s for s in two if s[4] != "Key" and s[2] in (None, "inf")]
        for t in itertools.product(three, repeat=3):
            if T or sum(1 for s in t if s[3] or s[2]) <= 2:
                yield (toks, fixed, t, None, "optimize", None)
    # many evaluations, so that the line breaks fall in, and clock jumps
    for n in (25, 60):
        for dts in ((0.001,), (0.05,), (1.5,), (100.0, 0.0), (4000.0,), (90000.0, 0.1)):
            st = tuple(("f_fp", k % 3, None, None, None, dts[k % len(dts)]) for k in range(n))
            for via in ("optimize", "robust"):
                yield (confs[0][0], confs[0][1], st, None, via, None)


# ----------------------------------------------------------------- real optimizers
def real(case):
    name, toks, fixed, via, kw = case
    res = []
    for messages in (False, True):
        W = build(list(toks), fixed, SH)
        np.random.seed(3)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            if via == "optimize":
                W.m.optimize(name, messages=messages, **dict(kw))
            else:
                W.m.optimize_restarts(3, optimizer=name, messages=messages, verbose=False, **dict(kw))
        runs = [(bits(r.x_opt), bits(r.f_opt), r.funct_eval, r.status, None if r.trace is None else bits(r.trace)) for r in W.m.optimization_runs]
        res.append((bits(W.m.flat()), runs, W.m.evals, bits(W.m.obj_grads), tuple(np.random.get_state()[1]), len(W.m.observers)))
    for what, a, b in zip(("values", "runs", "updates", "last gradient", "random numbers", "observers"), *res):
        if a != b:
            raise Violation("%s: %s with messages %s, without %s" % (case, what, show(b), show(a)), what)
    return (name, via, res[0][2])


def reals():
    confs = [((None,) * 4, ()), ((None, "pos", "b10", None), (0,)), (("exp", None, "pos", "pos"), (2, 3))]
    for name in ("lbfgsb", "scg", "fmin_tnc", "simplex"):
        for toks, fixed in confs:
            for via in ("optimize", "restarts"):
                for kw in ((), (("max_iters", 3),), (("max_iters", 50),)):
                    yield (name, toks, fixed, via, kw)


# ------------------------------------------------------------------------ the clock
UNITS = {"d": 86400.0, "h": 3600.0, "m": 60.0, "s": 1.0}


def seconds_of(text):
    """'02m03s45' and the like: value and unit of the last digit"""
    total, unit, last = 0.0, None, None
    for num, u in re.findall(r"(\d+)([dhms]?)", text):
        if u == "":
            unit = {"s": 0.01, "m": 1.0, "h": 60.0, "d": 3600.0}[last]
            total += int(num) * unit
        else:
            total += int(num) * UNITS[u]
            unit, last = UNITS[u], u
    return total, unit


def runtime(case):
    elapsed, pattern, boom = case
    W = build([None] * 4, (), SH)
    clock = Clock(1234567.0)

    def script(opt, x0, f_fp, f, fp):
        opt.status = "all done"
        opt.x_opt, opt.f_opt = x0, 0.0
        for part in pattern:
            clock.now += elapsed * part
            f_fp(x0 + 0.1 * part)
        clock.now = 1234567.0 + elapsed
        if boom:
            raise RuntimeError("boom")

    out = io.StringIO()
    with clocked(clock), contextlib.redirect_stdout(out):
        try:
            W.m.optimize(Scripted(script), messages=True)
        except RuntimeError:
            if not boom:
                raise
    text = out.getvalue()
    found = re.findall(r"Runtime:\s*(\S+)", text)
    if len(found) != 1:
        raise Violation("ran for %s s, printed the runtimes %s" % (elapsed, found), "runtime")
    got, unit = seconds_of(found[0])
    if not (got - 1e-3 <= elapsed <= got + unit + 1e-3):
        raise Violation("ran for %s s, printed %r" % (elapsed, found[0]), "runtime")
    fields = re.findall(r"\d+", found[0])
    if any(len(f) < 2 for f in fields) or not re.fullmatch(r"\d+s\d\d|\d\dm\d\ds\d\d|\d\dh\d\dm\d\d|\d{2,}d\d\dh\d\d", found[0]):
        raise Violation("ran for %s s, printed %r" % (elapsed, found[0]), "format")
    for f, top in zip(fields[1:], {"s": (100,), "m": (60, 100), "h": (60, 60), "d": (24, 60)}[re.search("[a-z]", found[0]).group()]):
        if int(f) >= top:
            raise Violation("ran for %s s, printed %r" % (elapsed, found[0]), "format")
    st = re.findall(r"Optimization status:\s*(.*)", text)
    if [s.strip() for s in st] != ["all done"]:
        raise Violation("printed the status %s" % st, "status")
    return (elapsed, found[0])


def runtimes():
    E = set()
    for base in (0.0, 0.2, 1.0, 10.0, 59.0, 60.0, 61.0, 119.0, 120.0, 600.0, 3540.0, 3599.0, 3600.0, 3660.0, 7199.0, 36000.0, 82800.0, 86340.0, 86399.0, 86400.0, 90000.0, 172799.0, 864000.0, 8640000.0 * 2):
        for d in (-0.995, -0.5, -0.01, 0.0, 0.004, 0.011, 0.25, 0.5, 0.99, 0.999):
            if base + d >= 0:
                E.add(round(base + d, 6))
    if env.THOROUGH:
        E |= {k * 7.013 for k in range(3000)} | {k * 611.37 for k in range(3000)}
    for e in sorted(E):
        for pattern in ((), (0.5,), (0.0, 1.0), (0.1, 0.3, 0.3)):
            for boom in (False, True):
                yield (e, pattern, boom)


def case_functions():
    return {"compare": compare, "real": real, "runtime": runtime}


def run(report):
    enumerate_cases("compare", compare, list(scripts()), report)
    enumerate_cases("real", real, list(reals()), report)
    enumerate_cases("runtime", runtime, list(runtimes()), report)
