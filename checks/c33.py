"""C33: independent models do not influence each other, whichever way their operations interleave, also in threads."""
import copy
import gc
import itertools
import pickle

import numpy as np

from mc import env
from mc.explore import enumerate_cases
from mc.report import Violation
from mc.threads import Pair, points
from mc.tree import fl

from paramz import Model, ObsAr, Param, Parameterized
from paramz import transformations as T
from paramz.caching import Cache_this
from paramz.core.index_operations import ParameterIndexOperations

LEVEL = "model_checking"


class Part(Parameterized):
    def __init__(self, name, k):
        super(Part, self).__init__(name)
        self.u = Param("u", np.arange(1.0, 1.0 + 2 * k).reshape(2, k), T.Logexp())
        self.v = Param("v", [0.5])
        self.link_parameters(self.u, self.v)
        self.__dict__["seen"] = 0

    def parameters_changed(self):
        self.__dict__["seen"] = self.__dict__.get("seen", 0) + 1
        self.u.gradient[:] = 2.0 * self.u.values
        self.v.gradient[:] = 2.0 * self.v.values


class Whole(Model):
    def __init__(self, name, k):
        super(Whole, self).__init__(name)
        self.part = Part("part", k)
        self.w = Param("w", [0.25, 0.75])
        self.link_parameters(self.part, self.w)
        self.__dict__["seen"] = 0
        self.__dict__["computed"] = 0

    def parameters_changed(self):
        self.__dict__["seen"] = self.__dict__.get("seen", 0) + 1
        self.w.gradient[:] = 2.0 * self.w.values

    @Cache_this(limit=2)
    def cached(self, x):
        self.__dict__["computed"] += 1
        return float(np.sum(x) + self.size)

    def objective_function(self):
        if self.__dict__.get("fails", 0) > 0:
            self.__dict__["fails"] -= 1
            raise np.linalg.LinAlgError("not positive definite")
        return float((self.param_array ** 2).sum())

    def objective_function_gradients(self):
        if self.__dict__.get("fails", 0) > 0:
            self.__dict__["fails"] -= 1
            raise np.linalg.LinAlgError("not positive definite")
        return super(Whole, self).objective_function_gradients()


def fresh_transformation():
    """a constraint which nobody has used yet"""
    class Shifted(T.Transformation):
        domain = T._REAL if hasattr(T, "_REAL") else "real"

        def f(self, x):
            return x + 1.0

        def finv(self, f):
            return f - 1.0

        def gradfactor(self, f, df):
            return df * 1.0

        def initialize(self, f):
            return f

        def __str__(self):
            return "shifted"
    return Shifted


class World(object):
    """what one of the two programs works on"""

    def __init__(self, who, common):
        self.who = who
        self.common = common
        self.m = None
        self.kept = []
        self.x = ObsAr(np.array([1.0 + who, 2.0]))

    def build(self):
        self.m = Whole("m", 1 + self.who)


def describe(m):
    out = []

    def visit(o):
        cons = tuple(sorted((str(t), tuple(int(i) for i in ind)) for t, ind in o.constraints.items()))
        out.append((o.name, tuple(fl(o.param_array)), cons, o.is_fixed, tuple(fl(o.gradient)), o.__dict__.get("seen")))
    m.traverse(visit)
    runs = tuple((type(r).__name__, r.max_iters, r.funct_eval, str(r.status), fl(r.f_opt)[0]) for r in m.optimization_runs)
    return (tuple(out), tuple(fl(m.optimizer_array)), tuple(m.parameter_names()), m.size, m.update_model(), runs, m.preferred_optimizer)


def o_build(w):
    w.build()


def o_bound(w):
    w.m.w.constrain_bounded(0.0, 1.0)


def o_unbound(w):
    w.m.w.unconstrain_bounded(0.0, 1.0)
    return len(list(w.m.w.constraints.items()))


def o_rebound(w):
    w.m.w.constrain_bounded(0.0, 1.0)
    w.m.w.unconstrain_bounded(0.0, 1.0)
    return len(list(w.m.w.constraints.items()))


def o_other_bound(w):
    w.m.part.v.constrain_bounded(-1.0, 2.0 + w.who)


def o_fresh(w):
    t = w.common["fresh"]
    w.m.w.constrain(t())


def o_unfresh(w):
    t = w.common["fresh"]
    w.m.w.constrain(t())
    w.m.w.unconstrain(t())
    return len(list(w.m.w.constraints.items()))


def o_refused(w):
    try:
        w.m.w.constrain_bounded(1.0, 0.0)
    except AssertionError:
        return "refused"


def o_fix(w):
    w.m.part.u[0].fix()
    w.m.w[:1].fix()


def o_unfix(w):
    w.m.unfix()


def o_set(w):
    w.m.part.u[:, 0] = 3.0
    w.m["part.v"] = 4.0
    w.m[1:2] = 5.0


def o_vector(w):
    w.m.optimizer_array = w.m.optimizer_array * 0.5


def o_select(w):
    w.m[".*[uw]"].constrain_positive()
    return tuple(fl(w.m[".*"].values()))


def o_copy(w):
    c = w.m.copy()
    c[:] = 7.0
    d = copy.deepcopy(w.m.part.u)
    return (describe(c), tuple(fl(d)))


def o_pickle(w):
    w.m.w.constrain_bounded(0.0, 1.0)
    c = pickle.loads(pickle.dumps(w.m))
    d = describe(c)
    c.w.unconstrain_bounded(0.0, 1.0)
    return (d, describe(c))


def o_cached(w):
    a = w.m.cached(w.x)
    w.x[0] = w.x[0] + 1.0
    return (a, w.m.cached(w.x), w.m.cached(w.x), w.m.computed)


def o_structure(w):
    p = w.m.part
    w.m.unlink_parameter(p)
    p.u.name = "renamed"
    w.m.link_parameter(p, 1)
    w.m.link_parameter(Param("w", [9.0]), 0)
    return tuple(w.m.parameter_names())


def o_optimize(w):
    w.m.part.fix()
    w.m.optimize("scg", max_iters=2)
    w.m.part.unfix()
    return w.m.optimization_runs[-1].funct_eval


def o_prefer(w):
    w.m.preferred_optimizer = "simplex" if w.who else "scg"
    w.m.part.fix()
    w.m.optimize(max_iters=1)
    w.m.part.unfix()


def o_fails(w):
    """two failures are tolerated, a third one in a row is not"""
    w.m._allowed_failures = 2
    w.m.part.fix()
    w.m.__dict__["fails"] = 2
    w.m.optimize("simplex", max_iters=6)
    w.m.__dict__["fails"] = 4
    try:
        w.m.optimize("simplex", max_iters=6)
        r = "tolerated"
    except np.linalg.LinAlgError:
        r = "raised"
    left, w.m.__dict__["fails"] = w.m.__dict__["fails"], 0
    w.m.part.unfix()
    w.m._allowed_failures = 10
    w.m._fail_count = 0
    return (r, left)


def o_nocache(w):
    w.m.disable_caching()
    a, n = w.m.cached(w.x), w.m.computed
    b, k = w.m.cached(w.x), w.m.computed - n
    w.m.enable_caching()
    c, d = w.m.cached(w.x), w.m.cached(w.x)
    return (a, b, c, d, k, w.m.computed - n)


def o_maps(w):
    """everything the transformations are asked for, of another size for each of the two"""
    w.m.part.u[0].constrain_bounded(0.0, 10.0)
    w.m.part.u[1].constrain(T.Exponent())
    w.m.part.v.constrain(T.Square())
    w.m.w[:1].constrain_negative()
    w.m.w[1:].constrain(T.NegativeExponent())
    w.m.update_model(False)
    w.m.optimizer_array = w.m.optimizer_array * 0.5 + 0.125 * w.who
    w.m.update_model(True)
    w.m.optimize("scg", max_iters=1)
    return tuple(fl(w.m.optimization_runs[-1].x_opt))


def o_indexop(w):
    w.m.w.add_index_operation("marks", ParameterIndexOperations())
    w.m.w.marks.add("x", [1])
    r = tuple(int(i) for i in w.m.w.marks["x"])
    w.m.w.remove_index_operation("marks")
    return r


def o_print(w):
    return (str(w.m), w.m.part.u.__str__(), w.m._repr_html_())


def o_random(w):
    w.m.randomize(lambda size: np.arange(size) * 0.125 - 0.25)


def o_observe(w):
    got = []

    class Obs(object):
        def see(self, me, which=None):
            got.append((me.name, tuple(fl(me))))
    ob = Obs()
    w.m.w.add_observer(ob, ob.see, 1)
    w.m.w[:] = 0.5
    del ob
    w.m.w[:] = 0.25
    return tuple(got)


def o_check(w):
    return bool(w.m.part.checkgrad())


def o_updates(w):
    w.m.update_model(False)
    w.m.w[:] = 0.125
    w.m.update_model(True)


def o_drop(w):
    w.m.w.constrain_bounded(0.0, 1.0)
    w.m = None
    gc.collect()
    w.build()


OPS = {f.__name__[2:]: f for f in (o_bound, o_unbound, o_rebound, o_other_bound, o_fresh, o_unfresh, o_refused, o_fix, o_unfix, o_set, o_vector,
                                   o_select, o_copy, o_pickle, o_cached, o_structure, o_optimize, o_indexop, o_print, o_random, o_observe, o_check,
                                   o_updates, o_drop, o_build, o_prefer, o_fails, o_nocache, o_maps)}
AFTER = ["unbound", "unfresh", "unfix", "vector", "select", "pickle"]


def do(w, op):
    r = OPS[op](w)
    return (op, repr(r), repr(describe(w.m)))      # (not a number is no number)


def start():
    if not gc.get_freeze_count():
        gc.freeze()             # (what there is by now does not have to be looked at again)
    env.fresh()
    common = {"fresh": fresh_transformation()}
    ws = [World(i, common) for i in (0, 1)]
    return ws


_ALONE = {}


def alone(who, ops):
    """what a program gives if there is no other one"""
    key = (who, tuple(ops))
    if key not in _ALONE:
        w = start()[who]
        w.build()
        _ALONE[key] = [do(w, op) for op in ops]
    return _ALONE[key]


def differ(got, want, what):
    for a, b in zip(got, want):
        if a != b:
            for name, x, y in (("result", a[1], b[1]), ("state", a[2], b[2])):
                if x != y:
                    raise Violation("%s: the %s of %s is %s, alone it is %s" % (what, name, a[0], x, y), a[0])
    if len(got) != len(want):
        raise Violation("%s: only %d operations done" % (what, len(got)), "ops")


def merges(n, m, switches):
    """all orders of n operations of 0 and m of 1 with at most so many changes between them"""
    for ones in itertools.combinations(range(n + m), m):
        o = [1 if i in ones else 0 for i in range(n + m)]
        if sum(a != b for a, b in zip(o, o[1:])) <= switches:
            yield tuple(o)


def serial(case):
    """operations of two models in every order"""
    progs, order = case
    ws = start()
    for w in ws:
        w.build()
    got = [[], []]
    left = [list(p) for p in progs]
    for who in order:
        got[who].append(do(ws[who], left[who].pop(0)))
    for who in (0, 1):
        differ(got[who], alone(who, progs[who]), "%s of two models in the order %s" % (progs, order))
    return tuple(a[0] for a in got[0] + got[1])


FINE = ("transformations.py",)
_POINTS = {}


def where(who, op):
    """scheduling points of an operation"""
    if (who, op) not in _POINTS:
        def prog(w):
            return lambda: OPS[op](w)
        for _ in range(2):              # (what is made once in a process is there the second time)
            ws = start()
            for w in ws:
                w.build()
            _POINTS[(who, op)] = points(prog(ws[who]), FINE)
    return _POINTS[(who, op)]


def race(ops, plan, first):
    ws = start()
    for w in ws:
        w.build()
    progs = [lambda i=i: do(ws[i], ops[i]) for i in (0, 1)]
    pair = Pair(progs, plan, first, FINE).run()
    what = "%s of two models in two threads, %s first, changing over at %s" % (ops, first, sorted(plan))
    got = [[], []]
    for i in (0, 1):
        if pair.error[i] is not None:
            e = pair.error[i]
            raise Violation("%s: %s ends with %s: %s" % (what, ops[i], type(e).__name__, e), "threads:exc:" + type(e).__name__)
        got[i].append(pair.result[i])
    # and whether it all is in order afterwards
    after = AFTER if env.THOROUGH else AFTER[:3]
    for op in after:
        for i in (0, 1):
            got[i].append(do(ws[i], op))
    for i in (0, 1):
        differ(got[i], alone(i, (ops[i],) + tuple(after)), what)
    return pair.switches


def threads(case):
    """one thread is interrupted once, the other one does all of its operation meanwhile"""
    ops, first, part, parts = case
    n, some, _ = where(first, ops[first])
    at = (range(1, n + 1) if env.THOROUGH else some)
    done = 0
    for k in list(at)[part::parts]:
        race(ops, {(first, k)}, first)
        done += 1
    return (ops, first, part, done)


def threads2(case):
    """both threads are interrupted once, within what is shared by all models"""
    ops, part, parts = case
    at = []
    for i in (0, 1):
        n, some, files = where(i, ops[i])
        places = [k for k in range(1, n + 1) if files[k - 1] in FINE]
        step = max(1.0, len(places) / float(LIMIT2))
        at.append([places[int(j * step)] for j in range(min(len(places), LIMIT2))])
    done = 0
    for k in at[0][part::parts]:
        for l in at[1]:
            race(ops, {(0, k), (1, l)}, 0)
            done += 1
    return (ops, part, done)


LIMIT2 = 120 if env.THOROUGH else 26


# what meets in something which belongs to no model
SHARED = ["rebound", "unfresh", "refused", "drop", "pickle", "copy", "select", "cached", "structure", "indexop"]


def case_functions():
    return {"serial": serial, "threads": threads, "threads2": threads2}


def run(report):
    names = list(OPS)
    cases = []
    for a, b in itertools.product(names, repeat=2):
        cases.append((((a,), (b,)), (0, 1)))
        cases.append((((a,), (b,)), (1, 0)))
        for c in names if env.THOROUGH else SHARED:
            cases.append((((a, b), (c,)), (0, 1, 0)))
            if env.THOROUGH:
                cases.append((((a, b), (c,)), (1, 0, 0)))
                cases.append((((a, b), (c,)), (0, 0, 1)))
    if env.THOROUGH:
        for a, b, c, d in itertools.product(names, repeat=4):
            if (a, b) <= (c, d):
                cases.append((((a, b), (c, d)), (0, 1, 0, 1)))
    long = tuple(n for n in names if n not in ("structure",)) + ("structure", "set")
    for k in range(0, len(long), 5):
        p, q = long[k:] + long[:k], long[::-1]
        p, q = tuple(x for x in p if x != "structure") + ("structure",), tuple(x for x in q if x != "structure") + ("structure",)
        for o in merges(6, 6, 12 if env.THOROUGH else 5):
            cases.append(((p[:6], q[:6]), o))
            cases.append(((q[:6], p[-6:]), o))
    enumerate_cases("serial", serial, cases, report)
    pairs = [(a, b) for a in names for b in (names if env.THOROUGH else ("rebound", "unfresh", "drop", "pickle") if a in SHARED else ("rebound",))]
    pairs += [(a, a) for a in names if (a, a) not in pairs]
    enumerate_cases("threads", threads, [((a, b), f, k, 24) for a, b in pairs for f in ((0, 1) if env.THOROUGH else (0,)) for k in range(24)], report, executions=lambda o: o[-1])
    two = SHARED if env.THOROUGH else ["rebound", "unfresh", "refused", "drop"]
    enumerate_cases("threads2", threads2, [((a, b), k, 24) for a in two for b in two for k in range(24)], report, executions=lambda o: o[-1])
