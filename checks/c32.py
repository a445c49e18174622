"""C32: traversing a hierarchy visits exactly the documented nodes, in order, also from within a traversal."""
import copy
import itertools
import pickle

from mc import env
from mc.explore import enumerate_cases
from mc.report import Violation
from mc.tree import fl
from mc.xform import TOK, token_of

from paramz import Model, Param, Parameterized

LEVEL = "model_checking"


class Node(Parameterized):
    def parameters_changed(self):
        self.__dict__["seen"] = self.__dict__.get("seen", 0) + 1


class Top(Model):
    def parameters_changed(self):
        self.__dict__["seen"] = self.__dict__.get("seen", 0) + 1

    def objective_function(self):
        return 0.0


class Stop(Exception):
    pass


def forests(n):
    """all ordered forests of n nodes; a tree is the tuple of its subtrees"""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for sub in forests(k - 1):
            for rest in forests(n - k):
                yield (sub,) + rest


def trees(n):
    return list(forests(n - 1))


class World(object):
    """the real hierarchy and its shape; nodes are numbered in pre-order"""

    def __init__(self, shape, empties, how):
        env.fresh()
        self.kids, self.parent, self.leafs = {}, {}, []
        self.obj = {}
        counter = itertools.count()

        def number(t, parent):
            i = next(counter)
            self.parent[i] = parent
            self.kids[i] = [number(s, i) for s in t]
            if not t:
                self.leafs.append(i)
            return i
        number(shape, None)
        self.n = len(self.kids)
        late = how == "late"
        for i in range(self.n):
            leaf = not self.kids[i] and i != 0 and not (empties >> self.leafs.index(i)) & 1
            if leaf:
                self.obj[i] = Param("n%d" % i, [0.5 + i] * (1 + i % 2))
            elif i == 0:
                self.obj[i] = Top("n0", initialize=not late)
            else:
                self.obj[i] = Node("n%d" % i, initialize=not late)
        # bottom up or top down
        for i in (range(self.n - 1, -1, -1) if how == "bottom up" else range(self.n)):
            for k in self.kids[i]:
                self.obj[i].link_parameter(self.obj[k])
        if late:
            self.obj[0].initialize_parameter()
        self.index = {id(o): i for i, o in self.obj.items()}

    def below(self, i):
        """i and everything below it, in pre-order"""
        out = [i]
        for k in self.kids[i]:
            out += self.below(k)
        return out

    def above(self, i):
        """the parents of i from the top, each with what is below it, without what was come from"""
        p = self.parent[i]
        if p is None:
            return []
        out = self.above(p) + [p]
        for k in self.kids[p]:
            if k != i:
                out += self.below(k)
        return out

    def leaves(self, i):
        return [j for j in self.below(i) if isinstance(self.obj[j], Param)]

    def order(self, kind, i):
        return self.below(i) if kind == "down" else self.above(i)

    def name(self, i):
        return "n%d" % i


def go(w, kind, i, visit, *a, **kw):
    (w.obj[i].traverse if kind == "down" else w.obj[i].traverse_parents)(visit, *a, **kw)


def trace(w, kind, i):
    out = []
    go(w, kind, i, lambda o: out.append(w.index.get(id(o), o)))
    return out


def expect(got, want, what):
    if got != want:
        raise Violation("%s: got %s, expected %s" % (what, got, want), what.split(":")[0])


# --- what can be done from within a visit: every one with its result known ---
def a_down(w, j):
    expect(trace(w, "down", j), w.below(j), "traverse: from n%d" % j)


def a_up(w, j):
    expect(trace(w, "up", j), w.above(j), "traverse_parents: from n%d" % j)


def a_grep(w, j):
    o = w.obj[j]
    if isinstance(o, Param):
        return
    expect([w.index[id(p)] for p in o.grep_param_names(".*")], w.below(j)[1:], "grep: at n%d" % j)
    for k in w.below(j)[1:]:
        got = o["(.*[.])?n%d$" % k]
        if got is not w.obj[k]:
            raise Violation("regular expression for n%d at n%d selects %s" % (k, j, getattr(got, "name", got)), "grep")


def a_copy(w, j):
    for how in ("copy", "deepcopy", "pickle"):
        o = w.obj[j]
        if how == "copy":
            c = o.copy()
            if c.has_parent():
                raise Violation("the copy of n%d has the parent %s" % (j, c._parent_.name), "copy")
            want = w.below(j)
        else:
            c = copy.deepcopy(o) if how == "deepcopy" else pickle.loads(pickle.dumps(o))
            c = c._highest_parent_
            want = w.below(0)
        names = []
        c.traverse(lambda p: names.append(p.name))
        expect(names, ["n%d" % k for k in want], "copy: %s of n%d" % (how, j))
        ids = set()
        c.traverse(lambda p: ids.add(id(p)))
        if ids & set(w.index):
            raise Violation("the %s of n%d contains original parameters" % (how, j), "copy")


def a_updates(w, j):
    for on in (False, True):
        w.obj[j].update_model(on)
        expect([k for k in range(w.n) if w.obj[k].update_model() is not on], [], "updates: switched %s at n%d" % (on, j))
    w.obj[j].update_toggle()
    expect([k for k in range(w.n) if w.obj[k].update_model()], [], "updates: toggled at n%d" % j)
    w.obj[j].update_toggle()
    expect([k for k in range(w.n) if not w.obj[k].update_model()], [], "updates: toggled at n%d" % j)


def a_caching(w, j):
    for k in range(w.n):
        w.obj[k].cache.enable_caching()
    w.obj[j].disable_caching()
    expect([k for k in range(w.n) if not w.obj[k].cache.caching_enabled], sorted(w.below(j)), "caching: off at n%d" % j)
    for k in range(w.n):
        w.obj[k].cache.disable_caching()
    w.obj[j].enable_caching()
    expect([k for k in range(w.n) if w.obj[k].cache.caching_enabled], sorted(w.below(j)), "caching: on at n%d" % j)


def a_write(w, j):
    o = w.obj[j]
    n = sum(w.obj[k].size for k in w.leaves(j))
    if n == 0:
        return
    o.unconstrain()
    o[:] = 3.5
    o.constrain(TOK["pos"].make())
    o.fix()
    for k in range(w.n):
        p = w.obj[k]
        if not isinstance(p, Param):
            continue
        inside = k in w.below(j)
        if inside and (fl(p) != [3.5] * p.size or not p.is_fixed or sorted(token_of(t) for t in p.constraints.properties()) != ["fixed", "pos"]):
            raise Violation("n%d set, constrained and fixed: n%d has %s, %s" % (j, k, fl(p), list(p.constraints.items())), "write")
    o.unfix()
    o.unconstrain()
    for k in w.leaves(j):
        if list(w.obj[k].constraints.items()):
            raise Violation("n%d freed: n%d has %s" % (j, k, list(w.obj[k].constraints.items())), "write")


def a_raise(w, j):
    """a traversal which is left by an exception, at each of its places"""
    for kind in ("down", "up"):
        want = w.order(kind, j)
        for at in range(len(want)):
            got = []

            def visit(o):
                got.append(w.index.get(id(o)))
                if len(got) == at + 1:
                    raise Stop()
            try:
                go(w, kind, j, visit)
            except Stop:
                pass
            else:
                raise Violation("an exception in a visit is lost", "raise")
            expect(got, want[:at + 1], "raise: %s from n%d" % (kind, j))
    expect(trace(w, "down", j), w.below(j), "raise: then traverse from n%d" % j)
    expect(trace(w, "up", j), w.above(j), "raise: then traverse_parents from n%d" % j)


def a_other(w, j):
    """another hierarchy is built, changed and taken apart"""
    m, q = Node("other"), Param("q", [1.0, 2.0])
    m.link_parameter(q)
    expect([p.name for p in m.grep_param_names(".*")], ["q"], "other: grep")
    c = w.obj[j].copy()
    m.link_parameter(c, 0)
    names = []
    m.traverse(lambda p: names.append(p.name))
    expect(names, ["other"] + ["n%d" % k for k in w.below(j)] + ["q"], "other: a copy of n%d linked" % j)
    m.unlink_parameter(c)
    names = []
    m.traverse(lambda p: names.append(p.name))
    expect(names, ["other", "q"], "other: the copy unlinked")


ACTIONS = {"down": a_down, "up": a_up, "grep": a_grep, "copy": a_copy, "updates": a_updates, "caching": a_caching,
           "write": a_write, "raise": a_raise, "other": a_other}


def plain(case):
    """every traversal of one hierarchy, arguments passed on, twice"""
    shape, empties, how = case
    w = World(shape, empties, how)
    for i in range(w.n):
        for kind in ("down", "up"):
            for again in range(2):
                expect(trace(w, kind, i), w.order(kind, i), "%s from n%d" % ({"down": "traverse", "up": "traverse_parents"}[kind], i))
            got = []
            go(w, kind, i, lambda o, a, b=None, *r, **k: got.append((w.index.get(id(o)), a, b, r, tuple(k.items()))), 1, 2, 3, x=4)
            expect(got, [(k, 1, 2, (3,), (("x", 4),)) for k in w.order(kind, i)], "arguments: %s from n%d" % (kind, i))
        for k in ACTIONS:
            ACTIONS[k](w, i)
    return tuple(w.above(w.n - 1))


def nested(case):
    """from within each visit of a traversal the same is done at one node; at last everything is as ever"""
    shape, empties, how, kind, i, action, j = case
    w = World(shape, empties, how)
    got = []

    def visit(o):
        got.append(w.index.get(id(o)))
        ACTIONS[action](w, j)
    go(w, kind, i, visit)
    expect(got, w.order(kind, i), "outer: %s from n%d with %s at n%d in each visit" % (kind, i, action, j))
    for k in range(w.n):
        a_down(w, k)
        a_up(w, k)
    a_grep(w, 0)
    return (action, tuple(got))


def deep(case):
    """traversals three deep"""
    shape, k1, i1, k2, i2, k3, i3 = case
    w = World(shape, 0, "top down")
    got = []
    go(w, k1, i1, lambda a: go(w, k2, i2, lambda b: go(w, k3, i3, lambda c: got.append((w.index[id(a)], w.index[id(b)], w.index[id(c)])))))
    expect(got, list(itertools.product(w.order(k1, i1), w.order(k2, i2), w.order(k3, i3))), "deep: %s" % (case[1:],))
    return tuple(got)


def worlds(n, hows=("top down",), all_empties=False):
    for size in range(1, n + 1):
        for t in trees(size):
            leaves = str(t).count("()") if size > 1 else 1
            for e in (range(1 << leaves) if all_empties else (0,)):
                for how in hows:
                    yield t, e, how


def case_functions():
    return {"plain": plain, "nested": nested, "deep": deep}


def size_of(t):
    return 1 + sum(size_of(s) for s in t)


def run(report):
    big = 1 if env.THOROUGH else 0
    enumerate_cases("plain", plain, list(worlds(6 + big, ("top down", "bottom up", "late"), True)), report)
    enumerate_cases("nested", nested, [(t, e, how, kind, i, a, j) for t, e, how in worlds(5 + big, ("top down",), False)
                                       for kind in ("down", "up") for i in range(size_of(t)) for a in ACTIONS for j in range(size_of(t))], report)
    enumerate_cases("nested", nested, [(t, e, how, kind, i, a, j) for t, e, how in worlds(4 + big, ("bottom up", "late"), True)
                                       for kind in ("down", "up") for i in range(size_of(t)) for a in ACTIONS for j in range(size_of(t))], report)
    enumerate_cases("deep", deep, [(t, k1, i1, k2, i2, k3, i3) for t, _, _ in worlds(4 + big) for k1, k2, k3 in itertools.product(("down", "up"), repeat=3)
                                   for i1, i2, i3 in itertools.product(range(size_of(t)), repeat=3)], report)
