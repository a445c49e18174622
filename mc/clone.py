"""Copying and pickling as operations on a forest: the result joins the forest
under marked ids, with its own reference, and everything is checked on both sides."""
import copy as copymod
import io
import os
import pickle
import shutil
import tempfile

import numpy as np

from . import env
from . import tree
from .canon import heap_key
from .report import Violation
from .tree import (EVENTS, OPS, RNode, TreeSystem, a_coherent, a_cons, a_freenames, a_grads, a_isfixed, a_opt, a_structure, a_values, enabled, fl,
                   fmt, hname, idx_of, same, target_elems)

import paramz
from paramz import ObsAr
from paramz.core.observable_array import ObsAr as _O  # noqa: F401


def clone_ref(R, mark):
    if R.kind == "leaf":
        c = RNode(R.id + mark, "leaf", R.name, R.shape, R.val, R.grad)
        c.tok, c.fix = list(R.tok), list(R.fix)
    else:
        c = RNode(R.id + mark, R.kind, R.name)
        for k in R.children:
            kc = clone_ref(k, mark)
            kc.parent = c
            c.children.append(kc)
    c.upd = R.upd
    return c


def register(F, C, o, what):
    """C: reference of the clone, o: the real clone"""
    F.ref[C.id], F.real[C.id] = C, o
    for id in F.real:
        if id != C.id and F.real[id] is o:
            raise Violation("%s: %s is the same object as %s" % (what, C.id, id), "shared")
    if C.kind == "leaf":
        # gradients are evaluated anew; from here on they are the clone's own
        C.grad = fl(o.gradient)
        return
    kids = list(o.parameters)
    if len(kids) != len(C.children):
        raise Violation("%s: %s has %d parameters, the original has %d" % (what, C.id, len(kids), len(C.children)), "structure")
    for c, k in zip(C.children, kids):
        register(F, c, k, what)


def op_copy(F, h):
    o = F.real[h].copy()
    register(F, clone_ref(F.ref[h], "'"), o, "copy of %s" % h)


def op_dcopy(F, h):
    """the standard deep copy brings the whole tree along"""
    o = copymod.deepcopy(F.real[h])
    register_tree(F, h, o, "'")


def register_tree(F, h, o, mark):
    root = o
    n = 0
    while root._parent_ is not None and n < 50:
        root = root._parent_
        n += 1
    register(F, clone_ref(F.ref[h].root(), mark), root, "copied %s" % h)
    if F.real[h + mark] is not o:
        raise Violation("%s came back at another place of its tree" % h, "structure")


def load(o, how):
    if isinstance(how, int):
        return pickle.loads(pickle.dumps(o, how))
    if how == "pickler":
        f = io.BytesIO()
        o.pickle(f)
        f.seek(0)
        return paramz.load(f)
    if how == "stream":
        # between two other ones in a file
        f = io.BytesIO()
        for x in (paramz.Param("first", [1.0]), o, paramz.Param("last", [2.0, 3.0])):
            x.pickle(f)
        f.seek(0)
        first, got, last = paramz.load(f), paramz.load(f), paramz.load(f)
        if (first.name, first.values.tolist(), last.name, last.values.tolist()) != ("first", [1.0], "last", [2.0, 3.0]):
            raise Violation("three objects in a file came back as %r, %r, %r" % (first, got, last), "stream")
        return got
    if how == "file":
        d = tempfile.mkdtemp(prefix="verif-c16-")
        try:
            p = os.path.join(d, "m.pickle")
            o.pickle(p)
            return paramz.load(p)
        finally:
            shutil.rmtree(d)
    if how == "pair":
        a, b = pickle.loads(pickle.dumps((o, o), -1))
        if a is not b:
            raise Violation("an object pickled twice in one go came back as two", "shared")
        return a
    raise KeyError(how)


def op_pickle(F, h, how):
    """a pickled object brings its whole tree along"""
    before = set(id(x) for x in env.registered_flat())
    o = load(F.real[h], how)
    new = [x for x in env.registered_flat() if id(x) not in before]
    if new:
        raise Violation("loading created further transformations %s" % new, "transformations")
    register_tree(F, h, o, '"')


def op_rename(F, h, name):
    F.real[h].name = name
    F.ref[h].name = name


def op_iadd(F, h, v):
    o = F.real[h]
    o += v
    for l, i in F.ref[h].elems():
        l.val[i] += v


def op_setview(F, h, ix, v):
    sl = F.real[h][idx_of(ix, F.ref[h].shape)]
    sl[:] = v
    for l, i in target_elems(F, h, ix):
        l.val[i] = float(v)


def op_data(F, h, v):
    """data arrays which belong to a node"""
    F.real[h].data[0] = v
    F.data[h] = v


CLONE = {"copy": op_copy, "dcopy": op_dcopy, "pickle": op_pickle, "rename": op_rename, "iadd": op_iadd, "setview": op_setview, "data": op_data}
MYOPS = dict(OPS, **CLONE)


def ids_of(op):
    k = op[0]
    if k in ("link", "unlink", "attr"):
        return [op[1], op[2]]
    if k == "refused":
        return [op[2]]
    return [op[1]]


def can(F, op):
    if any(i not in F.ref for i in ids_of(op)):
        return False
    k = op[0]
    if k == "copy":
        return not any(n.id + "'" in F.ref for n in F.ref[op[1]].subtree())
    if k == "dcopy":
        return not any(n.id + "'" in F.ref for n in F.ref[op[1]].root().subtree())
    if k == "pickle":
        return not any(n.id + '"' in F.ref for n in F.ref[op[1]].root().subtree())
    if k == "rename":
        R = F.ref[op[1]]
        return R.name != op[2] and (R.parent is None or all(c.name != op[2] for c in R.parent.children))
    if k in ("iadd", "setview"):
        els = target_elems(F, op[1], op[2] if k == "setview" else None)
        return all(tree.interior(l.tok[i], l.val[i] + op[2] if k == "iadd" else op[3]) for l, i in els)
    if k == "link":
        # mixtures of trees with updates on and off have no stated meaning
        a, b = F.ref[op[1]].root(), F.ref[op[2]].root()
        if a.upd != b.upd:
            return False
        # names: only without collisions here (C17 looks at those)
        if F.ref[op[2]].parent is not F.ref[op[1]] and any(c.name == F.ref[op[2]].name for c in F.ref[op[1]].children):
            return False
    if k == "data":
        return op[1] in F.data
    return enabled(F, op)


# ------------------------------------------------------------------------- aspects
def a_upd(F):
    for i in sorted(F.ref):
        if bool(F.real[i].update_model()) != F.ref[i].upd:
            raise Violation("updates at %s are %r, expected %r" % (i, F.real[i].update_model(), F.ref[i].upd), "updstate")


def a_names(F):
    for i in sorted(F.ref):
        R, o = F.ref[i], F.real[i]
        if o.name != R.name:
            raise Violation("%s is called %r, expected %r" % (i, o.name, R.name), "name")
        if o.hierarchy_name() != hname(R):
            raise Violation("%s is called %r in its hierarchy, expected %r" % (i, o.hierarchy_name(), hname(R)), "name")
        for c in R.children:
            if getattr(o, c.name, None) is not F.real[c.id]:
                raise Violation("attribute %s of %s is not its parameter" % (c.name, i), "attr")


def a_extras(F):
    """other attributes: references into the tree stay inside it, data is the tree's own"""
    seen = {}
    for i in sorted(F.ref):
        o = F.real[i]
        mark = o.__dict__.get("remark")
        if mark != [i[0]]:
            raise Violation("the attribute `remark` of %s is %r" % (i, mark), "remark")
        if id(mark) in seen:
            raise Violation("%s and %s have one object as their attribute `remark`" % (seen[id(mark)], i), "remark")
        seen[id(mark)] = i
        if getattr(o, "keep", None) is not None:
            want = F.keep.get(i)
            if want is not None and o.keep is not F.real[want]:
                raise Violation("the attribute `keep` of %s does not refer to %s" % (i, want), "reference")
        if i in F.data:
            if not isinstance(o.data, ObsAr):
                raise Violation("the data of %s is of type %s" % (i, type(o.data)), "data")
            if fl(o.data) != [F.data[i], 8.0]:
                raise Violation("the data of %s is %s, expected %s" % (i, fl(o.data), [F.data[i], 8.0]), "data")
            if getattr(o.data, "unit", None) != "metres":
                raise Violation("the attribute `unit` of the data of %s is %r" % (i, getattr(o.data, "unit", None)), "data")
            if o.shared is not o.data:
                raise Violation("two attributes of %s for one object are different objects now" % i, "data")


GOOD = {None: 1.5, "pos": 1.5, "exp": 1.5, "sq": 1.5, "neg": -1.5, "nexp": -1.5, "b10": 1.5, "b1": 0.5}


def a_reacts(F):
    """destructive: assignments re-evaluate each ancestor exactly once, through leaves, slices and the optimizer vector"""
    back = {id(o): i for i, o in F.real.items()}
    step = 0.0
    for i in sorted(F.ref):
        R = F.ref[i]
        step += 1.0 / 64
        if R.kind == "leaf":
            vals = [GOOD[t] + step for t in R.tok]
            del EVENTS[:]
            F.real[i][:] = np.array(vals).reshape(R.shape)
            R.val = vals
            up = R.path()[1:]
            expect(F, i, up, True, back)
        elif R.parent is None and R.free():
            x = [0.25 + step + k / 8.0 for k in range(len(R.free()))]
            x = [v if l.tok[j] not in ("sq",) else abs(v) for v, (l, j) in zip(x, R.free())]
            del EVENTS[:]
            F.real[i].optimizer_array = np.array(x)
            tree.apply_optvec(R, x)
            up = []
            for l, j in R.free():
                up += [n for n in l.path()[1:] if n not in up]
            expect(F, i, up, False, back)
    a_values(F)
    a_opt(F)


def expect(F, i, up, exact, back):
    ev = [(back.get(id(o)), v) for o, v in EVENTS]
    del EVENTS[:]
    if not F.ref[i].upd:
        if ev:
            raise Violation("changing %s re-evaluated %s, updates are off" % (i, [e for e, _ in ev]), "offevent")
        return
    ids = [e for e, _ in ev]
    if exact and ids != [n.id for n in up]:
        raise Violation("changing %s re-evaluated %s, expected %s" % (i, ids, [n.id for n in up]), "events")
    last = dict(ev)
    for n in up:
        want = [l.val[j] for l, j in n.elems()]
        if n.id not in last or not same(list(last[n.id]), want):
            raise Violation("after changing %s, %s was last evaluated at %s, expected %s" % (i, n.id, last.get(n.id), fmt(want)), "events")


class Told(object):
    """callbacks of one object, before and after the evaluation of the node itself"""
    def __init__(self, node):
        self.node = node

    def high(self, me, which=None):
        EVENTS.append((self.node, "high"))

    def middle(self, me, which=None):
        EVENTS.append((self.node, "middle"))

    def low(self, me, which=None):
        EVENTS.append((self.node, "low"))

    def leaf(self, me, which=None):
        EVENTS.append((self.node, "leaf"))


def a_told(F):
    """destructive: callbacks at a node come by priority, those above -100 before its own evaluation, and behind those of the leaf"""
    for i in sorted(F.ref):
        R = F.ref[i]
        below = [l for l, _ in R.elems()]
        if R.kind == "leaf" or not below or not R.upd:
            continue
        o, leaf = F.real[i], below[0]
        t, u = Told(o), Told(o)
        o.add_observer(t, t.low, -150)
        o.add_observer(t, t.high, 5)
        o.add_observer(t, t.middle, -50)
        F.real[leaf.id].add_observer(u, u.leaf, -200)
        del EVENTS[:]
        F.real[leaf.id][:] = np.array(leaf.val).reshape(leaf.shape)
        got = [v if isinstance(v, str) else "evaluated" for n, v in EVENTS if n is o]
        o.remove_observer(t)
        F.real[leaf.id].remove_observer(u)
        del EVENTS[:]
        if got != ["leaf", "high", "middle", "evaluated", "low"]:
            raise Violation("a change of %s came to %s in the order %s" % (leaf.id, i, got), "told")


ALL = [a_structure, a_names, a_values, a_grads, a_cons, a_isfixed, a_opt, a_freenames, a_upd, a_extras]


class CloneSystem(TreeSystem):
    """plan: the operations offered at each level"""
    def __init__(self, name, cfg, plan, aspects=ALL, destroy=(a_coherent, a_told, a_reacts)):
        super(CloneSystem, self).__init__(name, cfg, None, aspects)
        self.plan = plan
        self.destroy = destroy

    def build(self):
        F = super(CloneSystem, self).build()
        F.depth = 0
        F.data, F.keep = {}, {}
        for id, o in F.real.items():
            o.remark = [id]
        for id, tgt in self.cfg.get("keep", {}).items():
            F.real[id].keep = F.real[tgt]
            F.keep[id] = tgt
        for id in self.cfg.get("data", ()):
            F.real[id].data = ObsAr(np.array([7.0, 8.0]))
            F.real[id].data.unit = "metres"
            F.real[id].shared = F.real[id].data
            F.data[id] = 7.0
        return F

    def ops(self, F):
        return [op for op in self.plan[F.depth] if can(F, op)]

    def apply(self, F, op):
        F.depth += 1
        was = set(F.ref)
        MYOPS[op[0]](F, *op[1:])
        del EVENTS[:]
        for i in set(F.ref) - was:
            old = i[:-1]
            if old in F.data:
                F.data[i] = F.data[old]
            if old in F.keep and F.keep[old] + i[-1] in F.ref:
                F.keep[i] = F.keep[old] + i[-1]
        # `keep` refers inside the tree only while its target is there
        for i in list(F.keep):
            if F.keep[i] not in F.ref or F.ref[F.keep[i]].root() is not F.ref[i].root():
                del F.keep[i]

    def key(self, F):
        return heap_key([[F.real[k] for k in sorted(F.real)], sorted(F.real), sorted(F.keep.items()), F.depth] + env.registered())

    def check(self, F):
        for a in self.aspects:
            a(F)
        for a in self.destroy:
            a(F)
