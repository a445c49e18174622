"""Trees whose parameters carry a second kind of per-element property (as priors in GPy), added through
the public add_index_operation, and its reference: a set of tags per element."""
import copy as copymod
import pickle

import numpy as np

from . import clone
from .report import Violation
from .tree import Node, OPS, Root, TreeSystem, enabled, positions

from paramz import Param
from paramz.core.index_operations import ParameterIndexOperations


class TLeaf(Param):
    def __init__(self, name, input_array, default_constraint=None, *a, **kw):
        super(TLeaf, self).__init__(name, input_array, default_constraint, *a, **kw)
        self.add_index_operation("tags", ParameterIndexOperations())


class TNode(Node):
    def __init__(self, *a, **kw):
        super(TNode, self).__init__(*a, **kw)
        self.add_index_operation("tags", ParameterIndexOperations())


class TRoot(Root):
    def __init__(self, *a, **kw):
        super(TRoot, self).__init__(*a, **kw)
        self.add_index_operation("tags", ParameterIndexOperations())


def late(cls):
    return lambda name: cls(name, initialize=False)


KINDS = {"node": TNode, "model": TRoot}
LATE = {"node": late(TNode), "model": late(TRoot)}


class Mark(object):
    """a property known by identity, which survives copies as priors do"""
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (mark, (self.s,))


MARKS = {s: Mark(s) for s in ("P", "Q")}


def mark(s):
    return MARKS[s]


def tagsof(l):
    if not hasattr(l, "tags"):
        l.tags = [set() for _ in l.val]
    return l.tags


def place(F, h, ix):
    """indices in the handle, and the elements there"""
    R = F.ref[h]
    if R.kind == "leaf":
        ps = positions(ix, R.shape)
        return ps, [(R, i) for i in ps]
    el = R.elems()
    ps = list(range(len(el)))[{None: slice(None), "head": slice(0, 1), "tail": slice(-1, None)}[ix]]
    return ps, [el[k] for k in ps]


def op_tag(F, h, t, ix=None):
    ps, els = place(F, h, ix)
    F.real[h].tags.add(MARKS[t], ps)
    for l, i in els:
        tagsof(l)[i].add(t)


def op_untag(F, h, t, ix=None):
    ps, els = place(F, h, ix)
    got = F.real[h].tags.remove(MARKS[t], ps)
    want = sorted({k for k, (l, i) in zip(ps, els) if t in tagsof(l)[i]})
    if sorted(int(k) for k in got) != want:
        raise Violation("removing %s from %s[%s] removed %s, expected %s" % (t, h, ix, list(got), want), "removed")
    for l, i in els:
        tagsof(l)[i].discard(t)


def op_cleartags(F, h):
    F.real[h].tags.clear()
    for l, i in F.ref[h].elems():
        tagsof(l)[i].clear()


def op_again(F, h):
    """the name is taken"""
    try:
        F.real[h].add_index_operation("tags", ParameterIndexOperations())
    except AttributeError:
        return
    raise Violation("a second index operation `tags` of %s was not refused" % h, "notrefused")


TAGOPS = {"tag": op_tag, "untag": op_untag, "cleartags": op_cleartags, "again": op_again}


def cells(text, name, h):
    """the column of this name in a printed table"""
    lines = text.split("\n")
    at = [k for k, l in enumerate(lines) if name in [c.strip() for c in l.split("|")]]
    if not at:
        raise Violation("no column %s printed for %s: %r" % (name, h, text), "table")
    col = [c.strip() for c in lines[at[0]].split("|")].index(name)
    return [l.split("|")[col].split() for l in lines[at[0] + 1:] if l.strip()]


def a_tags(F, ids=None):
    for id in sorted(ids or F.ref):
        R, o = F.ref[id], F.real[id]
        els = R.elems()
        want = [frozenset(tagsof(l)[i]) for l, i in els]
        n = len(els)
        got = [set() for _ in range(n)]
        for t, ind in o.tags.items():
            for k in ind:
                if not 0 <= int(k) < n or t.s in got[int(k)]:
                    raise Violation("tag %s of %s has the indices %s (size %d)" % (t, id, list(ind), n), "tags")
                got[int(k)].add(t.s)
        if [frozenset(g) for g in got] != want:
            raise Violation("tags of %s are %s, expected %s" % (id, [sorted(g) for g in got], [sorted(w) for w in want]), "tags")
        for s in MARKS:
            ind = sorted(int(k) for k in o.tags[MARKS[s]])
            if ind != [k for k in range(n) if s in want[k]]:
                raise Violation("tag %s of %s is at %s, expected %s" % (s, id, ind, [k for k in range(n) if s in want[k]]), "tags")
        if sorted(t.s for t in o.tags.properties()) != sorted(set().union(*want) if want else ()):
            raise Violation("properties of the tags of %s are %s" % (id, [t.s for t in o.tags.properties()]), "tags")
        if n:
            pf = o.tags.properties_for(np.arange(n))
            if [frozenset(t.s for t in p) for p in pf] != want:
                raise Violation("properties_for of %s are %s, expected %s" % (id, [[t.s for t in p] for p in pf], [sorted(w) for w in want]), "tags")
            if R.kind == "leaf":
                rows = cells(o.__str__(VT100=False), "tags", id)
                exp = [sorted(w) for w in want]
            else:
                rows = cells(o.__str__(VT100=False), "tags", id)
                exp = []
                for l in R.leaves():
                    ts = tagsof(l)
                    all_ = set().union(*ts) if ts else set()
                    exp.append(sorted(s if all(s in t for t in ts) else "{%s}" % s for s in all_))
            if [sorted(r) for r in rows] != exp:
                raise Violation("the table of %s shows the tags %s, expected %s" % (id, rows, exp), "table")


def carry(F, marks):
    """the references of copies get the tags of their originals"""
    for id in list(F.ref):
        if id[-1] in marks and F.ref[id].kind == "leaf" and not hasattr(F.ref[id], "tags"):
            F.ref[id].tags = [set(t) for t in tagsof(F.ref[id[:-1]])]


class Tagged(TreeSystem):
    def __init__(self, name, cfg, plan, aspects):
        TreeSystem.__init__(self, name, cfg, None, aspects)
        self.plan = plan

    def build(self):
        setup, last = self.cfg.get("setup", ()), self.cfg.get("init", ())
        F = TreeSystem.build(self) if not any(op[0] in TAGOPS for op in setup) else None
        if F is None:
            old = dict(OPS)
            OPS.update(TAGOPS)
            try:
                F = TreeSystem.build(self)
            finally:
                for k in TAGOPS:
                    del OPS[k]
                OPS.update(old)
        for h in last:
            F.real[h].initialize_parameter()
        F.depth = 0
        return F

    def ops(self, F):
        out = []
        for op in self.plan[F.depth]:
            if op[0] in TAGOPS:
                if op[1] in F.ref and (op[0] in ("again", "cleartags") or F.ref[op[1]].size):
                    out.append(op)
            elif op[0] in clone.CLONE or any(i not in F.ref for i in clone.ids_of(op)):
                if clone.can(F, op):
                    out.append(op)
            elif enabled(F, op):
                out.append(op)
        return out

    def apply(self, F, op):
        if op[0] in TAGOPS:
            TAGOPS[op[0]](F, *op[1:])
        elif op[0] in clone.CLONE:
            clone.CLONE[op[0]](F, *op[1:])
            carry(F, "'\"")
        else:
            TreeSystem.apply(self, F, op)
        F.depth += 1

    def key(self, F):
        return (F.depth, tuple(sorted(F.ref)), TreeSystem.key(self, F))
