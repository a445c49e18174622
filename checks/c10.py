"""C10: every change re-evaluates exactly the affected part, children before parents."""
import numpy as np

from mc import env
from mc import tree
from mc.explore import explore
from mc.report import Violation
from mc.tree import EVENTS, OPS, TreeSystem, a_values, enabled, fmt_op, rex_leaves, same, target_elems, idx_of

LEVEL = "model_checking"

CFG = dict(
    leaves={"a": ((2,), [1.0, 2.0], None), "b": ((1,), [3.0], "pos"), "c": ((2, 2), [0.5, 1.5, 2.5, 3.5], None),
            "e": ((2,), [5.0, 6.0], None)},
    nodes={"r": "model", "s": "node", "t": "node", "u": "node"},
    links=[("r", "s"), ("s", "t"), ("t", "a"), ("s", "b"), ("r", "c"), ("r", "u"), ("u", "e")])


def op_iadd(F, h, v):
    """augmented assignment on a leaf"""
    o = F.real[h]
    o += v
    for l, i in F.ref[h].elems():
        l.val[i] += v


def op_setview(F, h, ix, v):
    """assignment through a slice object kept by the user"""
    sl = F.real[h][idx_of(ix, F.ref[h].shape)]
    sl[:] = v
    for l, i in target_elems(F, h, ix):
        l.val[i] = float(v)


def nodepos(ix, n):
    return {"0": 0, "-1": -1, "1:": slice(1, None), "arr": np.array([0, n - 1]), "mask": np.arange(n) % 2 == 0, "::-1": slice(None, None, -1), "tuple": (slice(0, 1),)}[ix]


def op_nodeidx(F, h, ix, v):
    """assignment of some elements of a node by their positions"""
    el = F.ref[h].elems()
    pos = nodepos(ix, len(el))
    F.real[h][pos] = v
    for k in np.atleast_1d(np.arange(len(el))[pos]):
        l, i = el[k]
        l.val[i] = float(v)


def op_toggle(F, h, name):
    getattr(F.real[h], name)()
    on = not F.ref[h].upd
    for n in F.ref[h].root().subtree():
        n.upd = on


def op_none(F, h, which):
    """no value to assign: nothing to do"""
    F.real[h][which if isinstance(which, str) else nodepos(which[0], len(F.ref[h].elems()))] = None


def op_trigger(F, h):
    F.real[h].trigger_update()


MYOPS = dict(OPS, iadd=op_iadd, setview=op_setview, nodeidx=op_nodeidx, toggle=op_toggle, trigger=op_trigger, none=op_none)


def affected(F, op):
    """leaves whose values change or might, the nodes which are evaluated exactly once, whether updates are on, nodes which have to be evaluated"""
    k = op[0]
    exact = []
    leaves = []
    scope = None
    if k in ("set", "setview", "iadd", "nodeidx"):
        R = F.ref[op[1]]
        leaves = R.leaves()
        if R.kind == "leaf":
            exact = R.path()[1:]
    elif k == "attr":
        R = F.ref[op[2]]
        leaves = R.leaves()
        if R.kind == "leaf":
            exact = R.path()[1:]
    elif k == "rex":
        leaves = rex_leaves(F, op[1], op[2])
    elif k in ("oset", "rand", "orst", "optimize"):
        leaves = [l for l in F.ref[op[1]].leaves() if not all(l.fix)]
    elif k == "con":
        leaves = F.ref[op[1]].leaves()
    elif k == "fix" and op[2] is not None:
        leaves = F.ref[op[1]].leaves()
    on = F.ref[op[1]].upd
    if k in ("upd", "optimize"):
        on = op[2] is not False
    if k == "toggle":
        on = not on
    if k == "trigger":
        scope = [n for n in F.ref[op[1]].subtree() + F.ref[op[1]].path()[1:] if n.kind != "leaf"]
    if k in ("upd", "toggle") and on:
        scope = [n for n in F.ref[op[1]].root().subtree() if n.kind != "leaf"]
    return leaves, exact, on, scope


class Events(TreeSystem):
    def ops(self, F):
        out = []
        for op in self.alphabet:
            if op[0] in ("iadd", "setview"):
                els = target_elems(F, op[1], op[2] if op[0] == "setview" else None)
                if all(tree.interior(l.tok[i], l.val[i] + op[2] if op[0] == "iadd" else op[3]) for l, i in els):
                    out.append(op)
            elif op[0] == "nodeidx":
                el = F.ref[op[1]].elems()
                if el and all(tree.interior(l.tok[i], op[3]) for l, i in el):
                    out.append(op)
            elif op[0] == "none":
                if rex_leaves(F, op[1], op[2]) if isinstance(op[2], str) else F.ref[op[1]].elems():
                    out.append(op)
            elif op[0] == "link":
                # mixtures of trees with updates on and off have no stated meaning
                if enabled(F, op) and F.ref[op[1]].upd == F.ref[op[2]].root().upd:
                    out.append(op)
            elif enabled(F, op):
                out.append(op)
        return out

    def apply(self, F, op):
        k = op[0]
        leaves, exact, on, scope = affected(F, op)
        roots = set(n.root().id for n in F.ref.values())
        del EVENTS[:]
        MYOPS[k](F, *op[1:])
        ev = []
        back = {id(o): i for i, o in F.real.items()}
        for o, vals in EVENTS:
            ev.append((back.get(id(o)), vals))
        del EVENTS[:]
        ids = [i for i, _ in ev]
        if not on:
            if ev:
                raise Violation("updates are off, %s were re-evaluated" % ids, "offevent")
            return
        if k in ("grad", "read", "raw", "none"):
            if ev:
                raise Violation("%s re-evaluated %s" % (fmt_op(op), ids), "extra")
            return
        req = []
        for l in leaves:
            for n in l.path()[1:]:
                if n not in req:
                    req.append(n)
        if scope is not None:
            req = scope
        last = {}
        for pos, (i, vals) in enumerate(ev):
            last[i] = pos
        for n in req:
            if n.id not in last:
                raise Violation("%s was not re-evaluated (re-evaluated: %s)" % (n.id, ids), "missing")
            want = [x.val[j] for x, j in n.elems()]
            if not same(list(ev[last[n.id]][1]), want):
                raise Violation("%s was last evaluated at %s, its parameters are %s" % (n.id, ev[last[n.id]][1], want), "stale")
            if n.parent is not None and n.parent in req and last[n.parent.id] < last[n.id]:
                raise Violation("%s was re-evaluated before its child %s: %s" % (n.parent.id, n.id, ids), "order")
        if scope is not None and sorted(set(ids)) != sorted(n.id for n in scope):
            raise Violation("%s re-evaluated %s, which is not all of, and only, %s" % (fmt_op(op), ids, [n.id for n in scope]), "scope")
        if exact:
            if ids != [n.id for n in exact]:
                raise Violation("re-evaluated %s, expected exactly %s" % (ids, [n.id for n in exact]), "exact")

    def check(self, F):
        a_values(F)
        # the update switch reads the same at every handle of a tree
        for i in sorted(F.ref):
            if bool(F.real[i].update_model()) != F.ref[i].upd:
                raise Violation("updates at %s are %r, expected %r" % (i, F.real[i].update_model(), F.ref[i].upd), "updstate")


def systems():
    wide = []
    for h, ix in [("a", None), ("a", ":1"), ("a", "[1]"), ("b", None), ("c", None), ("c", "0,:"), ("c", "[0,1],[1,0]"), ("c", "m0"), ("c", "1,1"),
                  ("s", None), ("t", None), ("r", None), ("u", None), ("e", None)]:
        wide += [("set", h, ix, 2.25), ("fix", h, None, ix), ("fix", h, 1.5, ix), ("unfix", h, ix), ("unc", h, None, ix)]
        if ix != "1,1":
            wide += [("con", h, "pos", ix), ("con", h, "b10", ix)]
            if ix in (None, ":1", "0,:"):
                wide += [("con", h, "neg", ix), ("con", h, "exp", ix)]
        else:
            wide = [o for o in wide if not (o[0] in ("fix", "unfix", "unc") and o[-1] == "1,1")]
        if ix is None:
            wide += [("set", h, None, ("r", 1.0)), ("oset", h, ("r", 0.5)), ("orst", h), ("rand", h, ("r", 1.5)), ("upd", h, False), ("upd", h, True),
                     ("grad", h, 3.0)]
    wide += [("nodeidx", h, ix, 3.5) for h in "srtu" for ix in ("0", "-1", "1:", "arr", "mask", "::-1", "tuple")]
    wide += [("none", "r", "a"), ("none", "r", ".*c"), ("none", "s", "b"), ("none", "t", ("0",))]
    wide += [("trigger", h) for h in "rstuabce"] + [("toggle", h, "update_toggle") for h in "rsuae"] + [("toggle", h, "toggle_update") for h in "rt"]
    wide += [("iadd", h, 0.5) for h in "abce"]
    wide += [("setview", "a", ":1", 4.5), ("setview", "c", "0,:", 4.5), ("setview", "c", ":,1", 4.5)]
    wide += [("attr", "r", "c", ("r", 1.0)), ("attr", "s", "b", 7.0), ("attr", "t", "a", 7.0), ("attr", "r", "s", 7.0), ("attr", "s", "t", ("r", 2.0))]
    wide += [("rex", "r", "", 2.5), ("rex", "r", ".*[abc]$", ("r", 2.0)), ("rex", "r", ".*a$", 2.75), ("rex", "s", "", 3.0), ("rex", "r", "u", 3.0),
             ("rex", "r", ".*[be]$", 1.25)]
    wide += [("optimize", "r", ("r", 0.25)), ("read", "r", "all"), ("read", "s", "all"), ("raw", "s", 1.0)]
    wide += [("unlink", "r", "s"), ("unlink", "s", "t"), ("unlink", "r", "u"), ("link", "r", "t", 0), ("link", "s", "u", None), ("link", "r", "s", 0),
             ("link", "t", "u", 0), ("unlink", "t", "a"), ("link", "u", "a", 0), ("link", "u", "t", None)]
    core = [("set", "a", ":1", 2.25), ("set", "r", None, 0.75), ("set", "s", None, 1.75), ("upd", "r", False), ("upd", "t", True), ("upd", "a", True),
            ("upd", "u", False), ("upd", "c", True), ("fix", "t", None, None), ("fix", "e", None, None), ("fix", "r", None, None), ("unfix", "r", None),
            ("oset", "r", ("r", 0.5)), ("rex", "r", ".*[be]$", 1.25), ("con", "r", "pos", None), ("con", "u", "b10", None),
            ("unlink", "s", "t"), ("link", "u", "t", 0), ("link", "r", "t", 0), ("unlink", "u", "t"), ("set", "e", None, 1.0), ("nodeidx", "s", "0", 1.375), ("toggle", "t", "update_toggle"), ("trigger", "t"), ("fix", "s", 1.5, None)]
    S = [Events("wide", CFG, wide, []), Events("core", CFG, core, [])]
    return {s.name: s for s in S}


def run(report):
    S = systems()
    explore(S["wide"], 2, report)
    explore(S["core"], 5 if env.THOROUGH else 3, report)
    if env.THOROUGH:
        explore(S["wide"], 3, report)
