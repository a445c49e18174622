"""C23: models which are initialized late equal those built eagerly."""
import numpy as np

from mc import env
from mc.canon import heap_key
from mc.explore import enumerate_cases, explore
from mc.report import Violation
from mc.tree import (EVENTS, KINDS, OPS, Forest, RNode, TreeSystem, a_coherent, a_cons, a_freenames, a_grads, a_isfixed, a_opt, a_structure,
                     a_usable, a_values, build_forest, enabled, fl, fmt_op, same)

LEVEL = "model_checking"
FINAL = [a_structure, a_values, a_grads, a_cons, a_isfixed, a_opt, a_freenames, a_usable, a_coherent]


def a_attributes(F):
    """every parameter is an attribute of its parent"""
    for n in F.ref.values():
        for c in n.children:
            if getattr(F.real[n.id], c.name, None) is not F.real[c.id]:
                raise Violation("%s.%s is %r" % (n.id, c.name, getattr(F.real[n.id], c.name, None)), "attribute")


def a_assignable(F):
    """assignments through every node are accepted, and take effect"""
    for h in sorted(F.ref):
        if F.ref[h].kind != "leaf" and enabled(F, ("set", h, None, 0.5)):
            OPS["set"](F, h, None, 0.5)
            a_values(F)


FINAL[-1:-1] = [a_attributes, a_assignable]
LEAVES = {"a": ((2,), [1.0, -2.0], None), "b": ((1,), [3.0], None), "c": ((2, 2), [0.5, 1.5, 2.5, 3.5], "pos"), "d": ((1,), [-6.0], None)}


def leaf_values(F):
    for id in sorted(F.ref):
        R = F.ref[id]
        if R.kind == "leaf" and not same(fl(F.real[id].values), R.val):
            raise Violation("values of the leaf %s are %s, expected %s" % (id, fl(F.real[id].values), R.val), "leaf")


def refusable(F, op):
    """perform op; an AttributeError of an operation at a node means refused, and nothing may be changed"""
    at_node = op[0] in ("set", "fix", "con", "rex") and F.ref[op[1]].kind != "leaf"
    try:
        OPS[op[0]](F, *op[1:])
        return True
    except AttributeError:
        if not at_node or all(F.real[n.id].__dict__.get("_model_initialized_", False) for n in F.ref[op[1]].root().subtree() if n.kind != "leaf"):
            raise
    leaf_values(F)
    return False


def op_init(F, h):
    F.real[h].initialize_parameter()


OPS["init"] = op_init


def a_initialized(F):
    """initialize each tree; nothing else is needed to make it an ordinary one, with evaluated state"""
    roots = [R for R in F.roots() if R.kind != "leaf"]
    for R in roots:
        o = F.real[R.id]
        on = all(F.real[n.id].update_model() for n in R.subtree() if n.kind != "leaf")
        del EVENTS[:]
        o.initialize_parameter()
        mine = [v for w, v in EVENTS if w is o]
        now = tuple(v for l in R.leaves() for v in l.val)
        if not on:
            if not all(w.update_model() for w, _ in EVENTS):
                raise Violation("initializing %s evaluated a part, whose updates are off" % R.id, "offevent")
            del EVENTS[:]
            o.update_model(True)
            mine = [v for w, v in EVENTS if w is o]
        if not mine:
            raise Violation("%s was not evaluated when it was initialized" % R.id, "noevent")
        if not same(mine[-1], now):
            raise Violation("%s was evaluated at %s, expected %s" % (R.id, mine[-1], now), "event")
        for n in R.subtree():
            if n.kind != "leaf" and not any(w is F.real[n.id] for w, _ in EVENTS):
                raise Violation("%s was not evaluated when %s was initialized" % (n.id, R.id), "noevent")
    for a in FINAL:
        a(F)


class Late(TreeSystem):
    def build(self):
        env.fresh()
        F = build_forest(dict(self.cfg, nodes={}, links=(), setup=()))
        for id, (kind, late) in sorted(self.cfg["nodes"].items()):
            F.real[id] = KINDS[kind](id, initialize=not late)
            F.ref[id] = RNode(id, kind, id)
        for op in self.cfg.get("setup", ()):
            OPS[op[0]](F, *op[1:])
        del EVENTS[:]
        return F

    def apply(self, F, op):
        refusable(F, op)
        leaf_values(F)
        a_structure(F)
        a_cons(F)
        del EVENTS[:]

    def check(self, F):
        a_initialized(F)


def alphabet(full=True):
    out = [("link", "r", "s", None), ("link", "r", "c", None), ("link", "s", "a", None), ("link", "s", "b", None), ("link", "s", "t", None), ("link", "t", "d", None)]
    out += [("link", "r", "c", 0), ("link", "s", "a", 0), ("link", "s", "t", 0), ("link", "t", "a", 0), ("link", "r", "t", 0)]
    out += [("unlink", "r", "s"), ("unlink", "s", "a"), ("unlink", "r", "c"), ("unlink", "s", "t")]
    for h, ix in [("a", None), ("a", "1:"), ("c", "0,:"), ("d", None), ("s", None), ("t", None), ("r", None)]:
        out += [("con", h, "pos", ix), ("fix", h, None, ix)]
        if full:
            out += [("con", h, "b10", ix), ("unc", h, None, ix), ("unfix", h, ix), ("set", h, ix, ("r", 2.0)), ("fix", h, 1.25, ix)]
        elif h in "acsr":
            out += [("set", h, ix, ("r", 2.0))]
    if full:
        out += [("con", "r", "neg", None), ("con", "a", "neg", ":1"), ("set", "c", "1,1", 4.0), ("fix", "c", None, ":,1"), ("rex", "r", ".*[ab]$", 1.5), ("rex", "r", "", 1.5), ("rex", "s", "", 1.5), ("grad", "a", 7.0)]
    out += [("upd", "r", False), ("upd", "r", True), ("upd", "s", False), ("init", "r"), ("init", "s"), ("init", "a")]
    return out


BUILT = [("link", "r", "s", None), ("link", "s", "a", None), ("link", "s", "b", None), ("link", "r", "c", None)]


# ------------------------------------------------------------- programs inside of __init__
def in_init(case):
    """construct objects whose __init__ runs the program; s either comes ready, or is built inside in the same way"""
    how, prog = case
    F = build_forest(dict(leaves=LEAVES, nodes={}, links=()))
    done = []

    def body(h, me):
        F.real[h] = me
        F.ref[h] = RNode(h, "model" if h == "r" else "node", h)
        if h == "r":
            F.real["s"], F.ref["s"] = None, RNode("s", "node", "s")
            F.real["t"], F.ref["t"] = KINDS["node"]("t"), RNode("t", "node", "t")
            if how == "nested":
                Inner("s")
            else:
                F.real["s"] = KINDS["node"]("s", initialize=how != "late")
        for op in prog:
            if (op[1] == "s" and how == "nested") != (h == "s"):
                continue
            if not enabled(F, op):
                continue
            if refusable(F, op):
                done.append(op)
            leaf_values(F)
            a_structure(F, [k for k in F.ref if F.real[k] is not None])
            a_cons(F, [k for k in F.ref if F.real[k] is not None])
        del EVENTS[:]

    class Outer(KINDS["model"]):
        def __init__(self, name):
            super(Outer, self).__init__(name)
            body("r", self)

    class Inner(KINDS["node"]):
        def __init__(self, name):
            super(Inner, self).__init__(name)
            body("s", self)

    Outer("r")
    R = F.ref["r"]
    mine = [v for w, v in EVENTS if w is F.real["r"]]
    if not mine or not same(mine[-1], [v for l in R.leaves() for v in l.val]):
        raise Violation("after its __init__ the model was evaluated at %s" % (mine[-1:],), "event")
    for D in F.roots():
        if D is not R and D.kind != "leaf":
            F.real[D.id].initialize_parameter()      # unlinked before the model was initialized
    for a in FINAL:
        a(F)
    return (how, tuple(done)) if done else None


def programs():
    """the order of the operations within r and s is that of the program"""
    pre = [[], [("link", "s", "a", None), ("link", "r", "s", None), ("link", "r", "c", None)], [("link", "r", "s", None), ("link", "r", "c", None), ("link", "s", "a", None)]]
    ops = [("link", "r", "s", None), ("link", "r", "c", 0), ("link", "s", "b", None), ("link", "s", "t", 0), ("link", "t", "d", None), ("link", "s", "a", None), ("unlink", "r", "c"), ("unlink", "s", "a"),
           ("unlink", "r", "s"), ("con", "a", "pos", None), ("con", "r", "pos", None), ("con", "s", "b10", None), ("fix", "c", None, "0,:"), ("fix", "s", None, None), ("fix", "r", 1.25, None), ("unfix", "r", None),
           ("unc", "c", None, None), ("set", "a", None, 2.5), ("set", "r", None, ("r", 2.0)), ("set", "s", None, 4.0), ("rex", "r", "", 1.5), ("upd", "r", True), ("grad", "a", 7.0)]
    third = [("con", "s", "b10", None), ("fix", "c", None, "0,:"), ("set", "s", None, 4.0), ("con", "r", "pos", None)]
    for how in ("eager", "late", "nested"):
        for p in pre:
            for a in ops:
                yield (how, tuple(p + [a]))
                for b in ops:
                    yield (how, tuple(p + [a, b]))
                    if p or env.THOROUGH:
                        for c in ops:
                            if env.THOROUGH or (how != "late" and c in third):
                                yield (how, tuple(p + [a, b, c]))


# --------------------------------------------------------------------- loading a saved model
LATES = ["", "r", "s", "rs", "t", "rst"]
CONS = [(), (("con", "a", "pos", None),), (("con", "s", "b10", None), ("fix", "c", None, "0,:")), (("fix", "r", None, None),), (("con", "r", "exp", None), ("fix", "a", None, "1:"), ("con", "c", "neg", ":,1"))]
VALUES = [("r", 1.5), ("r", 0.25), 2.0]


def world(late, cons, when):
    sys_ = Late("w", dict(leaves={k: (s, [abs(x) for x in v], t) for k, (s, v, t) in LEAVES.items()}, nodes={h: ("model" if h == "r" else "node", h in late) for h in "rst"}), (), ())
    F = sys_.build()
    prog = BUILT + [("link", "s", "t", 0), ("link", "t", "d", None)]
    cons = [c for c in cons]
    for op in (cons + prog if when == "first" else prog + cons):
        if when == "first" and op in cons and F.ref[op[1]].kind != "leaf":
            continue
        OPS[op[0]](F, *op[1:])
    if when == "first":
        for op in cons:
            if F.ref[op[1]].kind != "leaf":
                OPS[op[0]](F, *op[1:])
    return F


def load(case):
    """the documented ways of loading: late or with updates off, values assigned, then switched on: as the eager one assigned the same"""
    late, cons, when, how, values = case
    F = world(late, cons, when)
    r = F.real["r"]
    n = r.size
    from mc.tree import can_assign, vals_for
    new = vals_for(values, n)
    if not can_assign(F.ref["r"].elems(), new):
        return None
    if how.startswith("refused") and late and "r" in late:
        for what, f in [("assignment", lambda: r.__setitem__(slice(None), 7.0)), ("selected", lambda: F.real["s"].__setitem__(slice(None), 7.0) if "s" in late else r.__setitem__(slice(None), 7.))]:
            try:
                f()
            except AttributeError:
                continue
            raise Violation("%s was not refused before initialization" % what, "notrefused")
        if r.checkgrad() is not False:
            raise Violation("checkgrad before initialization", "checkgrad")
        leaf_values(F)
    off = not how.endswith("on")
    del EVENTS[:]
    if off:
        r.update_model(False)
    (F.real["s"] if how.startswith("child") else r).initialize_parameter()
    if off:
        (F.real["a"] if how.startswith("child") else r).update_model(False)
    elems = F.ref["r"].elems()
    arr = np.array(new)
    if how.endswith("parts"):
        for l in F.ref["r"].leaves():
            F.real[l.id][:] = np.array([v for e, v in zip(elems, new) if e[0] is l]).reshape(l.shape)
    elif how.endswith("array"):
        r.param_array[:] = arr
    else:
        r[:] = arr
    for (l, i), v in zip(elems, new):
        l.val[i] = v
    if off and EVENTS:
        raise Violation("the model was evaluated while the updates are off", "offevent")
    if off:
        (F.real["a"] if how.startswith("child") else r).update_model(True)
    for n in F.ref["r"].subtree():
        mine = [v for w, v in EVENTS if w is F.real[n.id]]
        now = [v for l in n.leaves() for v in l.val]
        if n.kind != "leaf" and (not mine or not same(mine[-1], now)):
            raise Violation("%s was evaluated at %s, assigned are %s" % (n.id, mine[-1:], now), "event")
    for a in FINAL:
        a(F)
    return case[:4]


def loads():
    for late in LATES:
        for cons in CONS:
            for when in ("first", "last"):
                for how in ("plain", "refused", "child", "plain parts", "child parts", "plain array", "plain on", "child on"):
                    for values in VALUES:
                        yield (late, cons, when, how, values)


def case_functions():
    return {"in __init__": in_init, "load": load}


def systems():
    S = []
    for name, late in [("rst", "rst"), ("r", "r"), ("st", "st"), ("rs", "rs")]:
        nodes = {"r": ("model", "r" in late), "s": ("node", "s" in late), "t": ("node", "t" in late)}
        if env.THOROUGH or late in ("rst", "st"):
            S.append(Late("late " + name, dict(leaves=LEAVES, nodes=nodes), alphabet(False), ()))
        if env.THOROUGH or late != "r":
            S.append(Late("built " + name, dict(leaves=LEAVES, nodes=nodes, setup=BUILT), alphabet(), ()))
    return {s.name: s for s in S}


def run(report):
    enumerate_cases("load", load, loads(), report)
    enumerate_cases("in __init__", in_init, programs(), report)
    for s in systems().values():
        explore(s, (4 if env.THOROUGH else 3) if s.name.startswith("late") else (3 if env.THOROUGH else 2), report)
