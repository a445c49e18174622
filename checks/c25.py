"""C25: looking at a model never changes it, and shows the truth."""
import copy
import pickle

import numpy as np

from mc import env
from mc.canon import heap_key
from mc.explore import explore
from mc.report import Violation
from mc.tables import a_tables
from mc.tree import (EMPTY, EMPTY_OPS, EVENTS, OPS, TreeSystem, a_cons, a_freenames, a_grads, a_isfixed, a_opt, a_select, a_structure, a_usable, a_values, enabled, real_handle)
from mc.xform import TOK

from paramz.transformations import __fixed__

LEVEL = "model_checking"
ASPECTS = [a_structure, a_values, a_grads, a_cons, a_isfixed, a_tables, a_select, a_opt, a_freenames, a_usable]

CFG = dict(
    leaves={"a": ((2,), [1.0, 2.0], None), "b": ((1,), [3.0], "pos"), "c": ((2, 2), [0.5, 1.5, 2.5, 3.5], None), "d": ((1,), [-6.0], None)},
    nodes={"r": "model", "s": "node", "t": "node"},
    links=[("r", "s"), ("s", "a"), ("s", "b"), ("s", "t"), ("t", "d"), ("r", "c")])
NAMES = dict(CFG, names={"a": "the a", "s": "s (1)"}, setup=[("con", "a", "exp", ":1"), ("con", "a", "pos", "1:"), ("con", "c", "b10", "0,:"), ("con", "c", "b1", None), ("fix", "c", None, ":,1"), ("fix", "t")])
LONG = dict(CFG, leaves=dict(CFG["leaves"], c=((13, 2), [0.25 * (k + 1) for k in range(26)], None), a=((120,), [0.5 + 0.01 * k for k in range(120)], None)))
MIXED = dict(CFG, setup=[("con", "c", "b10", "0,:"), ("con", "c", "pos", "1:"), ("fix", "c", None, ":,1"), ("fix", "a", None, "1:"), ("con", "d", "neg"), ("upd", "r", False)])


def num(f):
    with np.errstate(all="ignore"):
        return f()


READS = {
    "str": str, "repr": repr, "html": lambda o: o._repr_html_(), "plaintext": lambda o: o.__str__(VT100=False), "format": lambda o: "{}".format(o),
    "optimizer_array": lambda o: o.optimizer_array, "param_array": lambda o: o.param_array, "unfixed": lambda o: o.unfixed_param_array, "gradient": lambda o: (o.gradient, o.gradient_full),
    "gradtrans": lambda o: o._transform_gradients(np.array(o.gradient_full).ravel()),
    "constraints": lambda o: (list(o.constraints.items()), list(o.constraints.properties()), list(o.constraints.indices()), o.constraints.size, str(o.constraints)),
    "missing": lambda o: [o.constraints[TOK[t].make()] for t in ("exp", "sq", "b1")], "missing fixed": lambda o: o.constraints[__fixed__], "properties_for": lambda o: o.constraints.properties_for(np.arange(o.size)),
    "properties_dict": lambda o: o.constraints.properties_dict_for(np.arange(o.size)), "is_fixed": lambda o: (o.is_fixed, o._has_fixes()), "sizes": lambda o: (o.size, o.num_params, o._size_transformed(), o.has_parent()),
    "names": lambda o: (o.name, o.hierarchy_name(), o.parameter_names(), list(o.parameter_names(add_self=True, adjust_for_printing=True)), list(o.parameter_names(recursive=False)), list(o.parameter_names(intermediate=True))),
    "names_flat": lambda o: (o.parameter_names_flat(), o.parameter_names_flat(True)) if hasattr(o, "flattened_parameters") and o.parameters else None,
    "flat": lambda o: [p.name for p in o.flattened_parameters], "update": lambda o: o.update_model(), "property_string": lambda o: o.get_property_string("constraints"), "observers": lambda o: (str(o.observers), len(o.observers), list(o.observers)),
    "traverse": lambda o: (o.traverse(lambda x: None), o.traverse_parents(lambda x: None)), "dir": lambda o: [getattr(o, n, None) for n in dir(o) if n in ("shape", "T", "real", "flat", "ndim", "dtype", "nbytes", "base", "num_params", "size", "is_fixed", "values", "gradient")],
    "copy": lambda o: o.copy(), "deepcopy": copy.deepcopy, "pickle": lambda o: pickle.dumps(o), "raveled": lambda o: (o._raveled_index(), o._raveled_index_for(o) if o.parameters else None, o._offset_for(o)),
    "same": lambda o: (o is o, o != None),   # noqa: E711
}
NODE_READS = {
    "all": lambda o: o[:], "some": lambda o: (o[0], o[1:], o[::2], o[np.array([0])]), "grep": lambda o: [p.name for p in o.grep_param_names(".*")], "regex": lambda o: quietly(o, lambda: str(o[""])), "regexvalues": lambda o: quietly(o, lambda: (lambda x: (x.values() if callable(x.values) else x.values, x[:], x > 1, x == 1, repr(x)) if hasattr(x, "values") else None)(o[".*"])),
    "no such": lambda o: READS_no(o),
}


def quietly(o, f):
    """a pattern can only name something if there are parameters below the node (it is an AttributeError otherwise)"""
    try:
        return f()
    except AttributeError:
        if o.parameters:
            raise


def READS_no(o):
    try:
        o["no such name"]
    except AttributeError:
        pass


LEAF_READS = {
    "values": lambda o: (o.values, np.asarray(o), o.view(np.ndarray)), "elements": lambda o: (o[0], o[-1], o[:], o[...], list(o), len(o), o.flat[0], o.tolist(), o.item(0)),
    "fancy": lambda o: (o[[0]], o[[0, 0]], o[o.values > 1.2], o[np.array([0])], o[None]), "arithmetic": lambda o: num(lambda: (o + 1, 2 * o, o ** 2, -o, o / 3, abs(o), np.log(np.abs(o)), np.exp(o), o.dot(o.T), 1 - o, o % 2, o // 2)),
    "compare": lambda o: (o > 1, o == o, o != 1, (o < 2).any(), np.allclose(o, o)), "reduce": lambda o: (o.sum(), o.mean(), o.max(), o.argmax(), o.cumsum(), o.std()),
    "reshape": lambda o: (o.T, o.reshape(-1), o.ravel(), o.flatten(), o.astype(int), np.hstack([o, o]), np.concatenate([o, o])), "sliceprint": lambda o: (str(o[:1]), repr(o[[0]]), o[1:].__str__() if o.shape[0] > 1 else None, o[:1]._repr_html_()),
    "slicecons": lambda o: (o[:1].constraints if False else None, o[[0]].is_fixed, o[:1].param_array, o[:1].gradient, o[[0]].gradient), "slicecopy": lambda o: (o[:1].copy() if o.shape[0] == 1 else None, o.values.copy(), np.array(o)),
}


def reads():
    out = []
    for h in "rst":
        out += [("look", h, k) for k in sorted(READS)] + [("look", h, k) for k in sorted(NODE_READS)]
    for h in "abcd":
        out += [("look", h, k) for k in sorted(READS)] + [("look", h, k) for k in sorted(LEAF_READS)]
    return out


def op_look(F, h, what):
    o = F.real[h]
    f = READS.get(what) or NODE_READS.get(what) or LEAF_READS.get(what)
    del EVENTS[:]
    seed = np.random.get_state()[1].tobytes()
    f(o)
    # (the copies and what they are evaluated for are not part of the model)
    ours = [w for w, _ in EVENTS if any(w is x for x in F.real.values())]
    if ours:
        raise Violation("reading %s of %s re-evaluated %s" % (what, h, [w.name for w in ours]), "event")
    if np.random.get_state()[1].tobytes() != seed:
        raise Violation("reading %s of %s consumed random numbers" % (what, h), "random")


OPS["look"] = op_look

WRITES = []
for _h, _ix in [("a", ":1"), ("a", None), ("b", None), ("c", "0,:"), ("c", ":,1"), ("s", None), ("r", None)]:
    WRITES += [("con", _h, "pos", _ix), ("con", _h, "b10", _ix), ("fix", _h, None, _ix), ("unfix", _h, _ix), ("unc", _h, None, _ix), ("set", _h, _ix, 2.25)]
WRITES += [("set", "c", None, ("r", 1e9)), ("set", "d", None, -1e-3), ("raw", "r", ("r", 5.0)), ("oset", "r", ("r", 0.5)), ("oset", "s", ("r", 0.25)), ("grad", "r", 7.0), ("grad", "a", 9.0), ("upd", "r", False), ("upd", "r", True),
           ("link", "r", "c", 0), ("unlink", "s", "t"), ("unlink", "r", "s"), ("link", "s", "b", 0), ("link", "r", "t", 0), ("unc", "c", "b1", None), ("unc", "r", "pos", None), ("con", "d", "sq", None), ("con", "c", "exp", "m0"), ("rex", "r", "", 4.0)]
AFTER = [("set", "a", None, 2.5), ("set", "r", None, ("r", 1.25)), ("con", "a", "exp", ":1"), ("con", "c", "sq", ":,1"), ("con", "r", "pos", None), ("unc", "r", None, None), ("fix", "t", None, None), ("unfix", "r", None), ("oset", "r", ("r", 0.5)),
         ("link", "r", "c", 0), ("unlink", "s", "t"), ("unlink", "r", "s"), ("upd", "r", True), ("raw", "s", ("r", 5.0))]
LONGER = [(w, h) + tail + (ix,) for h, ix in (("a", ":1"), ("a", "1:"), ("a", None), ("a", "[1]"), ("c", "0,:"), ("c", ":,1"), ("c", "1:"), ("c", None)) for w, tail in (("con", ("b10",)), ("fix", (None,)), ("unc", ("b10",)))]
VALUES = [("set", h, None, v) for h in "abcds" for v in (float("nan"), float("inf"), -float("inf"), 1e-9, -1e-300, 1e300, 123456789.123, -0.0, 1 / 3., 1e16, -12345678.9)]


class Looking(TreeSystem):
    def __init__(self, name, cfg, plan):
        TreeSystem.__init__(self, name, cfg, (), ASPECTS)
        self.plan = plan
        if "names" in cfg:
            self.aspects = [a for a in ASPECTS if a not in (a_freenames, a_select)]

    def build(self):
        F = TreeSystem.build(self)
        F.step = 0
        F.untouched = False
        return F

    def ops(self, F):
        return [op for op in self.plan[F.step] if op[0] == "look" or enabled(F, op)]

    def apply(self, F, op):
        before = TreeSystem.key(self, F) if op[0] == "look" else None
        TreeSystem.apply(self, F, op)
        F.step += 1
        # the heap is the same as before: nothing at all was changed, there is nothing else to see
        F.untouched = before is not None and before == TreeSystem.key(self, F)

    def check(self, F):
        if not F.untouched:
            TreeSystem.check(self, F)

    def key(self, F):
        return (F.step, TreeSystem.key(self, F))


class Values(Looking):
    """unusual values are only shown"""
    def __init__(self, name, cfg, plan):
        Looking.__init__(self, name, cfg, plan)
        self.aspects = [a_tables, a_structure, a_cons]

    def ops(self, F):
        return list(self.plan[F.step])


def systems():
    R = reads()
    T = env.THOROUGH
    S = [Looking("reads", CFG, [R, WRITES, R, AFTER] if T else [AFTER, R, AFTER]), Looking("empty", EMPTY, [[("look", h, k) for h in "rstegx" for k in sorted(READS)] + [("look", h, k) for h in "rst" for k in ("all", "grep", "regex", "no such")], EMPTY_OPS, [("look", h, "str") for h in "rste"]]), Looking("tables", CFG, [WRITES, WRITES] + ([WRITES] if T else [])),
         Looking("names", NAMES, [R, WRITES, R] if T else [R, AFTER]), Looking("mixed", MIXED, [R, R, WRITES] if T else [R, AFTER]), Looking("mixed tables", MIXED, [WRITES, WRITES] if T else [WRITES]),
         Looking("long", LONG, [LONGER, LONGER]),
         Values("values", dict(CFG, leaves=dict(CFG["leaves"], b=((1,), [3.0], None))), [VALUES, [("fix", "c", None, "0,:"), ("fix", "r", None, None)]])]
    return {s.name: s for s in S}


def run(report):
    for s in systems().values():
        explore(s, len(s.plan), report)
