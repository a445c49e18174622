"""C04: constraint bookkeeping is one consistent per-element map."""
from mc import env
from mc.explore import explore
from mc.tree import EMPTY, EMPTY_OPS, TreeSystem, a_cons, a_isfixed, a_structure, a_usable, a_values

LEVEL = "model_checking"
ASPECTS = [a_structure, a_values, a_cons, a_isfixed]

LEVELS = dict(
    leaves={"a": ((2,), [-1.0, 2.0], None), "b": ((1,), [3.0], "pos"), "c": ((2, 2), [0.5, -1.5, 12.5, 3.5], None)},
    nodes={"r": "model", "s": "node", "t": "node"},
    links=[("r", "s"), ("s", "t"), ("t", "a"), ("s", "b"), ("r", "c")])

PLACES = [("a", None), ("a", ":1"), ("a", "[1]"), ("b", None), ("c", None), ("c", "0,:"), ("c", ":,[0]"), ("c", "m0"),
          ("c", "[0,1],[1,0]"), ("s", None), ("t", None), ("r", None)]


def constraint_ops(places, toks, untoks=(None,), fixvals=(None,)):
    out = []
    for h, ix in places:
        out += [("con", h, t, ix) for t in toks]
        out += [("unc", h, t, ix) for t in untoks]
        out += [("fix", h, v, ix) for v in fixvals]
        out += [("unfix", h, ix)]
    return out


LOOSE = dict(
    leaves={"a": ((3,), [-1.0, 2.0, 0.5], None), "b": ((2,), [3.0, 4.0], None), "c": ((1, 2), [0.5, -1.5], "neg")},
    nodes={"r": "model", "s": "node"},
    links=[("s", "a")])


def systems():
    wide = constraint_ops(PLACES, ("pos", "neg", "b10", "nexp", "sq"), (None, "pos", "neg", "b10"), (None, 2.5))
    narrow = constraint_ops([("a", None), ("a", "[1]"), ("c", "0,:"), ("s", None), ("r", None)], ("pos", "neg"), (None, "pos"))
    move = (constraint_ops([("a", "1:"), ("b", None), ("c", ":,[0]"), ("s", None), ("r", None)], ("b1",), (None,))
            + [("link", "r", "s", None), ("link", "r", "b", 0), ("link", "s", "b", 0), ("link", "r", "c", 0), ("link", "s", "c", None),
               ("unlink", "r", "s"), ("unlink", "r", "b"), ("unlink", "s", "a"), ("unlink", "s", "b"), ("link", "r", "s", 0)])
    several = constraint_ops([("a", None), ("a", "[1]"), ("c", "0,:"), ("s", None), ("r", None)], ("pos", "b10"), (("pos", "b10"), ("b10", "fixed"), ("fixed", "neg", "pos"), ("neg", "nexp")))
    S = [TreeSystem("several", LEVELS, several, ASPECTS), TreeSystem("wide", LEVELS, wide, ASPECTS),
         TreeSystem("narrow", LEVELS, narrow, ASPECTS),
         TreeSystem("selections", LEVELS, constraint_ops([("r", "~.*"), ("r", "~.*[ab]"), ("s", "~.*[ac]"), ("a", "[1]"), ("b", None)], ("pos", "b10"), (None, "pos", "b10")), ASPECTS),
         TreeSystem("move", LOOSE, move, ASPECTS), TreeSystem("empty", EMPTY, EMPTY_OPS, ASPECTS),
         TreeSystem("watched", LEVELS, narrow, ASPECTS, True), TreeSystem("watched move", LOOSE, move, ASPECTS, True)]
    return {s.name: s for s in S}


def run(report):
    S = systems()
    explore(S["wide"], 3 if env.THOROUGH else 2, report)
    explore(S["narrow"], 4 if env.THOROUGH else 3, report)
    explore(S["several"], 4 if env.THOROUGH else 3, report)
    explore(S["selections"], 4 if env.THOROUGH else 3, report)
    explore(S["move"], 4 if env.THOROUGH else 3, report)
    explore(S["empty"], 3 if env.THOROUGH else 2, report)
    explore(S["watched"], 4 if env.THOROUGH else 2, report)
    explore(S["watched move"], 4 if env.THOROUGH else 2, report)
