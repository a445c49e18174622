"""C05: fixed parameters stay put, are hidden from the optimizer, and come back."""
from mc import env
from mc.explore import explore
from mc.tree import EMPTY, EMPTY_OPS, TreeSystem, a_cons, a_freenames, a_isfixed, a_opt, a_optgrad, a_values

LEVEL = "model_checking"
ASPECTS = [a_values, a_cons, a_isfixed, a_opt, a_freenames, a_optgrad]

CFG = dict(
    leaves={"a": ((2,), [1.0, 2.0], None), "b": ((1,), [3.0], "pos"), "c": ((2, 2), [0.5, 1.5, 2.5, 3.5], None)},
    nodes={"r": "model", "s": "node", "t": "node"},
    links=[("r", "s"), ("s", "t"), ("t", "a"), ("s", "b"), ("r", "c")])

LOOSE = dict(
    leaves={"a": ((2,), [1.0, 2.0], None), "b": ((1,), [3.0], "pos"), "c": ((2,), [0.5, 1.5], "exp")},
    nodes={"r": "model", "s": "node"},
    links=[("s", "a"), ("r", "b")])


def systems():
    hs = [("a", None), ("a", ":1"), ("b", None), ("c", None), ("c", "0,:"), ("c", ":,[0]"), ("c", "[0,1],[1,0]"),
          ("s", None), ("t", None), ("r", None)]
    wide = []
    for h, ix in hs:
        wide += [("fix", h, None, ix), ("fix", h, 1.25, ix), ("unfix", h, ix), ("con", h, "pos", ix), ("con", h, "b10", ix),
                 ("unc", h, None, ix), ("unc", h, "pos", ix)]
        if ix is None:
            wide += [("oset", h, ("r", 0.5)), ("rand", h, ("r", -0.5)), ("set", h, None, 2.0)]
    wide += [("optimize", "r", ("r", 0.75)), ("con", "a", "sq", None)]
    core = []
    for h, ix in [("a", None), ("a", "1:"), ("c", "m0"), ("s", None), ("r", None)]:
        core += [("fix", h, None, ix), ("unfix", h, ix), ("con", h, "exp", ix)]
    core += [("oset", "r", ("r", 0.5)), ("rand", "s", ("r", -0.5)), ("set", "r", None, 2.0), ("set", "c", "0,:", 4.0),
             ("unc", "r", None, None), ("optimize", "r", ("r", 0.75)), ("read", "s", "all")]
    move = [("link", "r", "s", None), ("link", "r", "s", 0), ("link", "s", "b", 0), ("link", "r", "c", 0), ("link", "s", "c", None),
            ("unlink", "r", "s"), ("unlink", "r", "b"), ("unlink", "s", "a"), ("unlink", "s", "b"), ("unlink", "s", "c"), ("link", "r", "a", 0)]
    for h, ix in [("a", ":1"), ("b", None), ("c", "1:"), ("s", None), ("r", None)]:
        move += [("fix", h, None, ix), ("unfix", h, ix)]
    move += [("rand", "r", ("r", 0.25)), ("oset", "s", ("r", 0.75)), ("con", "r", "b10")]
    chosen = []
    for h, ix in [("r", "~.*"), ("r", "~.*[ac]"), ("s", "~.*[ab]$"), ("s", "~.*t"), ("a", "[1]"), ("b", None)]:
        chosen += [("fix", h, None, ix), ("fix", h, 1.25, ix), ("unfix", h, ix), ("con", h, "b10", ix), ("unc", h, None, ix)]
    chosen += [("oset", "r", ("r", 0.5)), ("rand", "r", ("r", -0.5)), ("set", "r", None, 2.0), ("optimize", "r", ("r", 0.75))]
    S = [TreeSystem("selections", CFG, chosen, ASPECTS), TreeSystem("wide", CFG, wide, ASPECTS), TreeSystem("core", CFG, core, ASPECTS), TreeSystem("move", LOOSE, move, ASPECTS), TreeSystem("empty", EMPTY, EMPTY_OPS + [("optimize", "r", ("r", 0.75))], ASPECTS),
         TreeSystem("watched", CFG, wide, ASPECTS, True), TreeSystem("watched move", LOOSE, move, ASPECTS, True)]
    return {s.name: s for s in S}


def run(report):
    S = systems()
    explore(S["wide"], 3 if env.THOROUGH else 2, report)
    explore(S["core"], 4 if env.THOROUGH else 3, report)
    explore(S["selections"], 3 if env.THOROUGH else 2, report)
    explore(S["move"], 5 if env.THOROUGH else 3, report)
    explore(S["empty"], 3 if env.THOROUGH else 2, report)
    explore(S["watched"], 3 if env.THOROUGH else 2, report)
    explore(S["watched move"], 4 if env.THOROUGH else 2, report)
