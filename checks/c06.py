"""C06: the optimizer vector is an exact view of the free parameters."""
from mc import env
from mc.explore import explore
from mc.tree import EMPTY, EMPTY_OPS, TreeSystem, a_opt, a_roundtrip, a_values

LEVEL = "model_checking"
ASPECTS = [a_values, a_opt, a_roundtrip]

CFG = dict(
    leaves={"a": ((2,), [1.0, 2.0], "sq"), "b": ((1,), [3.0], "b10"), "c": ((2, 2), [0.5, 1.5, 2.5, 3.5], None),
            "d": ((2, 1), [-1.0, -2.0], "nexp")},
    nodes={"r": "model", "s": "node", "t": "node"},
    links=[("r", "s"), ("s", "t"), ("t", "a"), ("s", "b"), ("r", "c"), ("t", "d")])


def systems():
    wide = []
    for h, ix in [("a", None), ("a", ":1"), ("b", None), ("c", None), ("c", "0,:"), ("c", "[0,1],[1,0]"), ("c", "m0"),
                  ("s", None), ("t", None), ("r", None), ("d", None), ("d", "1:")]:
        wide += [("set", h, ix, 2.25), ("set", h, ix, -0.75), ("fix", h, None, ix), ("unfix", h, ix), ("unc", h, None, ix),
                 ("con", h, "pos", ix), ("con", h, "neg", ix), ("con", h, "b10", ix)]
        if ix is None:
            wide += [("oset", h, ("r", 0.5)), ("orst", h), ("raw", h, 1.75), ("rand", h, ("r", 1.5)), ("read", h, "opt")]
    for h in "rsc":
        wide += [("upd", h, False), ("upd", h, True)]
    wide += [("optimize", "r", ("r", 0.25)), ("link", "s", "c", 0), ("unlink", "r", "s"), ("unlink", "s", "t"), ("link", "r", "s", 0),
             ("link", "r", "t", None), ("attr", "r", "c", ("r", 1.0)), ("attr", "s", "b", 7.0), ("rex", "r", ".*[abc]$", 0.75)]
    core = [("set", "c", "0,:", 2.25), ("set", "s", None, 0.75), ("raw", "t", 1.75), ("raw", "c", -1.0), ("read", "r", "opt"),
            ("read", "s", "opt"), ("upd", "r", False), ("upd", "s", True), ("oset", "t", ("r", 0.5)), ("oset", "r", ("r", 0.25)),
            ("fix", "t", None, None), ("unfix", "r", None), ("con", "c", "exp", ":,[0]"), ("unc", "r", None, None),
            ("unlink", "s", "t"), ("link", "r", "t", 0), ("grad", "r", 3.0)]
    chosen = []
    for h, ix in [("r", "~.*"), ("r", "~.*[ac]"), ("s", "~.*[abd]$"), ("s", "~.*t"), ("a", "[1]"), ("b", None)]:
        chosen += [("fix", h, None, ix), ("unfix", h, ix), ("con", h, "pos", ix), ("con", h, "neg", ix), ("unc", h, None, ix), ("unc", h, "b10", ix)]
    chosen += [("oset", "r", ("r", 0.5)), ("oset", "s", ("r", 0.25)), ("orst", "r"), ("rex", "r", ".*[abc]$", 0.75), ("rex", "s", ".*", ("r", 0.5))]
    S = [TreeSystem("selections", CFG, chosen, ASPECTS), TreeSystem("wide", CFG, wide, ASPECTS), TreeSystem("core", CFG, core, ASPECTS), TreeSystem("empty", EMPTY, EMPTY_OPS, ASPECTS),
         TreeSystem("watched", CFG, wide, ASPECTS, True), TreeSystem("watched core", CFG, core, ASPECTS, True)]
    return {s.name: s for s in S}


def run(report):
    S = systems()
    explore(S["wide"], 3 if env.THOROUGH else 2, report)
    explore(S["core"], 5 if env.THOROUGH else 3, report)
    explore(S["selections"], 3 if env.THOROUGH else 2, report)
    explore(S["empty"], 3 if env.THOROUGH else 2, report)
    explore(S["watched"], 3 if env.THOROUGH else 2, report)
    explore(S["watched core"], 4 if env.THOROUGH else 2, report)
