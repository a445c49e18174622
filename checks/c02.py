"""C02: linking, moving and unlinking keep every parameter's content."""
from mc import env
from mc.explore import explore
from mc.tree import (EMPTY, EMPTY_OPS, FIVE, TreeSystem, a_cons, a_freenames, a_grads, a_isfixed, a_opt, a_structure, a_usable, a_values)

LEVEL = "model_checking"
ASPECTS = [a_structure, a_values, a_grads, a_cons, a_isfixed, a_opt, a_freenames, a_usable]

DEEP = dict(
    leaves={"a": ((1,), [1.0], None), "b": ((2,), [2.0, 3.0], None), "c": ((3,), [4.0, 5.0, 6.0], "b10"), "d": ((1, 2), [7.0, 8.0], None)},
    nodes={"r": "model", "s": "node", "t": "node", "u": "node"},
    links=[("r", "s"), ("s", "t"), ("t", "a"), ("t", "b"), ("r", "c")],
    setup=[("con", "b", "pos", ":1"), ("fix", "b", None, "1:"), ("con", "d", "exp")])


def alphabet(nodes, things, idxs, extra):
    out = []
    for p in nodes:
        for c in things:
            if p != c:
                out += [("link", p, c, i) for i in idxs] + [("unlink", p, c)]
    return out + extra


def systems():
    setup = [("con", "a", "neg", ":1"), ("fix", "a", None, "1:"), ("con", "c", "b10", "0,:"),
             ("fix", "c", None, ":,1"), ("fix", "e")]
    wide = dict(FIVE, setup=setup)
    small = dict(
        leaves={"a": ((2,), [-1.0, 2.0], None), "c": ((2, 2), [0.5, 1.5, 2.5, 3.5], None), "e": ((1,), [6.0], None)},
        nodes={"r": "model", "s": "node", "t": "node"},
        links=[("r", "s"), ("s", "a"), ("r", "c"), ("t", "e")], setup=setup)
    extra = [("con", "s", "pos"), ("fix", "r"), ("unfix", "c")]
    S = [TreeSystem("wide", wide, alphabet("rst", "abcdest", (None, 0, 1, -1, 99), extra), ASPECTS),
         TreeSystem("small", small, alphabet("rst", "acest", (None, 0, 1), extra), ASPECTS),
         TreeSystem("deep", DEEP, alphabet("rstu", "abcdstu", (None, 0), [("unfix", "s"), ("fix", "c", None, "::2")]), ASPECTS),
         TreeSystem("empty", EMPTY, EMPTY_OPS, ASPECTS),
         TreeSystem("watched", small, alphabet("rst", "acest", (None, 0, 1), extra), ASPECTS, True)]
    return {s.name: s for s in S}


def run(report):
    S = systems()
    explore(S["wide"], 3 if env.THOROUGH else 2, report)
    explore(S["small"], 5 if env.THOROUGH else 3, report)
    explore(S["deep"], 3 if env.THOROUGH else 2, report)
    explore(S["empty"], 3 if env.THOROUGH else 2, report)
    explore(S["watched"], 4 if env.THOROUGH else 2, report)
