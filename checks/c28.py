"""C28: further index operations follow their elements as the constraints do."""
from mc import env
from mc.explore import explore
from mc.tags import KINDS, LATE, TLeaf, Tagged, a_tags
from mc.tree import a_cons, a_isfixed, a_structure, a_values

LEVEL = "model_checking"
ASPECTS = [a_structure, a_tags, a_values, a_cons, a_isfixed]

CFG = dict(
    leaves={"a": ((2,), [1.0, 2.0], None), "b": ((1,), [3.0], None), "c": ((2, 2), [0.5, 1.5, 2.5, 3.5], None), "e": ((1,), [6.0], None)},
    nodes={"r": "model", "s": "node", "t": "node"},
    links=[("r", "s"), ("s", "a"), ("s", "b"), ("r", "c"), ("t", "e")],
    setup=[("tag", "a", "P", "1:"), ("tag", "c", "Q", "0,:"), ("tag", "r", "P", "tail"), ("fix", "c", None, ":,1"), ("con", "a", "pos", ":1")],
    param=TLeaf, kinds=KINDS)
BARE = dict(CFG, links=[])
BUILT = dict(CFG, kinds=LATE, init=("r", "t"))
DEEP = dict(CFG, nodes={"r": "model", "s": "node", "t": "node", "u": "node"}, links=[("r", "s"), ("s", "t"), ("t", "u"), ("u", "a"), ("s", "c"), ("t", "b")])


def tags(places, ts=("P", "Q")):
    out = []
    for h, ix in places:
        out += [(w, h, t, ix) for w in ("tag", "untag") for t in ts]
    return out


PLACES = [("a", None), ("a", ":1"), ("b", None), ("c", "0,:"), ("c", ":,1"), ("c", "m0"), ("e", None), ("s", None), ("s", "tail"), ("r", None), ("r", "head"), ("t", None)]
MOVE = [("link", p, c, i) for p, c in (("r", "s"), ("r", "t"), ("s", "t"), ("r", "c"), ("r", "b"), ("s", "b"), ("s", "a"), ("t", "a"), ("t", "c"), ("t", "s"), ("s", "e"), ("r", "e"), ("t", "e"), ("s", "c")) for i in (None, 0)] + \
       [("unlink", p, c) for p, c in (("r", "s"), ("r", "t"), ("s", "t"), ("r", "c"), ("r", "b"), ("s", "b"), ("s", "a"), ("t", "a"), ("t", "c"), ("t", "s"), ("s", "e"), ("r", "e"), ("t", "e"))]
OTHER = [("con", "r", "pos", None), ("con", "a", "b10", "1:"), ("unc", "r", None, None), ("unc", "c", None, None), ("fix", "s", None, None), ("unfix", "r", None), ("fix", "a", None, ":1"), ("set", "c", None, 2.0), ("optimize", "r", ("r", 0.5)),
         ("cleartags", "a"), ("cleartags", "s"), ("cleartags", "r"), ("cleartags", "c"), ("again", "r"), ("again", "b"), ("read", "r", "all")]
COPIES = [("copy", h) for h in "rsac"] + [("dcopy", "r"), ("dcopy", "b"), ("pickle", "r", -1), ("pickle", "a", 2)]
SIDES = tags([(h + m, ix) for m in ("", "'", '"') for h, ix in (("a", ":1"), ("s", None), ("r", None), ("c", ":,1"))], ("P",)) + \
    [("link", "t", h + m, 0) for m in ("'", '"') for h in "asc"] + [("unlink", "r" + m, "s" + m) for m in ("", "'", '"')] + [("unlink", "s" + m, "a" + m) for m in ("", "'", '"')] + \
    [("con", "r" + m, "pos", None) for m in ("", "'")] + [("unc", "r'", None, None), ("unfix", "r'", None), ("cleartags", "s'"), ("cleartags", "r'")]


def systems():
    T = env.THOROUGH
    A = tags(PLACES) + MOVE + OTHER
    few = tags([("a", "1:"), ("s", None), ("c", "m0")], ("P",)) + MOVE[::2] + [("unlink", "r", "s"), ("unlink", "s", "a"), ("unlink", "r", "c"), ("cleartags", "s")]
    S = [Tagged("wide", CFG, [A] * (3 if T else 2), ASPECTS), Tagged("move", CFG, [few] * (4 if T else 3), ASPECTS),
         Tagged("bare", BARE, [few] * (4 if T else 3), ASPECTS), Tagged("built", BUILT, [A] + [few] * (2 if T else 1), ASPECTS),
         Tagged("deep", DEEP, [MOVE + tags(PLACES[:8], ("Q",)) + [("unlink", "t", "u"), ("unlink", "u", "a"), ("link", "s", "u", 0), ("link", "r", "u", 0), ("tag", "u", "Q", None), ("untag", "t", "P", "tail")]] * (3 if T else 2), ASPECTS),
         Tagged("copies", CFG, [A[::2], COPIES, SIDES] if T else [COPIES, SIDES], ASPECTS)]
    return {s.name: s for s in S}


def run(report):
    for s in systems().values():
        explore(s, len(s.plan), report)
