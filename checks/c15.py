"""C15: copies are equal and completely independent."""
from mc import env
from mc.clone import CloneSystem
from mc.explore import explore

LEVEL = "model_checking"

CFG = dict(
    leaves={"a": ((2,), [1.0, 2.0], None), "b": ((1,), [3.0], "pos"), "c": ((2, 2), [0.5, 1.5, 2.5, 3.5], None), "e": ((1,), [6.0], None)},
    nodes={"r": "model", "s": "node", "t": "node", "x": "node"},
    links=[("r", "s"), ("s", "t"), ("t", "a"), ("s", "b"), ("r", "c"), ("x", "e")],
    setup=[("con", "a", "b10", ":1"), ("fix", "a", None, "1:"), ("con", "c", "exp", "0,:"), ("fix", "c", None, ":,1")],
    keep={"r": "a", "s": "b"}, data=["r", "t"])

PLAIN = dict(CFG, setup=[], leaves=dict(CFG["leaves"], b=((1,), [3.0], None)))

COPIES = [("copy", h) for h in "rstabcx"] + [("dcopy", h) for h in "rsa"]


def both(h):
    return [h, h + "'"]


def wide(marks):
    out = []
    for h, ix in [("a", None), ("a", ":1"), ("a", "1:"), ("b", None), ("c", None), ("c", "0,:"), ("c", ":,1"), ("s", None), ("t", None), ("r", None)]:
        for m in marks:
            g = h + m
            out += [("set", g, ix, 2.25), ("con", g, "pos", ix), ("con", g, "b10", ix), ("unc", g, None, ix), ("fix", g, None, ix), ("unfix", g, ix)]
            if ix is None:
                out += [("grad", g, 3.0), ("upd", g, False), ("upd", g, True), ("oset", g, ("r", 0.5)), ("rand", g, ("r", 0.25)), ("rename", g, "zz"), ("read", g, "all")]
    for m in marks:
        out += [("iadd", "a" + m, 0.5), ("iadd", "c" + m, 0.5), ("setview", "c" + m, "0,:", 4.5), ("optimize", "r" + m, ("r", 0.75)), ("data", "r" + m, 1.0), ("data", "t" + m, 1.0)]
        out += [("rex", "r" + m, "", 2.5), ("rex", "r" + m, ".*[ab]$", 3.25), ("attr", "r" + m, "c" + m, 4.0), ("attr", "t" + m, "a" + m, 4.0)]
        out += [("unlink", "r" + m, "s" + m), ("unlink", "s" + m, "t" + m), ("unlink", "t" + m, "a" + m), ("unlink", "r" + m, "c" + m),
                ("link", "s" + m, "b" + m, 0), ("link", "r" + m, "c" + m, 0), ("link", "x", "a" + m, None), ("link", "x", "s" + m, 0), ("link", "x", "t" + m, 0), ("link", "x", "b" + m, None),
                ("link", "x" + m, "e", None), ("link", "r" + m, "x", 0), ("link", "t" + m, "e", 0)]
    return list(dict.fromkeys(out))


def core(marks):
    out = []
    for m in marks:
        out += [("set", "a" + m, ":1", 2.25), ("set", "r" + m, None, ("r", 1.25)), ("set", "s" + m, None, 1.75), ("con", "s" + m, "pos", None), ("con", "c" + m, "b10", "0,:"),
                ("unc", "a" + m, None, None), ("unc", "r" + m, None, None), ("fix", "t" + m, None, None), ("unfix", "r" + m, None), ("unfix", "a" + m, None), ("oset", "r" + m, ("r", 0.5)),
                ("grad", "s" + m, 3.0), ("upd", "s" + m, False), ("upd", "r" + m, True), ("rename", "a" + m, "zz"), ("link", "x", "t" + m, 0), ("unlink", "s" + m, "t" + m), ("link", "s" + m, "b" + m, 0),
                ("data", "t" + m, 1.0), ("optimize", "r" + m, ("r", 0.75)), ("setview", "c" + m, "0,:", 4.5)]
    return list(dict.fromkeys(out))


SMALL = [("set", "a", None, 2.25), ("set", "a'", None, 2.75), ("con", "r'", "pos", None), ("con", "s", "b10", None), ("unfix", "r", None), ("unfix", "s'", None), ("fix", "t'", None, None), ("fix", "r", None, None),
         ("oset", "r'", ("r", 0.5)), ("link", "x", "t'", 0), ("unlink", "s", "t"), ("upd", "r", False), ("upd", "r'", True)]


def systems():
    again = COPIES + [("copy", h + "'") for h in "rsta"] + [("dcopy", "r'")]
    S = [CloneSystem("after", CFG, [COPIES, wide(("", "'"))] + ([core(("", "'"))] if env.THOROUGH else [])),
         CloneSystem("then", CFG, [COPIES[:4] + COPIES[7:], SMALL if not env.THOROUGH else core(("", "'")), core(("", "'"))]),
         CloneSystem("before", CFG, [wide(("",)), COPIES[:2] + COPIES[3:4] + COPIES[5:6], SMALL[:6] if not env.THOROUGH else core(("", "'"))]),
         CloneSystem("plain", PLAIN, [core(("",)), COPIES, SMALL]),
         CloneSystem("twice", CFG, [SMALL, COPIES[:4], SMALL, again, [("set", "a''", None, 3.25), ("unfix", "r''", None), ("unfix", "a''", None), ("con", "s''", "pos", None), ("set", "a'", None, 3.0)]])]
    return {s.name: s for s in S}


def run(report):
    for s in systems().values():
        explore(s, len(s.plan), report)
