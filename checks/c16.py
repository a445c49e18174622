"""C16: pickling round trips restore an equal, working object."""
from mc import env
from mc.clone import CloneSystem
from mc.explore import explore
from checks.c15 import CFG, PLAIN

LEVEL = "model_checking"

DUMPS = [("pickle", h, how) for h in "rac" for how in (2, 3, 4, 5, "pickler", "file", "pair", "stream")] + [("pickle", h, -1) for h in "stbxe"]
FEW = [("pickle", "r", -1), ("pickle", "r", 2), ("pickle", "s", -1), ("pickle", "a", -1), ("pickle", "x", "pickler")]


def wide(marks):
    out = []
    for h, ix in [("a", None), ("a", ":1"), ("a", "1:"), ("b", None), ("c", None), ("c", "0,:"), ("c", ":,1"), ("s", None), ("t", None), ("r", None)]:
        for m in marks:
            g = h + m
            out += [("set", g, ix, 2.25), ("con", g, "pos", ix), ("con", g, "b10", ix), ("unc", g, None, ix), ("unc", g, "b10", ix), ("fix", g, None, ix), ("unfix", g, ix)]
            if ix is None:
                out += [("grad", g, 3.0), ("upd", g, False), ("upd", g, True), ("oset", g, ("r", 0.5)), ("rand", g, ("r", 0.25)), ("rename", g, "zz"), ("read", g, "all"), ("copy", g)]
    for m in marks:
        out += [("iadd", "a" + m, 0.5), ("iadd", "c" + m, 0.5), ("setview", "c" + m, "0,:", 4.5), ("optimize", "r" + m, ("r", 0.75)), ("data", "r" + m, 1.0), ("data", "t" + m, 1.0)]
        out += [("rex", "r" + m, "", 2.5), ("rex", "r" + m, ".*[ab]$", 3.25), ("attr", "r" + m, "c" + m, 4.0), ("attr", "t" + m, "a" + m, 4.0), ("dcopy", "r" + m)]
        out += [("unlink", "r" + m, "s" + m), ("unlink", "s" + m, "t" + m), ("unlink", "t" + m, "a" + m), ("unlink", "r" + m, "c" + m),
                ("link", "s" + m, "b" + m, 0), ("link", "r" + m, "c" + m, 0), ("link", "x", "a" + m, None), ("link", "x", "s" + m, 0), ("link", "x", "t" + m, 0), ("link", "x", "b" + m, None),
                ("link", "x" + m, "e", None), ("link", "r" + m, "x", 0), ("link", "t" + m, "e", 0)]
    return list(dict.fromkeys(out))


def core(marks):
    out = []
    for m in marks:
        out += [("set", "a" + m, ":1", 2.25), ("set", "r" + m, None, ("r", 1.25)), ("set", "s" + m, None, 1.75), ("con", "s" + m, "pos", None), ("con", "c" + m, "b10", "0,:"),
                ("unc", "a" + m, None, None), ("unc", "r" + m, None, None), ("unc", "r" + m, "b10", None), ("fix", "t" + m, None, None), ("unfix", "r" + m, None), ("unfix", "a" + m, None), ("oset", "r" + m, ("r", 0.5)),
                ("grad", "s" + m, 3.0), ("upd", "s" + m, False), ("upd", "r" + m, True), ("rename", "a" + m, "zz"), ("link", "x", "t" + m, 0), ("unlink", "s" + m, "t" + m), ("link", "s" + m, "b" + m, 0),
                ("data", "t" + m, 1.0), ("optimize", "r" + m, ("r", 0.75)), ("setview", "c" + m, "0,:", 4.5), ("copy", "r" + m)]
    return list(dict.fromkeys(out))


SMALL = [("set", "a", None, 2.25), ("con", "r\"", "pos", None), ("con", "s", "b10", None), ("unfix", "r", None), ("unfix", "s\"", None), ("fix", "t\"", None, None), ("fix", "r", None, None),
         ("oset", "r\"", ("r", 0.5)), ("link", "x", "t\"", 0), ("unlink", "s", "t"), ("upd", "r", False), ("upd", "r\"", True)]


def systems():
    both = ("", '"')
    last = core(both)
    again = [("pickle", h + '"', how) for h in "rsa" for how in (2, -1)] + [("pickle", h + "'", -1) for h in "rta"]
    S = [CloneSystem("after", CFG, [DUMPS, wide(both)] + ([last] if env.THOROUGH else [])),
         CloneSystem("then", CFG, [FEW, SMALL if not env.THOROUGH else last, last]),
         CloneSystem("before", CFG, [wide(("",)), FEW[:1] + FEW[2:4], SMALL[:6] if not env.THOROUGH else last]),
         CloneSystem("plain", PLAIN, [core(("",)), DUMPS, SMALL]),
         CloneSystem("twice", CFG, [SMALL, FEW[:3] + [("copy", "r"), ("copy", "t")], SMALL, again,
                                    [("set", 'a""', None, 3.25), ("unfix", 'r""', None), ("unfix", 'a""', None), ("con", 's""', "pos", None), ("set", 'a"', None, 3.0), ("unfix", "r'\"", None)]])]
    return {s.name: s for s in S}


def run(report):
    for s in systems().values():
        explore(s, len(s.plan), report)
