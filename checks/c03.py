"""C03: refused operations change nothing."""
from mc import env
from mc.explore import explore
from mc.tree import (FIVE, TreeSystem, a_coherent, a_cons, a_freenames, a_grads, a_isfixed, a_opt, a_select, a_structure,
                     a_usable, a_values)

LEVEL = "model_checking"
ASPECTS = [a_structure, a_values, a_grads, a_cons, a_isfixed, a_opt, a_freenames, a_select, a_usable, a_coherent]

CFG = dict(
    leaves={"a": ((2,), [1.0, 2.0], None), "c": ((3,), [0.5, 1.5, 2.5], None), "d": ((2,), [4.0, 5.0], "pos")},
    nodes={"r": "model", "s": "node", "t": "node"},
    links=[("r", "s"), ("s", "a"), ("r", "c"), ("s", "t")],
    setup=[("con", "a", "b10", ":1"), ("fix", "c", None, "1:")])


def refused(things_n="rst", things="acdrst"):
    out = []
    for p in things_n:
        for c in things:
            out.append(("refused", "xlink", p, c, None))
            out.append(("refused", "xunlink", p, c))
        out.append(("refused", "xlink", p, p, 0))
        out.append(("refused", "xlink_odd", p))
        out.append(("refused", "xunlink_odd", p))
        out.append(("refused", "xlink_badname", p, None))
        out.append(("refused", "xlink_badname", p, 0))
        out.append(("refused", "xlink_noncontig", p, None))
        out.append(("refused", "xget", p))
        out.append(("refused", "xput", p))
        out.append(("refused", "xiop", p))
    out.append(("refused", "xlink", "s", "r", 0))
    out.append(("refused", "xlink", "t", "c", 0))
    for h in ("a", "d", "r", "s", "c"):
        out.append(("refused", "xcon", h))
        out.append(("refused", "xconstr", h))
        out.append(("refused", "xbounds", h, 1, 0))
        out.append(("refused", "xset", h, 6))
        out.append(("refused", "xsetstr", h))
        out.append(("refused", "xsetidx", h))
        out.append(("refused", "xfixval", h, 6))
        out.append(("refused", "xgrad", h, 6))
        out.append(("refused", "xupd", h))
        out.append(("refused", "xname", h, "50%"))
        out.append(("refused", "xname", h, ""))
        out.append(("refused", "xname", h, None))
        out.append(("refused", "xname", h, "1x"))
    out.append(("refused", "xattr", "r", "c", 6))
    out.append(("refused", "xattr", "s", "a", 6))
    out.append(("refused", "xbounds", "a", 2, 2))
    return out


def further():
    out = []
    for p, c in [("r", "c"), ("r", "s"), ("s", "t"), ("s", "a"), ("s", "d"), ("t", "d"), ("r", None), ("t", None)]:
        out += [("refused", "xlink_idx", p, c, i) for i in ("str", "float", "slice", "list")]
    out += [("refused", "xlink_none", p, i) for p in "rt" for i in (None, 0)]
    for h in "racs":
        out += [("refused", "xrand", h, k) for k in ("raise", "str", "obj", "kw", "mixed")]
        out += [("refused", "xoset", h, k) for k in ("str", "mixed", "obj")]
        out += [("refused", "xraw", h, k) for k in ("str", "obj", "shape")]
        out += [("refused", "xboundtype", h, k) for k in ("str", "none", "nan", "array", "one", "complex")]
        out += [("refused", "xconkw", h), ("refused", "xconclass", h), ("refused", "xiopmissing", h)]
        out += [("refused", "xcheck", h, k) for k in ("step", "type")]
        out += [("refused", "xobserver", h, k) for k in ("weak", "priority")]
        out += [("refused", "xcopy", h, k, what) for k in "acst" for what in ("copy", "deepcopy", "pickle", "file")]
    for h in "ac":
        out += [("refused", "xindex", h, what) for what in ("fix", "con", "set", "grad")]
    for h in "rs":
        out += [("refused", "xgrep", h), ("refused", "xindex", h, "set")] + [("refused", "xsel", h, what) for what in ("shape", "index", "word", "bounds", "con", "fix", "check", "add")]
    out += [("refused", "xopt", "r", k) for k in ("name", "start", "kw", "type")] + [("refused", "xrestarts", "r", k) for k in ("name", "count")] + [("refused", "xcopy", "r", "a", "restarts"), ("refused", "xcheck", "r", "target")]
    for h in "acst":
        out += [("refused", "xname", h, n) for n in (5, ("a",))]
    return out


VALID = [("link", "t", "d", None), ("link", "r", "d", 0), ("unlink", "r", "s"), ("unlink", "s", "a"), ("link", "t", "a", None),
         ("con", "s", "pos", None), ("unfix", "r"), ("fix", "a", None, ":1"), ("upd", "s", False), ("upd", "r", True),
         ("set", "r", None, ("r", 2.0)), ("con", "a", "b1", None), ("unlink", "s", "t")]


def systems():
    S = [TreeSystem("refused", CFG, refused() + VALID, ASPECTS), TreeSystem("further", CFG, further() + VALID, ASPECTS)]
    return {s.name: s for s in S}


def run(report):
    S = systems()
    explore(S["refused"], 4 if env.THOROUGH else 3, report)
    explore(S["further"], 3 if env.THOROUGH else 2, report)
