"""C19: a multi-parameter selection behaves as the flat concatenation of its members."""
import operator

import numpy as np

from mc import env, tree
from mc.canon import heap_key
from mc.explore import enumerate_cases, explore
from mc.report import Violation
from mc.tree import (EVENTS, TreeSystem, a_cons, a_isfixed, a_opt, a_structure, a_values, build_forest, fl, fmt, interior, rex_leaves,
                     rex_targets, same)
from mc.xform import TOK

LEVEL = "model_checking"

CFG = dict(
    leaves={"a": ((2,), [1.0, 2.0], None), "b": ((1,), [3.0], None), "c": ((2, 2), [-0.5, 0.0, 2.5, -3.5], None),
            "d": ((1, 2), [4.0, 5.0], "pos"), "e": ((1,), [6.0], None)},
    nodes={"r": "model", "s": "node", "t": "node", "u": "node"},
    links=[("r", "s"), ("s", "t"), ("t", "a"), ("s", "b"), ("r", "c"), ("r", "u"), ("u", "d"), ("u", "e")])

REX = ["", ".*[ac]$", "s", "u", ".*[be]$", ".*(t|a)", ".*[cd]", "(c|u).*", ".*s\\.t"]

INDEX = {":": slice(None), "0": 0, "-1": -1, "1:": slice(1, None), ":2": slice(None, 2), "::2": slice(None, None, 2), "::-1": slice(None, None, -1),
         "2:0:-1": slice(2, 0, -1), "[0]": [0], "[0,2]": [0, 2], "[2,0]": [2, 0], "[-1,0]": [-1, 0], "mask": "mask", "none": "none", "...": Ellipsis,
         "arr": np.array([1, 0]), "2": 2, "empty": slice(0, 0), "99": 99, "[0,99]": [0, 99]}
VALUES = ["2.5", "ramp", "list", "one", "self", "param", "bad", "word"]
IOPS = {"iadd": 1.5, "isub": 0.25, "imul": 2.0, "itruediv": 2.0, "ifloordiv": 2.0, "imod": 2.0, "ipow": 2.0}


def index_of(name, n):
    ix = INDEX[name]
    if isinstance(ix, str):
        m = np.zeros(n, bool)
        if ix == "mask":
            m[::2] = True
        return m
    return ix


def value_of(F, name, sel, ix, ref):
    """(value for the selection, value for a plain array)"""
    n = np.size(ref[ix])
    if name == "2.5":
        return 2.5, 2.5
    if name == "ramp":
        v = 1.5 + 0.25 * np.arange(n).reshape(np.shape(ref[ix]))
        return v, v
    if name == "list":
        v = (3.5 + 0.25 * np.arange(n)).reshape(np.shape(ref[ix])).tolist()
        return v, v
    if name == "one":
        return np.array([4.25]), np.array([4.25])
    if name == "self":
        return sel, ref.copy()
    if name == "param":
        return F.real["b"], np.array([F.ref["b"].val[0]])
    if name == "bad":
        return np.arange(97.0), np.arange(97.0)
    return "word", "word"


def write(F, leaves, vals):
    k = 0
    for l in leaves:
        for i in range(len(l.val)):
            l.val[i] = float(vals[k])
            k += 1


def check_events(F, leaves):
    back = {id(o): i for i, o in F.real.items()}
    last = {}
    for p, (o, vals) in enumerate(EVENTS):
        last[back.get(id(o))] = (p, vals)
    for l in leaves:
        for n in l.path()[1:]:
            if n.id not in last:
                raise Violation("%s was not re-evaluated (only %s)" % (n.id, sorted(last)), "missing")
            if not same(list(last[n.id][1]), [x.val[j] for x, j in n.elems()]):
                raise Violation("%s was last evaluated at %s" % (n.id, last[n.id][1]), "stale")
            if n.parent is not None and last[n.parent.id][0] < last[n.id][0]:
                raise Violation("%s was evaluated before its child %s" % (n.parent.id, n.id), "order")


def agree(F, rex, sel, leaves):
    want = [v for l in leaves for v in l.val]
    if not same(fl(sel.values()), want):
        raise Violation("the selection %r has the values %s, expected %s" % (rex, fmt(fl(sel.values())), fmt(want)), "values")


def aspects(F):
    for a in (a_structure, a_values, a_cons, a_isfixed, a_opt):
        a(F)


def do_set(F, rex, sel, ixn, valn):
    leaves = rex_leaves(F, "r", rex)
    ref = np.array([v for l in leaves for v in l.val])
    ix = index_of(ixn, ref.size)
    err = None
    try:
        v, pv = value_of(F, valn, sel, ix, ref)
    except IndexError:
        v = pv = 2.5
    new = ref.copy()
    try:
        new[ix] = pv
    except Exception as e:
        err = e
    if err is None and not all(interior(l.tok[i], x) for (l, i), x in zip([(l, i) for l in leaves for i in range(len(l.val))], new)):
        return None
    del EVENTS[:]
    try:
        sel[ix] = v
        got = None
    except Exception as e:
        got = e
    if (err is None) != (got is None):
        raise Violation("sel[%s] = %s raised %r, an array raises %r" % (ixn, valn, got, err), "raise")
    if err is None:
        write(F, leaves, new)
        check_events(F, leaves)
    return err is None


def do_iop(F, rex, sel, name, arr):
    leaves = rex_leaves(F, "r", rex)
    ref = np.array([v for l in leaves for v in l.val])
    v = IOPS[name] * (np.ones(ref.size) if arr else 1.0)
    new = getattr(operator, name)(ref.copy(), v)
    if not all(interior(l.tok[i], x) for (l, i), x in zip([(l, i) for l in leaves for i in range(len(l.val))], new)):
        return None
    del EVENTS[:]
    r = getattr(operator, name)(sel, v)
    write(F, leaves, new)
    check_events(F, leaves)
    return r


def single(case):
    rex, kind, a, b = case
    F = build_forest(CFG)
    leaves = rex_leaves(F, "r", rex)
    n = sum(len(l.val) for l in leaves)
    if len(rex_targets(F, "r", rex)) < 2:
        return None
    sel = F.real["r"][rex]
    ref = np.array([v for l in leaves for v in l.val])
    if kind == "set":
        if do_set(F, rex, sel, a, b) is None:
            return None
        agree(F, rex, sel, leaves)
        aspects(F)
        do_set(F, rex, sel, "0", "2.5")      # and once more through the same selection
        agree(F, rex, sel, leaves)
    elif kind == "get":
        ix = index_of(a, n)
        try:
            want = ref[ix]
        except Exception:
            want = None
        try:
            got = sel[ix]
        except Exception as e:
            if want is not None:
                raise Violation("sel[%s] raised %r" % (a, e), "get")
            return case
        if want is None:
            raise Violation("sel[%s] did not raise" % a, "get")
        got = got.values() if hasattr(got, "values") else got
        if np.shape(got) != np.shape(want) or not same(fl(got), fl(want)):
            raise Violation("sel[%s] is %r, expected %r" % (a, got, want), "get")
    elif kind == "cmp":
        v = {"s": 2.5, "a": ref + np.arange(n) % 2}[b]
        want = getattr(operator, a)(ref, v)
        got = getattr(operator, a)(sel, v)
        if np.shape(got) != np.shape(want) or not np.array_equal(got, want):
            raise Violation("sel %s is %r, expected %r" % (a, got, want), "cmp")
    elif kind in ("iop", "iopset"):
        arr = b == "a"
        if kind == "iop":
            r = do_iop(F, rex, sel, a, arr)
            if r is None:
                return None
            for h in (sel, r):
                agree(F, rex, h, leaves)
                aspects(F)
                do_set(F, rex, h, "1:", "2.5")
        else:
            v = IOPS[a] * (np.ones(n) if arr else 1.0)
            new = getattr(operator, a)(ref.copy(), v)
            if not all(interior(l.tok[i], x) for (l, i), x in zip([(l, i) for l in leaves for i in range(len(l.val))], new)):
                return None
            m = F.real["r"]
            m[rex] = getattr(operator, a)(m[rex], v)     # what `m[rex] += v` does
            write(F, leaves, new)
    elif kind == "setre":
        # assignment to the name
        v = {"s": 2.25, "a": 1.0 + 0.5 * np.arange(n), "sel": sel}[a]
        del EVENTS[:]
        F.real["r"][rex] = v
        new = ref.copy()
        new[:] = ref if a == "sel" else v
        write(F, leaves, new)
        check_events(F, leaves)
    aspects(F)
    agree(F, rex, sel, leaves)
    agree(F, rex, F.real["r"][rex], leaves)
    return case


class Selections(TreeSystem):
    """histories of operations on selections which are kept, mixed with operations on their members"""

    def build(self):
        F = build_forest(CFG)
        F.sel = {}
        for r in self.rexes:
            F.sel[r] = F.real["r"][r]
        del EVENTS[:]
        return F

    def ops(self, F):
        out = [op for op in self.alphabet if op[0] not in ("ssel", "isel", "csel") and (op[0].endswith("sel") or tree.enabled(F, op))]
        for op in self.alphabet:
            if op[0] == "csel":
                els = [(l, i) for l in rex_leaves(F, "r", op[1]) for i in range(len(l.val))]
                if all(interior(op[2], l.val[i]) or not TOK[op[2]].dom(l.val[i]) for l, i in els):
                    out.append(op)
            elif op[0] in ("ssel", "isel"):
                leaves = rex_leaves(F, "r", op[1])
                new = np.array([v for l in leaves for v in l.val])
                if op[0] == "ssel":
                    new[index_of(op[2], new.size)] = 2.5 if op[3] == "2.5" else 1.5
                else:
                    new = getattr(operator, op[2])(new, IOPS[op[2]])
                if all(interior(l.tok[i], x) for (l, i), x in zip([(l, i) for l in leaves for i in range(len(l.val))], new)):
                    out.append(op)
        return out

    def apply(self, F, op):
        k = op[0]
        if not k.endswith("sel"):
            return TreeSystem.apply(self, F, op)
        sel = F.sel[op[1]]
        leaves = rex_leaves(F, "r", op[1])
        els = [(l, i) for l in leaves for i in range(len(l.val))]
        del EVENTS[:]
        if k == "ssel":
            do_set(F, op[1], sel, op[2], op[3])
        elif k == "isel":
            F.sel[op[1]] = do_iop(F, op[1], sel, op[2], False)
        elif k == "csel":
            tok = op[2]
            if op[3] == "named":
                {"pos": lambda: sel.constrain_positive(warning=False), "neg": lambda: sel.constrain_negative(warning=False),
                 "b10": lambda: sel.constrain_bounded(0, 10, warning=False)}[tok]()
            else:
                sel.constrain(TOK[tok].make(), warning=False)
            for l, i in els:
                l.tok[i] = tok
                l.fix[i] = False
                if not TOK[tok].dom(l.val[i]):
                    v = float(F.real[l.id].values.flat[i])
                    if not interior(tok, v):
                        raise Violation("value %r was moved to %r, not inside of %s" % (l.val[i], v, tok), "project")
                    l.val[i] = v
            check_events(F, leaves)
        elif k == "fsel":
            if op[2] is None:
                sel.fix(warning=False)
            else:
                sel.fix(op[2], warning=False)
            for l, i in els:
                l.fix[i] = True
                if op[2] is not None:
                    l.val[i] = op[2]
            if op[2] is not None:
                check_events(F, leaves)
        elif k == "xsel":
            (sel.unfix if op[2] else sel.unconstrain_fixed)()
            for l, i in els:
                l.fix[i] = False
        elif k == "usel":
            if op[2] is None:
                sel.unconstrain()
            elif op[3]:
                {"pos": sel.unconstrain_positive, "neg": sel.unconstrain_negative, "b10": lambda: sel.unconstrain_bounded(0, 10)}[op[2]]()
            else:
                sel.unconstrain(TOK[op[2]].make())
            for l, i in els:
                if op[2] is None:
                    l.tok[i] = None
                    l.fix[i] = False
                elif l.tok[i] == op[2]:
                    l.tok[i] = None
        elif k == "rsel":
            str(sel), repr(sel), sel.values(), sel == 1.0
            if EVENTS:
                raise Violation("reading re-evaluated something", "extra")
        del EVENTS[:]

    def key(self, F):
        return heap_key([F.real[k] for k in sorted(F.real)] + [sorted(F.sel.items())] + env.registered())

    def check(self, F):
        aspects(F)
        for r in self.rexes:
            agree(F, r, F.sel[r], rex_leaves(F, "r", r))
        # every selection still assigns, everything is seen everywhere
        for n, r in enumerate(self.rexes):
            els = [(l, i) for l in rex_leaves(F, "r", r) for i in range(len(l.val))]
            x = {None: 1.5, "pos": 1.5, "exp": 1.5, "sq": 1.5, "neg": -1.5, "nexp": -1.5, "b10": 1.5, "b1": 0.5}
            F.sel[r][:] = np.array([x[l.tok[i]] + 0.01 * n for l, i in els])
            for l, i in els:
                l.val[i] = x[l.tok[i]] + 0.01 * n
            a_values(F)


def systems():
    S = {}
    for name, rexes in (("sel", ["", ".*[ac]$", "u.*"]), ("sel2", ["s", ".*(t|a)", ".*[cd]"])):
        alpha = []
        for r in rexes:
            alpha += [("ssel", r, ":", "2.5"), ("ssel", r, "1:", "2.5"), ("ssel", r, "::2", "1.5"), ("isel", r, "iadd"), ("isel", r, "imul"),
                      ("fsel", r, None), ("fsel", r, 1.25), ("xsel", r, True), ("usel", r, None, False), ("usel", r, "pos", True), ("rsel", r)]
            for t in ("pos", "b10"):
                alpha.append(("csel", r, t, "named" if t == "b10" else "obj"))
        alpha += [("csel", rexes[1], "pos", "named"), ("csel", rexes[1], "exp", "obj"), ("csel", rexes[2], "neg", "named"), ("usel", rexes[1], "b10", False),
                  ("usel", rexes[2], "b10", True), ("usel", rexes[2], "neg", True), ("xsel", rexes[2], False)]
        alpha += [("set", "a", ":1", 2.75), ("set", "r", None, 0.75), ("fix", "c", None, "0,:"), ("unfix", "c", None), ("con", "u", "pos"),
                  ("upd", "r", True), ("oset", "r", ("r", 0.25))]
        S[name] = Selections(name, CFG, alpha, [])
        S[name].rexes = rexes
    return S


def case_functions():
    return {"single": single}


def cases():
    for r in REX:
        for ix in INDEX:
            yield (r, "get", ix, None)
            for v in VALUES:
                yield (r, "set", ix, v)
        for c in ("eq", "ne", "lt", "le", "gt", "ge"):
            for v in "sa":
                yield (r, "cmp", c, v)
        for o in IOPS:
            for v in "sa":
                yield (r, "iop", o, v)
                yield (r, "iopset", o, v)
        for v in ("s", "a", "sel"):
            yield (r, "setre", v, None)


def run(report):
    enumerate_cases("single", single, list(cases()), report)
    S = systems()
    explore(S["sel"], 3 if env.THOROUGH else 2, report)
    explore(S["sel2"], 4 if env.THOROUGH else 2, report)
