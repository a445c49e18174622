"""Reference model of a forest of nodes and leaves, and the operations that
drive the real objects and the reference in lock step."""
import copy
import io
import pickle

import numpy as np

from . import env
from .canon import heap_key
from .explore import System
from .report import Violation
from .stub import Scripted
from .xform import TOK, close, interior, token_of

import paramz
from paramz import Model, Param, Parameterized
from paramz.core import HierarchyError

EVENTS = []


class Node(Parameterized):
    def parameters_changed(self):
        EVENTS.append((self, tuple(float(v) for p in self.flattened_parameters for v in p.values.flat)))


class Root(Model):
    def parameters_changed(self):
        EVENTS.append((self, tuple(float(v) for p in self.flattened_parameters for v in p.values.flat)))

    def objective_function(self):
        return float(sum(p.values.sum() for p in self.flattened_parameters))


KINDS = {"node": Node, "model": Root}

# index expressions by name
IDX = {
    None: None,
    "0": 0, "-1": -1, "1": 1,
    ":1": slice(0, 1), "1:": slice(1, None), "::2": slice(None, None, 2), "::-1": slice(None, None, -1),
    "[0]": [0], "[1]": [1], "[1,0]": [1, 0], "m0": None, "...": Ellipsis,
    "0,:": (0, slice(None)), ":,1": (slice(None), 1), "1,1": (1, 1), ":,[0]": (slice(None), [0]),
    "[0,1],[1,0]": ([0, 1], [1, 0]),
}


def idx_of(name, shape):
    if name == "m0":       # boolean mask: every second element
        m = np.zeros(shape, dtype=bool)
        m.flat[::2] = True
        return m
    return IDX[name]


def positions(name, shape):
    n = int(np.prod(shape))
    if name is None:
        return list(range(n))
    return [int(i) for i in np.atleast_1d(np.arange(n).reshape(shape)[idx_of(name, shape)]).ravel()]


class RNode(object):
    """reference node or leaf"""

    def __init__(self, id, kind, name, shape=None, val=None, grad=None, tok=None):
        self.id = id
        self.kind = kind
        self.name = name
        self.parent = None
        self.children = []
        self.upd = True
        if kind == "leaf":
            self.shape = shape
            n = int(np.prod(shape))
            self.val = [float(v) for v in val]
            self.grad = [float(v) for v in grad]
            self.tok = [tok] * n
            self.fix = [False] * n

    def leaves(self):
        if self.kind == "leaf":
            return [self]
        return [l for c in self.children for l in c.leaves()]

    def elems(self):
        return [(l, i) for l in self.leaves() for i in range(len(l.val))]

    @property
    def size(self):
        return sum(len(l.val) for l in self.leaves())

    def root(self):
        n = self
        while n.parent is not None:
            n = n.parent
        return n

    def path(self):
        out = []
        n = self
        while n is not None:
            out.append(n)
            n = n.parent
        return out

    def subtree(self):
        out = [self]
        for c in self.children:
            out.extend(c.subtree())
        return out

    def is_fixed(self):
        return all(l.fix[i] for l, i in self.elems())

    def free(self):
        return [(l, i) for l, i in self.elems() if not l.fix[i]]

    def optvec(self):
        return [l.val[i] if l.tok[i] is None else TOK[l.tok[i]].finv(l.val[i]) for l, i in self.free()]


class Forest(object):
    """the pair (real objects, reference)"""

    def __init__(self):
        self.real = {}
        self.ref = {}
        self.events = []
        self.kept = []

    def roots(self):
        return [self.ref[k] for k in sorted(self.ref) if self.ref[k].parent is None]


def build_forest(cfg):
    """cfg: dict(leaves={id:(shape, values, default token)}, nodes={id:kind},
    links=[(p,c),...], names={id:name})"""
    if cfg.get("fresh", True):
        env.fresh()
    F = Forest()
    names = cfg.get("names", {})
    for id, (shape, vals, tok) in sorted(cfg["leaves"].items()):
        nm = names.get(id, id)
        arr = np.array(vals, dtype=float).reshape(shape)
        real = cfg.get("param", Param)(nm, arr, TOK[tok].make() if tok else None)
        g = [100.0 + 10 * (ord(id[0]) - 97) + i for i in range(arr.size)]
        real.gradient = np.array(g).reshape(shape)
        F.real[id] = real
        F.ref[id] = RNode(id, "leaf", nm, shape, real.values.flat if tok else arr.flat, g, tok)
    for id, kind in sorted(cfg["nodes"].items()):
        nm = names.get(id, id)
        F.real[id] = cfg.get("kinds", KINDS)[kind](nm)
        F.ref[id] = RNode(id, kind, nm)
    for p, c in cfg["links"]:
        F.real[p].link_parameter(F.real[c])
        F.ref[c].parent = F.ref[p]
        F.ref[p].children.append(F.ref[c])
    for op in cfg.get("setup", ()):
        OPS[op[0]](F, *op[1:])
    del EVENTS[:]
    return F


# --------------------------------------------------------------------- operations
def vals_for(spec, n):
    """a float is a scalar, a ('r', base) is a ramp of distinct values"""
    if isinstance(spec, (tuple, list)):
        base = float(spec[1])
        return [base + 0.25 * i for i in range(n)]
    return [float(spec)] * n


def can_assign(elems, vals):
    return all(interior(l.tok[i], v) for (l, i), v in zip(elems, vals))


def can_link(F, p, c, index):
    """legal link: 'append', 'move' (same parent, index given), 'transfer' from another tree; None if refused"""
    P, C = F.ref[p], F.ref[c]
    if P.kind == "leaf":
        return None
    if P in C.subtree():
        return None
    if C.parent is P:
        return "move" if index is not None else None
    if C.parent is not None:
        if C.root() is P.root():
            return None
        return "transfer"
    return "append"


def op_link(F, p, c, index):
    P, C = F.ref[p], F.ref[c]
    if index is None:
        F.real[p].link_parameter(F.real[c])
    else:
        F.real[p].link_parameter(F.real[c], index)
    if C.parent is not None:
        C.parent.children.remove(C)
    C.parent = P
    if index is None:
        P.children.append(C)
    else:
        P.children.insert(index, C)


def op_unlink(F, p, c):
    P, C = F.ref[p], F.ref[c]
    F.real[p].unlink_parameter(F.real[c])
    P.children.remove(C)
    C.parent = None


def target_elems(F, h, ix):
    R = F.ref[h]
    if selects(ix):
        return [(l, i) for l in rex_leaves(F, h, ix[1:]) for i in range(len(l.val))]
    if R.kind == "leaf":
        return [(R, i) for i in positions(ix, R.shape)]
    return R.elems()


def real_handle(F, h, ix):
    o = F.real[h]
    if ix is None:
        return o
    if selects(ix):
        return o[ix[1:]]
    return o[idx_of(ix, F.ref[h].shape)]


def selects(ix):
    """whether the place is a selection by regular expression below the handle"""
    return isinstance(ix, str) and ix.startswith("~")


def op_set(F, h, ix, spec):
    els = target_elems(F, h, ix)
    vals = vals_for(spec, len(els))
    o = F.real[h]
    if F.ref[h].kind == "leaf":
        shape = F.ref[h].shape
        key = slice(None) if ix is None else idx_of(ix, shape)
        if isinstance(spec, (tuple, list)):
            sel = np.arange(int(np.prod(shape))).reshape(shape)[key]
            v = np.array(vals).reshape(np.shape(sel))
        else:
            v = float(spec)
        o[key] = v
    else:
        o[:] = np.array(vals) if isinstance(spec, (tuple, list)) else float(spec)
    for (l, i), v in zip(els, vals):
        l.val[i] = v


def op_raw(F, h, spec):
    """write the flat array in memory, without notification"""
    els = F.ref[h].elems()
    vals = vals_for(spec, len(els))
    o = F.real[h]
    if F.ref[h].kind == "leaf":
        o.values[...] = np.array(vals).reshape(F.ref[h].shape)
    else:
        o.param_array[:] = np.array(vals)
    for (l, i), v in zip(els, vals):
        l.val[i] = v


def op_con(F, h, tok, ix=None):
    o = real_handle(F, h, ix)
    els = target_elems(F, h, ix)
    if tok == "pos":
        o.constrain_positive(warning=False)
    elif tok == "neg":
        o.constrain_negative(warning=False)
    elif tok == "b10":
        o.constrain_bounded(0, 10, warning=False)
    else:
        o.constrain(TOK[tok].make(), warning=False)
    for l, i in els:
        l.tok[i] = tok
        l.fix[i] = False
        if not TOK[tok].dom(l.val[i]):
            v = float(F.real[l.id].values.flat[i])
            if not interior(tok, v):
                raise Violation("constraining %s%s to %s: value %r outside the domain was moved to %r, which is not inside the domain"
                                % (h, "" if ix is None else "[%s]" % ix, tok, l.val[i], v), "project")
            l.val[i] = v


def op_unc(F, h, tok, ix=None):
    o = real_handle(F, h, ix)
    els = target_elems(F, h, ix)
    if tok is None:
        got = o.unconstrain()
        want = [(l, i) for l, i in els if l.tok[i] is not None or l.fix[i]]
    elif isinstance(tok, tuple):     # several at once; "fixed" is one of them
        from paramz.transformations import __fixed__
        got = o.unconstrain(*[__fixed__ if t == "fixed" else TOK[t].make() for t in tok])
        want = [(l, i) for l, i in els if l.tok[i] in tok or (l.fix[i] and "fixed" in tok)]
    else:
        if tok == "pos":
            got = o.unconstrain_positive()
        elif tok == "neg":
            got = o.unconstrain_negative()
        elif tok == "b10":
            got = o.unconstrain_bounded(0, 10)
        else:
            got = o.unconstrain(TOK[tok].make())
        want = [(l, i) for l, i in els if l.tok[i] == tok]
    if got is not None and not selects(ix):
        base = F.ref[h].elems()
        ws = sorted(set(base.index(e) for e in want))
        if sorted(int(g) for g in got) != ws:
            raise Violation("unconstrain(%s) on %s%s reported freed elements %s, expected %s"
                            % (tok or "", h, "" if ix is None else "[%s]" % ix, sorted(int(g) for g in got), ws), "freed")
    for l, i in els:
        if tok is None:
            l.tok[i] = None
            l.fix[i] = False
        elif isinstance(tok, tuple):
            l.fix[i] = l.fix[i] and "fixed" not in tok
            l.tok[i] = None if l.tok[i] in tok else l.tok[i]
        elif l.tok[i] == tok:
            l.tok[i] = None


def op_fix(F, h, v=None, ix=None):
    o = real_handle(F, h, ix)
    els = target_elems(F, h, ix)
    if v is None:
        o.fix(warning=False)
    else:
        o.fix(v, warning=False)
    for l, i in els:
        l.fix[i] = True
        if v is not None:
            l.val[i] = float(v)


def op_unfix(F, h, ix=None):
    o = real_handle(F, h, ix)
    els = target_elems(F, h, ix)
    got = o.unfix()
    if got is not None and not selects(ix):
        base = F.ref[h].elems()
        ws = sorted(set(base.index(e) for e in els if e[0].fix[e[1]]))
        if sorted(int(g) for g in got) != ws:
            raise Violation("unfix on %s%s reported freed elements %s, expected %s"
                            % (h, "" if ix is None else "[%s]" % ix, sorted(int(g) for g in got), ws), "freed")
    for l, i in els:
        l.fix[i] = False


def optvec_vals(F, h, spec):
    fr = F.ref[h].free()
    return vals_for(spec, len(fr))


def apply_optvec(R, x):
    for (l, i), v in zip(R.free(), x):
        l.val[i] = float(v) if l.tok[i] is None else TOK[l.tok[i]].f(float(v))


def op_oset(F, h, spec):
    R = F.ref[h]
    x = optvec_vals(F, h, spec)
    F.real[h].optimizer_array = np.array(x)
    apply_optvec(R, x)


def op_orst(F, h):
    """write back what was read"""
    x = F.real[h].optimizer_array
    F.real[h].optimizer_array = x


def op_rand(F, h, spec):
    R = F.ref[h]
    x = optvec_vals(F, h, spec)

    def gen(size=None):
        n = int(size) if not isinstance(size, tuple) else int(np.prod(size))
        if n != len(x):
            raise Violation("randomize asked for %d numbers, %d parameters are free" % (n, len(x)), "randsize")
        return np.array(x)

    F.real[h].randomize(gen)
    apply_optvec(R, x)


def op_optimize(F, h, spec):
    """an optimization which evaluates twice and reports the vector of spec"""
    R = F.ref[h]
    x = optvec_vals(F, h, spec)

    def script(opt, x0, f_fp, f, fp):
        check_handed(F, h, x0, f_fp(np.array(x0)))
        f(np.array(x0) + 0.125)
        opt.x_opt = np.array(x)
        opt.f_opt = 0.0

    F.real[h].optimize(optimizer=Scripted(script))
    for n in R.root().subtree():
        n.upd = True
    apply_optvec(R, x)


def check_handed(F, h, x0, got):
    """the start vector and the gradient handed to an optimizer"""
    R = F.ref[h]
    want = R.optvec()
    if not same(fl(x0), want, 1e-7):
        raise Violation("the optimizer of %s started at %s, expected %s" % (h, fmt(fl(x0)), fmt(want)), "optstart")
    g = [l.grad[i] if l.tok[i] is None else l.grad[i] * TOK[l.tok[i]].dfdx(l.val[i]) for l, i in R.free()]
    if not same(fl(got[1]), g, 1e-7):
        raise Violation("the optimizer of %s was given the gradient %s, expected %s" % (h, fmt(fl(got[1])), fmt(g)), "optgrad")


def op_grad(F, h, base):
    els = F.ref[h].elems()
    vals = [float(base) + i for i in range(len(els))]
    o = F.real[h]
    if F.ref[h].kind == "leaf":
        o.gradient = np.array(vals).reshape(F.ref[h].shape)
    else:
        o.gradient = np.array(vals)
    for (l, i), v in zip(els, vals):
        l.grad[i] = v


def op_upd(F, h, on):
    F.real[h].update_model(on)
    for n in F.ref[h].root().subtree():
        n.upd = on


def op_read(F, h, what):
    o = F.real[h]
    if what == "opt":
        o.optimizer_array
    elif what == "str":
        str(o)
    elif what == "grad":
        o.gradient
    elif what == "parr":
        o.param_array
    elif what == "html":
        o._repr_html_()
    elif what == "repr":
        repr(o)
    elif what == "names":
        o.parameter_names(), o.parameter_names_flat() if F.ref[h].kind != "leaf" else None
    elif what == "all":
        str(o), o.gradient, o.param_array, o.optimizer_array, o.is_fixed, o.num_params
    else:
        raise KeyError(what)


def op_attr(F, p, c, spec):
    """assignment to the attribute of the parent"""
    els = F.ref[c].elems()
    vals = vals_for(spec, len(els))
    v = np.array(vals).reshape(F.ref[c].shape) if F.ref[c].kind == "leaf" else np.array(vals)
    setattr(F.real[p], F.ref[c].name, v if isinstance(spec, (tuple, list)) else float(spec))
    for (l, i), x in zip(els, vals):
        l.val[i] = x


def rex_targets(F, h, rex):
    """what a regular expression selects below h, in order (reference)"""
    import re
    pat = re.compile(rex)
    R = F.ref[h]
    return [n for n in R.subtree()[1:] if pat.match(hname(n).partition(".")[2])]


def rex_leaves(F, h, rex):
    out = []
    for n in rex_targets(F, h, rex):
        for l in n.leaves():
            if l not in out:
                out.append(l)
    return out


def op_rex(F, h, rex, spec):
    els = [(l, i) for l in rex_leaves(F, h, rex) for i in range(len(l.val))]
    vals = vals_for(spec, len(els))
    v = np.array(vals) if isinstance(spec, (tuple, list)) else float(spec)
    tg = rex_targets(F, h, rex)
    if len(tg) == 1 and tg[0].kind == "leaf" and isinstance(spec, (tuple, list)):
        v = v.reshape(tg[0].shape)
    F.real[h][rex] = v
    for (l, i), x in zip(els, vals):
        l.val[i] = x


def updates_of(F):
    return [(k, F.real[k].update_model()) for k in sorted(F.real)]


def op_refused(F, name, *args):
    """an operation which must be refused: raises, and changes nothing"""
    f = REFUSED[name]
    before = updates_of(F)
    try:
        f(F, *args)
    except Exception as e:
        if updates_of(F) != before:
            raise Violation("%s was refused, the updates are %s, they were %s" % (fmt_op((name,) + args), updates_of(F), before), "updates:" + name)
        F.kept.append(e)      # an interactive session keeps the last exception, and what it refers to, alive
        return
    raise Violation("%s was not refused" % fmt_op((name,) + args), "notrefused:" + name)


class Odd(object):
    pass


def _raises(size):
    raise KeyError("no numbers")


BADRAND = {"raise": {"rand_gen": _raises}, "str": {"rand_gen": lambda size: ["word"] * int(np.prod(size))}, "obj": {"rand_gen": lambda size: [Odd()] * int(np.prod(size))}, "kw": {"nonsense": 1}, "mixed": {"rand_gen": lambda size: [0.5] * (int(np.prod(size)) - 1) + [Odd()]}}


def selected(o, what):
    s = o[".*"]
    {"shape": lambda: s.__setitem__(slice(None), np.arange(97.0)), "index": lambda: s.__setitem__(99, 1.0), "word": lambda: s.__setitem__(slice(None), "word"), "bounds": lambda: s.constrain_bounded(1, 0), "con": lambda: s.constrain(Odd()),
     "fix": lambda: s.fix(np.arange(97.0)), "check": lambda: s.checkgrad(step="x"), "add": lambda: s.__iadd__(np.arange(97.0))}[what]()


class Uncopied(object):
    def __deepcopy__(self, memo):
        raise KeyError("not to be copied")

    def __reduce_ex__(self, protocol):
        raise KeyError("not to be pickled")


def uncopied(F, h, k, what):
    """some parameter below has an attribute which cannot be copied"""
    object.__setattr__(F.real[k], "_odd_", Uncopied())
    try:
        {"copy": lambda: F.real[h].copy(), "deepcopy": lambda: copy.deepcopy(F.real[h]), "pickle": lambda: pickle.dumps(F.real[h]), "file": lambda: F.real[h].pickle(io.BytesIO()),
         "restarts": lambda: F.real[h].optimize_restarts(2, parallel=True, num_processes=1, optimizer="scg", max_iters=2)}[what]()
    finally:
        object.__delattr__(F.real[k], "_odd_")


REFUSED = {
    "xlink": lambda F, p, c, i: F.real[p].link_parameter(F.real[c]) if i is None else F.real[p].link_parameter(F.real[c], i),
    "xunlink": lambda F, p, c: F.real[p].unlink_parameter(F.real[c]),
    "xunlink_odd": lambda F, p: F.real[p].unlink_parameter("nothing"),
    "xlink_odd": lambda F, p: F.real[p].link_parameter(Odd()),
    "xlink_badname": lambda F, p, i: F.real[p].link_parameter(Param("bad%name", [1., 2.]), i),
    "xlink_noncontig": lambda F, p, i: F.real[p].link_parameter(Param("nc", np.arange(6.).reshape(2, 3)).T, i),
    "xname": lambda F, h, n: setattr(F.real[h], "name", n),
    "xcon": lambda F, h: F.real[h].constrain(Odd()),
    "xconstr": lambda F, h: F.real[h].constrain("nonsense"),
    "xbounds": lambda F, h, lo, up: F.real[h].constrain_bounded(lo, up),
    "xset": lambda F, h, n: F.real[h].__setitem__(slice(None), np.arange(float(n))),
    "xsetstr": lambda F, h: F.real[h].__setitem__(slice(None), "word"),
    "xsetidx": lambda F, h: F.real[h].__setitem__((slice(None),) * 7, 1.0),
    "xfixval": lambda F, h, n: F.real[h].fix(np.arange(float(n))),
    "xgrad": lambda F, h, n: setattr(F.real[h], "gradient", np.arange(float(n))),
    "xget": lambda F, h: F.real[h]["no such name"],
    "xput": lambda F, h: F.real[h].__setitem__("no such name", 1.0),
    "xattr": lambda F, p, c, n: setattr(F.real[p], c, np.arange(float(n))),
    "xupd": lambda F, h: F.real[h].update_model("off"),
    "xlink_idx": lambda F, p, c, i: F.real[p].link_parameter(F.real[c] if c else Param("new", [1.0, 2.0]), {"str": "x", "float": 1.5, "slice": slice(0, 1), "list": [0]}[i]),
    "xlink_none": lambda F, p, i: F.real[p].link_parameter(None, i),
    "xrand": lambda F, h, how: F.real[h].randomize(**BADRAND[how]),
    "xoset": lambda F, h, how: setattr(F.real[h], "optimizer_array", {"str": ["word"] * F.ref[h].size, "mixed": [0.5] * (F.ref[h].size - 1) + ["word"], "obj": [Odd()] * F.ref[h].size}[how]),
    "xraw": lambda F, h, how: F.real[h].param_array.__setitem__(slice(None), {"str": "word", "obj": Odd(), "shape": np.ones((3, 2, 7))}[how]),
    "xopt": lambda F, h, how: F.real[h].optimize(**{"name": {"optimizer": "no such optimizer"}, "start": {"start": ["word"] * 3}, "kw": {"optimizer": "lbfgsb", "nonsense": 1}, "type": {"optimizer": Odd()}}[how]),
    "xrestarts": lambda F, h, how: F.real[h].optimize_restarts(**{"name": {"num_restarts": 2, "optimizer": "no such optimizer"}, "count": {"num_restarts": "x"}}[how]),
    "xboundtype": lambda F, h, how: F.real[h].constrain_bounded(*{"str": ("a", "b"), "none": (0, None), "nan": (0, float("nan")), "array": (np.zeros(2), np.ones(2)), "one": (1,), "complex": (0, 1j)}[how]),
    "xconkw": lambda F, h: F.real[h].constrain_positive(nonsense=1),
    "xconclass": lambda F, h: F.real[h].constrain(TOK["pos"].make().__class__),
    "xindex": lambda F, h, what: {"fix": lambda: F.real[h][99].fix(), "con": lambda: F.real[h][99:, 0, 0, 0].constrain_positive(), "set": lambda: F.real[h].__setitem__(99, 1.0), "grad": lambda: F.real[h].gradient.__setitem__(99, 1.0)}[what](),
    "xsel": lambda F, h, what: selected(F.real[h], what),
    "xcopy": lambda F, h, k, what: uncopied(F, h, k, what),
    "xgrep": lambda F, h: F.real[h]["("],
    "xcheck": lambda F, h, how: F.real[h].checkgrad(**{"target": {"target_param": "no such name"}, "step": {"step": "x"}, "type": {"target_param": Odd()}}[how]),
    "xobserver": lambda F, h, how: F.real[h].add_observer(*{"weak": (3, len), "priority": (F.real["r"], F.real["r"].update_model, "high")}[how]),
    "xiopmissing": lambda F, h: F.real[h].remove_index_operation("no such operation"),
    "xiop": lambda F, h: F.real[h].add_index_operation("constraints", None),
}


def refused_enabled(F, op):
    n = op[1]
    if n == "xlink":
        return can_link(F, op[2], op[3], op[4]) is None
    if n == "xunlink":
        return F.ref[op[3]].parent is not F.ref[op[2]]
    if n in ("xset", "xfixval", "xgrad"):
        return F.ref[op[2]].size not in (0, 1, op[3])
    if n in ("xsetstr", "xsetidx", "xraw", "xindex", "xconkw"):
        return F.ref[op[2]].size > 0
    if n == "xlink_idx":
        # also of those which are parameters of it already, to be moved
        return op[3] is None or F.ref[op[3]].parent is F.ref[op[2]] or can_link(F, op[2], op[3], 0) is not None
    if n in ("xrand", "xoset", "xopt", "xrestarts"):
        # (optimizing says that it switches updates on first)
        return len(F.ref[op[2]].free()) > 1 and (F.real[op[2]].update_model() or n not in ("xopt", "xrestarts"))
    if n == "xobserver" and op[3] == "priority":
        # (priorities can only be compared if there is another observer)
        return F.ref[op[2]].kind != "leaf" or F.ref[op[2]].parent is not None
    if n == "xsel":
        return len(F.ref[op[2]].leaves()) > 1
    if n == "xcheck":
        return F.ref[op[2]].size > 0
    if n == "xcopy":
        if op[4] == "restarts" and not F.real[op[2]].update_model():
            return False
        return any(x is F.ref[op[3]] for x in F.ref[op[2]].subtree())
    if n == "xname":
        # names only have to be usable as attributes once there is a parent
        return op[3] is None or F.ref[op[2]].parent is not None
    if n == "xattr":
        return F.ref[op[3]].parent is F.ref[op[2]] and F.ref[op[3]].size not in (0, 1, op[4])
    return True


OPS = {"attr": op_attr, "rex": op_rex, "refused": op_refused, "optimize": op_optimize, "link": op_link, "unlink": op_unlink, "set": op_set, "raw": op_raw, "con": op_con, "unc": op_unc,
       "fix": op_fix, "unfix": op_unfix, "oset": op_oset, "orst": op_orst, "rand": op_rand, "grad": op_grad,
       "upd": op_upd, "read": op_read}


# ----------------------------------------------------------------------- enabledness
def enabled(F, op):
    k = op[0]
    if k == "link":
        return can_link(F, op[1], op[2], op[3]) is not None
    if k == "unlink":
        return F.ref[op[2]].parent is F.ref[op[1]]
    if k in ("set",):
        els = target_elems(F, op[1], op[2])
        return bool(els) and can_assign(els, vals_for(op[3], len(els)))
    if k == "raw":
        els = F.ref[op[1]].elems()
        return bool(els) and can_assign(els, vals_for(op[2], len(els)))
    if k == "fix" and len(op) > 2 and op[2] is not None:
        els = target_elems(F, op[1], op[3] if len(op) > 3 else None)
        return bool(els) and can_assign(els, [op[2]] * len(els))
    if k == "con":
        els = target_elems(F, op[1], op[3] if len(op) > 3 else None)
        return all(interior(op[2], l.val[i]) or not TOK[op[2]].dom(l.val[i]) for l, i in els)
    if k in ("oset", "rand", "optimize"):
        R = F.ref[op[1]]
        fr = R.free()
        if not fr:
            return False
        return all(interior(l.tok[i], v if l.tok[i] is None else TOK[l.tok[i]].f(v))
                   for (l, i), v in zip(fr, vals_for(op[2], len(fr))))
    if k == "orst":
        return bool(F.ref[op[1]].free())
    if k == "refused":
        return refused_enabled(F, op)
    if k == "attr":
        els = F.ref[op[2]].elems()
        return F.ref[op[2]].parent is F.ref[op[1]] and bool(els) and can_assign(els, vals_for(op[3], len(els)))
    if k == "rex":
        els = [(l, i) for l in rex_leaves(F, op[1], op[2]) for i in range(len(l.val))]
        return bool(els) and can_assign(els, vals_for(op[3], len(els)))
    return True


# ------------------------------------------------------------------------- aspects
def fl(x):
    return [float(v) for v in np.asarray(x).ravel()]


def same(a, b, tol=1e-8):
    return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))


def fmt(xs):
    return "[" + ", ".join("%.10g" % x for x in xs) + "]"


def a_structure(F, ids=None):
    for id in sorted(ids or F.ref):
        R, o = F.ref[id], F.real[id]
        if R.kind != "leaf":
            kids = list(o.parameters)
            if len(kids) != len(R.children) or any(k is not F.real[c.id] for k, c in zip(kids, R.children)):
                raise Violation("parameters of %s are %s, expected %s" % (
                    id, [getattr(k, "name", k) for k in kids], [c.id for c in R.children]), "structure")
            if o.num_params != len(R.children):
                raise Violation("num_params of %s is %r, expected %d" % (id, o.num_params, len(R.children)), "structure")
            fp = list(o.flattened_parameters)
            want = R.leaves()
            if len(fp) != len(want) or any(k is not F.real[c.id] for k, c in zip(fp, want)):
                raise Violation("leaves below %s are wrong" % id, "structure")
        if int(o.size) != R.size:
            raise Violation("size of %s is %r, expected %d" % (id, o.size, R.size), "size")
        if bool(o.has_parent()) != (R.parent is not None):
            raise Violation("%s.has_parent() is %r, expected %r" % (id, o.has_parent(), R.parent is not None), "parent")
        if R.parent is not None and o._parent_ is not F.real[R.parent.id]:
            raise Violation("%s has the wrong parent" % id, "parent")


def a_values(F, ids=None):
    for id in sorted(ids or F.ref):
        R, o = F.ref[id], F.real[id]
        want = [l.val[i] for l, i in R.elems()]
        if R.kind == "leaf":
            if tuple(o.shape) != tuple(R.shape):
                raise Violation("shape of %s is %s" % (id, o.shape), "values")
            if not same(fl(o.values), want):
                raise Violation("values of %s are %s, expected %s" % (id, fmt(fl(o.values)), fmt(want)), "values")
        else:
            if not same(fl(o.param_array), want):
                raise Violation("param_array of %s is %s, expected %s" % (id, fmt(fl(o.param_array)), fmt(want)), "values")
            if want and not same(fl(o[:]), want):
                raise Violation("%s[:] is %s, expected %s" % (id, fmt(fl(o[:])), fmt(want)), "values")


def a_grads(F, ids=None):
    for id in sorted(ids or F.ref):
        R, o = F.ref[id], F.real[id]
        want = [l.grad[i] for l, i in R.elems()]
        if not same(fl(o.gradient), want):
            raise Violation("gradient of %s is %s, expected %s" % (id, fmt(fl(o.gradient)), fmt(want)), "grads")


def cons_of(o, n, what):
    """per element: (token, fixed) from the items of the constraints"""
    tok = [None] * n
    fix = [False] * n
    for t, ind in o.constraints.items():
        t = token_of(t)
        ind = [int(i) for i in ind]
        if sorted(set(ind)) != sorted(ind) or any(i < 0 or i >= n for i in ind):
            raise Violation("constraint %s of %s has the indices %s (size %d)" % (t, what, ind, n), "cons")
        for i in ind:
            if t == "fixed":
                fix[i] = True
            else:
                if tok[i] is not None:
                    raise Violation("element %d of %s carries two transformations: %s and %s" % (i, what, tok[i], t), "cons")
                tok[i] = t
    return tok, fix


def a_cons(F, ids=None, props_for=True):
    for id in sorted(ids or F.ref):
        R, o = F.ref[id], F.real[id]
        n = R.size
        tok, fix = cons_of(o, n, id)
        wt = [l.tok[i] for l, i in R.elems()]
        wf = [l.fix[i] for l, i in R.elems()]
        if tok != wt:
            raise Violation("constraints at %s are %s, expected %s" % (id, tok, wt), "cons")
        if fix != wf:
            raise Violation("fixed elements at %s are %s, expected %s" % (id, fix, wf), "fixes")
        if props_for and n:
            pf = o.constraints.properties_for(np.arange(n))
            for i in range(n):
                got = sorted(token_of(t) for t in pf[i])
                want = sorted([t for t in [wt[i]] if t] + (["fixed"] if wf[i] else []))
                if got != want:
                    raise Violation("properties of element %d of %s are %s, expected %s" % (i, id, got, want), "cons")


def a_isfixed(F, ids=None):
    for id in sorted(ids or F.ref):
        R, o = F.ref[id], F.real[id]
        if bool(o.is_fixed) != R.is_fixed():
            raise Violation("%s.is_fixed is %r, expected %r" % (id, o.is_fixed, R.is_fixed()), "isfixed")


def a_opt(F, ids=None):
    for id in sorted(ids or F.ref):
        R, o = F.ref[id], F.real[id]
        want = R.optvec()
        got = fl(o.optimizer_array)
        if not same(got, want, 1e-7):
            raise Violation("optimizer_array of %s is %s, expected %s" % (id, fmt(got), fmt(want)), "opt")
        want = [l.val[i] for l, i in R.elems() if not l.fix[i]]
        got = o.unfixed_param_array
        if got is None or not same(fl(got), want):
            raise Violation("unfixed_param_array of %s is %s, expected %s" % (id, got if got is None else fmt(fl(got)), fmt(want)), "unfixed")


def a_freenames(F, ids=None):
    """flat names of the free parameters have one entry per free element, pointing to it"""
    for id in sorted(ids or F.ref):
        R, o = F.ref[id], F.real[id]
        if R.kind == "leaf" or R.size == 0:
            continue
        for inc in (False, True):
            got = [str(s) for s in o.parameter_names_flat(include_fixed=inc)]
            want = flat_names(R, inc)
            if got != want:
                raise Violation("parameter_names_flat(include_fixed=%s) of %s is %s, expected %s" % (inc, id, got, want), "flatnames")


def hname(R):
    return ".".join(n.name for n in reversed(R.path()))


def flat_names(R, include_fixed):
    out = []
    for l in R.leaves():
        for i in range(len(l.val)):
            if l.fix[i] and not include_fixed:
                continue
            nm = hname(l)
            if len(l.val) > 1:
                ix = np.unravel_index(i, l.shape)
                nm += "[%s]" % str(np.array(ix))
            out.append(nm)
    return out


def a_coherent(F, ids=None):
    """destructive: every handle of a tree sees writes through every other one;
    disconnected trees are untouched"""
    base = 1000.0
    order = sorted(ids or F.ref)
    for which in ("val", "grad"):
        for id in order:
            R, o = F.ref[id], F.real[id]
            n = R.size
            if not n:
                continue
            base += 50.0
            new = [base + 0.5 * i for i in range(n)]
            if which == "val":
                if R.kind == "leaf":
                    o.values[...] = np.array(new).reshape(R.shape)
                else:
                    o.param_array[:] = new
            else:
                if R.kind == "leaf":
                    o.gradient[...] = np.array(new).reshape(R.shape)
                else:
                    o.gradient[:] = new
            for (l, i), v in zip(R.elems(), new):
                getattr(l, which)[i] = v
            try:
                (a_values if which == "val" else a_grads)(F, ids)
            except Violation as v:
                raise Violation("after writing the %s of %s: %s" % ("values" if which == "val" else "gradient", id, v.msg), "alias")


def a_usable(F, ids=None):
    """destructive: each tree still reacts to an assignment at its root and leaves"""
    for R in F.roots():
        if R.kind == "leaf" or not R.size:
            continue
        o = F.real[R.id]
        vals = []
        for l, i in R.elems():
            v = {None: 1.5, "pos": 1.5, "exp": 1.5, "sq": 1.5, "neg": -1.5, "nexp": -1.5, "b10": 1.5, "b1": 0.5}[l.tok[i]]
            vals.append(v)
        o[:] = np.array(vals)
        for (l, i), v in zip(R.elems(), vals):
            l.val[i] = v
    a_values(F)
    a_opt(F)


def a_optgrad(F, ids=None):
    """what an optimizer run on each model at the top is given"""
    for R in F.roots():
        if R.kind != "model" or not R.free():
            continue
        seen = []

        def script(opt, x0, f_fp, f, fp):
            check_handed(F, R.id, x0, f_fp(np.array(x0)))
            seen.append(fl(fp(np.array(x0))))
            opt.x_opt = np.array(x0)
            opt.f_opt = 0.0

        fixed = [float(F.real[l.id].values.flat[i]) for l, i in R.elems() if l.fix[i]]
        F.real[R.id].optimize(optimizer=Scripted(script))
        if len(seen) != 1 or len(seen[0]) != len(R.free()):
            raise Violation("optimizing %s: gradients of the wrong length %s" % (R.id, seen), "optgrad")
        now = [float(F.real[l.id].values.flat[i]) for l, i in R.elems() if l.fix[i]]
        if now != fixed:
            raise Violation("optimizing %s changed fixed values from %s to %s" % (R.id, fixed, now), "fixmoved")


def a_roundtrip(F, ids=None):
    """destructive: writing back what was read changes nothing; writing another vector sets exactly the free elements"""
    for id in sorted(ids or F.ref):
        R, o = F.ref[id], F.real[id]
        fr = R.free()
        if not fr:
            continue
        try:
            o.optimizer_array = o.optimizer_array
            a_values(F)
            x = []
            for k, (l, i) in enumerate(fr):
                x.append(0.3 + 0.11 * k)
            held = np.array(x)
            o.optimizer_array = held
            apply_optvec(R, x)
            a_values(F)
            if not same(fl(o.optimizer_array), x, 1e-7):
                raise Violation("wrote %s, read %s" % (fmt(x), fmt(fl(o.optimizer_array))), "opt")
            if not same(fl(held), x, 0):
                raise Violation("the written vector was changed to %s" % fmt(fl(held)), "opt")
            got = o.optimizer_array
            o.optimizer_array = got + 0.05
            apply_optvec(R, [v + 0.05 for v in x])
            a_values(F)
        except Violation as v:
            raise Violation("optimizer vector of %s: %s" % (id, v.msg), v.sig)


def a_select(F, ids=None):
    """regular expressions select the leaves below; the selection reads their values"""
    for R in F.roots():
        if R.kind == "leaf":
            continue
        o = F.real[R.id]
        for rex in ("", ".*[abc]$", ".*s"):
            tg = rex_targets(F, R.id, rex)
            if not tg:
                try:
                    o[rex]
                except AttributeError:
                    continue
                raise Violation("%s[%r] found something, nothing matches" % (R.id, rex), "select")
            got = list(o.grep_param_names(rex))
            if len(got) != len(tg) or any(g is not F.real[n.id] for g, n in zip(got, tg)):
                raise Violation("%s[%r] selects %s, expected %s" % (
                    R.id, rex, [g.hierarchy_name() for g in got], [hname(n) for n in tg]), "select")
            sel = o[rex]
            if len(tg) == 1:
                if sel is not F.real[tg[0].id]:
                    raise Violation("%s[%r] is not the only match %s" % (R.id, rex, tg[0].id), "select")
            else:
                want = [v for l in rex_leaves(F, R.id, rex) for v in l.val]
                if not want:
                    continue
                if not same(fl(sel.values()), want):
                    raise Violation("values of %s[%r] are %s, expected %s" % (R.id, rex, fmt(fl(sel.values())), fmt(want)), "select")


def read_all(F):
    """ask every object for everything it could remember"""
    for k in sorted(F.real):
        o = F.real[k]
        o.param_array, o.optimizer_array, o.gradient, o.is_fixed, o.constraints.size, o.name, o.hierarchy_name(), o.num_params
        list(o.parameter_names())
        str(o)
        if isinstance(o, Param):
            o.values
        else:
            o.parameter_names_flat() if o.parameters else None
            list(o.flattened_parameters)
            o.unfixed_param_array


class TreeSystem(System):
    """explores a forest with a fixed alphabet"""

    def __init__(self, name, cfg, alphabet, aspects, watch=False):
        self.watch = watch          # whether everything is read after every operation, not only after the last one
        self.name = name
        self.cfg = cfg
        self.alphabet = alphabet
        self.aspects = aspects

    def build(self):
        F = build_forest(self.cfg)
        if self.watch:
            read_all(F)
        return F

    def ops(self, F):
        return [op for op in self.alphabet if enabled(F, op)]

    def apply(self, F, op):
        OPS[op[0]](F, *op[1:])
        if self.watch:
            read_all(F)
        del EVENTS[:]

    def key(self, F):
        return heap_key([F.real[k] for k in sorted(F.real)] + env.registered())

    def check(self, F):
        for a in self.aspects:
            a(F)

    def fmt(self, op):
        return fmt_op(op)


def fmt_op(op):
    k = op[0]
    a = list(op[1:])
    return "%s(%s)" % (k, ", ".join("-" if x is None else str(x) for x in a))


# parameters and nodes without elements between others
EMPTY = dict(
    leaves={"a": ((2,), [1.0, 2.0], None), "b": ((1,), [3.0], "pos"), "e": ((0,), [], None), "g": ((0, 2), [], "b10"), "x": ((3, 0), [], None)},
    nodes={"r": "model", "s": "node", "t": "node", "u": "node"},
    links=[("r", "g"), ("r", "s"), ("s", "e"), ("s", "a"), ("r", "t"), ("r", "b")])
EMPTY_OPS = (
    [(w, h) + tail for h in ("r", "s", "t", "e", "g", "a", "b") for w, tail in (("con", ("pos", None)), ("con", ("b10", None)), ("fix", (None, None)), ("unfix", (None,)), ("unc", (None, None)))]
    + [("set", h, None, v) for h in "rsabe" for v in (2.25, ("r", 0.5))] + [("oset", h, ("r", 0.5)) for h in "rsab"] + [("rand", "r", ("r", 0.25)), ("upd", "r", False), ("upd", "s", True)]
    + [("link", "r", "g", 3), ("link", "t", "x", None), ("link", "s", "x", 0), ("link", "s", "u", 0), ("link", "s", "e", 1), ("link", "u", "s", None), ("unlink", "r", "g"), ("unlink", "s", "e"), ("unlink", "s", "a"), ("unlink", "r", "t"), ("unlink", "r", "s")])

FIVE = dict(
    leaves={"a": ((2,), [1.0, 2.0], None), "b": ((1,), [3.0], None), "c": ((2, 2), [0.5, 1.5, 2.5, 3.5], None),
            "d": ((2,), [4.0, 5.0], "pos"), "e": ((1,), [6.0], None)},
    nodes={"r": "model", "s": "node", "t": "node"},
    links=[("r", "s"), ("s", "a"), ("s", "b"), ("r", "c"), ("t", "e")])
