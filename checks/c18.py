"""C18: index expressions on a parameter address the elements NumPy would."""
import itertools
import re

import numpy as np

from mc import env
from mc.explore import enumerate_cases
from mc.report import Violation
from mc.tree import fl

import paramz
from paramz import Param, Parameterized
from paramz.transformations import Logexp, Logistic

LEVEL = "model_checking"

_ = slice(None)
ATOMS = {"0": 0, "1": 1, "-1": -1, ":": _, "1:": slice(1, None), ":1": slice(0, 1), "::2": slice(None, None, 2), "::-1": slice(None, None, -1), "0:0": slice(0, 0), "5:": slice(5, None), "-2:": slice(-2, None),
         "[0]": [0], "[1,0]": [1, 0], "[0,0]": [0, 0], "[0,-1]": [0, -1], "[[0,1],[1,0]]": [[0, 1], [1, 0]], "[]": np.array([], dtype=int), "np1": np.int64(1), "arr": np.array([1, 1, 0]),
         "mask": "mask", "nomask": "nomask", "...": Ellipsis, "None": None}
FEW = ["0", "-1", ":", "1:", "::-1", "[1,0]", "[0,0]", "mask", "...", "None"]
LEAST = ["1", ":", ":1", "[1,0]", "..."]


def realise(names, shape):
    """a tuple of atom names to an index; per axis masks need the axis they are for"""
    out = []
    n_ell = names.count("...")
    used = sum(1 for n in names if n not in ("...", "None"))
    ax = 0
    for n in names:
        if n == "...":
            out.append(Ellipsis)
            ax += len(shape) - used
            continue
        if n == "None":
            out.append(None)
            continue
        if n in ("mask", "nomask"):
            if ax >= len(shape):
                return None
            m = np.zeros(shape[ax], dtype=bool)
            if n == "mask":
                m[::2] = True
            out.append(m)
        else:
            out.append(ATOMS[n])
        ax += 1
    if n_ell > 1:
        return None
    return tuple(out) if len(out) != 1 else out[0]


def index_of(spec, shape):
    """spec: ('atoms', names) or ('mask', bits) or ('tuple1', names) (a tuple of one)"""
    if spec[0] == "atoms":
        return realise(spec[1], shape)
    if spec[0] == "tuple1":
        return (realise(spec[1], shape),)
    m = np.array([bool(spec[1] >> i & 1) for i in range(int(np.prod(shape)))]).reshape(shape)
    return m if spec[0] == "mask" else m.tolist() if spec[0] == "masklist" else np.nonzero(m)


def plain(a, ix):
    try:
        return a[ix]
    except (IndexError, TypeError, ValueError):
        return None


class Tree(Parameterized):
    pass


def build(shape):
    env.fresh()
    n = int(np.prod(shape))
    r, s = Tree("r"), Tree("s")
    q, p, z = Param("q", np.array([9.0, 8.0])), Param("p", -1.0 - np.arange(n, dtype=float).reshape(shape)), Param("z", np.array([7.0]))
    p.gradient = 100.0 + np.arange(n, dtype=float).reshape(shape)
    s.link_parameters(q, p)
    r.link_parameters(s, z)
    p.gradient = 100.0 + np.arange(n, dtype=float).reshape(shape)
    return r, p


def cons(p):
    out = {}
    for c, ind in p.constraints.items():
        for i in np.asarray(ind).ravel():
            out.setdefault(int(i), []).append(str(c))
    return {k: sorted(v) for k, v in out.items()}


def show(spec):
    return "[%s]" % (", ".join(spec[1]) if spec[0] in ("atoms", "tuple1") else "%s %s" % (spec[0], bin(spec[1])))


def case(c):
    shape, specs = c
    shape = tuple(shape)
    n = int(np.prod(shape))
    pos = np.arange(n).reshape(shape)
    for k, spec in enumerate(specs):
        ix = index_of(spec, pos.shape)
        pos = plain(pos, ix) if ix is not None or spec[1] == ("None",) else None
        if pos is None:
            return "invalid"
        if np.ndim(pos) == 0 and k + 1 < len(specs):
            return "invalid"
    what = "p%s" % "".join(show(s) for s in specs)
    el = [int(i) for i in np.ravel(pos)]

    def at(a):
        b = a
        for s in specs:
            b = b[index_of(s, b.shape)]
        return b

    def fail(msg, sig):
        raise Violation("%s of shape %s: %s" % (what, shape, msg), sig)

    def full(r, p, vals, msg, sig):
        if p.shape != shape or fl(p) != vals or fl(r.param_array) != [9.0, 8.0] + vals + [7.0]:
            fail("%s: values are %s, tree %s, expected %s" % (msg, fl(p), fl(r.param_array), vals), sig)

    def want_cons(r, p, spec, msg):
        w = {i: sorted(v) for i, v in spec.items() if v}
        if cons(p) != w:
            fail("%s: constraints are %s, expected %s" % (msg, cons(p), w), "constraints")
        if cons(r) != {i + 2: v for i, v in w.items()}:
            fail("%s: constraints of the root are %s, expected those of p %s by 2" % (msg, cons(r), w), "constraints")

    base = [-1.0 - i for i in range(n)]
    # ---- reading
    r, p = build(shape)
    got = at(p)
    ref = at(np.array(base).reshape(shape))
    if np.shape(got) != np.shape(ref) or fl(np.asarray(got)) != fl(ref):
        fail("read %s of shape %s, expected %s of shape %s" % (fl(np.asarray(got)), np.shape(got), fl(ref), np.shape(ref)), "read")
    full(r, p, base, "after reading", "read")
    scalar = not isinstance(got, Param)
    if not scalar:
        g = at(p.gradient)
        if np.shape(got.gradient) != np.shape(g) or fl(got.gradient) != [100.0 + i for i in el]:
            fail("its gradient is %s, expected %s" % (fl(got.gradient), [100.0 + i for i in el]), "gradient")
        text(got, el, base, shape, fail)
        # the gradient of the selection, one read before and one read now
        for k, h in enumerate((got, at(p)) if np.ndim(got) and isview(specs, shape) else ()):
            ga = np.array(p.gradient)
            h.gradient = 3.0 + k
            gs = [3.0 + k if i in set(el) else v for i, v in enumerate(fl(ga))]
            if fl(p.gradient) != gs or fl(r.gradient)[2:2 + n] != gs:
                fail("its gradient set to %s: gradients are %s, expected %s" % (3.0 + k, fl(p.gradient), gs), "gradient")
    # ---- assigning
    events = []
    for mode in ("scalar", "ramp") + (("view",) if not scalar else ()):
        r, p = build(shape)
        a = np.array(base).reshape(shape)
        v = 3.5 if mode != "ramp" else 10.0 + np.arange(len(el), dtype=float).reshape(np.shape(pos))
        r.add_observer(r, lambda me, which: events.append(1), -5)
        del events[:]
        if len(specs) == 1:
            ix = index_of(specs[0], shape)
            if mode == "view":
                p[ix][...] = v
                a[ix][...] = v
            else:
                p[ix] = v
                a[ix] = v
        else:
            f, l = p, a
            for s in specs[:-1]:
                f, l = f[index_of(s, f.shape)], l[index_of(s, l.shape)]
            ix = index_of(specs[-1], l.shape)
            if mode == "view":
                f[ix][...] = v
                l[ix][...] = v
            else:
                f[ix] = v
                l[ix] = v
        full(r, p, fl(a), "assigning (%s)" % mode, "assign")
        if fl(a) != base and len(events) != 1:
            fail("assigning (%s) notified the tree %d times" % (mode, len(events)), "notify")
    # ---- in place
    if len(specs) == 1:
        ix = index_of(specs[0], shape)
        r, p = build(shape)
        a = np.array(base).reshape(shape)
        p[ix] += 2.0
        a[ix] += 2.0
        full(r, p, fl(a), "adding in place", "assign")
        p[ix] *= 0.5
        a[ix] *= 0.5
        full(r, p, fl(a), "multiplying in place", "assign")
    if len(specs) == 1 and len(shape) == 1:
        of_node(specs[0], shape, base, fail)
    if scalar or np.ndim(pos) == 0:      # a single element, as a number or as an array without dimensions
        return (shape, what, "scalar")
    # ---- constraints
    r, p = build(shape)
    S = sorted(set(el))
    at(p).constrain_positive(warning=False)
    c1 = {i: ["+ve"] for i in S}
    want_cons(r, p, c1, "constrained")
    full(r, p, [(-v if i in S else v) for i, v in enumerate(base)], "constrained positive", "project")
    h = at(p)
    h.fix(warning=False)
    want_cons(r, p, {i: ["+ve", "fixed"] for i in S}, "fixed")
    if not at(p).is_fixed or bool(p.is_fixed) != (len(S) == n):
        fail("fixed: is_fixed is %r, of all of the %d elements %r" % (at(p).is_fixed, n, p.is_fixed), "isfixed")
    now = fl(p)
    free = [i for i in range(n) if i not in S]
    if S and len(r.optimizer_array) != 3 + len(free):
        fail("%d free parameters with %d of %d fixed" % (len(r.optimizer_array) - 3, len(S), n), "free")
    x = 0.25 + np.arange(3 + len(free))
    r.optimizer_array = x
    vals = list(now)
    for j, i in enumerate(free):
        vals[i] = x[2 + j]
    if fl(p) != vals:
        fail("fixed and the optimizer vector set: values are %s, expected %s" % (fl(p), vals), "free")
    at(p).unfix()
    want_cons(r, p, c1, "unfixed")
    at(p).constrain_bounded(-50, 50, warning=False)
    want_cons(r, p, {i: ["-50.0,50.0"] for i in S}, "constrained anew")
    if fl(p) != vals:
        fail("constrained to bounds it is within: values are %s, expected %s" % (fl(p), vals), "project")
    # others keep theirs: everything positive, then the selection free, fixed, bounded
    r, p = build(shape)
    p.constrain_negative(warning=False)
    at(p).unconstrain_negative()
    want_cons(r, p, {i: ["-ve"] for i in free}, "removed from all constrained")
    p.fix(warning=False)
    at(p).unfix()
    want_cons(r, p, {i: ["-ve", "fixed"] for i in free}, "removed from all fixed")
    if bool(at(p).is_fixed) != (not S):
        fail("all others fixed: is_fixed is %r" % at(p).is_fixed, "isfixed")
    at(p).fix(5.0, warning=False)
    full(r, p, [(5.0 if i in S else v) for i, v in enumerate(base)], "fixed to a value", "project")
    want_cons(r, p, {**{i: ["-ve", "fixed"] for i in free}, **{i: ["fixed"] for i in S}}, "fixed to a value")
    at(p).unconstrain()
    want_cons(r, p, {i: ["-ve", "fixed"] for i in free}, "unconstrained")
    at(p).constrain(Logexp(), warning=False)
    want_cons(r, p, {**{i: ["-ve", "fixed"] for i in free}, **{i: ["+ve"] for i in S}}, "constrained among others")
    # through a slice kept from before, and on an array which is not in a tree
    q = Param("q", np.array(base).reshape(shape))
    h = at(q)
    h.constrain_positive(warning=False)
    if cons(q) != {i: ["+ve"] for i in S} or fl(q) != [(-v if i in S else v) for i, v in enumerate(base)]:
        fail("unlinked and constrained: constraints %s, values %s" % (cons(q), fl(q)), "constraints")
    h.fix(warning=False)
    h.unconstrain_positive()
    if cons(q) != {i: ["fixed"] for i in S}:
        fail("unlinked, fixed and unconstrained: constraints %s" % cons(q), "constraints")
    return (shape, what, tuple(el))


def of_node(spec, shape, base, fail):
    """the same positions of a node are those of its flattened values"""
    env.fresh()
    r = Tree("r")
    k = len(base) // 2
    parts = [Param("p%d" % i, np.array(b)) for i, b in enumerate((base[:k], base[k:])) if b]
    r.link_parameters(*parts)
    ix = index_of(spec, shape)
    if not isinstance(ix, (int, slice, tuple, np.ndarray)):
        return
    a = np.array(base)
    got = r[ix]
    if np.shape(got) != np.shape(a[ix]) or fl(np.asarray(got)) != fl(a[ix]):
        fail("as positions of a node: read %s of shape %s, expected %s" % (fl(np.asarray(got)), np.shape(got), fl(a[ix])), "node")
    r[ix] = a[ix] = 4.5
    if fl(r.param_array) != fl(a) or [v for q in parts for v in fl(q)] != fl(a):
        fail("as positions of a node, set to 4.5: values are %s, in the leaves %s, expected %s" % (fl(r.param_array), [fl(q) for q in parts], fl(a)), "node")


ESC = re.compile("\033\\[[0-9;]*m")


def isview(specs, shape):
    """whether NumPy's selection shares memory with the whole"""
    a = np.zeros(shape)
    b = a
    for s in specs:
        b = b[index_of(s, b.shape)]
    return isinstance(b, np.ndarray) and (b.size == 0 or np.shares_memory(a, b))


def text(got, el, base, shape, fail):
    """the printed table lists index and value of each element"""
    if not el:
        return
    lines = ESC.sub("", str(got)).split("\n")[1:]
    if len(lines) != len(el):
        fail("printed %d lines for %d elements" % (len(lines), len(el)), "print")
    for line, i in zip(lines, el):
        cells = [x.strip() for x in line.split("|")]
        ind = [int(t) for t in re.findall(r"\d+", cells[0])]
        if ind != [int(t) for t in np.unravel_index(i, shape)] or float(cells[1]) != base[i]:
            fail("printed %r for the element at %s with value %s" % (line.strip(), [int(t) for t in np.unravel_index(i, shape)], base[i]), "print")


def grammar(nd, names, extra):
    out = []
    for k in range(1, nd + extra + 1):
        for t in itertools.product(names, repeat=k):
            if t.count("...") <= 1 and t.count("None") <= extra and sum(1 for x in t if x not in ("...", "None")) <= nd:
                out.append(("atoms", t))
                if k == 1:
                    out.append(("tuple1", t))
    return out


def cases():
    T = env.THOROUGH
    ALL = list(ATOMS)
    out = []
    for shape in [(1,), (2,), (3,), (5,)]:
        out += [(shape, (s,)) for s in grammar(1, ALL, 2)]
    for shape in [(1, 1), (2, 2), (2, 3), (3, 1), (1, 3)]:
        out += [(shape, (s,)) for s in grammar(2, ALL, 0) + grammar(2, FEW if not T else ALL, 1)]
    for shape in [(2, 2, 2), (2, 3, 2)] + ([(1, 2, 3), (3, 1, 2)] if T else []):
        out += [(shape, (s,)) for s in grammar(3, [n for n in FEW if n != "None"] + ([] if not T else ["[0]", "::2", "[[0,1],[1,0]]", "0:0"]), 0)]
    for shape in [(2, 2, 2)]:
        out += [(shape, (s,)) for s in grammar(3, LEAST + ["None"], 1)]
    for shape in [(2,), (3,), (2, 2), (2, 3), (1, 3), (2, 1, 2), (2, 2, 2)]:
        n = int(np.prod(shape))
        for bits in range(1 << n):
            for kind in ("mask", "nonzero") + (("masklist",) if len(shape) == 1 else ()):
                out.append((shape, ((kind, bits),)))
    return list(dict.fromkeys(out))


def case_functions():
    return {"index": case}


def run(report):
    enumerate_cases("index", case, cases(), report)
