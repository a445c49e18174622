"""C29: parameters and observable arrays can be built from anything array-like, and leave it as it was."""
import copy
import itertools
import pickle

import numpy as np

from mc import env
from mc.explore import enumerate_cases
from mc.report import Violation
from mc.tree import fl, fmt, same
from mc.xform import TOK, token_of

from paramz import Model, ObsAr, Param, Parameterized

LEVEL = "model_checking"


class Node(Parameterized):
    seen = 0

    def parameters_changed(self):
        self.__dict__["seen"] = self.seen + 1


class Top(Model):
    seen = 0

    def parameters_changed(self):
        self.__dict__["seen"] = self.seen + 1

    def objective_function(self):
        return 0.0


class Watcher(object):
    def __init__(self):
        self.got = []

    def see(self, me, which=None):
        self.got.append(fl(me))


VALS = [1.0, 0.0, 3.0, 2.0, 5.0, 4.0, 7.0, 6.0, 9.0, 8.0, 11.0, 10.0]
SHAPES = [(), (1,), (3,), (2, 3), (3, 1), (1, 1, 2), (2, 1, 3), (2, 3, 2), (0,), (2, 0)]
DTYPES = ["f8", "f4", "f2", "i8", "i4", "u1", "b1", ">f8"]
LAYOUTS = ["C", "F", "strided", "reversed", "readonly", "broadcast", "T", "offset", "lists", "tuples", "matrix", "memmap-like", "masked"]
HOLDERS = ["obsar", "obsar view", "obsar slice", "param", "linked param", "param slice", "constrained param", "ints of lists"]
THEN = ["nothing", "link", "linklate", "constrain", "fix", "copy", "deepcopy", "pickle", "copynode", "moved", "twice"]


def plain_array(shape, dtype, layout):
    n = int(np.prod(shape))
    base = np.array(VALS[:n]).reshape(shape).astype(dtype)
    if layout in ("C", "readonly", "lists", "tuples"):
        a = base
    elif layout == "F":
        a = np.asfortranarray(base)
    elif layout == "strided":
        big = np.zeros([2 * k for k in shape], dtype=dtype)
        a = big[tuple(slice(None, None, 2) for _ in shape) + (Ellipsis,)]
        a[...] = base
    elif layout == "reversed":
        back = tuple(slice(None, None, -1) for _ in shape) + (Ellipsis,)
        a = base[back].copy()[back]
    elif layout == "broadcast":
        if not shape or n == 0:
            return None
        a = np.broadcast_to(base[..., :1], shape)
    elif layout == "T":
        if len(shape) < 2:
            return None
        a = np.ascontiguousarray(base.T).T
    elif layout == "offset":
        if not shape:
            return None
        big = np.zeros((shape[0] + 2,) + tuple(shape[1:]), dtype=dtype)
        big[1:-1] = base
        a = big[1:-1]
    elif layout == "matrix":
        if len(shape) != 2 or n == 0:
            return None
        a = np.matrix(base)
    elif layout == "memmap-like":
        class Sub(np.ndarray):
            pass
        a = base.view(Sub)
    elif layout == "masked":
        a = np.ma.array(base)
    if layout == "readonly":
        a = a.copy()
        a.flags.writeable = False
    return a


def sources():
    out = []
    for sh in SHAPES:
        for dt in DTYPES:
            for lay in LAYOUTS:
                if dt not in ("f8", "i8") and lay not in ("C", "F", "strided"):
                    continue
                if plain_array(sh, dt, lay) is not None:
                    out.append(("array", sh, dt, lay))
    for h in HOLDERS:
        for sh in SHAPES:
            if (not sh or 0 in sh) and h not in ("obsar", "param"):
                continue
            out.append((h, sh, "f8", "C"))
    return out


def make(src):
    """(what to build from, function saying what must have stayed as it is)"""
    kind, sh, dt, lay = src
    if kind == "array":
        a = plain_array(sh, dt, lay)
        if lay == "lists":
            x = a.tolist()
        elif lay == "tuples":
            x = tuple(a.tolist()) if sh else a.tolist()
        else:
            x = a
        was = copy.deepcopy(np.array(a))
        return x, np.array(a, dtype=float), lambda: (np.array_equal(np.array(x, dtype=was.dtype), was) if 0 not in sh else True)
    arr = np.array(VALS[:int(np.prod(sh))]).reshape(sh)
    if kind == "ints of lists":
        return arr.astype(int).tolist(), arr, lambda: True
    w = Watcher()
    if kind.startswith("obsar"):
        o = ObsAr(arr.copy())
        o.add_observer(w, w.see, 3)
        x = {"obsar": lambda: o, "obsar view": lambda: o.view(), "obsar slice": lambda: o[..., ::-1]}[kind]()
        want = np.array(fl(x)).reshape(x.shape)
        was = fl(o)

        def still():
            if not isinstance(o, ObsAr) or isinstance(o, Param) or fl(o) != was:
                return False
            if [(p, ob() if callable(ob) else ob) for p, ob, _ in o.observers] != [(3, w)]:
                return False
            if o.size:
                del w.got[:]
                o[...] = o.values.copy()
                return len(w.got) == 1 and w.got[0] == was
            return True
        return x, want, still
    p = Param("orig", arr.copy(), TOK["pos"].make() if kind == "constrained param" else None)
    p.add_observer(w, w.see, 3)
    m = None
    if kind == "linked param":
        m = Node("holder")
        m.link_parameter(p)
        p.fix()
        m.other = w
    x = p[..., ::-1] if kind == "param slice" else p
    want = np.array(fl(x)).reshape(np.shape(x))
    was = fl(p)

    def still():
        if p.name != "orig" or fl(p) != was or type(p) is not Param:
            return False
        if kind == "linked param":
            if p._parent_ is not m or list(m.parameters) != [p] or m.orig is not p or not p.is_fixed or fl(m.param_array) != was:
                return False
        elif p.has_parent() or (p.size and p.is_fixed):
            return False
        if [token_of(t) for t in p.constraints.properties() if token_of(t) != "fixed"] != (["pos"] if kind == "constrained param" and p.size else []):
            return False
        if p.size:
            del w.got[:]
            n = m.seen if m is not None else 0
            p[...] = p.values.copy()
            if w.got != [was] or (m is not None and m.seen != n + 1):
                return False
        return True
    return x, want, still


def build(case):
    cls, src, tok, then = case
    env.fresh()
    x, want, still = make(src)
    shape = want.shape if want.shape else (1,)
    vals = [float(v) for v in want.ravel()]
    con = TOK[tok].make() if tok else None
    if cls == "obsar":
        o = ObsAr(x)
        same_object = isinstance(x, ObsAr)
        if same_object and o is not x:
            raise Violation("an observable array of an observable array is another object", "build")
    else:
        o = Param("built", x, con) if tok else Param("built", x)
        if o is x:
            raise Violation("the parameter is the object which it was built from", "build")
        # what default constraints do to values is the constraint's initialize
        if tok:
            vals = fl(TOK[tok].make().initialize(np.array(vals)))
    kind = Param if cls == "param" else ObsAr
    check(o, kind, shape, vals, "built from %r" % (src,))
    if cls == "param" and then == "nothing" or cls == "obsar":
        if not (tok and any(a != b for a, b in zip(vals, fl(want)))) and not still():
            raise Violation("%r was changed by building from it" % (src,), "source")
    if cls == "obsar":
        if not isinstance(x, ObsAr):
            w = Watcher()
            o.add_observer(w, w.see)
            if o.size:
                o[...] = 2.0
                if w.got != [[2.0] * o.size]:
                    raise Violation("changing the array told %r" % (w.got,), "notify")
        return (cls, shape, tuple(vals))
    if o.name != "built" or o.has_parent() or len(o.observers) not in (0, 1) or o.hierarchy_name() != "built":
        raise Violation("a new parameter called %s has the parent %s and %d observers" % (o.name, o._parent_, len(o.observers)), "build")
    got = [token_of(t) for t in o.constraints.properties()]
    if got != ([tok] if tok and o.size else []):
        raise Violation("a new parameter has the constraints %s" % got, "build")
    if o.gradient.shape != shape:
        raise Violation("the gradient of a new parameter has the shape %s, its values %s" % (o.gradient.shape, shape), "build")
    after(o, x, shape, vals, tok, then, src)
    return (cls, then, shape, tuple(vals))


def check(o, kind, shape, vals, what):
    if type(o) is not kind and not (kind is ObsAr and isinstance(o, ObsAr)):
        raise Violation("%s: the type is %s" % (what, type(o)), "type")
    if tuple(o.shape) != tuple(shape) or o.dtype != np.float64 or not o.dtype.isnative:
        raise Violation("%s: %s of shape %s, expected %s" % (what, o.dtype, o.shape, shape), "type")
    if not o.flags.writeable or (kind is Param and not o.flags.c_contiguous):
        raise Violation("%s: not a writable, contiguous array" % what, "type")
    if not same(fl(o), vals):
        raise Violation("%s: the values are %s, expected %s" % (what, fmt(fl(o)), fmt(vals)), "values")


def after(o, x, shape, vals, tok, then, src):
    what = "%r, %s" % (src, then)
    if then == "nothing":
        return
    src_was = fl(x) if isinstance(x, np.ndarray) else None
    if then in ("copy", "deepcopy", "pickle"):
        c = o.copy() if then == "copy" else copy.deepcopy(o) if then == "deepcopy" else pickle.loads(pickle.dumps(o))
        check(c, Param, shape, vals, what)
        if c.size:
            c[...] = 2.5
            check(o, Param, shape, vals, what)
        return
    if then in ("constrain", "fix"):
        if not o.size:
            return
        if then == "fix":
            o.fix()
            if not o.is_fixed or not same(fl(o), vals):
                raise Violation("%s: fixed values are %s, expected %s" % (what, fmt(fl(o)), fmt(vals)), "values")
        else:
            o.constrain(TOK["b10"].make())
            if [token_of(t) for t in o.constraints.properties()] != ["b10"]:
                raise Violation("%s: constraints %s" % (what, list(o.constraints.items())), "cons")
        return
    m = Top("m", initialize=False) if then == "linklate" else Top("m")
    first, last = Param("first", [20.0, 21.0]), Param("last", [30.0])
    m.link_parameters(first, o, last) if then != "moved" else m.link_parameters(o, first, last)
    if then == "linklate":
        m.initialize_parameter()
    if then == "moved":
        m.link_parameter(o, 1)
    if then == "twice":
        again = Param("again", x)
        check(again, Param, shape, fl(x) if not isinstance(x, (list, tuple, int, float)) else [float(v) for v in np.ravel(x)], what + " again")
        if again.size:
            again[...] = 9.5
            if np.may_share_memory(again, o):
                raise Violation("%s: a linked parameter shares memory with a new one" % what, "shared")
    if then == "copynode":
        m = m.copy()
        o = m.built
        if not isinstance(o, Param):
            raise Violation("%s: %s is no parameter any more" % (what, type(o)), "type")
    check(o, Param, shape, vals, what)
    if not same(fl(m.param_array), [20.0, 21.0] + vals + [30.0]):
        raise Violation("%s: the values of the model are %s" % (what, fmt(fl(m.param_array))), "values")
    if o.size:
        if isinstance(x, np.ndarray) and np.may_share_memory(o, x):
            raise Violation("%s: a linked parameter shares memory with what it was built from" % what, "shared")
        n = m.seen
        new = [0.25 + i for i in range(o.size)]
        o[...] = np.array(new).reshape(shape)
        if m.seen != n + 1:
            raise Violation("%s: an assignment re-evaluated the model %d times" % (what, m.seen - n), "events")
        if not same(fl(m.param_array), [20.0, 21.0] + new + [30.0]):
            raise Violation("%s: the values of the model are %s" % (what, fmt(fl(m.param_array))), "values")
        if src_was is not None and then not in ("twice",) and fl(x) != src_was:
            raise Violation("%s: assigning to the linked parameter changed what it was built from" % what, "shared")
        m.gradient = np.arange(float(m.size))
        if not same(fl(o.gradient), [2.0 + i for i in range(o.size)]) or o.gradient.shape != shape:
            raise Violation("%s: the gradient is %s" % (what, fmt(fl(o.gradient))), "grads")
    m.unlink_parameter(o)
    if not same(fl(m.param_array), [20.0, 21.0, 30.0]):
        raise Violation("%s: after unlinking the model has the values %s" % (what, fmt(fl(m.param_array))), "values")


def cases():
    toks = [None, "pos", "b10"] + (["neg", "exp", "sq", "b1"] if env.THOROUGH else [])
    for src in sources():
        if "param" not in src[0]:      # (a parameter is an observable array already, this is refused)
            yield ("obsar", src, None, "nothing")
        for tok in toks:
            for then in THEN:
                yield ("param", src, tok, then)


def case_functions():
    return {"build": build}


def run(report):
    enumerate_cases("build", build, cases(), report)
