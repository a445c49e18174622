"""C01: one storage for values and gradients at every level of a hierarchy."""
import numpy as np

from mc import env
from mc.clone import CloneSystem
from mc.explore import explore
from mc.report import Violation
from mc.tree import EMPTY, EMPTY_OPS, FIVE, TreeSystem, a_coherent, a_grads, a_structure, a_values, fl, fmt, rex_leaves, same

LEVEL = "model_checking"


# ------------------------------------------------------------- every kind of handle
def reads(F, why):
    """every way of reading gives what the reference has"""
    def cmp(got, want, how):
        if not same(fl(got), want):
            raise Violation("%s: %s reads %s, expected %s" % (why, how, fmt(fl(got)), fmt(want)), "handle")
    for id in sorted(F.ref):
        R, o = F.ref[id], F.real[id]
        want = [l.val[i] for l, i in R.elems()]
        gwant = [l.grad[i] for l, i in R.elems()]
        n = len(want)
        if not n:
            continue
        if R.kind == "leaf":
            cmp(o, want, id)
            cmp(o.values, want, id + ".values")
            cmp(o.param_array, want, id + ".param_array")
            cmp(list(o.flat), want, id + ".flat")
            cmp(o[1:], want[n // R.shape[0]:], id + "[1:]")
            cmp(o[::-1], [v for k in range(R.shape[0])[::-1] for v in want[k * (n // R.shape[0]):(k + 1) * (n // R.shape[0])]], id + "[::-1]")
            cmp(o[..., -1], fl(np.array(want).reshape(R.shape)[..., -1]), id + "[..., -1]")
            cmp(o[..., :1].gradient, fl(np.array(gwant).reshape(R.shape)[..., :1]), id + "[..., :1].gradient")
            cmp(o[-1:].gradient, gwant[-(n // R.shape[0]):], id + "[-1:].gradient")
        else:
            cmp(o[:], want, id + "[:]")
            cmp(o[n // 2:], want[n // 2:], id + "[half:]")
            cmp(o[-1], want[-1:], id + "[-1]")
            cmp(o[np.array([0, n - 1])], [want[0], want[-1]], id + "[array([first, last])]")
            cmp(o.param_array[n // 2:], want[n // 2:], id + ".param_array[half:]")
            cmp(o.gradient[n // 2:], gwant[n // 2:], id + ".gradient[half:]")
            cmp(o.gradient_full[:], gwant, id + ".gradient_full")
            for c in R.children:
                got = getattr(o, c.name)
                cmp(got[:] if c.kind != "leaf" else got, [l.val[i] for l, i in c.elems()], "%s.%s" % (id, c.name)) if c.size else None
            for rex in (".*", ".*[abe]$"):
                ls = rex_leaves(F, id, rex)
                if len(ls) > 1:
                    cmp(o[rex].values(), [v for l in ls for v in l.val], "%s[%r]" % (id, rex))
                    cmp(o[rex][1:], [v for l in ls for v in l.val][1:], "%s[%r][1:]" % (id, rex))


def leaves(F, why):
    """the leaves and the nodes at the top"""
    for id in F.ref:
        R, o = F.ref[id], F.real[id]
        if R.kind == "leaf":
            got = [fl(o.values), fl(o.gradient)]
        elif R.parent is None:
            got = [fl(o.param_array), fl(o.gradient)]
        else:
            continue
        el = R.elems()
        for g, which in zip(got, ("val", "grad")):
            if not same(g, [getattr(l, which)[i] for l, i in el]):
                raise Violation("%s: %s of %s is %s, expected %s" % (why, which, id, fmt(g), fmt([getattr(l, which)[i] for l, i in el])), "handle")


def writes(F):
    """(what, function writing, elements, which, values) for every way of writing to every node"""
    base = [2000.0]

    def fresh(n):
        base[0] += 50.0
        return [base[0] + 0.5 * i for i in range(n)]

    def at(o, ix, v):
        o[ix] = v

    def iop(o, d):
        o += d

    for id in sorted(F.ref):
        R, o = F.ref[id], F.real[id]
        el = R.elems()
        n = len(el)
        if not n:
            continue
        free = all(t is None for l in R.leaves() for t in l.tok)
        if R.kind == "leaf":
            pos = np.arange(n).reshape(R.shape)
            for ix in [(), (0,), (Ellipsis, -1), (slice(None, None, -1),), (np.array([R.shape[0] - 1]),), (pos > n // 2,)]:
                e = [el[k] for k in pos[ix].ravel()]
                v = fresh(len(e))
                yield "%s[%s] =" % (id, ix), lambda ix=ix, v=v: at(o, ix, np.array(v).reshape(pos[ix].shape)), e, "val", v
            e = [el[k] for k in pos[..., :1].ravel()]
            v = fresh(len(e))
            yield "%s[..., :1][:] =" % id, lambda: at(o[..., :1], slice(None), np.array(v).reshape(pos[..., :1].shape)), e, "val", v
            v = [l.val[i] + 0.5 for l, i in el]
            yield "%s +=" % id, lambda: iop(o, 0.5), el, "val", v
            e = [el[k] for k in pos[-1:].ravel()]
            v = [l.val[i] + 0.25 for l, i in e]
            yield "%s[-1:] +=" % id, lambda: iop(o[-1:], 0.25), e, "val", v
            v = fresh(n)
            yield "%s.flat =" % id, lambda: at(o.flat, slice(None), v), el, "val", v
            v = fresh(n)
            yield "%s.gradient =" % id, lambda: setattr(o, "gradient", np.array(v).reshape(R.shape)), el, "grad", v
            e = [el[k] for k in pos[1:].ravel()]
            v = fresh(len(e))
            yield "%s[1:].gradient =" % id, lambda: setattr(o[1:], "gradient", np.array(v).reshape(pos[1:].shape)), e, "grad", v
            e = [el[k] for k in pos[..., 0].ravel()]
            v = fresh(len(e))
            yield "%s.gradient[..., 0] =" % id, lambda: at(o.gradient, (Ellipsis, 0), np.array(v).reshape(pos[..., 0].shape)), e, "grad", v
            v = [7.0] * n
            yield "%s.gradient = 7" % id, lambda: setattr(o, "gradient", 7.0), el, "grad", v
        else:
            v = fresh(n)
            yield "%s[:] =" % id, lambda: at(o, slice(None), np.array(v)), el, "val", v
            v = fresh(1)
            yield "%s[-1] =" % id, lambda: at(o, -1, v[0]), el[-1:], "val", v
            v = fresh(n)[n // 2:]
            yield "%s[half:] =" % id, lambda: at(o, slice(n // 2, None), np.array(v)), el[n // 2:], "val", v
            v = fresh(n)[::2]
            yield "%s.param_array[::2] =" % id, lambda: at(o.param_array, slice(None, None, 2), v), el[::2], "val", v
            v = fresh(n)
            yield "%s.gradient =" % id, lambda: setattr(o, "gradient", np.array(v)), el, "grad", v
            v = fresh(n)
            yield "%s.gradient_full[:] =" % id, lambda: at(o.gradient_full, slice(None), v), el, "grad", v
            for c in R.children:
                ce = c.elems()
                if ce:
                    v = fresh(len(ce))
                    yield "%s.%s =" % (id, c.name), lambda c=c, v=v: setattr(o, c.name, np.array(v).reshape(c.shape) if c.kind == "leaf" else np.array(v)), ce, "val", v
            for rex in (".*", ".*[abe]$"):
                ls = rex_leaves(F, id, rex)
                if len(ls) > 1:
                    e = [(l, i) for l in ls for i in range(len(l.val))]
                    v = fresh(len(e))
                    yield "%s[%r] =" % (id, rex), lambda rex=rex, v=v: at(o, rex, np.array(v)), e, "val", v
                    v = fresh(len(e))[1:]
                    yield "%s[%r][1:] =" % (id, rex), lambda rex=rex, v=v: at(o[rex], slice(1, None), np.array(v)), e[1:], "val", v
        if free:
            fr = R.free()
            v = fresh(len(fr))
            if fr:
                yield "%s.optimizer_array =" % id, lambda: setattr(o, "optimizer_array", np.array(v)), fr, "val", v


def a_handles(F):
    """destructive: what is written in any way is read in every way"""
    what = "at once"
    reads(F, what)
    for k, (what, do, els, which, vals) in enumerate(writes(F)):
        do()
        for (l, i), v in zip(els, vals):
            getattr(l, which)[i] = v
        (reads if k % 8 == 7 else leaves)(F, "after " + what)
    reads(F, "after " + what)


def systems():
    out = {}
    alpha = []
    for p in "rst":
        for c in "abcdest":
            if p != c:
                alpha.append(("link", p, c, None))
                alpha.append(("link", p, c, 0))
                alpha.append(("unlink", p, c))
    for h in "abrs":
        alpha.append(("set", h, None, ("r", 2.0)))
    alpha += [("set", "c", "1,1", 7.0), ("grad", "r", 5.0), ("grad", "a", 9.0)]
    out["forest"] = TreeSystem("forest", FIVE, alpha, [a_structure, a_values, a_grads, a_coherent])
    cube = dict(FIVE, leaves=dict(FIVE["leaves"], c=((2, 1, 2), [0.5, 1.5, 2.5, 3.5], None), d=((2,), [4.0, 5.0], None)))
    more = [op for op in alpha if (op[0] != "link" or op[3] == 0) and op[:3] != ("set", "c", "1,1")] + [("fix", "c", None, "0"), ("unfix", "r"), ("fix", "a", None, None), ("con", "b", "exp", None), ("unc", "r", None, None), ("upd", "r", False), ("upd", "s", True),
                    ("oset", "r", ("r", 0.5)), ("rand", "s", ("r", 0.25)), ("optimize", "r", ("r", 0.75)), ("read", "r", "all"), ("rex", "r", ".*[ab]$", 3.25), ("attr", "s", "a", 4.0)]
    out["handles"] = TreeSystem("handles", cube, more, [a_structure, a_values, a_grads, a_handles])
    out["empty"] = TreeSystem("empty", EMPTY, [op for op in EMPTY_OPS if op[0] in ("link", "unlink", "set", "oset", "upd")], [a_structure, a_values, a_grads, a_handles])
    cop = [("copy", h) for h in "rstabce"] + [("dcopy", h) for h in "ra"] + [("pickle", "r", -1), ("pickle", "b", 2)]
    then = [("link", p, c, 0) for p in ("r", "r'", "t", "s'", 's"') for c in ("a", "a'", "c'", "s", "s'", "e", 'a"')] + [("unlink", p, c) for p, c in (("r", "s"), ("r'", "s'"), ("s", "a"), ("s'", "a'"), ('r"', 's"'), ("r", "c"))]
    then += [("set", h, None, ("r", 2.0)) for h in ("r", "a", "s'", "a'", 'r"')] + [("grad", h, 5.0) for h in ("r", "a'", 's"')]
    then = [op for op in then if op[1] != op[2]]
    out["copies"] = CloneSystem("copies", FIVE, [cop, then, then] if env.THOROUGH else [cop, then], [a_structure, a_values, a_grads], (a_handles,))
    return out


def run(report):
    S = systems()
    T = env.THOROUGH
    explore(S["forest"], 4 if T else 3, report)
    explore(S["handles"], 3 if T else 2, report)
    explore(S["empty"], 3 if T else 2, report)
    explore(S["copies"], len(S["copies"].plan), report)
