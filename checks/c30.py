"""C30: a failing evaluation gets out, and leaves a consistent model which works on."""
from mc import env
from mc import tree
from mc.explore import explore
from mc.report import Violation
from mc.tree import EVENTS, OPS, Node, Root, TreeSystem, a_cons, a_freenames, a_grads, a_isfixed, a_opt, a_roundtrip, a_structure, a_usable, a_values, cons_of, enabled, fl, fmt_op, same
from mc.xform import TOK, close

import numpy as np

from paramz.core import HierarchyError

LEVEL = "model_checking"


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


EXC = {"own": Boom, "value": ValueError, "key": KeyError, "index": IndexError, "attr": AttributeError, "type": TypeError, "linalg": np.linalg.LinAlgError, "zero": ZeroDivisionError,
       "hierarchy": HierarchyError, "notimplemented": NotImplementedError, "stop": Stop, "interrupt": KeyboardInterrupt, "iter": StopIteration, "runtime": RuntimeError, "recursion": RecursionError, "import": ImportError}


class Fault(object):
    """the at-th call of user code from now on fails"""
    at = 0
    exc = None

    @classmethod
    def hit(cls):
        if cls.at:
            cls.at -= 1
            if cls.at == 0:
                raise cls.exc


class FNode(Node):
    def parameters_changed(self):
        super(FNode, self).parameters_changed()
        Fault.hit()


class FRoot(Root):
    def parameters_changed(self):
        super(FRoot, self).parameters_changed()
        Fault.hit()


class Watch(object):
    def call(self, me=None, which=None):
        Fault.hit()


def op_trigger(F, h):
    F.real[h].trigger_update()


def op_iadd(F, h, v):
    o = F.real[h]
    o += v
    for l, i in F.ref[h].elems():
        l.val[i] += v


MYOPS = dict(OPS, trigger=op_trigger, iadd=op_iadd)

CFG = dict(
    leaves={"a": ((2,), [1.0, 2.0], None), "b": ((1,), [3.0], "pos"), "c": ((2, 2), [0.5, 1.5, 2.5, 3.5], None), "e": ((2,), [5.0, 6.0], None)},
    nodes={"r": "model", "s": "node", "t": "node", "u": "node"},
    links=[("r", "s"), ("s", "t"), ("t", "a"), ("s", "b"), ("r", "c"), ("r", "u"), ("u", "e")],
    setup=[("fix", "c", None, ":,1"), ("con", "e", "b10", ":1")],
    kinds={"node": FNode, "model": FRoot})


def state_of(R):
    """the reference below the roots: what there is and where"""
    return {l: (list(l.val), list(l.tok), list(l.fix)) for l in R.leaves()}


class Faults(TreeSystem):
    def __init__(self, name, cfg, plan):
        TreeSystem.__init__(self, name, cfg, None, [a_structure, a_values, a_grads, a_cons, a_isfixed, a_opt, a_freenames, a_evaluated, a_switch, a_usable, a_roundtrip])
        self.plan = plan

    def build(self, fresh=True):
        Fault.at = 0
        F = tree.build_forest(dict(self.cfg, fresh=fresh))
        F.watch = Watch()
        for h in self.cfg.get("watched", ("a", "s")):
            F.real[h].add_observer(F.watch, F.watch.call, 2)
        F.hist = []
        return F

    def ops(self, F):
        out = []
        for op in self.plan[len(F.hist)]:
            o = op[3:] if op[0] == "boom" else op
            if o[0] == "trigger":
                out.append(op)
            elif o[0] == "iadd":
                if all(tree.interior(l.tok[i], l.val[i] + o[2]) for l, i in F.ref[o[1]].elems()):
                    out.append(op)
            elif enabled(F, o):
                out.append(op)
        return out

    def fmt(self, op):
        return fmt_op(op)

    def key(self, F):
        return (len(F.hist), TreeSystem.key(self, F))

    def apply(self, F, op):
        if op[0] != "boom":
            MYOPS[op[0]](F, *op[1:])
        else:
            self.boom(F, op[1], op[2], op[3:])
        F.hist.append(op)
        del EVENTS[:]

    def twin(self, F, op):
        """the reference after the same history, and the operation without the fault"""
        T = self.build(fresh=False)
        for o in F.hist:
            self.apply(T, o)
        MYOPS[op[0]](T, *op[1:])
        del EVENTS[:]
        return T

    def boom(self, F, exc, at, op):
        T = self.twin(F, op)
        e = EXC[exc]("scripted")
        Fault.at, Fault.exc = at, e
        got = None
        # what the operation computes for the reference is not used: after is what the twin says
        try:
            MYOPS[op[0]](F, *op[1:])
        except BaseException as x:
            got = x
        fired = Fault.at == 0
        Fault.at = 0
        if not fired:
            if got is not None:
                raise got
            return
        if got is None:
            raise Violation("the %s of the user's code was swallowed by %s" % (exc, fmt_op(op)), "swallowed")
        if got is not e:
            raise Violation("the %s of the user's code came out of %s as %r" % (exc, fmt_op(op), got), "replaced")
        F.kept.append(e)
        # each element has its value, constraint and mark of before or after, inside of its domain
        on = {bool(F.real[i].update_model()) for i in F.ref if F.ref[i].root() is F.ref[op[1]].root()}
        if len(on) != 1 or not on <= {F.ref[op[1]].upd, T.ref[op[1]].upd}:
            raise Violation("after %s failed, updates are %s, they were %s" % (fmt_op(op), sorted(on), F.ref[op[1]].upd), "switch")
        for n in F.ref[op[1]].root().subtree():
            n.upd = on == {True}
        for h in sorted(F.ref):
            if F.ref[h].kind != "leaf":
                continue
            L, A = F.ref[h], T.ref[h]
            o = F.real[h]
            vals = fl(o.values)
            tok, fix = cons_of(o, len(L.val), h)
            for i, v in enumerate(vals):
                if not any(close(v, w, 1e-8) for w in (L.val[i], A.val[i])):
                    raise Violation("after %s failed, element %d of %s is %r, neither %r (before) nor %r (after)" % (fmt_op(op), i, h, v, L.val[i], A.val[i]), "value")
                if tok[i] not in (L.tok[i], A.tok[i]) or fix[i] not in (L.fix[i], A.fix[i]):
                    raise Violation("after %s failed, element %d of %s is %s%s, neither %s%s (before) nor %s%s (after)" % (
                        fmt_op(op), i, h, tok[i], " fixed" * fix[i], L.tok[i], " fixed" * L.fix[i], A.tok[i], " fixed" * A.fix[i]), "constraint")
                if tok[i] is not None and not TOK[tok[i]].dom(v):
                    raise Violation("after %s failed, element %d of %s is %r, which is outside of %s" % (fmt_op(op), i, h, v, tok[i]), "domain")
            L.val, L.tok, L.fix = vals, tok, fix


def evaluated(F, root, what):
    """every node of the tree was evaluated at its values, children first"""
    back = {id(o): i for i, o in F.real.items()}
    last = {}
    for pos, (o, vals) in enumerate(EVENTS):
        last[back.get(id(o))] = (pos, vals)
    for n in root.subtree():
        if n.kind == "leaf":
            continue
        if n.id not in last:
            raise Violation("%s did not re-evaluate %s" % (what, n.id), "missing")
        want = [x.val[j] for x, j in n.elems()]
        if not same(list(last[n.id][1]), want):
            raise Violation("%s: %s was last evaluated at %s, its parameters are %s" % (what, n.id, last[n.id][1], want), "stale")
        if n.parent is not None and last[n.parent.id][0] < last[n.id][0]:
            raise Violation("%s: %s was evaluated before its child %s" % (what, n.parent.id, n.id), "order")


def a_switch(F, ids=None):
    for i in sorted(F.ref):
        if bool(F.real[i].update_model()) != F.ref[i].upd:
            raise Violation("updates at %s are %r, expected %r" % (i, F.real[i].update_model(), F.ref[i].upd), "updstate")


def a_evaluated(F, ids=None):
    """whatever failed before, an assignment to a leaf evaluates each ancestor exactly once, and an update everything"""
    for R in F.roots():
        if R.kind == "leaf":
            continue
        for l in R.leaves():
            del EVENTS[:]
            v = list(l.val)
            F.real[l.id][:] = np.array(v).reshape(l.shape)
            got = [k for o, _ in EVENTS for k in F.real if F.real[k] is o]
            want = [n.id for n in l.path()[1:]] if R.upd else []
            if got != want:
                raise Violation("an assignment to %s evaluated %s, expected %s" % (l.id, got, want), "count")
        del EVENTS[:]
        F.real[R.id].update_model(True)
        for n in R.subtree():
            n.upd = True
        evaluated(F, R, "switching updates on")
        del EVENTS[:]


def booms(ops, ats, excs):
    return [("boom", e, k) + op for op in ops for k in ats for e in excs]


OPSET = [("set", "a", None, 7.0), ("set", "a", ":1", 7.5), ("set", "b", None, 7.0), ("set", "c", "0,:", ("r", 7.0)), ("set", "s", None, ("r", 7.0)), ("set", "r", None, ("r", 7.0)), ("set", "e", None, 7.0),
         ("iadd", "a", 0.5), ("iadd", "c", 0.5), ("attr", "r", "c", ("r", 7.0)), ("attr", "r", "s", 7.0), ("attr", "t", "a", 7.0), ("rex", "r", "", 7.5), ("rex", "r", ".*[be]$", 7.25), ("rex", "s", ".*", ("r", 7.0)), ("rex", "r", "u", 3.0),
         ("oset", "r", ("r", 0.5)), ("oset", "s", ("r", 0.5)), ("oset", "c", ("r", 0.5)), ("orst", "r"), ("rand", "r", ("r", 0.25)), ("rand", "t", ("r", 0.25)), ("trigger", "r"), ("trigger", "s"), ("trigger", "a"),
         ("upd", "r", True), ("upd", "t", True), ("upd", "a", True), ("upd", "u", False),
         ("con", "a", "pos", None), ("con", "s", "b10", None), ("con", "r", "pos", None), ("con", "c", "exp", ":,1"), ("con", "e", "pos", None), ("con", "u", "neg", None),
         ("unc", "r", None, None), ("unc", "e", None, None), ("unc", "b", "pos", None),
         ("fix", "a", None, None), ("fix", "s", None, None), ("fix", "r", None, None), ("fix", "a", 7.0, None), ("fix", "c", 7.0, "0,:"), ("fix", "s", 7.0, None), ("unfix", "r", None), ("unfix", "c", ":,1")]
STRUCT = [("link", "r", "s", None), ("link", "u", "t", 0), ("link", "r", "t", 0), ("link", "r", "s", 0), ("unlink", "r", "s"), ("unlink", "s", "t"), ("unlink", "r", "u"), ("unlink", "t", "a"), ("link", "u", "a", 0), ("upd", "r", False), ("upd", "s", True), ("raw", "s", 2.0)]


def systems():
    T = env.THOROUGH
    some = [o for o in OPSET if o[:2] in (("set", "a"), ("set", "r"), ("rex", "r"), ("oset", "r"), ("con", "s"), ("fix", "s"), ("unfix", "r"), ("upd", "t"), ("rand", "r"), ("trigger", "s"), ("fix", "c"))]
    S = [Faults("kinds", CFG, [booms(OPSET, (1, 2, 3, 4, 5, 6, 7), sorted(EXC))]),
         Faults("then", CFG, [booms(OPSET, (1, 2, 3, 4, 5), ("own",)), OPSET + STRUCT] + ([some + STRUCT] if T else [])),
         Faults("before", CFG, [OPSET + STRUCT, booms(OPSET, (1, 2, 3, 4, 5) if T else (1, 2, 4), ("own",))] + ([some] if T else [])),
         Faults("twice", CFG, [booms(some, (1, 2, 3), ("own", "attr"))] * (3 if T else 2))]
    return {s.name: s for s in S}


def run(report):
    for s in systems().values():
        explore(s, len(s.plan), report)
