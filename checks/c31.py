"""C31: observers on any part of a tree are told of each change below it, once per change of a leaf."""
import numpy as np

from mc import env
from mc import tree
from mc.explore import explore
from mc.report import Violation
from mc.tree import EVENTS, Node, Root, TreeSystem, enabled, fmt_op, same
from checks import c10
from checks.c10 import CFG, MYOPS, affected, op_iadd, op_setview  # noqa: F401

LEVEL = "model_checking"
PRIOS = {"hi": 3, "mid": 0, "mid2": 0, "lo": -1000, "extra": 1}


class Watch(object):
    """an observer with one callback per name; each tells what it was called with, and what it sees"""
    def __init__(self, name, of):
        self.name = name
        self.of = of

    def note(self, cb, me, which):
        # an assignment through a slice tells of this slice: what is seen is its parameter
        me, which = self.of.get(me), self.of.get(which)
        EVENTS.append(((self.name, cb, me, which), tuple(float(v) for v in me.param_array.flat)))

    def hi(self, me, which=None):
        self.note("hi", me, which)

    def mid(self, me, which=None):
        self.note("mid", me, which)

    def mid2(self, me, which=None):
        self.note("mid2", me, which)

    def lo(self, me, which=None):
        self.note("lo", me, which)


class ONode(Node):
    """a node which observes others by a callback of its own"""
    def extra(self, me, which=None):
        me, which = self.of.get(me), self.of.get(which)
        EVENTS.append(((self.name, "extra", me, which), tuple(float(v) for v in me.param_array.flat)))


class ORoot(Root):
    extra = ONode.extra


class Whole(object):
    def __init__(self, F):
        self.F = F

    def get(self, o):
        for p in self.F.real.values():
            if p is o:
                return o
        for i, p in self.F.real.items():
            if self.F.ref[i].kind == "leaf" and np.shares_memory(np.asarray(o), np.asarray(p)):
                return p
        raise Violation("a callback was told of an object %r, which is not of any tree" % (type(o),), "object")


def regs(n):
    if not hasattr(n, "regs"):
        n.regs = []
    return n.regs


def ordered(n):
    """(observer, callback) in the order of their calls, None is the node's own evaluation"""
    own = [] if n.kind == "leaf" else [(-100, -1, None)]
    return [x for _, _, x in sorted(own + [(PRIOS[cb], k, (w, cb)) for k, (w, cb) in regs(n)], key=lambda t: (-t[0], t[1]))]


class Told(TreeSystem):
    def __init__(self, name, cfg, plan):
        TreeSystem.__init__(self, name, cfg, None, [])
        self.plan = plan

    def build(self):
        F = TreeSystem.build(self)
        for i in F.real:
            if F.ref[i].kind != "leaf":
                F.real[i].of = Whole(F)
        F.watch = {"v": Watch("v", Whole(F)), "w": Watch("w", Whole(F))}
        F.depth = F.seq = 0
        return F

    def ops(self, F):
        out = []
        for op in self.plan[F.depth]:
            if op[0] in ("reg", "unreg", "foreign", "unforeign"):
                have = [x for _, x in regs(F.ref[op[1]])]
                if op[0] == "reg":
                    ok = (op[2], op[3]) not in have
                elif op[0] == "foreign":
                    ok = (op[2], "extra") not in have
                elif op[0] == "unforeign":
                    ok = (op[2], "extra") in have
                else:
                    ok = any(x[0] == op[2] and (op[3] is None or x[1] == op[3]) for x in have)
                if ok:
                    out.append(op)
            elif op[0] == "link":
                if enabled(F, op) and F.ref[op[1]].upd == F.ref[op[2]].root().upd:
                    out.append(op)
            elif op[0] == "iadd":
                if all(tree.interior(l.tok[i], l.val[i] + op[2]) for l, i in F.ref[op[1]].elems()):
                    out.append(op)
            elif op[0] == "nodeidx":
                els = F.ref[op[1]].elems()
                if els and all(tree.interior(l.tok[i], op[3]) for l, i in els):
                    out.append(op)
            elif op[0] in ("trigger", "toggle") or enabled(F, op):
                out.append(op)
        return out

    def key(self, F):
        from mc.canon import heap_key
        return (F.depth, heap_key([F.real[k] for k in sorted(F.real)] + env.registered(), skip_attrs=("of",)))

    def apply(self, F, op):
        F.depth += 1
        del EVENTS[:]
        k = op[0]
        if k == "reg":
            F.real[op[1]].add_observer(F.watch[op[2]], getattr(F.watch[op[2]], op[3]), PRIOS[op[3]])
            F.seq += 1
            regs(F.ref[op[1]]).append((F.seq, (op[2], op[3])))
        elif k == "foreign":
            F.real[op[1]].add_observer(F.real[op[2]], F.real[op[2]].extra, PRIOS["extra"])
            F.seq += 1
            regs(F.ref[op[1]]).append((F.seq, (op[2], "extra")))
        elif k == "unforeign":
            F.real[op[1]].remove_observer(F.real[op[2]], F.real[op[2]].extra)
            F.ref[op[1]].regs = [(s, x) for s, x in regs(F.ref[op[1]]) if x != (op[2], "extra")]
        elif k == "unreg":
            w = F.watch[op[2]]
            F.real[op[1]].remove_observer(*((w,) if op[3] is None else (w, getattr(w, op[3]))))
            F.ref[op[1]].regs = [(s, x) for s, x in regs(F.ref[op[1]]) if x[0] != op[2] or (op[3] is not None and x[1] != op[3])]
        else:
            self.change(F, op)
            return
        if EVENTS:
            raise Violation("%s called %s" % (fmt_op(op), EVENTS), "silent")

    def change(self, F, op):
        k = op[0]
        leaves, exact, on, scope = affected(F, op)
        MYOPS[k](F, *op[1:])
        ev = []
        back = {id(o): i for i, o in F.real.items()}
        for o, vals in EVENTS:
            if isinstance(o, tuple):
                ev.append((back.get(id(o[2])), o[:2], back.get(id(o[3])), vals))
            else:
                ev.append((back.get(id(o)), None, None, vals))
        del EVENTS[:]
        show = [(i, ".".join(x) if x else "evaluation") for i, x, _, _ in ev]
        if k in ("raw", "grad", "read", "link", "unlink") or not on:
            called = [s for s in show if s[1] != "evaluation"] if k in ("link", "unlink") else show
            if called:
                raise Violation("%s called %s%s" % (fmt_op(op), called, "" if on else " with updates off"), "extra")
            return
        path = [leaves[0]] + exact if exact else []
        if exact:
            want = [(n.id, x) for n in path for x in ordered(n)]
            got = [(i, x) for i, x, _, _ in ev]
            if got != want:
                raise Violation("%s called %s, expected %s" % (fmt_op(op), show, want), "calls")
            for i, x, which, _ in ev:
                if x and which != path[0].id:
                    raise Violation("%s told %s of %s that %s changed" % (fmt_op(op), x, i, which), "which")
        need = []
        for l in leaves:
            for n in l.path():
                if n not in need:
                    need.append(n)
        if scope is not None:
            base = F.ref[op[1]].root() if k in ("upd", "toggle") else F.ref[op[1]]
            need = base.subtree() + base.path()[1:]
        last = {}
        for pos, (i, x, _, vals) in enumerate(ev):
            last[i, x] = pos
        for n in need:
            for x in ordered(n):
                if (n.id, x) not in last:
                    raise Violation("%s did not call %s of %s (called %s)" % (fmt_op(op), x or "the evaluation", n.id, show), "missing")
                want = [y.val[j] for y, j in n.elems()]
                pos = last[n.id, x]
                if not same(list(ev[pos][3]), want):
                    raise Violation("%s: %s of %s last saw %s, its parameters are %s" % (fmt_op(op), x or "the evaluation", n.id, ev[pos][3], want), "stale")
                if n.parent is not None and n.parent in need:
                    for y in ordered(n.parent):
                        if last[n.parent.id, y] < pos:
                            raise Violation("%s: %s of %s was called before %s of %s below it" % (fmt_op(op), y or "the evaluation", n.parent.id, x or "the evaluation", n.id), "order")
            # in the order of their priorities, each time
            lasts = [last[n.id, x] for x in ordered(n)]
            if lasts != sorted(lasts):
                raise Violation("%s: callbacks of %s were called in the order %s" % (fmt_op(op), n.id, show), "priority")
        tree_ = F.ref[op[1]].root().subtree()
        for i, x, _, _ in ev:
            if i is not None and F.ref[i] not in tree_:
                raise Violation("%s called %s of %s in another tree" % (fmt_op(op), x, i), "elsewhere")

    def check(self, F):
        """an assignment to each leaf tells its path, and nobody else"""
        for i in sorted(F.ref):
            if F.ref[i].kind == "leaf":
                n = len(F.ref[i].val)
                self.change(F, ("iadd", i, 0.0))
        for R in F.roots():
            if R.kind != "leaf" and R.elems():
                self.change(F, ("upd", R.id, True))


CHANGES = [("set", "a", None, 2.25), ("set", "a", ":1", 2.25), ("set", "b", None, 2.5), ("set", "c", "0,:", 2.25), ("set", "c", "m0", 2.25), ("set", "s", None, ("r", 1.0)), ("set", "r", None, 3.0), ("set", "t", None, 3.25), ("set", "u", None, 2.0),
           ("iadd", "a", 0.5), ("iadd", "e", 0.5), ("setview", "a", ":1", 4.5), ("setview", "c", ":,1", 4.5), ("nodeidx", "r", "-1", 3.5), ("nodeidx", "s", "mask", 3.5), ("attr", "r", "c", ("r", 1.0)), ("attr", "r", "s", 7.0), ("attr", "t", "a", 7.0),
           ("rex", "r", "", 2.5), ("rex", "r", ".*[be]$", 1.25), ("rex", "s", "", 3.0), ("rex", "r", "u", 3.0), ("oset", "r", ("r", 0.5)), ("oset", "s", ("r", 0.5)), ("oset", "a", ("r", 0.5)), ("orst", "t"), ("rand", "r", ("r", 1.5)), ("optimize", "r", ("r", 0.25)),
           ("trigger", "r"), ("trigger", "s"), ("trigger", "a"), ("toggle", "u", "update_toggle"), ("upd", "r", True), ("upd", "r", False), ("upd", "a", True), ("upd", "t", False),
           ("con", "a", "pos", None), ("con", "s", "b10", None), ("con", "r", "pos", None), ("unc", "r", None, None), ("fix", "a", None, None), ("fix", "s", 1.5, None), ("fix", "c", 1.5, ":,1"), ("unfix", "r", None),
           ("grad", "r", 3.0), ("raw", "s", 1.0), ("read", "r", "all")]
MOVES = [("link", p, c, i) for p, c in (("r", "s"), ("r", "t"), ("s", "t"), ("u", "t"), ("u", "a"), ("t", "u"), ("r", "a"), ("s", "b"), ("r", "u"), ("u", "e"), ("r", "c"), ("u", "c"), ("t", "a")) for i in (None, 0)] + \
        [("unlink", p, c) for p, c in (("r", "s"), ("s", "t"), ("r", "u"), ("t", "a"), ("u", "t"), ("r", "t"), ("u", "a"), ("u", "e"), ("r", "c"), ("s", "b"))]


def reg(hs, ws="vw", cbs=("hi", "lo", "mid", "mid2"), drop=False):
    out = [("reg", h, w, cb) for h in hs for w in ws for cb in cbs]
    if drop:
        out += [("unreg", h, w, cb) for h in hs for w in ws for cb in cbs + (None,)]
    return out


def systems():
    T = env.THOROUGH
    few = [o for o in CHANGES if o[:2] in (("set", "a"), ("set", "r"), ("rex", "r"), ("oset", "s"), ("con", "s"), ("fix", "c"), ("upd", "r"), ("toggle", "u"), ("unfix", "r"))]
    S = [Told("calls", CFG, [reg("abcersut", "v"), CHANGES + MOVES] + ([CHANGES + MOVES] if T else [few])),
         Told("more", CFG, [reg("ars", "vw", ("hi", "mid", "lo")), reg("arst", "vw", ("hi", "mid2", "lo"), True)] + ([reg("as", "vw", ("hi", "mid2", "lo"), True)] if T else []) + [CHANGES]),
         Told("moved", CFG, [reg("ast", "v", ("hi", "lo")), MOVES] + ([MOVES] if T else []) + [MOVES + [("unreg", h, "v", None) for h in "ast"] + few])]
    own = [("foreign", h, n) for h, n in (("a", "t"), ("a", "s"), ("b", "s"), ("t", "s"), ("s", "r"), ("c", "r"), ("e", "s"), ("t", "u"), ("e", "u"), ("u", "r"))]
    S.append(Told("own", dict(CFG, kinds={"node": ONode, "model": ORoot}), [own, MOVES + own + [("un" + o[0],) + o[1:] for o in own], MOVES + few + [("un" + o[0],) + o[1:] for o in own]]))
    return {s.name: s for s in S}


def run(report):
    for s in systems().values():
        explore(s, len(s.plan), report)
