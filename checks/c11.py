"""C11: observers are called by priority, exactly once, while registered and alive."""
import gc
import weakref

import numpy as np

from mc import env
from mc.canon import heap_key
from mc.explore import System, explore
from mc.report import Violation

from paramz import ObsAr, Param, Parameterized
from paramz.core.observable import Observable

LEVEL = "model_checking"
LOG = []
INF = float("inf")


class Plain(object):
    def __init__(self, n):
        self.n = n

    def m1(self, me, which=None):
        LOG.append((self.n, "m1", me, which))

    def m2(self, me, which=None):
        LOG.append((self.n, "m2", me, which))


class Equal(Plain):
    """all of them compare equal"""

    def __eq__(self, other):
        return isinstance(other, Equal)

    def __ne__(self, other):
        return not self == other

    __hash__ = None


class Falsy(Plain):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Arr(ObsAr):
    def m1(self, me, which=None):
        LOG.append((self.n, "m1", me, which))


def f1(me, which=None):
    LOG.append(("f", "f1", me, which))


def f2(me, which=None):
    LOG.append(("f", "f2", me, which))


H1, H2 = Plain("h1"), Plain("h2")       # never observers themselves, only their methods are called


def make(n):
    if n[0] == "p":
        return Plain(n)
    if n[0] == "e":
        return Equal(n)
    if n[0] == "z":
        return Falsy(n)
    o = Arr([1.0, 2.0, 3.0])
    o.n = n
    return o


SUBJECTS = {"observable": Observable, "array": lambda: ObsAr([1.0, 2.0]), "param": lambda: Param("p", [1.0, 2.0]),
            "node": lambda: Parameterized("n")}


class Env(object):
    pass


class Observers(System):
    def __init__(self, name, subject, observers, cbs, prios, change=True, nested=False):
        self.name = name
        self.subject = subject
        self.observers = observers
        self.cbs = cbs
        self.prios = prios
        self.nested = nested

    def build(self):
        e = Env()
        e.subj = SUBJECTS[self.subject]()
        e.obs = {n: make(n) for n in self.observers}
        e.refs = {n: weakref.ref(o) for n, o in e.obs.items()}
        e.reg = []                  # (priority, observer, callback), in calling order
        e.on = True
        e.base = [(p, o, c) for p, o, c in e.subj.observers]   # registrations of the subject itself
        del LOG[:]
        return e

    def callbacks(self, n):
        return [c for c in self.cbs if not (n[0] == "a" and c == "m2")]

    def cb(self, e, n, c):
        return {"f1": f1, "f2": f2, "h1": H1.m1, "h2": H2.m1}.get(c) or getattr(e.obs[n], c)

    def ops(self, e):
        out = [("updates", True), ("updates", False), ("notify",)]
        for n in sorted(e.obs):
            for c in self.callbacks(n):
                for p in self.prios:
                    out.append(("add", n, c, p))
                    out.append(("change", n, c, p))
                out.append(("remove", n, c))
            out.append(("remove", n, None))
            out.append(("drop", n))
        return out

    def insert(self, e, n, c, p):
        k = 0
        while k < len(e.reg) and e.reg[k][0] >= p:
            k += 1
        e.reg.insert(k, (p, n, c))

    def apply(self, e, op):
        k = op[0]
        if k == "updates":
            e.subj.set_updates(op[1])
            e.on = op[1]
        elif k == "notify":
            e.subj.notify_observers()
        elif k == "add":
            e.subj.add_observer(e.obs[op[1]], self.cb(e, op[1], op[2]), op[3])
            self.insert(e, op[1], op[2], op[3])
        elif k == "change":
            e.subj.change_priority(e.obs[op[1]], self.cb(e, op[1], op[2]), op[3])
            e.reg = [r for r in e.reg if not (r[1] == op[1] and r[2] == op[2])]
            self.insert(e, op[1], op[2], op[3])
        elif k == "remove":
            if op[2] is None:
                e.subj.remove_observer(e.obs[op[1]])
            else:
                e.subj.remove_observer(e.obs[op[1]], self.cb(e, op[1], op[2]))
            e.reg = [r for r in e.reg if not (r[1] == op[1] and op[2] in (None, r[2]))]
        elif k == "drop":
            del e.obs[op[1]]
            e.reg = [r for r in e.reg if r[1] != op[1]]
            if e.refs[op[1]]() is not None:
                gc.collect()
            if e.refs[op[1]]() is not None:
                raise Violation("%s is still alive after its last reference was dropped: its registration keeps it" % op[1], "keptalive")

    def key(self, e):
        return heap_key([e.subj, sorted(e.obs.items())])

    def check(self, e):
        for on in (e.on, True, False):
            e.subj.set_updates(on)
            for minp in (None, -INF, -1, 0, 1, 2.5):
                for which in (None, "sender"):
                    del LOG[:]
                    e.subj.notify_observers(which, minp)
                    got = [(n, c) for n, c, me, w in LOG]
                    want = []
                    if on:
                        want = [(c, "m1") if c[0] == "h" else ("f" if c[0] == "f" else n, c) for p, n, c in e.reg if minp is None or p > minp]
                    if got != want:
                        raise Violation("notify(min_priority=%r, updates %s) called %s, expected %s" % (minp, on, got, want), "calls")
                    for n, c, me, w in LOG:
                        if me is not e.subj:
                            raise Violation("callback got %r as the changed object" % (me,), "me")
                        if (w is not e.subj) if which is None else (w != which):
                            raise Violation("callback got which=%r" % (w,), "which")
        e.subj.set_updates(e.on)
        del LOG[:]
        got = [(p, o) for p, o, c in e.subj.observers if not any(o is b[1] for b in e.base)]
        if [(p, id(o)) for p, o in got] != [(p, id(e.obs[n])) for p, n, c in e.reg]:
            raise Violation("the list of observers is %r, expected %r" % (got, e.reg), "list")
        if len(e.subj.observers) != len(e.reg) + len(e.base):
            raise Violation("%d observers are listed, %d are registered" % (len(e.subj.observers), len(e.reg)), "list")


class Reentrant(System):
    """callbacks which change the registrations while they are called"""
    name = "reentrant"

    ACTS = ["none", "remove_self", "remove_next", "remove_prev", "add_low", "add_high", "notify_low", "drop_next"]

    def build(self):
        e = Env()
        e.subj = Observable()
        e.calls = []
        e.acts = []
        e.obs = []
        return e

    def ops(self, e):
        return [("cb", a, p) for a in self.ACTS for p in (0, 1)] if len(e.acts) < 3 else []

    def apply(self, e, op):
        i = len(e.acts)
        e.acts.append(op)
        e.obs.append(Plain("x%d" % i))

        def cb(me, which=None, i=i, a=op[1]):
            e.calls.append(i)
            if e.calls.count(i) > 1:
                return
            if a == "remove_self":
                e.subj.remove_observer(e.obs[i])
            elif a in ("remove_next", "remove_prev", "drop_next"):
                order = e.order
                j = order.index(i) + (-1 if a == "remove_prev" else 1)
                if 0 <= j < len(order):
                    if a == "drop_next":
                        e.obs[order[j]] = None
                    elif e.obs[order[j]] is not None:
                        e.subj.remove_observer(e.obs[order[j]])
            elif a in ("add_low", "add_high"):
                e.subj.add_observer(e.obs[i], lambda me, which=None: e.calls.append("new"), -5 if a == "add_low" else 5)
            elif a == "notify_low":
                e.subj.notify_observers(None, 100)
        e.subj.add_observer(e.obs[i], cb, op[2])

    def key(self, e):
        return repr(e.acts).encode()

    def check(self, e):
        n = len(e.acts)
        e.order = sorted(range(n), key=lambda i: (-e.acts[i][2], i))
        del e.calls[:]
        e.subj.notify_observers()
        gone = set()
        for k, i in enumerate(e.order):
            a = e.acts[i][1]
            if i not in e.calls:
                continue
            if a in ("remove_next", "drop_next") and k + 1 < n:
                gone.add(e.order[k + 1])
        got = [c for c in e.calls if c != "new"]
        for i in e.order:
            # whether a callback removed during the notification is still called is left open
            if i not in gone and got.count(i) != 1:
                raise Violation("callback %d was called %d times: %s for %s" % (i, got.count(i), e.calls, e.acts), "reentrant")
        if any(got.count(i) > 1 for i in got):
            raise Violation("called twice: %s" % (got,), "reentrant")
        if [i for i in got if i not in gone] != [i for i in e.order if i not in gone]:
            raise Violation("called in the order %s, expected %s" % (got, e.order), "reentrant")


def systems():
    S = [Observers("plain", "observable", ["p1", "p2"], ["m1", "m2"], [0, 1]),
         Observers("equal", "observable", ["e1", "e2", "p1"], ["f1", "m1"], [0, 1]),
         Observers("arrays", "observable", ["a1", "a2"], ["f1", "m1"], [0, -1]),
         Observers("prios", "observable", ["p1", "z1"], ["m1", "f1"], [-INF, -1, 0, 1.5]),
         Observers("onarray", "array", ["p1", "e1", "a1"], ["m1", "f1"], [0, 1]),
         Observers("onparam", "param", ["p1", "z1"], ["m1", "f2"], [0, 1]),
         Observers("foreign", "observable", ["p1", "e1"], ["m1", "h1", "h2"], [0, 1]),
         Reentrant()]
    return {s.name: s for s in S}


def run(report):
    S = systems()
    d = 1 if env.THOROUGH else 0
    for n, depth in (("plain", 5), ("equal", 3), ("arrays", 3), ("prios", 3), ("onarray", 3), ("onparam", 3), ("foreign", 3), ("reentrant", 3)):
        explore(S[n], depth + d, report)
