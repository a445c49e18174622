"""C24: index-operation containers behave as a map from property to index set."""
import copy
import pickle

import numpy as np

from mc import env
from mc.canon import heap_key
from mc.explore import System, explore
from mc.report import Violation

from paramz.core.index_operations import ParameterIndexOperations, ParameterIndexOperationsView

LEVEL = "model_checking"
PROPS = ("one", "two", "three")
# windows: name -> (of which, offset, size)
WINDOWS = {"whole": ("io", 0, 6), "v": ("io", 2, 3), "w": ("v", 1, 2), "x": ("whole", 1, 4), "tail": ("io", 4, 4)}


def absolute(name):
    off = 0
    while name != "io":
        name, o, _ = WINDOWS[name]
        off += o
    return off


FORMS = {"arr": lambda ix: np.array(ix, dtype=int), "list": list, "tuple": tuple, "dup": lambda ix: np.array(list(ix)[::-1] + list(ix), dtype=int), "duplist": lambda ix: [i for i in ix for _ in (0, 1)],
         "view": lambda ix: np.repeat(np.array(ix, dtype=int), 2)[::2], "small": lambda ix: np.array(ix, dtype=np.int32)}


class World(object):
    pass


def ints(a, what):
    a = np.asarray(a)
    if a.ndim != 1 or a.dtype.kind not in "iu":
        raise Violation("%s is %r: not a vector of integers" % (what, a), "dtype")
    out = [int(i) for i in a]
    if len(set(out)) != len(out):
        raise Violation("%s holds an index twice: %s" % (what, out), "twice")
    return set(out)


def observe(o, ref, what, universe, brief=False):
    """every query of a container or view against a dict of sets"""
    ref = {p: s for p, s in ref.items() if s}
    items = list(o.items())
    if len(items) != len({p for p, _ in items}):
        raise Violation("%s lists a property twice: %s" % (what, items), "items")
    got = {p: ints(i, "%s: indices of %s" % (what, p)) for p, i in items}
    if got != ref:
        raise Violation("%s holds %s, expected %s" % (what, got, ref), "items")
    props = list(o.properties())
    if sorted(props) != sorted(ref):
        raise Violation("%s lists the properties %s, expected %s" % (what, props, sorted(ref)), "properties")
    ind = o.indices()
    if len(ind) != len(props) or any(ints(i, what) != ref[p] for p, i in zip(props, ind)):
        raise Violation("%s: indices() is %s for %s" % (what, ind, props), "indices")
    n = sum(len(s) for s in ref.values())
    if int(o.size) != n:
        raise Violation("%s has the size %s, expected %d" % (what, o.size, n), "size")
    for p in PROPS:
        g = ints(o[p], "%s[%s]" % (what, p))
        if g != ref.get(p, set()):
            raise Violation("%s[%s] is %s, expected %s" % (what, p, sorted(g), sorted(ref.get(p, ()))), "getitem")
    if brief:
        return
    for q in (universe, universe[::-2], universe[:0], universe[1:2] * 2):
        pf = o.properties_for(np.array(q, dtype=int))
        if len(pf) != len(q) or any(sorted(l) != sorted(p for p in ref if i in ref[p]) for i, l in zip(q, pf)):
            raise Violation("%s: properties_for(%s) is %s, holding %s" % (what, q, list(pf), ref), "properties_for")
        if len(set(q)) == len(q):
            pd = o.properties_dict_for(q)
            want = {p: set(q) & ref[p] for p in ref if set(q) & ref[p]}
            if {p: ints(i, what) for p, i in pd.items()} != want:
                raise Violation("%s: properties_dict_for(%s) is %s, expected %s" % (what, q, pd, want), "properties_dict_for")
    str(o)


class Ops(System):
    def __init__(self, name, start, alphabet, n=6):
        self.name, self.start, self.alphabet, self.n = name, start, alphabet, n

    def build(self):
        W = World()
        W.o = {"io": ParameterIndexOperations()}
        W.ref = {p: set() for p in PROPS}
        for p, ix in self.start.items():
            W.o["io"].add(p, np.array(ix))
            W.ref[p] = set(ix)
        self.views(W)
        W.side = ParameterIndexOperations({"two": np.array([0, 2]), "three": np.array([1])})
        W.given = []
        W.copies = []
        return W

    def views(self, W):
        for v in ("whole", "v", "w", "x", "tail"):
            of, off, size = WINDOWS[v]
            W.o[v] = ParameterIndexOperationsView(W.o[of], off, size)

    def ops(self, W):
        return [a for a in self.alphabet if not (a[0] == "right" and max([0] + [i for s in W.ref.values() for i in s]) > 9)
                and not (a[0] == "del" and not W.ref[a[2]])
                and not (a[0] == "copy" and len(W.copies) > 1)]

    def part(self, W, on):
        """what the window shows"""
        if on == "io":
            return {p: set(s) for p, s in W.ref.items()}
        lo, size = absolute(on), WINDOWS[on][2]
        out = {}
        for p, s in W.ref.items():
            # the windows above hide what they do not cover
            w, vis = on, set(s)
            while w != "io":
                a, z = absolute(w), WINDOWS[w][2]
                vis = {i for i in vis if a <= i < a + z}
                w = WINDOWS[w][0]
            out[p] = {i - lo for i in vis}
        return out

    def apply(self, W, op):
        k, on = op[0], op[1]
        o, off = W.o[on], absolute(on)
        if k in ("add", "remove"):
            p, ix, form = op[2:]
            given = FORMS[form](ix)
            W.given.append((given, copy.copy(given)))
            A = {i + off for i in ix}
            if k == "add":
                o.add(p, given)
                W.ref[p] |= A
            else:
                got = o.remove(p, given)
                want = {i - off for i in W.ref[p] & A}
                if ints(got, "%s.remove(%s, %s)" % (on, p, given)) != want:
                    raise Violation("%s.remove(%s, %s) returned %s, removed %s" % (on, p, given, got, sorted(want)), "removed")
                W.given.append((got, got.copy()))
                W.ref[p] -= A
        elif k == "right":
            o.shift_right(op[2], op[3])
            s = op[2] + off
            W.ref = {p: {i + op[3] if i >= s else i for i in x} for p, x in W.ref.items()}
        elif k == "left":
            o.shift_left(op[2], op[3])
            s, n = op[2] + off, op[3]
            W.ref = {p: {i - n if i >= s + n else i for i in x if not s <= i < s + n} for p, x in W.ref.items()}
        elif k == "clear":
            vis = self.part(W, on)
            o.clear()
            W.ref = {p: s - {i + off for i in vis[p]} for p, s in W.ref.items()}
        elif k == "del":
            vis = self.part(W, on)
            del o[op[2]]
            W.ref[op[2]] -= {i + off for i in vis[op[2]]}
        elif k == "read":
            o[op[2]]
        elif k == "update":
            src = W.side if op[2] == "side" else W.o[op[2]]
            have = {p: ints(i, "side") for p, i in src.items()} if op[2] == "side" else self.part(W, op[2])
            if len(op) > 3:
                o.update(src, op[3])
            else:
                o.update(src)
            d = op[3] if len(op) > 3 else 0
            for p, s in have.items():
                W.ref[p] |= {i + d + off for i in s}
        elif k == "copy":
            c = {"copy": lambda: o.copy(), "deepcopy": lambda: copy.deepcopy(o), "pickle": lambda: pickle.loads(pickle.dumps(o))}[op[2]]()
            vis = self.part(W, on)
            if op[2] == "copy" and c is o:
                raise Violation("copy of %s is itself" % on, "copy")
            W.copies.append((c, vis))
        elif k == "onto":          # go on with a copy
            c = W.o["io"].copy()
            W.copies.append((W.o["io"], {p: set(s) for p, s in W.ref.items()}))
            W.o = {"io": c}
            self.views(W)
        else:
            raise AssertionError(op)

    def key(self, W):
        return heap_key([W.o["io"], W.side, [c for c, _ in W.copies]])

    def check(self, W):
        for on in ["io"] + sorted(WINDOWS):
            n = 10 if on == "io" else WINDOWS[on][2]
            observe(W.o[on], self.part(W, on), on, list(range(n)))
        for g, was in W.given:
            if not np.array_equal(g, was):
                raise Violation("an array given or returned turned from %s to %s" % (was, g), "given")
        for c, ref in W.copies:
            observe(c, ref, "copy", list(range(10)), True)
        observe(W.side, {"two": {0, 2}, "three": {1}}, "side", list(range(4)), True)
        # a copy made now is equal and independent, both ways
        for on in ("io", "v", "w"):
            ref = self.part(W, on)
            for c in (W.o[on].copy(), copy.deepcopy(W.o[on])):
                observe(c, ref, "copy of " + on, list(range(6)), True)
                c.add("one", np.array([1]))
                c.remove("two", np.array([0, 1, 2]))
                c.shift_right(0, 1)
                c.clear()
                observe(W.o[on], ref, on + " after its copy changed", list(range(6)), True)
            c = W.o[on].copy()
        c = W.o["io"].copy()
        ref = self.part(W, "io")
        W.o["io"].shift_right(1, 2)
        W.o["io"].shift_left(0, 1)
        W.o["io"].add("one", np.array([0, 5]))
        W.o["io"].remove("three", np.array([2, 3]))
        observe(c, ref, "copy after the original changed", list(range(10)), True)

    def outcome(self, W):
        return tuple((p, tuple(sorted(s))) for p, s in sorted(W.ref.items()))


def alphabet(T):
    A = []
    for p in ("one", "two"):
        for ix, forms in [((0, 1), ("arr",)), ((2, 4), ("arr", "list", "dup")), ((3,), ("arr", "duplist")), ((), ("arr", "list")), ((0, 5), ("view", "tuple", "small"))]:
            for f in forms:
                A += [("add", "io", p, ix, f), ("remove", "io", p, ix, f)]
    for v, ix in [("v", (0, 2)), ("v", (1,)), ("w", (1,)), ("x", (0, 3)), ("tail", (0, 2))]:
        for f in ("arr",) + (("list", "dup", "tuple") if v in "vw" else ()):
            A += [("add", v, "one", ix, f), ("remove", v, "one", ix, f), ("remove", v, "two", ix, f)]
    A += [("add", "v", "three", (), "arr"), ("remove", "v", "three", (), "list")]
    for s in range(0, 6):
        for n in (1, 2):
            A += [("right", "io", s, n), ("left", "io", s, n)]
    A += [("left", "io", 0, 9), ("left", "io", 7, 3), ("right", "io", 9, 1), ("left", "v", 0, 1), ("left", "v", 1, 2), ("right", "v", 0, 1), ("right", "w", 1, 2), ("left", "w", 0, 2)]
    A += [("clear", v) for v in ("io", "v", "w", "tail")]
    A += [("del", v, "one") for v in ("io", "v", "w")] + [("del", "io", "two"), ("del", "x", "two")]
    A += [("read", "io", "three"), ("read", "v", "three")]
    A += [("update", "io", "side", 0), ("update", "io", "side", 3), ("update", "v", "side"), ("update", "v", "side", 1), ("update", "w", "side", 0), ("update", "io", "v", 4), ("update", "io", "io", 1), ("update", "v", "tail"), ("update", "whole", "w", 0)]
    A += [("copy", v, how) for v in ("io", "v", "w") for how in ("copy", "deepcopy")] + [("copy", "io", "pickle"), ("onto", "io")]
    return A


def fewer():
    return [("add", "io", "one", (2, 4), "arr"), ("add", "v", "two", (0, 2), "arr"), ("add", "w", "one", (1,), "dup"), ("remove", "io", "one", (0, 3), "arr"), ("remove", "v", "two", (1,), "list"), ("right", "io", 3, 1), ("right", "v", 1, 2),
            ("left", "io", 2, 2), ("left", "w", 0, 1), ("clear", "v"), ("del", "io", "one"), ("update", "io", "v", 1), ("update", "v", "side", 0), ("onto", "io"), ("read", "io", "three"), ("copy", "v", "copy")]


START = {"one": [3], "two": [0, 5], "three": [2, 4]}


def systems():
    T = env.THOROUGH
    S = [Ops("wide", START, alphabet(T)), Ops("empty", {}, alphabet(T)), Ops("few", START, fewer()), Ops("fewempty", {}, fewer())]
    return {s.name: s for s in S}


def run(report):
    S = systems()
    T = env.THOROUGH
    explore(S["wide"], 3 if T else 2, report)
    explore(S["empty"], 3 if T else 2, report)
    explore(S["few"], 5 if T else 3, report)
    explore(S["fewempty"], 5 if T else 3, report)
