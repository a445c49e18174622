"""C13: a cached function never returns a stale or foreign result."""
from mc import env
from mc.cached import Function, Held, Ignoring, Methods, Recursive, Tree
from mc.explore import explore

LEVEL = "model_checking"

VIEWS = [(("a",), {}), (("v",), {}), (("w",), {}), (("a", "v"), {}), (("b", "a"), {})]
SHARED = [(("a",), {}), (("v",), {}), (("w",), {}), (("b",), {}), (("v", "b"), {})]
VIEWW = [("a", "set"), ("a", "last"), ("v", "set"), ("w", "last"), ("a", "tmp"), ("a", "iadd"), ("v", "iadd"), ("a", "same"), ("b", "set")]
KEYS = [(("a",), {}), (("a", "1"), {}), (("a",), {"y": "1"}), (("a",), {"z": "1"}), (("a",), {"y": "b"}), (("a",), {"z": "b"}), (("a", "None", "1"), {}), (("a",), {"y": "b", "z": "1"}), (("a",), {"y": "1", "z": "b"}), (("b",), {"z": "a"}), ((), {"x": "b", "y": "a"})]
ORDER = [((), {"x": "a", "y": "b"}), ((), {"y": "b", "x": "a"}), ((), {"y": "a", "x": "b"}), ((), {"x": "b", "y": "a"}), (("a",), {"z": "b", "y": "1"}), (("a",), {"y": "b", "z": "1"}), (("a",), {"z": "1", "y": "b"}), ((), {"z": "b", "x": "a"}), ((), {"x": "b", "z": "a"})]
SAME = [(("a", "a"), {}), (("a", "b"), {}), (("b", "b"), {}), (("b", "a"), {}), (("a",), {}), (("a", "b", "a"), {})]
NUMBERS = [(("a", n), {}) for n in ("-1", "-2", "1", "1.0", "T", "F", "0", "0.0", "big", "E", "None")] + [(("a",), {"y": "-1"}), (("a",), {"y": "-2"})]
SWITCH = [(("a",), {}), (("b",), {}), (("a", "b"), {}), (("L",), {}), (("a", "L"), {}), (("n",), {}), (("a", "S"), {}), (("1", "2"), {}), (("a",), {"force": "1"}), (("a",), {"force": "None"}), (("a",), {"force": "0"}), (("a",), {"force": "S"}), (("b",), {"force": "E"})]
METH = [("o.f", ("a",), {}), ("o.f", ("a", "1"), {}), ("o.f", ("a",), {"y": "1"}), ("o.f", ("a",), {"force": "1"}), ("o.f", ("a",), {"force": "0"}), ("o.g", ("a",), {}), ("o.g", ("b",), {}), ("q.f", ("a",), {}), ("q.g", ("a",), {}), ("q.f", (), {"y": "b", "x": "a"}), ("o.h", ("a",), {}), ("o.e", ("a",), {}), ("o.e", ("a",), {"again": "1"}), ("k.f", ("a",), {}), ("k.g", ("a",), {})]
TREE = [("m", "None"), ("s", "None"), ("m", "c"), ("s", "a"), ("m", "s"), ("s", "m"), ("m", "x"), ("s", "1"), ("k", "None"), ("k", "c")]


def systems_for(strict):
    out = []
    for L in (1, 2, 3):
        out.append((Function("views%d" % L, L, VIEWS, VIEWW, ("newview",), strict=strict), (4 if L < 3 else 3, 6 if L < 2 else 5)))
    for L in (2, 3):
        # arrays of one memory are dropped while others are kept
        out.append((Function("shared%d" % L, L, SHARED, [("a", "last")] + [("v", "set")] * (L < 3), strict=strict), (5, 7 if L < 3 else 6)))
    for L in (2, 3):
        out.append((Function("keywords%d" % L, L, KEYS, [("a", "set"), ("b", "set")], ("reset",), strict=strict), (4 if L < 3 else 3, 5)))
    for L in (2, 4):
        out.append((Function("numbers%d" % L, L, NUMBERS, [("a", "set")], (), strict=strict), (3, 4)))
    out.append((Function("order", 4, ORDER, [("a", "set"), ("b", "set")], ("reset",), strict=strict), (3, 5)))
    for L in (1, 2):
        out.append((Function("repeated%d" % L, L, SAME, [("a", "set"), ("b", "set"), ("a", "tmp")], ("reset",), strict=strict), (4, 6)))
    out.append((Function("switches", 2, SWITCH, [("a", "set"), ("b", "iadd"), ("a", "mask")], ("reset", "disable", "enable"), strict=strict, fails=(0, 1, 3), force=("force",)), (4, 5)))
    out.append((Ignoring("ignore", 2, [(("a", "1"), {}), (("a", "2"), {}), (("b", "L"), {}), (("a", "n"), {}), (("b",), {"tag": "L"})], [("a", "set"), ("b", "set"), ("a", "tmp2")], ("reset", "disable", "enable"), strict=strict, fails=(0,), ignore=(1,)), (4, 6)))
    out.append((Methods("methods", METH, ("a", "b"), ("reset", "disable", "enable", "copy"), strict=strict, fails=(0, 4)), (3, 5)))
    out.append((Held("held", False, strict=strict), (4, 5)))
    out.append((Held("heldnode", True, strict=strict), (4, 5)))
    out.append((Tree("tree", TREE, strict=strict), (3, 4)))
    return out


def all_systems():
    out = systems_for(False)
    for L in (1, 2, 3):
        out.append((Recursive("recursive%d" % L, L), (4, 6)))
    for p in (-1, 0, 1, 1000):
        out.append((Recursive("observer%d" % p, 2, p), (4, 5)))
    return out


def systems():
    return {s.name: s for s, _ in all_systems()}


def run(report):
    for s, (q, t) in all_systems():
        explore(s, t if env.THOROUGH else q, report, budget_s=150)
