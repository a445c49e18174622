"""C17: names stay unique and resolve to the right parameter."""
import re

import numpy as np

from mc import env, tree
from mc.canon import heap_key
from mc.explore import explore
from mc.report import Violation
from mc.tree import TreeSystem, build_forest, can_link, fl, op_link, op_unlink, same

import paramz
from paramz import Param, Parameterized

LEVEL = "model_checking"

# how a name is printed, and spelled as an attribute
SPELL = [(" ", "_"), (".", "_"), ("-", "_m_"), ("+", "_p_"), ("!", "_I_"), ("**", "_xx_"), ("*", "_x_"), ("/", "_l_"), ("@", "_at_"), ("(", "_of_"), (")", "")]


def pr(name):
    for a, b in SPELL:
        name = name.replace(a, b)
    return name


TAKEN = ["link_parameter", "size", "gradient", "name", "cache", "parameters", "copy", "values", "constraints", "optimizer_array", "param_array", "observers", "logger", "is_fixed"]
TAKEN_NODE = [t for t in TAKEN if t != "values"]


def shown(R):
    return ".".join(pr(n.name) for n in reversed(R.path()))


def below(top, R):
    """names from below top to R"""
    return [n.name for n in reversed(R.path()[:R.path().index(top)])]


class Names(TreeSystem):
    def __init__(self, name, cfg, alphabet, universe):
        super(Names, self).__init__(name, cfg, alphabet, None)
        self.universe = universe

    def build(self):
        F = build_forest(dict(self.cfg, links=[]))
        F.own = {}
        for p, c in self.cfg.get("own", ()):
            setattr(F.real[p], pr(F.ref[c].name), F.real[c])
            F.own[(p, pr(F.ref[c].name))] = c
        for p, c in self.cfg["links"]:
            self.apply(F, ("link", p, c, None))
        return F

    def ops(self, F):
        return [op for op in self.alphabet if self.can(F, op)]

    def can(self, F, op):
        if op[0] == "link":
            return can_link(F, op[1], op[2], op[3]) is not None
        if op[0] == "unlink":
            return F.ref[op[2]].parent is F.ref[op[1]]
        if op[0] == "rename":
            return F.ref[op[1]].name != op[2]
        return True

    def apply(self, F, op):
        old = {i: F.ref[i].parent for i in F.ref}
        if op[0] == "link":
            op_link(F, *op[1:])
        elif op[0] == "unlink":
            op_unlink(F, *op[1:])
        else:
            F.real[op[1]].name = op[2]
            F.ref[op[1]].name = op[2]
        # own attributes are looked after by their owner
        for (p, n), c in list(F.own.items()):
            if F.ref[c].parent is not F.ref[p] or pr(F.ref[c].name) != n:
                if F.ref[c].parent is F.ref[p] or op[0] == "unlink" or old[c] is F.ref[p]:
                    if F.real[p].__dict__.get(n) is F.real[c]:
                        object.__delattr__(F.real[p], n)
                        F.own.pop((p, n))
        # names: as requested, unless siblings collide
        groups = [R.children for R in F.ref.values() if R.kind != "leaf"] + [[R] for R in F.ref.values() if R.parent is None]
        new = {}
        for kids in groups:
            names = [pr(k.name) for k in kids]
            collide = len(set(names)) < len(names)
            for k in kids:
                got = F.real[k.id].name
                if got != k.name:
                    if not collide:
                        raise Violation("%s is called %r now, expected %r (no name collides with it)" % (k.id, got, k.name), "renamed")
                    base = re.match(r"(.*?)(_\d+)*$", k.name).group(1)
                    if not re.match(re.escape(base) + r"(_\d+)+$", got):
                        raise Violation("%s is called %r now, expected %r or that with a number" % (k.id, got, k.name), "renamed")
                new[k.id] = got
        for i, n in new.items():
            F.ref[i].name = n
        del tree.EVENTS[:]

    def key(self, F):
        return heap_key([[F.real[k] for k in sorted(F.real)], sorted(F.own.items())])

    def check(self, F):
        a_names(F, self.universe)
        a_lists(F)
        a_regex(F)
        tree.a_structure(F)
        tree.a_values(F)
        a_assign(F)


def a_names(F, universe):
    for i in sorted(F.ref):
        R, o = F.ref[i], F.real[i]
        if R.kind == "leaf":
            continue
        names = [pr(c.name) for c in R.children]
        if len(set(names)) < len(names):
            raise Violation("parameters of %s have the names %s" % (i, [c.name for c in R.children]), "unique")
        for c in R.children:
            n = pr(c.name)
            if n in TAKEN:
                continue
            if getattr(o, n, None) is not F.real[c.id]:
                raise Violation("attribute %s of %s is %s, expected its parameter %s" % (n, i, what(F, getattr(o, n, None)), c.id), "attr")
        for n in sorted(set(universe) | set(n for n in vars(o) if not n.startswith("_"))):
            if n in names:
                continue
            v = getattr(o, n, None)
            if isinstance(v, (Param, Parameterized)) and (i, n) not in F.own:
                raise Violation("attribute %s of %s is %s, no parameter has this name" % (n, i, what(F, v)), "stale")
        for n in TAKEN_NODE:
            if isinstance(getattr(o, n, None), (Param, Parameterized)):
                raise Violation("%s.%s is a parameter now" % (i, n), "taken")
        if o.size != R.size or o.name != R.name or o.gradient.size != R.size or o.copy.__self__ is not o:
            raise Violation("attributes of %s: size %r, name %r" % (i, o.size, o.name), "taken")


def what(F, v):
    for i in sorted(F.real):
        if F.real[i] is v:
            return i
    return repr(v)[:60]


def a_lists(F):
    for i in sorted(F.ref):
        R, o = F.ref[i], F.real[i]
        if o.hierarchy_name() != shown(R):
            raise Violation("hierarchy_name() of %s is %r, expected %r" % (i, o.hierarchy_name(), shown(R)), "hname")
        raw = ".".join(n.name for n in reversed(R.path()))
        if o.hierarchy_name(adjust_for_printing=False) != raw:
            raise Violation("hierarchy_name(False) of %s is %r, expected %r" % (i, o.hierarchy_name(adjust_for_printing=False), raw), "hname")
        if R.kind == "leaf":
            continue
        leaves = R.leaves()
        for adj in (False, True):
            sp = pr if adj else (lambda s: s)
            want = [".".join(sp(n) for n in below(R, l)) for l in leaves]
            for add in (False, True):
                for rec in (True, False):
                    w = want if rec else [sp(c.name) for c in R.children]
                    if add:
                        w = [sp(R.name) + "." + x for x in w]
                    for _ in range(2):
                        got = list(o.parameter_names(add_self=add, adjust_for_printing=adj, recursive=rec))
                        if _ == 0:
                            # with the nodes in between: all of these, and the nodes
                            more = list(o.parameter_names(add_self=add, adjust_for_printing=adj, recursive=rec, intermediate=True))
                            lost = [n for n in w + [(sp(R.name) + "." if add else "") + sp(c.name) for c in R.children if c.kind != "leaf"] if n not in more]
                            if lost:
                                raise Violation("parameter_names(intermediate=True) of %s is %s, without %s" % (i, more, lost), "names")
                        if got != w:
                            raise Violation("parameter_names(add_self=%s, adjust_for_printing=%s, recursive=%s) of %s is %s, expected %s" % (add, adj, rec, i, got, w), "names")
        if R.size:
            want = []
            for l in leaves:
                for k in range(len(l.val)):
                    want.append(shown(l) + ("[%s]" % np.array(np.unravel_index(k, l.shape)) if len(l.val) > 1 else ""))
            got = [str(s) for s in o.parameter_names_flat(include_fixed=True)]
            if got != want:
                raise Violation("parameter_names_flat(True) of %s is %s, expected %s" % (i, got, want), "flat")


REX = ["", "a", "a$", ".*a$", ".*a", "s", "s\\.", ".*_1$", ".*_[0-9]+$", "c$", "(s|t)\\.a", "s.*t", "nomatch", ".*b_c", ".*\\.", "[abc]", re.compile(".*A", re.I), "x.*y", "r"]


def selected(R, pat):
    p = re.compile(pat) if isinstance(pat, str) else pat
    return [n for n in R.subtree()[1:] if p.match(shown(n).partition(".")[2])]


def leaves_of(tg):
    out = []
    for n in tg:
        for l in n.leaves():
            if l not in out:
                out.append(l)
    return out


def a_regex(F):
    for i in sorted(F.ref):
        R, o = F.ref[i], F.real[i]
        if R.kind == "leaf":
            continue
        for pat in REX:
            tg = selected(R, pat)
            got = list(o.grep_param_names(pat))
            if [id(g) for g in got] != [id(F.real[n.id]) for n in tg]:
                raise Violation("%s[%r] selects %s, expected %s" % (i, pat, [what(F, g) for g in got], [n.id for n in tg]), "regex")
            if not tg:
                try:
                    o[pat]
                except AttributeError:
                    continue
                raise Violation("%s[%r] gave something, nothing matches" % (i, pat), "regex")
            sel = o[pat]
            if len(tg) == 1:
                if sel is not F.real[tg[0].id]:
                    raise Violation("%s[%r] is %s, expected %s" % (i, pat, what(F, sel), tg[0].id), "regex")
            else:
                want = [v for l in leaves_of(tg) for v in l.val]
                if want and fl(sel.values()) != want:
                    raise Violation("%s[%r] has the values %s, expected %s" % (i, pat, fl(sel.values()), want), "regex")


def a_assign(F):
    """destructive: assigning to a name assigns that parameter, and keeps the attribute"""
    v = 10.0
    for i in sorted(F.ref):
        R, o = F.ref[i], F.real[i]
        if R.kind == "leaf":
            continue
        for c in R.children:
            n = pr(c.name)
            if n in TAKEN or not c.size:
                continue
            v += 1.0
            setattr(o, n, v)
            for l in c.leaves():
                l.val = [v] * len(l.val)
            tree.a_values(F)
            if getattr(o, n) is not F.real[c.id]:
                raise Violation("assigning to the name %s of %s replaced its parameter" % (n, i), "assign")
    for i in sorted(F.ref):
        R, o = F.ref[i], F.real[i]
        if R.kind == "leaf":
            continue
        for pat in ("a$", ".*a", "s", ".*_1$", "c$", re.compile(".*A", re.I)):
            tg = selected(R, pat)
            if not leaves_of(tg):
                continue
            v += 1.0
            o[pat] = v
            for l in leaves_of(tg):
                l.val = [v] * len(l.val)
            tree.a_values(F)
    a_names(F, ())


CFG = dict(
    leaves={"a": ((2,), [1.0, 2.0], None), "b": ((1,), [3.0], None), "c": ((2, 2), [0.5, 1.5, 2.5, 3.5], None), "d": ((1,), [4.0], None)},
    nodes={"r": "model", "s": "node", "t": "node"},
    links=[("s", "a"), ("r", "s"), ("r", "c")],
    names={"b": "a", "d": "a_1"})
BARE = dict(CFG, links=[], names={"b": "a", "d": "a", "c": "a_1", "t": "s"})
OWN = dict(CFG, own=[("r", "s"), ("r", "c"), ("s", "a")], names={"b": "b", "d": "d"})
ODD = dict(CFG, names={"a": "b c", "b": "b_c", "c": "x-y", "d": "b.c", "t": "s"}, links=[("r", "s"), ("s", "a")])
NONE = dict(CFG, leaves=dict(CFG["leaves"], b=((0,), [], None), d=((0, 2), [], None)), links=[("r", "d"), ("s", "a"), ("s", "b"), ("r", "s"), ("r", "c")])
TOOK = dict(CFG, names={"a": "size", "b": "name", "c": "gradient", "d": "cache", "t": "parameters"}, links=[("r", "s")])


def alphabet(nodes, kids, names, index=True):
    out = []
    for p in nodes:
        for c in kids:
            if p != c:
                out += [("link", p, c, None)] + ([("link", p, c, 0)] if index else []) + [("unlink", p, c)]
    for h, ns in sorted(names.items()):
        out += [("rename", h, n) for n in ns]
    return out


def systems():
    U = ["a", "a_1", "a_2", "a_3", "b", "c", "d", "s", "s_1", "t", "b_c", "b_c_1", "x_m_y"]
    std = {"a": ["a", "a_1", "b"], "b": ["a", "b"], "c": ["a", "a_1"], "s": ["a", "t"], "t": ["s"], "r": ["a"]}
    few = {"a": ["b"], "b": ["a"], "s": ["a"]}
    odd = {"a": ["b c", "b-c", "x.y"], "b": ["b_c", "b+c(1)"], "c": ["x-y", "x_m_y"], "s": ["b c"]}
    each = {"a": ["a%sb" % c for c in " .-+!*/@()"] + ["a**b", "c**d", "x*y", "x**y", "f(x)", "f_of_x"], "b": ["a%sb" % pr(c) for c in "+!*/@("] + ["a%sb" % c for c in "+/*"]}
    took = {"a": ["size", "copy", "a"], "b": ["name", "link_parameter", "constraints"], "c": ["values", "gradient", "logger"], "s": ["observers", "parameters"]}
    S = [Names("names", CFG, alphabet("rst", "abcdst", std), U), Names("bare", BARE, alphabet("rs" if env.THOROUGH else "r", "abcdst", few), U),
         Names("own", OWN, alphabet("rst", "abcst", few, False), U), Names("odd", ODD, alphabet("rs", "abcdt", odd, False), U),
         Names("each", dict(ODD, names={"c": "q*r", "d": "u/v@w!x"}), alphabet("s", "ab", each, False), U),
         Names("none", NONE, alphabet("rst", "abcdst", few), U),
         Names("taken", TOOK, alphabet("rs", "abcdst", took, False), U)]
    return {s.name: s for s in S}


def run(report):
    d = {"names": 3, "bare": 4, "own": 3, "odd": 3, "each": 2, "none": 2, "taken": 3}
    for s in systems().values():
        explore(s, d[s.name] + (1 if env.THOROUGH else 0), report)
