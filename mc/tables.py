"""Reading the printed tables, and what they should say according to the reference."""
import html
import math
import re
from html.parser import HTMLParser

import numpy as np

from .report import Violation
from .tree import hname, positions
from .xform import TOK

from paramz.core.parameter_core import adjust_name_for_printing

ANSI = re.compile(r"\033\[[0-9;]*m")


def text_rows(s):
    """the rows of a printed table: lists of cells"""
    return [[c.strip() for c in l.split("|")] for l in ANSI.sub("", s).split("\n") if "|" in l]


class _Table(HTMLParser):
    def __init__(self):
        HTMLParser.__init__(self)
        self.rows = []
        self.cell = None
        self.text = []

    def handle_starttag(self, tag, attrs):
        if tag == "tr":
            self.rows.append([])
        elif tag in ("td", "th"):
            self.cell = []

    def handle_endtag(self, tag):
        if tag in ("td", "th") and self.cell is not None:
            self.rows[-1].append("".join(self.cell).strip())
            self.cell = None

    def handle_data(self, data):
        (self.text if self.cell is None else self.cell).append(data)


def html_rows(s):
    p = _Table()
    p.feed(s)
    p.close()
    return p.rows, html.unescape(" ".join(p.text))


def number(s):
    return float(s.strip("[]() "))


def shows(cell, v, digits=None):
    """the printed number is v, up to the printed precision"""
    try:
        x = number(cell)
    except ValueError:
        return False
    if v != v or x != x:
        return v != v and x != x
    if math.isinf(v) or math.isinf(x):
        return v == x
    return abs(x - v) <= 0.6e-6 * max(1.0, abs(v))


def named(cell, path):
    """names are shown as they are, or as the attribute they are"""
    return cell in (".".join(n.name for n in path), ".".join(adjust_name_for_printing(n.name) for n in path))


def path_of(l, top=None):
    """from below top"""
    out = l.path()[::-1]
    return out[out.index(top) + 1:] if top else out


def marks(l, i):
    """what is printed for one element"""
    return sorted(([str(TOK[l.tok[i]].make())] if l.tok[i] else []) + ["fixed"] * l.fix[i])


def leaf_marks(l):
    """what is printed for one parameter in the table of its parent: braces around what holds for a part"""
    n = len(l.val)
    out = []
    for t in set(l.tok) - {None}:
        k = l.tok.count(t)
        out.append(str(TOK[t].make()) if k == n else "{%s}" % TOK[t].make())
    if any(l.fix):
        out.append("fixed" if all(l.fix) else "{fixed}")
    return sorted(out)


def check_node(rows, R, what):
    """rows: without anything before the header"""
    want = R.leaves()
    head, rows = rows[0], rows[1:]
    if not named(head[0].rstrip("."), [R]) or "value" not in head or "constraints" not in head:
        raise Violation("%s: the header is %s" % (what, head), "header")
    cv, cc = head.index("value"), head.index("constraints")
    if len(rows) != len(want):
        raise Violation("%s lists %s, expected %s" % (what, [r[0] for r in rows], [l.id for l in want]), "rows")
    for row, l in zip(rows, want):
        name = path_of(l, R)
        if len(row) != len(head) or not named(row[0], name):
            raise Violation("%s lists %s, expected %s" % (what, row, l.id), "rows")
        if len(l.val) == 1:
            ok = shows(row[cv], l.val[0])
        else:
            ok = row[cv].replace(" ", "") == str(tuple(l.shape)).replace(" ", "")
        if not ok:
            raise Violation("%s: value of %s is %r, expected %s" % (what, l.id, row[cv], l.val if len(l.val) == 1 else l.shape), "value")
        if sorted(row[cc].split()) != leaf_marks(l):
            raise Violation("%s: constraints of %s are %r, expected %s" % (what, l.id, row[cc], leaf_marks(l)), "marks")


def check_leaf(rows, l, where, what):
    """where: positions shown"""
    head, rows = rows[0], rows[1:]
    if len(head) < 3 or not named(head[1], path_of(l)):
        raise Violation("%s: the header is %s" % (what, head), "header")
    if len(rows) != len(where):
        raise Violation("%s shows %d elements, expected %d" % (what, len(rows), len(where)), "rows")
    cc = head.index("constraints") if "constraints" in head else 2
    for row, i in zip(rows, where):
        ix = [int(x) for x in row[0].strip("[]").split()]
        if ix != [int(x) for x in np.unravel_index(i, l.shape)]:
            raise Violation("%s: index %r, expected %s" % (what, row[0], np.unravel_index(i, l.shape)), "index")
        if not shows(row[1], l.val[i]):
            raise Violation("%s: value %r at %s, expected %.10g" % (what, row[1], row[0], l.val[i]), "value")
        if sorted(row[cc].split()) != marks(l, i):
            raise Violation("%s: constraints %r at %s, expected %s" % (what, row[cc], row[0], marks(l, i)), "marks")


def check_details(get, R, o, what):
    """the head of a model"""
    free = len(R.free())
    want = [("Objective", o.objective_function()), ("Number of Parameters", R.size), ("Number of Optimization Parameters", free)]
    for k, v in want:
        got = get(k)
        if got is None or not shows(got, float(v)):
            raise Violation("%s: %s is %r, expected %r" % (what, k, got, v), "details")
    if get("Updates") != str(bool(R.upd)):
        raise Violation("%s: Updates is %r, expected %r" % (what, get("Updates"), R.upd), "details")


def text_detail(s):
    d = dict([x.strip() for x in l.split(" : ", 1)] for l in ANSI.sub("", s).split("\n") if " : " in l and "|" not in l)
    return d.get


def html_detail(t):
    def get(k):
        m = re.search(re.escape(k) + r"\s*:\s*(\S+)", t)
        return m.group(1) if m else None
    return get


def numbers(s):
    return [float(x) for x in re.findall(r"(?<![\w.])[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|\.\d+(?:e[-+]?\d+)?|nan|inf)", s)]


def check_repr(s, l, where, what):
    s = ANSI.sub("", s)
    body = s.split(":\n", 1)[-1].split("dtype")[0]
    body = body[body.index("["):] if "[" in body else body
    got = numbers(body)
    if len(got) < len(where) or any(not shows(repr(g), l.val[i]) for g, i in zip(got, where)):
        raise Violation("%s is %r, expected the values %s" % (what, s, [l.val[i] for i in where]), "repr")
    if ":" in s and not named(s.split(":\n")[0], path_of(l)):
        raise Violation("%s is %r, expected the name %s" % (what, s, hname(l)), "repr")


SLICES = {1: [None, ":1", "1:", "[1,0]", "::-1", "..."], 2: [None, "0,:", ":,1", "1:", ":,[0]", "[0,1],[1,0]", "m0"]}


def a_tables(F, ids=None, rex=("", ".*[abc]$", ".*d")):
    """everything which can be printed says what the reference says"""
    from .tree import real_handle, rex_targets
    for id in sorted(ids or F.ref):
        R, o = F.ref[id], F.real[id]
        if R.kind == "leaf":
            for ix in SLICES[len(R.shape)]:
                try:
                    where = positions(ix, R.shape)
                except IndexError:
                    continue
                if not where:
                    continue
                h = real_handle(F, id, ix)
                nm = id if ix is None else "%s[%s]" % (id, ix)
                check_leaf(text_rows(str(h)), R, where, "table of %s" % nm)
                if ix is None:
                    check_leaf(text_rows(h.__str__(VT100=False)), R, where, "table of %s" % nm)
                check_leaf(html_rows(h._repr_html_())[0], R, where, "HTML of %s" % nm)
                check_repr(repr(h), R, where, "representation of %s" % nm)
            continue
        if not R.size:
            continue
        for vt in (True, False):
            s = o.__str__(VT100=vt)
            check_node(text_rows(s), R, "table of %s" % id)
            if not vt and "\033" in s:
                raise Violation("table of %s has escape sequences" % id, "vt100")
            if R.kind == "model":
                d = text_detail(s)
                check_details(d, R, o, "table of %s" % id)
                if d("Name") != R.name:
                    raise Violation("table of %s: Name is %r" % (id, d("Name")), "details")
        rows, rest = html_rows(o._repr_html_())
        check_node(rows, R, "HTML of %s" % id)
        if R.kind == "model":
            check_details(html_detail(rest), R, o, "HTML of %s" % id)
        if R.parent is not None:
            continue
        for x in rex:
            tg = rex_targets(F, id, x)
            if not tg:
                continue
            sel = o[x]
            if len(tg) == 1:
                continue
            ls = []
            for n in tg:
                ls += [l for l in n.leaves() if l not in ls]
            if not ls:
                continue
            for s in (str(sel), sel.__str__(VT100=False)):
                rows = text_rows(s)
                k = 0
                for l in ls:
                    check_leaf(rows[k:k + 1 + len(l.val)], l, range(len(l.val)), "table of %s[%r]" % (id, x))
                    k += 1 + len(l.val)
                if len(rows) != k:
                    raise Violation("table of %s[%r] has %d more rows" % (id, x, len(rows) - k), "rows")
