"""Canonical form of a heap of Python objects.

The explorer identifies two states when their object graphs, walked from the
named roots, are isomorphic: same types, same attribute values, same identity
structure (an object reached twice is a back-reference), same memory-sharing
between arrays (which buffers overlap, at which offset), same weak references
and same registered callbacks.  Only these are dropped: loggers, classes,
modules and functions (immutable here, kept by qualified name), and the last
digits of floats (10 significant digits are kept, so that two states which differ by
rounding only are merged).  Isomorphic heaps have the same futures because the
library never branches on addresses.
"""
import collections
import hashlib
import logging
import re
import types
import weakref

import numpy as np


def fnum(x):
    x = float(x)
    if x != x:
        return "nan"
    return "%.9e" % (x + 0.0)


IDS = re.compile("0x[0-9a-f]{6,}")


class Canon(object):
    SKIP_ATTRS = frozenset(["logger", "__doc__"])

    def __init__(self, skip_attrs=()):
        self.out = []
        self.ids = {}
        self.keep = []
        self.arrays = []
        self.atoms = {}
        self.deferred = []
        self.skip = self.SKIP_ATTRS | frozenset(skip_attrs)

    def tok(self, s):
        self.out.append(s)

    def seen(self, o):
        n = self.ids.get(id(o))
        if n is not None:
            self.tok("#%d" % n)
            return True
        self.ids[id(o)] = len(self.ids)
        self.keep.append(o)
        return False

    def walk(self, o):
        t = type(o)
        if t is str and '0x' in o and IDS.search(o):
            # made of addresses: which objects they are is known at the end
            self.deferred.append((len(self.out), o))
            self.tok("")
            return
        if o is None or t is bool or t is int or t is float or t is str:
            self.atoms.setdefault(id(o), len(self.atoms))
        if o is None or t is bool or t is int or t is str or t is bytes or t is complex:
            self.tok(repr(o))
            return
        if t is float or isinstance(o, np.floating):
            self.tok(fnum(o))
            return
        if isinstance(o, np.generic):
            self.tok(repr(o.item()))
            return
        if isinstance(o, (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, np.ufunc, np.dtype)):
            self.tok("F:" + getattr(o, "__qualname__", getattr(o, "__name__", repr(o))))
            return
        if isinstance(o, types.MethodType):
            self.tok("BM:" + getattr(o.__func__, "__qualname__", "?"))
            self.walk(o.__self__)
            return
        if isinstance(o, weakref.ref):
            self.tok("WR")
            self.walk(o())
            return
        if isinstance(o, (logging.Logger,)):
            self.tok("LOG")
            return
        if t is slice:
            self.tok("slice%r" % ((o.start, o.stop, o.step),))
            return
        if self.seen(o):
            return
        if isinstance(o, np.ndarray):
            self.tok("A:%s:%s:%s:%s" % (t.__name__, o.dtype.str, o.shape, o.strides))
            ai = o.__array_interface__["data"][0]
            n = 0
            if o.size:
                lo, hi = np.lib.array_utils.byte_bounds(o) if hasattr(np.lib, "array_utils") else np.byte_bounds(o)
            else:
                lo = hi = ai
            self.arrays.append((lo, hi, ai))
            flat = np.asarray(o).ravel() if t is np.ndarray else o.view(np.ndarray).ravel()
            if o.dtype.kind == "f":
                self.tok(",".join(fnum(v) for v in flat.tolist()))
            elif o.dtype.kind == "O":
                for v in flat.tolist():
                    self.walk(v)
            else:
                self.tok(repr(flat.tolist()))
            d = getattr(o, "__dict__", None)
            if d:
                self.attrs(d)
            return
        if isinstance(o, (list, tuple, collections.deque)):
            self.tok("%s[%d" % (t.__name__, len(o)))
            for v in list(o):
                self.walk(v)
            self.tok("]")
            d = getattr(o, "__dict__", None)
            if d:
                self.attrs(d)
            return
        if isinstance(o, (set, frozenset)):
            try:
                items = sorted(o)
            except TypeError:
                items = sorted(o, key=repr)
            self.tok("set{")
            for v in items:
                self.walk(v)
            self.tok("}")
            return
        if isinstance(o, dict):
            self.tok("%s{%d" % (t.__name__, len(o)))
            for k, v in list(o.items()):
                self.walk(k)
                self.walk(v)
            self.tok("}")
            d = getattr(o, "__dict__", None)
            if d:
                self.attrs(d)
            return
        d = getattr(o, "__dict__", None)
        self.tok("O:" + t.__module__ + "." + t.__qualname__)
        if d is not None:
            self.attrs(d)

    def attrs(self, d):
        for k in sorted(d, key=str):
            if k in self.skip:
                continue
            self.tok("." + str(k))
            self.walk(d[k])

    def name(self, m):
        x = int(m.group(0), 16)
        return "#%d;" % self.ids[x] if x in self.ids else "@%d;" % self.atoms[x] if x in self.atoms else m.group(0)

    def digest(self):
        # memory sharing: group arrays whose extents overlap
        groups = []
        for i, (lo, hi, _) in enumerate(self.arrays):
            groups.append((lo, hi, i))
        groups.sort()
        gid = {}
        base = {}
        cur = None
        curhi = None
        g = -1
        for lo, hi, i in groups:
            if cur is None or lo >= curhi:
                g += 1
                cur, curhi = lo, hi
                base[g] = lo
            else:
                curhi = max(curhi, hi)
            gid[i] = g
        rename = {}
        mem = []
        for i, (lo, hi, ai) in enumerate(self.arrays):
            g = gid[i]
            n = rename.setdefault(g, len(rename))
            mem.append("%d+%d" % (n, lo - base[g]))
        for i, s in self.deferred:
            self.out[i] = "ID:" + IDS.sub(self.name, s)
        self.tok("MEM:" + ";".join(mem))
        return hashlib.blake2b("\x00".join(self.out).encode("utf8", "surrogatepass"), digest_size=12).digest()


def heap_key(roots, skip_attrs=()):
    c = Canon(skip_attrs)
    for r in roots:
        c.walk(r)
    return c.digest()
