"""Two runs compared: what a result may depend on.

Numbers are uninterpreted; each comparison is answered by a fixed but arbitrary order of the terms (one per salt), so a
run is one trace and two runs of the same code on the same inputs must give the same result whatever that order is."""
import hashlib
from ..interp import Raised, Unsupported, Cut
from ..npmodel import Opq
from ..values import *
from ..values import T, Tok, Lin

_dig = {}


def digest(x):
    """structural digest, stable between interpreters and processes"""
    if isinstance(x, T):
        d = _dig.get(x)
        if d is None:
            d = _dig[x] = hashlib.md5(repr((x.op, x.kind, tuple(digest(a) for a in x.args))).encode()).hexdigest()
        return d
    if isinstance(x, Tok):
        return "id:" + x.name
    if isinstance(x, Lin):
        return ("lin", x.const, tuple((digest(s), c) for s, c in x.coefs))
    if isinstance(x, (tuple, list)):
        return tuple(digest(a) for a in x)
    if isinstance(x, frozenset):
        return ("fs",) + tuple(sorted(repr(digest(a)) for a in x))
    if isinstance(x, Heap):
        return canonical(x)
    return (type(x).__name__, repr(x)) if isinstance(x, (int, float, bool, str, type(None))) else repr(type(x))


def canonical(v, seen=None, depth=0):
    """value as nested tuples, IDs by name, objects by content; comparable between interpreters"""
    seen = seen or {}
    if isinstance(v, (T, Tok, Lin)) or v is None or isinstance(v, (int, float, str)):
        return digest(v)
    if depth > 14:
        return "deep"
    c = lambda x: canonical(x, seen, depth + 1)
    if isinstance(v, tuple):
        return ("t",) + tuple(c(x) for x in v)
    if isinstance(v, slice):
        return ("slice", c(v.start), c(v.stop), c(v.step))
    if isinstance(v, Heap):
        if id(v) in seen:
            return ("seen", seen[id(v)])
        if isinstance(v, AObj):
            seen = dict(seen)
            seen[id(v)] = len(seen)
            return ("obj", v.cls.name if isinstance(v.cls, ClassV) else str(v.cls)) + tuple(sorted((k, canonical(x, seen, depth + 1)) for k, x in v.attrs.items()))
        if isinstance(v, AList):
            return ("list",) + tuple(c(x) for x in v.items)
        if isinstance(v, ADict):
            return ("dict",) + tuple(sorted(((repr(c(k)), c(x)) for k, x in zip(v.keys, v.vals)), key=lambda p: p[0]))
        if isinstance(v, ASet):
            return ("set",) + tuple(sorted((repr(c(x)) for x in v.d.keys)))
        if isinstance(v, AIter):
            return ("iter",) + tuple(c(x) for x in v.items[v.pos:])
        if isinstance(v, AView):
            return ("view", v.what, c(v.d))
        if isinstance(v, ARows):
            return ("rows",) + tuple(c(x) for x in v.rows)
        if isinstance(v, AMatrix):
            return ("matrix", digest(v.op), tuple(c(x) for x in v.rows), tuple(c(x) for x in v.cols), v.neg, tuple(sorted(((k, c(x)) for k, x in v.over.items()), key=repr)))
        if isinstance(v, ARow):
            return ("row", c(v.m), v.i)
        if isinstance(v, Opq):
            return ("array", digest(v.term))
        if isinstance(v, Native):
            return ("native", v.typename)
    return ("code", getattr(v, "name", type(v).__name__))


_has = {}


def has_op(x, ops):
    """does an operation occur in a term (terms share subterms: memoised)"""
    if isinstance(x, T):
        r = _has.get((x, ops))
        if r is None:
            r = _has[x, ops] = x.op in ops or any(has_op(a, ops) for a in x.args)
        return r
    if isinstance(x, tuple):
        return any(has_op(a, ops) for a in x)
    return False


class Order:
    """policy: an arbitrary fixed order of numbers and an arbitrary fixed answer to every other question"""

    def __init__(self, salt, first=None):
        self.salt, self.first, self.clock = salt, first, []

    def h(self, x):
        return int(hashlib.md5((self.salt + repr(digest(x))).encode()).hexdigest()[:8], 16)

    def __call__(self, it, key):
        if has_op(tuple(k for k in key if isinstance(k, (T, tuple))), ("time",)):
            self.clock.append(key)
        if self.first is not None:
            r = self.first(it, key)
            if r is not None:
                return r
        if key[0] == "<" and len(key) == 3:
            a, b = key[1:]
            for x, y, v in ((a, b, True), (b, a, False)):
                # positive numbers: vectors differ
                if isinstance(x, (int, float)) and x <= 0 and isinstance(y, T) and nonneg(y):
                    return v
            return self.h(a) < self.h(b)
        if key[0] == "==" and len(key) == 3:
            a, b = key[1:]
            if all(isinstance(x, T) and (x.op in ("label", "elem") or x.kind == "int") for x in (a, b)):
                return self.h(a) % 3 == self.h(b) % 3
            return False
        return bool(self.h(key) & 1)


def nonneg(t):
    return t.op in ("dist", "kern", "**", "num:mahalanobis") or t.op in ("+", "*", "/") and all(isinstance(x, (int, float)) and x >= 0 or isinstance(x, T) and nonneg(x) for x in t.args)


def attempt(f):
    """('ok', value) | ('raise', exception); Unsupported passes through"""
    try:
        return ("ok", f())
    except Raised as r:
        return ("raise", r.name)


def show_outcome(o):
    if o[0] == "raise":
        return "raises " + o[1]
    return "returns %r" % (o[1],)
