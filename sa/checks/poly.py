"""Polynomial normal form of numeric terms and what the facts of a partition say about their order."""
from fractions import Fraction
from ..values import *
from ..values import T, Lin
from .relational import digest

LIMIT = 4000


def const(x):
    try:
        return Fraction(x).limit_denominator(10**9)
    except (ValueError, OverflowError):
        return None


def poly(t):
    """{sorted tuple of atoms: coefficient} or None"""
    if isinstance(t, bool):
        t = int(t)
    if isinstance(t, (int, float)):
        c = const(t) if t == t and abs(t) != float("inf") else None
        if c is None:
            return None
        return {(): c} if c else {}
    if isinstance(t, T):
        if t.op == "+":
            out = {}
            for a in t.args:
                p = poly(a)
                if p is None:
                    return None
                add(out, p)
            return out
        if t.op == "-" and len(t.args) == 2:
            a, b = poly(t.args[0]), poly(t.args[1])
            if a is None or b is None:
                return None
            out = dict(a)
            add(out, b, -1)
            return out
        if t.op == "neg":
            a = poly(t.args[0])
            return None if a is None else {k: -c for k, c in a.items()}
        if t.op == "*":
            out = {(): Fraction(1)}
            for a in t.args:
                p = poly(a)
                if p is None:
                    return None
                out = mul(out, p)
                if out is None:
                    return None
            return out
        if t.op == "/":
            a, b = poly(t.args[0]), poly(t.args[1])
            if a is not None and b is not None and set(b) == {()}:
                return {k: c / b[()] for k, c in a.items()}
            return {(t,): Fraction(1)}
        return {(t,): Fraction(1)}
    return None


def add(out, p, s=1):
    for k, c in p.items():
        v = out.get(k, 0) + s * c
        if v:
            out[k] = v
        else:
            out.pop(k, None)


def mul(p, q):
    if len(p) * len(q) > LIMIT:
        return None
    out = {}
    for k1, c1 in p.items():
        for k2, c2 in q.items():
            add(out, {tuple(sorted(k1 + k2, key=lambda a: str(digest(a)))): c1 * c2})
    return out


def diff(a, b):
    p, q = poly(a), poly(b)
    if p is None or q is None:
        return None
    out = dict(p)
    add(out, q, -1)
    return out


def scaled(p):
    """up to a positive factor"""
    if not p:
        return ()
    items = sorted(((tuple(str(digest(a)) for a in k), c) for k, c in p.items()), key=lambda x: x[0])
    f = abs(items[0][1])
    return tuple((k, c / f) for k, c in items)


LOSSY = ("round", "floor", "ceil", "int", "trunc")       # monotone: a strict order of the images is one of the arguments, nothing else is


def unrounded(a, b):
    """the arguments when both are images under the same rounding"""
    while isinstance(a, T) and isinstance(b, T) and a.op == b.op and a.op in LOSSY and a.args[1:] == b.args[1:]:
        a, b = a.args[0], b.args[0]
        yield a, b


class Known:
    """order knowledge of one finished partition"""

    def __init__(self, it):
        self.it = it
        self.rec = None

    def recorded(self):
        if self.rec is None:
            self.rec = {}
            for x, d in self.it.facts.le.items():
                for y, strict in d.items():
                    a, b = x[1], y[1]
                    if isinstance(a, (T, int, float)) and isinstance(b, (T, int, float)) and not isinstance(a, str):
                        p = diff(a, b)
                        if p:
                            k = scaled(p)
                            ne = strict or frozenset((x, y)) in self.it.facts.ne
                            self.rec[k] = self.rec.get(k, False) or ne
                        if strict or frozenset((x, y)) in self.it.facts.ne:
                            for c, e in unrounded(a, b):
                                q = diff(c, e)
                                if q:
                                    self.rec[scaled(q)] = True
        return self.rec

    def le(self, a, b):
        """is a <= b known"""
        d = diff(a, b)
        if d is not None and not d:
            return True
        if not (isinstance(a, str) or isinstance(b, str)) and self.it.facts.known_lt(b, a) is False:
            return True
        return d is not None and scaled(d) in self.recorded()

    def lt(self, a, b):
        d = diff(a, b)
        if d is not None and not d:
            return False
        if self.it.facts.known_lt(a, b) is True:
            return True
        if d is not None and self.recorded().get(scaled(d)):
            return True
        return self.le(a, b) and self.it.facts.known_eq(a, b) is False


def atoms(t, out=None):
    out = set() if out is None else out
    p = poly(t)
    if p is None:
        return out
    for k in p:
        out.update(k)
    return out


def distances_only(it):
    """every number compared on this partition is a combination of vector distances: (True, metrics) or (False, the odd one)"""
    metrics = set()
    for x, d in it.facts.le.items():
        for n in [x] + list(d):
            v = n[1]
            if isinstance(v, T) and (v.kind == "num" or v.op.startswith("num:")):
                todo = list(atoms(v))
                while todo:
                    a = todo.pop()
                    if a.op in LOSSY and isinstance(a.args[0], T):
                        todo += atoms(a.args[0])
                    elif a.op == "dist" and all(isinstance(y, T) and y.op in ("vec", "lc") for y in a.args[1:]):
                        metrics.add(a.args[0])
                    elif a.op == "sym":
                        continue
                    else:
                        return False, a
    return True, metrics
