"""Data at definite places: every comparison of distances has one answer.

The code is still followed through its syntax tree; the places only answer the questions it asks about numbers, and give
the specification the same numbers.  A question about anything the evaluation below does not know marks the run."""
import math
import random
from ..values import *
from ..values import T

METRICS = {
    "euclidean": math.dist, "l2": math.dist,
    "sqeuclidean": lambda a, b: math.dist(a, b) ** 2,
    "cityblock": lambda a, b: sum(abs(x - y) for x, y in zip(a, b)), "manhattan": lambda a, b: sum(abs(x - y) for x, y in zip(a, b)), "l1": lambda a, b: sum(abs(x - y) for x, y in zip(a, b)),
    "chebyshev": lambda a, b: max(abs(x - y) for x, y in zip(a, b)),
    "cosine": lambda a, b: 1 - sum(x * y for x, y in zip(a, b)) / (math.hypot(*a) * math.hypot(*b)),
}


class Places:
    """policy: data at definite places; a comparison of anything else makes the run undecided"""

    def __init__(self, points, first=None):
        self.points, self.first, self.odd = points, first, None
        self.memo = {}

    def place(self, v):
        if not isinstance(v, T):
            return None
        if v.op == "vec" and len(v.args) == 1 and isinstance(v.args[0], Tok):
            return self.points.get(v.args[0].name)
        if v.op == "lc":
            ps = [(self.place(t), a / b) for t, a, b in v.args]
            if any(q is None for q, _ in ps):
                return None
            return tuple(sum(q[i] * c for q, c in ps) for i in range(len(ps[0][0])))
        return None

    def val(self, x):
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            return x
        if not isinstance(x, T):
            return None
        if x not in self.memo:
            try:
                r = self.compute(x)
            except (ZeroDivisionError, OverflowError, ValueError, TypeError, IndexError):
                r = None
            self.memo[x] = None if isinstance(r, complex) else r
        return self.memo[x]

    def compute(self, x):
        if x.op == "dist":
            m = x.args[0]
            f = METRICS.get(m[0]) if isinstance(m, tuple) and len(m) == 1 else None
            a, b = self.place(x.args[1]), self.place(x.args[2])
            return None if f is None or a is None or b is None else f(a, b)
        if x.op in ("num:euclidean", "num:sqeuclidean") and len(x.args) == 4 and x.args[2:] == ((), ()):
            a, b = self.place(x.args[0]), self.place(x.args[1])
            return None if a is None or b is None else METRICS[x.op[4:]](a, b)
        if x.op in ("+", "-", "*", "/", "//", "%", "neg", "**", "max", "min", "abs", "round", "floor", "ceil", "trunc", "int", "ext:math.sqrt", "ext:math.exp", "ext:math.log"):
            a = [self.val(y) for y in x.args]
            if any(y is None for y in a):
                return None
            return {"+": lambda: sum(a), "-": lambda: a[0] - a[1], "neg": lambda: -a[0], "*": lambda: math.prod(a), "/": lambda: a[0] / a[1], "//": lambda: a[0] // a[1], "%": lambda: a[0] % a[1],
                    "**": lambda: a[0] ** a[1], "max": lambda: max(a), "min": lambda: min(a), "abs": lambda: abs(a[0]), "round": lambda: round(*a), "floor": lambda: math.floor(a[0]), "ceil": lambda: math.ceil(a[0]),
                    "trunc": lambda: math.trunc(a[0]), "int": lambda: int(a[0]), "ext:math.sqrt": lambda: math.sqrt(a[0]), "ext:math.exp": lambda: math.exp(a[0]), "ext:math.log": lambda: math.log(*a)}[x.op]()
        return None

    def __call__(self, it, key):
        if self.first is not None:
            r = self.first(it, key)
            if r is not None:
                return r
        if key[0] in ("<", "==") and len(key) == 3 and any(isinstance(x, T) for x in key[1:]):
            a, b = self.val(key[1]), self.val(key[2])
            if a is None or b is None:
                self.odd = self.odd or key
                return False
            if abs(a - b) < 1e-9:
                a = b
            return a == b if key[0] == "==" else a < b
        if any(isinstance(x, T) for x in key[1:]):
            self.odd = self.odd or key
        return None


def mean(ps):
    return tuple(sum(c) / len(ps) for c in zip(*ps))


def scatter(rng, n, names, size=4.0):
    return {names[i]: (rng.random() * size, rng.random() * size) for i in range(n)}
