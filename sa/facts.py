"""Facts known on one partition: a partial order with equalities over terms and constants."""
import math
from .values import T, Tok, Lin, lin, lin_add, lin_simplify, lin_scale, PosInt

INF = float("inf")


def is_numconst(x):
    return isinstance(x, (int, float)) and not isinstance(x, PosInt)


def finite_term(t):
    return isinstance(t, T) and t.kind in ("num", "int")


class Facts:
    def __init__(self):
        self.le = {}      # node -> {node: strict}
        self.ne = set()
        self.consts = []
        self.atoms = {}   # generic boolean atoms

    # -- nodes
    def node(self, x):
        if x is None or isinstance(x, (str, bool, int, float)):
            n = ("c", x)
            if n not in self.consts:
                self.consts.append(n)
            return n
        if isinstance(x, Lin):
            return ("l", x)
        return ("t", x)

    def succ(self, n):
        out = dict(self.le.get(n, ()))
        kind, v = n
        if kind == "c" and is_numconst(v) or kind == "c" and isinstance(v, bool):
            for m in self.consts:
                if m != n and isinstance(m[1], (int, float)):
                    if v < m[1]:
                        out[m] = True
                    elif v == m[1]:
                        out.setdefault(m, False)
            # base bounds: constants below terms
            if v <= 0:
                for m in list(self.seen_terms()):
                    if base_nonneg(m[1]):
                        out.setdefault(m, v < 0)
            for m in list(self.seen_terms()):
                if m[0] == "l":
                    b = m[1].const + sum(c for _, c in m[1].coefs) if all(c > 0 for _, c in m[1].coefs) else None
                    if b is not None and v <= b:
                        out.setdefault(m, v < b)
            if v == -INF:
                for m in list(self.seen_terms()):
                    if finite_term(m[1]) or m[0] == "l":
                        out[m] = True
        elif kind in ("t", "l"):
            if finite_term(v) or kind == "l":
                for m in self.consts:
                    if m[1] == INF and isinstance(m[1], float):
                        out[m] = True
            if kind == "l" and all(c < 0 for _, c in v.coefs):
                b = v.const + sum(c for _, c in v.coefs)
                for m in self.consts:
                    if is_numconst(m[1]) and b <= m[1]:
                        out.setdefault(m, b < m[1])
        for m in out:
            if not out[m] and frozenset((n, m)) in self.ne:
                out[m] = True
        return out

    _terms = None

    def seen_terms(self):
        if self._terms is None:
            self._terms = {}
        return self._terms

    def touch(self, *xs):
        for x in xs:
            n = self.node(x)
            if n[0] in ("t", "l"):
                self.seen_terms()[n] = True

    def path(self, a, b):
        """None, 'le' or 'lt': what is known of a relative to b"""
        if a == b:
            return "le"
        best = {a: False}
        work = [a]
        while work:
            x = work.pop()
            for y, st in self.succ(x).items():
                s = best[x] or st
                if y not in best or (s and not best[y]):
                    best[y] = s
                    work.append(y)
        if b in best:
            if best[b]:
                return "lt"
            return "lt" if frozenset((a, b)) in self.ne else "le"
        return None

    def add_le(self, a, b, strict):
        d = self.le.setdefault(a, {})
        d[b] = d.get(b, False) or strict

    # -- queries; return True / False / None
    def known_lt(self, a, b):
        na, nb = self.node(a), self.node(b)
        self.touch(a, b)
        if self.path(na, nb) == "lt":
            return True
        if self.path(nb, na) is not None:
            return False
        return None

    def known_le(self, a, b):
        r = self.known_lt(b, a)
        return None if r is None else not r

    def known_eq(self, a, b):
        na, nb = self.node(a), self.node(b)
        self.touch(a, b)
        if na == nb:
            return True
        if na[0] == "c" and nb[0] == "c":
            return a == b
        p, q = self.path(na, nb), self.path(nb, na)
        if p == "le" and q == "le":
            return True
        if p == "lt" or q == "lt":
            return False
        if frozenset((na, nb)) in self.ne:
            return False
        ca, cb = self.const_of(a), self.const_of(b)
        if ca is not None and cb is not None and ca != cb:
            return False
        if ca is not None and cb is None:
            if frozenset((ca, nb)) in self.ne:
                return False
        if cb is not None and ca is None:
            if frozenset((cb, na)) in self.ne:
                return False
        for x in self.eqclass(na):
            for y in self.eqclass(nb):
                if frozenset((x, y)) in self.ne:
                    return False
        return None

    def eqclass(self, n):
        out, work = {n}, [n]
        while work:
            x = work.pop()
            for y, st in self.le.get(x, {}).items():
                if not st and y not in out and self.le.get(y, {}).get(x) is False:
                    out.add(y)
                    work.append(y)
        return out

    def const_of(self, a):
        n = self.node(a)
        if n[0] == "c":
            return n
        for x in self.eqclass(n):
            if x[0] == "c":
                return x
        return None

    # -- recording
    def rec_lt(self, a, b):
        self.touch(a, b)
        na, nb = self.node(a), self.node(b)
        if intkind(a) and isinstance(b, int) and not isinstance(b, bool):
            self.add_le(na, self.node(b - 1), False)
        elif intkind(b) and isinstance(a, int) and not isinstance(a, bool):
            self.add_le(self.node(a + 1), nb, False)
        else:
            self.add_le(na, nb, True)

    def rec_le(self, a, b):
        self.touch(a, b)
        self.add_le(self.node(a), self.node(b), False)

    def rec_eq(self, a, b):
        self.rec_le(a, b)
        self.rec_le(b, a)

    def rec_ne(self, a, b):
        self.touch(a, b)
        self.ne.add(frozenset((self.node(a), self.node(b))))


def intkind(x):
    return isinstance(x, Lin) or (isinstance(x, T) and x.kind == "int")


def base_nonneg(t):
    return isinstance(t, T) and (t.op in ("dist", "kern", "idop:len", "count", "num:mahalanobis", "num:ncols") or t.op == "**" and t.args[1] == 2 or (t.op in ("+", "*", "/") and all(base_nonneg(a) or (is_numconst(a) and a >= 0) for a in t.args)))
