"""Numeric arrays.

Arrays whose entries are known one by one are AList(np=True); every other array is `Opq`: an array object of which only
the expression that produced it is known.  In-place operations replace that expression, so aliases see them.
Conditions over such numbers have the category `num`: both answers are taken to be possible for some vectors."""
from .values import *
from .values import T, Tok, Lin


def term_of(v):
    return v.term if isinstance(v, Opq) else freeze(v)


def fkey(k):
    if isinstance(k, slice):
        return ("slice", fkey(k.start), fkey(k.stop), fkey(k.step))
    if isinstance(k, tuple):
        return tuple(fkey(x) for x in k)
    return freeze(k)


class Opq(Native):
    typename = "array"

    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return "array(%r)" % (self.term,)

    def isext(self, full):
        return full in ("numpy.ndarray",)

    def write(self, it, term):
        self.term = term
        it.mutated(self)

    def getattr(self, it, name):
        if name == "flat":
            return FlatView(self)
        if name == "T":
            return Opq(T("num:T", self.term))
        if name in ("shape", "size", "dtype", "ndim"):
            return T("num:" + name, self.term, kind="int" if name in ("size", "ndim") else None)

        def f(i, a, k):
            if name in ("fill", "sort", "partition", "put", "itemset", "resize"):
                self.write(i, T("num:m." + name, self.term, freeze(tuple(a))))
                return None
            r = T("num:m." + name, self.term, freeze(tuple(a)), freeze(tuple(sorted(k.items()))))
            outs = [x for x in list(a) + [k.get("out")] if isinstance(x, Opq)] if name in ("clip",) or "out" in k else []
            if outs:
                outs[-1].write(i, r)
                return outs[-1]
            if name == "copy":
                return Opq(self.term)
            if name in ("item",):
                return r
            return Opq(r)
        return PyFn(name, f)

    def getitem(self, it, k):
        k = k.term if isinstance(k, Opq) else k
        if isinstance(k, slice) and k.start in (None, 0) and k.step is None and isinstance(k.stop, int) and not isinstance(k.stop, bool) and k.stop >= 0:
            l = it.newlist([T("elem", self.term, i) for i in range(k.stop)])
            l.np = True
            return l
        t = T("elem", self.term, fkey(k))
        scalar = isinstance(k, (int, T)) and not isinstance(k, bool) or isinstance(k, tuple) and all(isinstance(x, (int, T)) for x in k)
        return t if scalar and not (isinstance(k, T) and k.op.startswith("num:")) else Opq(t)

    def setitem(self, it, k, v):
        it.events.append(("array-store", (self, k, v), None))
        self.write(it, T("num:store", self.term, fkey(k.term if isinstance(k, Opq) else k), term_of(v)))

    def truth(self, it):
        return it.atom(("truthy", self.term), "%r" % (self.term,), it.cat(self.term))

    def length(self, it):
        return T("num:len", self.term, kind="int")


class FlatView(Native):
    typename = "flat"

    def __init__(self, o):
        self.o = o

    @property
    def term(self):
        return T("num:flat", term_of(self.o))

    def getitem(self, it, k):
        return T("elem", self.term, fkey(k))

    def setitem(self, it, k, v):
        if isinstance(self.o, Opq):
            self.o.write(it, T("num:storeflat", self.o.term, fkey(k), term_of(v)))
        else:
            raise Unsupported("store through flat")

    def getattr(self, it, name):
        raise Unsupported("flat." + name)


UFUNC2 = {"add", "subtract", "multiply", "divide", "maximum", "minimum", "power", "true_divide"}


def generic(name):
    """default transfer function of numpy / scipy functions"""
    short = name.split(".")[-1]

    def f(m, it, a, k):
        it.events.append(("ext", (name, a, k), None))
        r = T("num:" + short, freeze(tuple(x for x in a)), freeze(tuple(sorted((x, y) for x, y in k.items() if x != "out"))))
        out = k.get("out")
        if out is None and short in UFUNC2 and len(a) == 3:
            out = a[2]
            r = T("num:" + short, freeze(tuple(a[:2])), ())
        if out is not None:
            if isinstance(out, Opq):
                out.write(it, r)
                return out
            raise Unsupported("out argument")
        if short == "fill_diagonal":
            if isinstance(a[0], Opq):
                a[0].write(it, T("num:fill_diagonal", a[0].term, freeze(tuple(a[1:]))))
                return None
            if isinstance(a[0], AMatrix):
                for i in range(min(len(a[0].rows), len(a[0].cols))):
                    a[0].over[(i, i)] = a[1]
                return None
        if short in ("copyto", "put", "place"):
            if isinstance(a[0], Opq):
                a[0].write(it, r)
                return None
            raise Unsupported(name)
        if short in ("finfo", "iinfo"):
            return r
        if short == "euclidean" and len(a) == 2 and not k:
            try:
                d = it.euclid(it.arith("-", a[0], a[1]))
            except Unsupported:
                d = None
            if d is not None:
                return d
        if short in ("mahalanobis", "euclidean", "sqeuclidean") and len(a) >= 2 and all(isinstance(x, T) and x.kind == "vec" for x in a[:2]):
            x, y = sorted(a[:2], key=repr)
            if x is y:
                return 0.0
            return T("num:" + short, x, y, freeze(tuple(a[2:])), freeze(tuple(sorted(k.items()))), kind="num")
        if short in ("mahalanobis", "euclidean", "sqeuclidean", "norm", "dot"):
            return T("num:" + short, freeze(tuple(a)), freeze(tuple(sorted(k.items()))), kind="num")
        return Opq(r)
    return f


def np_numbers(l):
    return isinstance(l, AList) and all(isinstance(x, (int, float)) for x in l.items)


def reduce_np(name):
    """sum/min/max/argmin/argmax/all/any/median of an array with known entries"""
    def f(m, it, a, k):
        v = a[0] if a else k.get("a")
        if isinstance(v, (AIter, tuple, AView)) and not isinstance(v, AList):
            v = AList([x for x, _ in it.iter_items(v)])
        axis = k.get("axis", a[1] if len(a) > 1 else None)
        if isinstance(v, AList) and v.items and not any(isinstance(x, (Heap, tuple)) for x in v.items):
            vec = any(isinstance(x, T) and x.kind == "vec" for x in v.items)
            if vec:
                if name in ("sum", "mean") and axis == 0:
                    acc = 0
                    for x in v.items:
                        acc = it.arith("+", acc, x)
                    return acc if name == "sum" else it.arith("/", acc, len(v.items))
            elif axis in (None, 0, -1):
                if name in ("sum", "mean"):
                    acc = 0
                    for x in v.items:
                        acc = it.arith("+", acc, int(x) if isinstance(x, bool) else x)
                    return acc if name == "sum" else it.arith("/", acc, len(v.items))
                if name in ("min", "max"):
                    return m.extremum(it, name, [v], {})
                if name in ("argmin", "argmax"):
                    best = 0
                    for i in range(1, len(v.items)):
                        if (it.lt(v.items[i], v.items[best]) if name == "argmin" else it.lt(v.items[best], v.items[i])):
                            best = i
                    it.events.append(("extremum", (name, tuple(v.items), best), None))
                    return best
                if name == "all":
                    return all(it.truth(x) for x in v.items)
                if name == "any":
                    return any(it.truth(x) for x in v.items)
        return generic("numpy." + name)(m, it, a, k)
    return f


def x_where(m, it, a, k):
    if len(a) == 1 and isinstance(a[0], AList) and all(isinstance(x, bool) for x in a[0].items):
        l = it.newlist([i for i, x in enumerate(a[0].items) if x])
        l.np = True
        return (l,)
    return generic("numpy.where")(m, it, a, k)


def x_flatnonzero(m, it, a, k):
    if isinstance(a[0], AList) and all(isinstance(x, (bool, int)) for x in a[0].items):
        l = it.newlist([i for i, x in enumerate(a[0].items) if x])
        l.np = True
        return l
    return generic("numpy.flatnonzero")(m, it, a, k)


def x_bincount(m, it, a, k):
    v = a[0]
    ml = it.resolve(k.get("minlength", a[2] if len(a) > 2 else 0))
    if isinstance(v, AList) and isinstance(ml, int):
        items = [it.resolve(x) for x in v.items]
        if all(isinstance(x, int) for x in items):
            if any(x < 0 for x in items):
                raise Raised("ValueError", ("bincount",), True)
            l = it.newlist([sum(1 for y in items if y == c) for c in range(max(ml, max(items) + 1 if items else 0))])
            l.np = True
            return l
    return generic("numpy.bincount")(m, it, a, k)


def x_concatenate(m, it, a, k):
    seqs = [x for x, _ in it.iter_items(a[0])]
    if all(isinstance(s, AList) for s in seqs) and k.get("axis", a[1] if len(a) > 1 else 0) == 0:
        l = it.newlist([x for s in seqs for x in s.items])
        l.np = True
        return l
    return generic("numpy.concatenate")(m, it, a, k)


def x_empty(m, it, a, k):
    s = a[0] if a else k.get("shape")
    if isinstance(s, tuple) and s and s[0] == 0:
        l = it.newlist([])
        l.np = True
        return l
    return generic("numpy.empty")(m, it, a, k)


def x_choice(m, it, a, k):
    """draw without replacement or of one item; the order of the draw is a scenario"""
    it.events.append(("draw", "numpy", None))
    n = it.resolve(a[0] if a else k.get("a"))
    size = it.resolve(k.get("size", a[1] if len(a) > 1 else None))
    replace = k.get("replace", a[2] if len(a) > 2 else True)
    perm = getattr(it, "shuffle_perm", None)
    if isinstance(n, int) and perm is not None and (size == 1 or size is None or (replace is False and isinstance(size, int))):
        if size is not None and replace is False and size > n:
            raise Raised("ValueError", ("larger sample than population",), True)
        p = perm(list(range(n)))
        if size is None:
            return p[0]
        l = it.newlist(p[:size])
        l.np = True
        return l
    return it.draw("numpy", "choice", a, k)


def x_slogdet(m, it, a, k):
    t = T("num:slogdet", term_of(a[0]))
    return (T("elem", t, 0, kind="num"), T("elem", t, 1, kind="num"))


def x_sqrt(m, it, a, k):
    x = it.resolve(a[0])
    if isinstance(x, (int, float)) and not isinstance(x, PosInt):
        return float(x) ** 0.5
    if isinstance(x, T) and x.op == "**" and x.args[1] == 2 and isinstance(x.args[0], T) and x.args[0].op == "dist":
        return x.args[0]
    return generic("numpy.sqrt")(m, it, a, k)


def x_norm(m, it, a, k):
    if len(a) == 1 and not k and isinstance(a[0], T) and a[0].kind == "vec":
        d = it.euclid(a[0])
        if d is not None:
            return d
    return generic("numpy.linalg.norm")(m, it, a, k)


def x_sumvec(m, it, a, k):
    if len(a) == 1 and not k and isinstance(a[0], T) and a[0].op == "vsq":
        d = it.euclid(a[0].args[0])
        if d is not None:
            return 0.0 if d == 0.0 else it.arith("**", d, 2)
    return reduce_np("sum")(m, it, a, k)


TABLE = {
    "numpy.sqrt": x_sqrt, "numpy.linalg.norm": x_norm,
    "numpy.sum": x_sumvec, "numpy.mean": reduce_np("mean"), "numpy.min": reduce_np("min"), "numpy.max": reduce_np("max"), "numpy.amin": reduce_np("min"), "numpy.amax": reduce_np("max"),
    "numpy.argmin": reduce_np("argmin"), "numpy.argmax": reduce_np("argmax"), "numpy.all": reduce_np("all"), "numpy.any": reduce_np("any"),
    "numpy.where": x_where, "numpy.nonzero": x_where, "numpy.flatnonzero": x_flatnonzero, "numpy.bincount": x_bincount, "numpy.concatenate": x_concatenate, "numpy.empty": x_empty,
    "numpy.random.choice": x_choice, "numpy.linalg.slogdet": x_slogdet,
}
METHODS = {"sum", "mean", "min", "max", "argmin", "argmax", "all", "any"}
