"""Abstract values of the interpreter.

Python constants stand for themselves.  Everything that comes from outside (data IDs, vectors, distances, labels,
texts, settings of any value) is abstract:

* Tok  - a data ID.  Only identity, the order relative to other IDs and set membership are known of it;
         any other operation on it yields an uninterpreted term.  `mult` is its multiplicity: None for an
         individual, a symbol for a class of interchangeable IDs (its size is then unknown).
* T    - an uninterpreted term: operator applied to values.  Conditions over terms are decided by partitioning.
* Lin  - linear expression over size symbols (every symbol is >= 1).
"""


class Unsupported(Exception):
    """The analysis has no transfer function for a construct: the path is undecided, never a violation."""


class Raised(Exception):
    """The analysed program raises."""

    def __init__(self, name, args=(), implicit=False, node=None, obj=None):
        Exception.__init__(self, name)
        self.name, self.eargs, self.implicit, self.node, self.obj = name, tuple(args), implicit, node, obj


class Tok:
    __slots__ = ("name", "rank", "mult")

    def __init__(self, name, rank, mult=None):
        self.name, self.rank, self.mult = name, rank, mult

    def __repr__(self):
        return "<%s>" % self.name


class PosInt(int):
    """Position in a list that contains classes of unknown size: only its order relative to other positions is known."""


_intern = {}


class T:
    __slots__ = ("op", "args", "kind", "_h", "_cat")

    def __new__(cls, op, *args, kind=None):
        key = (op, args, kind)
        try:
            t = _intern.get(tkey(key))
        except TypeError:
            raise Unsupported("unhashable term argument for %s" % op)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args, t.kind = op, args, kind
            t._h = hash(tkey(key))
            t._cat = None
            _intern[tkey(key)] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return tfmt(self)


def tkey(x):
    """Hash key that keeps 1, 1.0 and True apart."""
    if isinstance(x, tuple):
        return tuple(tkey(y) for y in x)
    if isinstance(x, (bool, int, float)):
        return (type(x).__name__, x)
    return x


def tfmt(t, depth=0):
    if isinstance(t, T):
        if t.op == "sym":
            return str(t.args[0])
        if t.op == "vec":
            return "v(%s)" % (tfmt(t.args[0]))
        if depth > 5:
            return "..."
        return "%s(%s)" % (t.op, ", ".join(tfmt(a, depth + 1) for a in t.args))
    if isinstance(t, tuple):
        return "(%s)" % ", ".join(tfmt(a, depth + 1) for a in t)
    return repr(t)


class Lin:
    """const + sum(coef * sym); immutable."""
    __slots__ = ("const", "coefs", "_h")

    def __init__(self, const, coefs):
        self.const = const
        self.coefs = tuple(sorted((s, c) for s, c in coefs if c != 0))
        self._h = hash((const, self.coefs))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and o.const == self.const and o.coefs == self.coefs

    def __repr__(self):
        return "+".join(([str(self.const)] if self.const else []) + [("%s" % s if c == 1 else "%s*%s" % (c, s)) for s, c in self.coefs]) or "0"


def lin(x):
    return x if isinstance(x, Lin) else Lin(x, ())


def lin_simplify(l):
    return l.const if not l.coefs else l


def lin_add(a, b, sb=1):
    a, b = lin(a), lin(b)
    d = dict(a.coefs)
    for s, c in b.coefs:
        d[s] = d.get(s, 0) + sb * c
    return lin_simplify(Lin(a.const + sb * b.const, d.items()))


def lin_scale(a, k):
    a = lin(a)
    return lin_simplify(Lin(a.const * k, [(s, c * k) for s, c in a.coefs]))


# ---------------------------------------------------------------- heap objects
class Heap:
    pass


class AList(Heap):
    def __init__(self, items=(), muls=None, depth=0):
        self.items = list(items)
        self.muls = muls          # None: every item counts once
        self.depth = depth        # loop-multiplicity depth at creation
        self.np = False

    def __repr__(self):
        return "[%s]" % ", ".join(map(repr, self.items))


class AIter(Heap):
    """single-use iterator (generator expression, zip, enumerate, map, ...); `src` produces its items on demand"""

    def __init__(self, items, muls=None, src=None):
        self.buf, self.muls, self.pos, self.src = list(items), muls, 0, src

    def fill(self, i):
        """is there an item number i"""
        while self.src is not None and len(self.buf) <= i:
            src = self.src
            try:
                x = next(src)
            except StopIteration:
                self.src = None
                break
            self.buf.append(x)
        return i < len(self.buf)

    @property
    def items(self):
        while self.src is not None:
            self.fill(len(self.buf))
        return self.buf

    def __repr__(self):
        return "iter(%s)" % (self.buf if self.src is None else "...",)


class AView(Heap):
    """live view on a dictionary: keys / values / items"""

    def __init__(self, d, what):
        self.d, self.what = d, what


class ADict(Heap):
    def __init__(self, depth=0):
        self.keys, self.vals, self.muls = [], [], []
        self.index = {}           # exact key -> position
        self.depth = depth
        self.factory = None       # defaultdict

    def __repr__(self):
        return "{%s}" % ", ".join("%r: %r" % kv for kv in zip(self.keys, self.vals))

    def reindex(self):
        self.index = {rkey(k): i for i, k in enumerate(self.keys)}

    def copy(self):
        d = ADict()
        d.keys, d.vals, d.muls, d.index, d.factory = self.keys[:], self.vals[:], self.muls[:], dict(self.index), self.factory
        return d


class ASet(Heap):
    def __init__(self, depth=0):
        self.d = ADict(depth)
        self.frozen = False

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.d.keys))


class AObj(Heap):
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}

    def __repr__(self):
        return "<%s object>" % getattr(self.cls, "name", self.cls)


class Native(Heap):
    """object whose behaviour is a specification given by a checker (not by the analysed source)"""
    typename = "native"

    def getattr(self, interp, name):
        raise Unsupported("attribute %s of %s" % (name, self.typename))

    def setattr(self, interp, name, value):
        raise Unsupported("store to %s.%s" % (self.typename, name))


class ARows(Heap):
    """stack of vectors: rows are terms"""

    def __init__(self, rows, muls=None):
        self.rows, self.muls = list(rows), muls

    def __repr__(self):
        return "rows%r" % (self.rows,)


class AMatrix(Heap):
    """matrix indexed by positions of two row stacks: entries are uninterpreted terms plus explicit overrides"""

    def __init__(self, op, rows, cols, overrides=None, neg=False):
        self.op, self.rows, self.cols, self.over, self.neg = op, list(rows), list(cols), dict(overrides or {}), neg

    def entry(self, i, j):
        if (i, j) in self.over:
            return self.over[(i, j)]
        a, b = self.rows[i], self.cols[j]
        if self.op[0] == "dist" and a is b:
            v = 0.0
        elif self.op[0] == "kern" and a is b:
            v = 1.0
        else:
            if repr(b) < repr(a):
                a, b = b, a
            v = T(self.op[0], self.op[1], a, b, kind="num")
        if self.neg:
            v = -v if isinstance(v, float) else T("neg", v, kind="num")
        return v


class ARow(Heap):
    def __init__(self, m, i):
        self.m, self.i = m, i


class Func:
    def __init__(self, node, module, closure, name, cls=None, defaults=None, kwdefaults=None, decorators=()):
        self.node, self.module, self.closure, self.name, self.cls = node, module, closure, name, cls
        self.defaults, self.kwdefaults, self.decorators = defaults or [], kwdefaults or {}, decorators

    def __repr__(self):
        return "<function %s>" % self.name


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class BoundM:
    """method of a built-in container or string"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class PyFn:
    """specification function implemented by a checker"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class ClassV:
    def __init__(self, name, module, node, bases):
        self.name, self.module, self.node, self.bases = name, module, node, bases
        self.attrs = {}

    def mro(self):
        out, seen = [self], {id(self)}
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if id(c) not in seen:
                        seen.add(id(c))
                        out.append(c)
            elif id(b) not in seen:
                out.append(b)
        return out

    def __repr__(self):
        return "<class %s>" % self.name


class Ext:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("ext", self.name))


class ModuleV:
    def __init__(self, mod):
        self.mod = mod


class ExcObj:
    def __init__(self, name, args, cls=None):
        self.name, self.eargs, self.cls = name, args, cls


def rigid(k):
    """key whose equality with every other rigid key is known"""
    if isinstance(k, tuple):
        return all(rigid(x) for x in k)
    return not isinstance(k, (T, Lin))


def rkey(k):
    return k


def freeze(v, depth=0):
    """immutable snapshot usable inside a term"""
    if depth > 12:
        raise Unsupported("value too deep")
    if isinstance(v, tuple):
        return tuple(freeze(x, depth + 1) for x in v)
    if isinstance(v, AList):
        return ("L",) + tuple(freeze(x, depth + 1) for x in v.items)
    if isinstance(v, AIter):
        return ("G",) + tuple(freeze(x, depth + 1) for x in v.items[v.pos:])
    if isinstance(v, ADict):
        return ("D",) + tuple((freeze(a, depth + 1), freeze(b, depth + 1)) for a, b in zip(v.keys, v.vals))
    if isinstance(v, ASet):
        return ("S",) + tuple(freeze(x, depth + 1) for x in v.d.keys)
    if isinstance(v, AView):
        return ("V", v.what, freeze(v.d, depth + 1))
    if isinstance(v, ARows):
        return ("R",) + tuple(v.rows)
    if isinstance(v, AMatrix):
        return ("M", v.op, tuple(v.rows), tuple(v.cols), v.neg, tuple(sorted(v.over.items(), key=repr)))
    if isinstance(v, ARow):
        return ("Row", freeze(v.m), v.i)
    if isinstance(v, AObj):
        return ("O", v.cls.name if isinstance(v.cls, ClassV) else str(v.cls), id(v))
    if isinstance(v, Native):
        t = getattr(v, "term", None)
        return t if t is not None else ("N", v.typename, id(v))
    if isinstance(v, slice):
        return ("slice", freeze(v.start), freeze(v.stop), freeze(v.step))
    if isinstance(v, (Func, Bound, BoundM, PyFn, ClassV, ModuleV, ExcObj)):
        return ("F", getattr(v, "name", type(v).__name__), id(v) if not isinstance(v, ClassV) else v.name)
    return v


def stored_in(x):
    """the given vector whose values the array x holds, or None"""
    if isinstance(x, T):
        if x.op == "vec":
            return x
        if x.op in ("attr:data", "attr:indices", "attr:indptr") and isinstance(x.args[0], T) and x.args[0].op == "vec":
            return x.args[0]
    return None
