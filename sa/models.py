"""Transfer functions of built-ins, containers and the libraries the package uses.

Anything not modelled becomes an uninterpreted term (category `foreign`); a verdict of violation is never based on a
partition that depends on a foreign condition."""
import functools
import itertools
from .values import *
from .values import T, Tok, Lin
from .interp import BUILTIN_EXC, exc_isa
from . import npmodel, strmodel
from .npmodel import Opq

NEUTRAL = {"typing.cast"}


class Models:
    def __init__(self):
        self.ext = {}

    # ------------------------------------------------------------------ attributes
    def ext_attr(self, it, o, a):
        n = o.name + "." + a
        if n in ("numpy.inf", "math.inf", "numpy.Inf", "numpy.infty"):
            return float("inf")
        if n in ("numpy.newaxis",):
            return None
        if n == "math.pi":
            return 3.141592653589793
        if n in strmodel.ATTRS:
            return strmodel.ATTRS[n]
        return Ext(n)

    def term_attr(self, it, t, a):
        h = self.ext.get("attr:" + a)
        if h is not None:
            r = h(it, t)
            if r is not None:
                return r
        return T("attr:" + a, t)

    def term_call(self, it, f, args, kwargs):
        if f.op.startswith("attr:"):
            return self.term_method(it, f.args[0], f.op[5:], args, kwargs)
        return T("ext:call", f, freeze(tuple(args)), freeze(tuple(sorted(kwargs.items()))))

    INPLACE_T = {"setdiag", "resize", "sort", "fill", "put", "partition", "itemset", "setflags"}

    def term_method(self, it, t, name, args, kwargs):
        h = self.ext.get("method:" + name)
        if h is not None:
            r = h(it, t, args, kwargs)
            if r is not None:
                return r
        it.events.append(("term-method", (t, name, args, kwargs), None))
        if name in self.INPLACE_T and stored_in(t) is not None:
            it.events.append(("mutate-input", stored_in(t), None))
        if name == "copy" and not args and t.kind in ("num", "int", "vec"):
            return t
        if t.kind == "vec" and name in ("toarray", "flatten", "todense", "ravel", "tocsr", "astype", "reshape", "squeeze", "tocsc", "getrow"):
            return t
        if t.op == "vsq" and name == "sum" and not args and not kwargs:
            d = it.euclid(t.args[0])
            if d is not None:
                return 0.0 if d == 0.0 else it.arith("**", d, 2)
        if t.kind == "vec" and name in ("sum", "min", "max", "mean", "dot"):
            return T("num:m." + name, t, freeze(tuple(args)), kind="num")
        if t.kind == "str" and name in ("strip", "lower", "upper", "translate", "replace", "format", "join", "title", "lstrip", "rstrip", "casefold", "capitalize"):
            return T("s:" + name, t, freeze(tuple(args)), freeze(tuple(sorted(kwargs.items()))), kind="str")
        if name in ("tolist",) and not args:
            return T("m:tolist", t)
        if name in ("shape",):
            return T("attr:shape", t)
        return T("m:" + name, t, freeze(tuple(args)), freeze(tuple(sorted(kwargs.items()))))

    def term_getitem(self, it, t, k):
        if isinstance(k, tuple) and k and k[0] == "slice" and k[1] in (None, 0) and k[3] is None and isinstance(k[2], int) and not isinstance(k[2], bool) and k[2] >= 0:
            l = it.newlist([T("elem", t, i) for i in range(k[2])])
            l.np = True
            return l
        kk = freeze(k)
        if isinstance(kk, PosInt):
            kk = int(kk)
        if t.op == "m:tolist":
            t = t.args[0]
        kind = None
        return T("elem", t, kk, kind=kind)

    def iter_term(self, it, t):
        h = self.ext.get("iter")
        if h is not None:
            r = h(it, t)
            if r is not None:
                return r
        if isinstance(t, T):
            if it.atom(("nonempty", t), "%r has an element" % (t,), "num" if it.cat(t) == "num" else "foreign"):
                return [(T("elem", t, "*"), 1)]
            return []
        return None

    # ------------------------------------------------------------------ matrices and arrays
    def is_array(self, a, b):
        return any(isinstance(x, (AMatrix, ARows, ARow, Opq, npmodel.FlatView)) or isinstance(x, AList) and x.np for x in (a, b))

    def elementwise(self, it, op, *xs):
        def scal(o, *ys):
            if len(ys) == 1:
                return it.neg(ys[0]) if o == "neg" else T("ext:" + o, freeze(ys[0]))
            a, b = ys
            if o in ("==", "!=", "<", "<=", ">", ">="):
                a, b = it.resolve(a), it.resolve(b)
                if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                    return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
                return T("ext:" + o, freeze(a), freeze(b), kind="bool")
            if all(isinstance(y, (int, float)) for y in ys) or all(isinstance(y, (int, float, T, Lin)) for y in ys) and o in it.CONC:
                return it.arith(o, a, b)
            return T("ext:" + o, freeze(a), freeze(b))
        nps = [x for x in xs if isinstance(x, AList)]
        if nps and all(isinstance(x, (AList, int, float, T, Lin)) for x in xs):
            n = len(nps[0].items)
            if all(len(x.items) == n for x in nps):
                out = []
                for i in range(n):
                    ys = [x.items[i] if isinstance(x, AList) else x for x in xs]
                    out.append(self.elementwise(it, op, *ys) if any(isinstance(y, AList) for y in ys) else scal(op, *ys))
                l = it.newlist(out)
                l.np = True
                return l
        if len(xs) == 2 and isinstance(xs[0], AMatrix) and op == "*" and isinstance(xs[1], (int, float)) and xs[1] == -1:
            return it.neg(xs[0])
        if any(isinstance(x, Native) and not isinstance(x, (Opq, npmodel.FlatView)) for x in xs):
            raise Unsupported("arithmetic on %r" % (xs,))
        return Opq(T("num:" + op, *[freeze(x) for x in xs]))

    def matrix_attr(self, it, o, a):
        if a == "shape":
            if isinstance(o, ARows):
                return (it.len(o), T("num:ncols", kind="int"))
            if isinstance(o, AMatrix):
                return (len(o.rows), len(o.cols))
        if a == "T" and isinstance(o, AMatrix):
            m = AMatrix(o.op, o.cols, o.rows, {(j, i): v for (i, j), v in o.over.items()}, o.neg)
            return m
        if a in ("copy", "toarray", "todense", "tocsr", "tocsc", "astype"):
            def f(itp, args, kwargs):
                if isinstance(o, AMatrix):
                    return AMatrix(o.op, o.rows, o.cols, o.over, o.neg)
                return o
            return PyFn(a, f)
        if a == "tolist" and isinstance(o, AMatrix):
            return PyFn(a, lambda itp, args, kw: itp.newlist([itp.newlist([o.entry(i, j) for j in range(len(o.cols))]) for i in range(len(o.rows))]))
        if a == "tolist" and isinstance(o, ARow):
            return PyFn(a, lambda itp, args, kw: itp.newlist([o.m.entry(o.i, j) for j in range(len(o.m.cols))]))
        if a == "flat":
            return npmodel.FlatView(o)
        if a in ("dtype", "size", "ndim"):
            return T("num:" + a, freeze(o), kind="int" if a != "dtype" else None)
        if a == "__len__":
            return PyFn(a, lambda itp, args, kw: itp.len(o))
        if a in ("mean", "sum") and isinstance(o, ARows) and o.muls is None:
            def red(itp, args, kw):
                if kw.get("axis", args[0] if args else None) == 0:
                    return npmodel.reduce_np(a)(self, itp, [AList(o.rows)], {"axis": 0})
                return Opq(T("num:m." + a, freeze(o), freeze(tuple(args))))
            return PyFn(a, red)
        return PyFn("m:" + a, lambda itp, args, kw: Opq(T("num:m." + a, freeze(o), freeze(tuple(args)), freeze(tuple(sorted(kw.items()))))))

    def matrix_getitem(self, it, o, k):
        if isinstance(o, ARow):
            if isinstance(k, int):
                return o.m.entry(o.i, it.norm_index(len(o.m.cols), int(k)))
        if isinstance(o, AMatrix):
            if isinstance(k, tuple) and len(k) == 2 and all(isinstance(x, int) for x in k):
                return o.entry(it.norm_index(len(o.rows), int(k[0])), it.norm_index(len(o.cols), int(k[1])))
            if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], int) and isinstance(k[1], slice) and k[1] == slice(None):
                return ARow(o, it.norm_index(len(o.rows), int(k[0])))
            if isinstance(k, int):
                return ARow(o, it.norm_index(len(o.rows), int(k)))
        if isinstance(o, ARows) and isinstance(k, int):
            return o.rows[it.norm_index(len(o.rows), int(k))]
        return Opq(T("elem", freeze(o), npmodel.fkey(k)))

    def matrix_setitem(self, it, o, k, v):
        if isinstance(k, tuple) and len(k) == 2:
            ks = []
            for x, n in zip(k, (len(o.rows), len(o.cols))):
                if isinstance(x, int):
                    ks.append([it.norm_index(n, int(x))])
                elif isinstance(x, slice) and x == slice(None):
                    ks.append(list(range(n)))
                elif isinstance(x, AList) and all(isinstance(y, int) for y in x.items):
                    ks.append([it.norm_index(n, int(y)) for y in x.items])
                else:
                    raise Unsupported("matrix store")
            if len(ks[0]) > 1 and len(ks[1]) > 1 and not isinstance(k[0], slice) and not isinstance(k[1], slice):
                for i, j in zip(*ks):
                    o.over[(i, j)] = v
                return
            for i in ks[0]:
                for j in ks[1]:
                    o.over[(i, j)] = v
            return
        raise Unsupported("matrix store")

    def np_attr(self, it, o, a):
        if a == "shape":
            if o.items and all(isinstance(x, AList) for x in o.items):
                return (len(o.items), len(o.items[0].items))
            if o.items and isinstance(o.items[0], T):
                return (it.len(o), T("num:ncols", kind="int"))
            return (it.len(o),)
        if a == "size":
            return it.len(o)
        if a in ("tolist", "copy", "flatten", "ravel"):
            def f(itp, args, kw):
                l = AList(list(o.items), None if o.muls is None else list(o.muls), len(itp.multstack))
                l.np = a != "tolist"
                return l
            return PyFn(a, f)
        if a == "astype":
            return PyFn(a, lambda itp, args, kw: o)
        if a in npmodel.METHODS:
            return PyFn(a, lambda itp, args, kw: npmodel.reduce_np(a)(self, itp, [o] + list(args), kw))
        if a == "flat":
            return npmodel.FlatView(o)
        if a == "T" and o.items and not any(isinstance(x, (AList, T)) for x in o.items):
            return o
        if a == "T":
            if o.items and all(isinstance(x, AList) for x in o.items) and len({len(x.items) for x in o.items}) == 1:
                rows = []
                for col in zip(*[x.items for x in o.items]):
                    r = it.newlist(list(col))
                    r.np = True
                    rows.append(r)
                l = it.newlist(rows)
                l.np = True
                return l
            return Opq(T("num:T", freeze(o)))
        if a in ("dtype", "ndim", "itemsize", "nbytes"):
            return T("num:" + a, freeze(o))
        return PyFn("m:" + a, lambda itp, args, kw: Opq(T("num:m." + a, freeze(o), freeze(tuple(args)), freeze(tuple(sorted(kw.items()))))))

    def np_getitem(self, it, o, k):
        if isinstance(k, bool):
            raise Unsupported("bool index")
        if isinstance(k, int):
            return o.items[it.norm_index(len(o.items), int(k))]
        if isinstance(k, slice):
            l = it.do_slice(o, k)
            l.np = True
            return l
        if isinstance(k, AList) and all(isinstance(x, int) and not isinstance(x, bool) for x in k.items):
            l = it.newlist([o.items[it.norm_index(len(o.items), int(x))] for x in k.items])
            l.np = True
            return l
        if isinstance(k, AList) and all(isinstance(x, bool) for x in k.items) and len(k.items) == len(o.items):
            l = it.newlist([x for x, b in zip(o.items, k.items) if b])
            l.np = True
            return l
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], slice) and k[1] == slice(None):
            return self.np_getitem(it, o, k[0])
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], int) and not isinstance(k[0], bool):
            return it.getitem(o.items[it.norm_index(len(o.items), int(k[0]))], k[1])
        t = T("elem", freeze(o), npmodel.fkey(k))
        return t if isinstance(k, T) else Opq(t)

    def np_setitem(self, it, o, k, v):
        it.mutated(o, k)
        if isinstance(k, int) and not isinstance(k, bool):
            o.items[it.norm_index(len(o.items), int(k))] = v
            return
        if isinstance(k, AList) and all(isinstance(x, int) and not isinstance(x, bool) for x in k.items):
            for n, x in enumerate(k.items):
                o.items[it.norm_index(len(o.items), int(x))] = v.items[n] if isinstance(v, AList) else v
            return
        if isinstance(k, slice) and k == slice(None):
            for i in range(len(o.items)):
                o.items[i] = v.items[i] if isinstance(v, AList) else v
            return
        # unknown positions: every entry may have been replaced
        for i in range(len(o.items)):
            o.items[i] = T("num:ite", freeze(k), i, freeze(v), freeze(o.items[i]))

    # ------------------------------------------------------------------ methods of containers and strings
    def method(self, it, o, name, args, kwargs):
        if isinstance(o, AList):
            return self.m_list(it, o, name, args, kwargs)
        if isinstance(o, ADict):
            return self.m_dict(it, o, name, args, kwargs)
        if isinstance(o, ASet):
            return self.m_set(it, o, name, args, kwargs)
        if isinstance(o, AView):
            if name in ("isdisjoint",):
                return not any(it.contains(o, x) for x, _ in it.iter_items(args[0]))
            raise Unsupported("view." + name)
        if isinstance(o, tuple):
            if name == "index":
                for i, x in enumerate(o):
                    if it.eq(x, args[0]):
                        return i
                raise Raised("ValueError", (), True)
            if name == "count":
                return sum(1 for x in o if it.eq(x, args[0]))
        if isinstance(o, str):
            if name == "join":
                items = [x for x, _ in it.iter_items(args[0])]
                if all(isinstance(x, str) for x in items):
                    return o.join(items)
                return T("s:join", o, freeze(tuple(items)), kind="str")
            if name == "maketrans" :
                return self.maketrans(it, args)
            if name == "translate" and args and strmodel.table(args[0]) is not None:
                return o.translate(strmodel.table(args[0]))
            if name == "encode":
                return strmodel.encode(o, args, kwargs)
            if name.startswith("__"):
                raise Unsupported("str." + name)
            try:
                if all(strmodel.const(x) for x in list(args) + list(kwargs.values())) and not name.startswith("_"):
                    r = getattr(o, name)(*args, **kwargs)
                    return it.newlist(r) if isinstance(r, list) else r
            except AttributeError:
                raise Raised("AttributeError", (name,), True)
            except (ValueError, IndexError, TypeError) as e:
                raise Raised(type(e).__name__, (), True)
            if name == "format":
                return T("strfmt", o, freeze(tuple(args)), freeze(tuple(sorted(kwargs.items()))), kind="str")
            return T("s:" + name, o, freeze(tuple(args)), kind="str")
        if isinstance(o, Tok):
            if not hasattr(str, name):
                raise Raised("AttributeError", (name,), True)
            kind = "bool" if name.startswith(("is", "starts", "ends")) else ("int" if name in ("find", "count", "index", "rfind") else "str")
            return T("idop:" + name, o, freeze(tuple(args)), kind=kind)
        if isinstance(o, (int, float, Lin)):
            if name in ("bit_length", "is_integer", "conjugate", "hex"):
                return T("ext:num." + name, o)
            raise Raised("AttributeError", (name,), True)
        if isinstance(o, AIter):
            if name == "__next__":
                return self.b_next(it, [o], {})
        raise Unsupported("method %s of %r" % (name, o))

    def m_list(self, it, o, name, args, kwargs):
        if name == "append":
            it.list_append(o, args[0])
            return None
        if name == "extend":
            for x, m in it.iter_items(args[0]):
                it.list_append(o, x, m)
            return None
        if name == "insert":
            i = it.resolve(args[0])
            if not isinstance(i, int):
                raise Unsupported("insert")
            o.items.insert(i, args[1])
            if o.muls is not None:
                o.muls.insert(i, 1)
            it.mutated(o)
            return None
        if name == "pop":
            if not o.items:
                raise Raised("IndexError", (), True)
            i = it.resolve(args[0]) if args else -1
            if not isinstance(i, int):
                raise Unsupported("pop index")
            i = it.norm_index(len(o.items), i)
            it.mutated(o)
            if o.muls is not None:
                del o.muls[i]
            return o.items.pop(i)
        if name == "remove":
            for i, x in enumerate(o.items):
                if it.eq(x, args[0]):
                    del o.items[i]
                    if o.muls is not None:
                        del o.muls[i]
                    it.mutated(o)
                    return None
            raise Raised("ValueError", ("list.remove(x): x not in list",), True)
        if name == "popleft":
            return self.m_list(it, o, "pop", [0], {})
        if name == "appendleft":
            return self.m_list(it, o, "insert", [0, args[0]], {})
        if name == "index":
            if len(args) > 1:
                raise Unsupported("list.index")
            for i, x in enumerate(o.items):
                if it.eq(x, args[0]):
                    return PosInt(i) if o.muls is not None else i
            raise Raised("ValueError", ("not in list",), True)
        if name == "count":
            return sum(1 for x in o.items if it.eq(x, args[0]))
        if name == "copy":
            return AList(o.items, None if o.muls is None else list(o.muls), len(it.multstack))
        if name == "clear":
            o.items[:] = []
            o.muls = None
            it.mutated(o)
            return None
        if name == "reverse":
            o.items.reverse()
            if o.muls is not None:
                o.muls.reverse()
            it.mutated(o)
            return None
        if name == "sort":
            r = self.do_sort(it, o, kwargs.get("key"), kwargs.get("reverse", False))
            o.items[:] = r.items
            o.muls = r.muls
            it.mutated(o)
            return None
        if name in ("__len__",):
            return it.len(o)
        if name == "__contains__":
            return it.contains(o, args[0])
        if not hasattr(list, name):
            raise Raised("AttributeError", (name,), True)
        raise Unsupported("list." + name)

    def m_dict(self, it, o, name, args, kwargs):
        if name in ("keys", "values", "items"):
            return AView(o, name)
        if name == "get":
            i = it.dict_find(o, args[0])
            return o.vals[i] if i is not None else (args[1] if len(args) > 1 else kwargs.get("default"))
        if name == "pop":
            i = it.dict_find(o, args[0])
            if i is None:
                if len(args) > 1:
                    return args[1]
                raise Raised("KeyError", (args[0],), True)
            v = o.vals[i]
            it.dict_del(o, i)
            return v
        if name == "popitem":
            if not o.keys:
                raise Raised("KeyError", (), True)
            k, v = o.keys[-1], o.vals[-1]
            it.dict_del(o, len(o.keys) - 1)
            return (k, v)
        if name == "setdefault":
            i = it.dict_find(o, args[0])
            if i is None:
                it.dict_set(o, args[0], args[1] if len(args) > 1 else None)
                i = it.dict_find(o, args[0])
            return o.vals[i]
        if name == "update":
            if args:
                it.dict_update(o, args[0])
            for k, v in kwargs.items():
                it.dict_set(o, k, v)
            return None
        if name == "copy":
            d = o.copy()
            d.depth = len(it.multstack)
            return d
        if name == "clear":
            o.keys[:], o.vals[:], o.muls[:] = [], [], []
            o.index = {}
            it.mutated(o)
            return None
        if name == "fromkeys":
            return self.b_fromkeys(it, args)
        if name == "__contains__":
            return it.contains(o, args[0])
        if name == "__getitem__":
            return it.getitem(o, args[0])
        if name == "__len__":
            return it.len(o)
        if name == "most_common" and o.factory is not None:
            pairs = AList([(k, v) for k, v in zip(o.keys, o.vals)])
            r = self.do_sort(it, pairs, PyFn("count", lambda i, b, kw: i.getitem(b[0], 1)), True)
            n = it.resolve(args[0]) if args else None
            return it.getitem(r, slice(None, n, None))
        if not hasattr(dict, name) and name not in ("most_common",):
            raise Raised("AttributeError", (name,), True)
        raise Unsupported("dict." + name)

    def b_fromkeys(self, it, args):
        d = it.newdict()
        for x, m in it.iter_items(args[0]):
            it.dict_set(d, x, args[1] if len(args) > 1 else None)
        return d

    def m_set(self, it, o, name, args, kwargs):
        if name == "add":
            it.set_add(o, args[0])
            return None
        if name == "update":
            for a in args:
                for x, m in it.iter_items(a):
                    it.set_add(o, x)
            return None
        if name in ("discard", "remove"):
            i = it.dict_find(o.d, args[0])
            if i is None:
                if name == "remove":
                    raise Raised("KeyError", (args[0],), True)
                return None
            it.dict_del(o.d, i)
            it.mutated(o)
            return None
        if name == "pop":
            if not o.d.keys:
                raise Raised("KeyError", (), True)
            k = o.d.keys[0]
            it.dict_del(o.d, 0)
            return k
        if name == "copy":
            s = it.newset()
            s.d = o.d.copy()
            return s
        if name == "clear":
            o.d = it.newdict()
            it.mutated(o)
            return None
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            op = {"union": "|", "intersection": "&", "difference": "-", "symmetric_difference": "^"}[name]
            s = o
            for a in args:
                b = self.b_set(it, [a], {})
                s = it.setop(op, s, b)
            if not args:
                return self.m_set(it, o, "copy", [], {})
            return s
        if name == "issubset":
            return all(it.contains(args[0], x) for x in o.d.keys)
        if name == "issuperset":
            return all(it.contains(o, x) for x, _ in it.iter_items(args[0]))
        if name == "isdisjoint":
            return not any(it.contains(o, x) for x, _ in it.iter_items(args[0]))
        if name in ("difference_update", "intersection_update"):
            b = self.b_set(it, [args[0]], {})
            o.d = it.setop("-" if name.startswith("d") else "&", o, b).d
            it.mutated(o)
            return None
        if not hasattr(set, name):
            raise Raised("AttributeError", (name,), True)
        raise Unsupported("set." + name)

    def maketrans(self, it, args):
        return strmodel.maketrans(it, args)

    # ------------------------------------------------------------------ sorting
    def do_sort(self, it, seq, key=None, reverse=False):
        items = it.iter_items(seq)
        keys = [(it.call(key, [x], {}) if key is not None else x) for x, _ in items]
        reverse = it.truth(reverse)

        class K:
            __slots__ = ("k", "i")

            def __init__(s, k, i):
                s.k, s.i = k, i

            def __lt__(s, o):
                return it.lt(s.k, o.k)
        ks = sorted([K(k, i) for i, k in enumerate(keys)], reverse=reverse)
        r = it.newlist([items[k.i][0] for k in ks])
        if any(m != 1 for _, m in items):
            r.muls = [items[k.i][1] for k in ks]
        return r

    def extremum(self, it, name, args, kwargs):
        key = kwargs.get("key")
        if len(args) == 1:
            vals = [x for x, _ in it.iter_items(args[0])]
        else:
            vals = list(args)
        if not vals:
            if "default" in kwargs:
                return kwargs["default"]
            raise Raised("ValueError", ("%s() arg is an empty sequence" % name,), True)
        if len(vals) == 1:
            if key is not None:
                it.call(key, [vals[0]], {})
            return vals[0]
        keys = [it.call(key, [x], {}) for x in vals] if key is not None else vals
        if key is None and any(it.cat(k) != "ok" for k in keys) and all(isinstance(k, (T, int, float)) for k in keys):
            return T(name, *sorted(set(keys), key=repr), kind="num")
        if any(isinstance(k, Lin) for k in keys) and key is None and len(vals) == 2 and not all(isinstance(k, (Lin, int)) for k in keys):
            return T(name, *sorted([T("lin", k) if isinstance(k, Lin) else k for k in keys], key=repr), kind="num")
        best = 0
        for i in range(1, len(vals)):
            if (it.lt(keys[i], keys[best]) if name == "min" else it.lt(keys[best], keys[i])):
                best = i
        it.events.append(("extremum", (name, tuple(keys), best), None))
        return vals[best]

    # ------------------------------------------------------------------ external calls
    def ext_call(self, it, name, args, kwargs, fr=None):
        if kwargs:
            # results written over an argument: out=..., and scikit-learn's copy=False
            for x in [kwargs.get("out")] + ([args[0] if args else kwargs.get("X")] if kwargs.get("copy") is False and name.startswith("sklearn.preprocessing.") else []):
                if stored_in(x) is not None:
                    it.events.append(("mutate-input", stored_in(x), None))
        h = self.ext.get(name)
        if h is not None:
            return h(it, args, kwargs)
        if name.startswith("builtins."):
            b = name[9:]
            if b in BUILTIN_EXC:
                return ExcObj(b, tuple(args))
            f = getattr(self, "b_" + b.replace(".", "_"), None)
            if f is not None:
                return f(it, args, kwargs)
            raise Unsupported("builtin " + b)
        f = EXT.get(name)
        if f is not None:
            return f(self, it, args, kwargs)
        if name.startswith(("numpy.", "scipy.")) and not name.startswith("numpy.random."):
            return npmodel.generic(name)(self, it, args, kwargs)
        return self.uninterpreted(it, name, args, kwargs)

    def uninterpreted(self, it, name, args, kwargs):
        it.events.append(("ext", (name, args, kwargs), None))
        return T("ext:" + name, freeze(tuple(args)), freeze(tuple(sorted(kwargs.items()))))

    # ------------------------------------------------------------------ builtins
    def b_len(self, it, a, k):
        return it.len(a[0])

    def b_print(self, it, a, k):
        it.events.append(("print", tuple(a), None))
        for x in a:
            if isinstance(x, AIter):
                it.iter_items(x)
        return None

    def b_range(self, it, a, k):
        a = [it.resolve(x) for x in a]
        if all(isinstance(x, int) for x in a):
            return it.newlist(list(range(*[int(x) for x in a])))
        if len(a) == 1 and isinstance(a[0], Lin) or len(a) == 2 and a[0] == 0 and isinstance(a[1], Lin):
            n = a[-1]
            for m, l in it.sizes():
                if m == n:
                    r = AList([PosInt(i) for i in range(len(l.items))], list(l.muls) if l.muls else None)
                    return r
        if any(isinstance(x, T) for x in a):
            r = T("range", *[freeze(x) if not isinstance(x, Lin) else T("lin", x) for x in a])
            if len(r.args) == 1 and r.args[0] is T("num:ncols", kind="int"):
                return it.newlist([T("elem", r, "*", kind="int")])
            if it.atom(("nonempty", r), "%r has an element" % (r,), "num" if it.cat(*r.args) == "num" else "foreign"):
                return it.newlist([T("elem", r, "*", kind="int")])
            return it.newlist([])
        raise Unsupported("range of %r" % (a,))

    def b_enumerate(self, it, a, k):
        items = it.iter_items(a[0])
        start = it.resolve(a[1] if len(a) > 1 else k.get("start", 0))
        sym = any(m != 1 for _, m in items)
        if sym:
            if start != 0:
                raise Unsupported("enumerate start")
            return AIter([(PosInt(i), x) for i, (x, _) in enumerate(items)], [m for _, m in items])
        if not isinstance(start, int):
            raise Unsupported("enumerate start")
        return AIter([(i + start, x) for i, (x, _) in enumerate(items)])

    def b_zip(self, it, a, k):
        known = [x for x in a if not isinstance(x, (T, Opq))]
        if not known:
            raise Unsupported("zip of terms")
        endless = lambda x: isinstance(x, AIter) and getattr(x, "endless", False)
        lists = [it.iter_items(x) if not isinstance(x, (T, Opq)) and not endless(x) else None for x in a]
        if all(l is None for l in lists):
            raise Unsupported("zip without end")
        n = min(len(l) for l in lists if l is not None)
        for j, x in enumerate(a):
            if endless(x):
                x.fill(x.pos + n - 1)
                lists[j] = [(y, 1) for y in x.buf[x.pos:x.pos + n]]
                x.pos += n
        muls = [1] * n
        for l in lists:
            if l is not None and any(m != 1 for _, m in l):
                muls = [m for _, m in l][:n]
        return AIter([tuple(l[i][0] if l is not None else it.getitem(a[j], i) for j, l in enumerate(lists)) for i in range(n)], muls if any(m != 1 for m in muls) else None)

    def b_sorted(self, it, a, k):
        return self.do_sort(it, a[0], k.get("key"), k.get("reverse", False))

    def b_min(self, it, a, k):
        return self.extremum(it, "min", a, k)

    def b_max(self, it, a, k):
        return self.extremum(it, "max", a, k)

    def b_sum(self, it, a, k):
        acc = a[1] if len(a) > 1 else k.get("start", 0)
        for x, m in it.iter_items(a[0]):
            if m != 1:
                x = it.arith("*", x, m)
            if isinstance(x, bool):
                x = int(x)
            if isinstance(acc, AList) and isinstance(x, AList):
                acc = it.binop(ast_add, acc, x)
            else:
                acc = it.binop(ast_add, acc, x)
        return acc

    def b_list(self, it, a, k):
        if not a:
            return it.newlist()
        items = it.iter_items(a[0])
        l = it.newlist([x for x, _ in items])
        if any(m != 1 for _, m in items):
            l.muls = [m for _, m in items]
        return l

    def b_tuple(self, it, a, k):
        if not a:
            return ()
        items = it.iter_items(a[0])
        if any(m != 1 for _, m in items):
            raise Unsupported("tuple of unknown size")
        return tuple(x for x, _ in items)

    def b_dict(self, it, a, k):
        d = it.newdict()
        if a:
            it.dict_update(d, a[0])
        for n, v in k.items():
            it.dict_set(d, n, v)
        return d

    def b_dict_fromkeys(self, it, a, k):
        return self.b_fromkeys(it, a)

    def b_set(self, it, a, k):
        s = it.newset()
        if a:
            for x, m in it.iter_items(a[0]):
                it.set_add(s, x)
        return s

    def b_frozenset(self, it, a, k):
        s = self.b_set(it, a, k)
        s.frozen = True
        return s

    def b_str(self, it, a, k):
        if not a:
            return ""
        x = it.resolve(a[0])
        if isinstance(x, (str, int, float, bool)) and not isinstance(x, PosInt) or x is None:
            return str(x)
        if isinstance(x, Tok):
            return x
        if isinstance(x, T) and x.kind == "str":
            return x
        return T("str", freeze(x), kind="str")

    b_repr = lambda self, it, a, k: T("strfmt", "repr", freeze(a[0]), kind="str")
    b_format = lambda self, it, a, k: T("strfmt", "format", freeze(tuple(a)), kind="str")

    def b_str_maketrans(self, it, a, k):
        return self.maketrans(it, a)

    def b_int(self, it, a, k):
        if not a:
            return 0
        x = it.resolve(a[0])
        if isinstance(x, PosInt):
            return x
        if isinstance(x, (int, float, str)):
            try:
                return int(x)
            except (ValueError, OverflowError) as e:
                raise Raised(type(e).__name__, (), True)
        if isinstance(x, Lin):
            return x
        if isinstance(x, T):
            if x.kind == "int" or x.op == "label" or x.op == "elem":
                return x
            if x.kind == "bool":
                return 1 if it.truth(x) else 0
            return T("int", x, kind="int")
        if isinstance(x, Tok):
            return T("idop:int", x, kind="int")
        if x is None or isinstance(x, Heap):
            raise Raised("TypeError", (), True)
        raise Unsupported("int()")

    def b_float(self, it, a, k):
        x = it.resolve(a[0]) if a else 0.0
        if isinstance(x, PosInt):
            return x
        if isinstance(x, (int, float, str)):
            try:
                return float(x)
            except ValueError:
                raise Raised("ValueError", (), True)
        if isinstance(x, (T, Lin)):
            return x
        if x is None or isinstance(x, Heap):
            raise Raised("TypeError", (), True)
        raise Unsupported("float()")

    def b_bool(self, it, a, k):
        return it.truth(a[0]) if a else False

    def b_abs(self, it, a, k):
        x = it.resolve(a[0])
        if isinstance(x, (int, float)):
            return abs(x)
        if isinstance(x, T) and x.op in ("dist", "kern"):
            return x
        if isinstance(x, T) and x.op == "neg" and isinstance(x.args[0], T) and x.args[0].op == "dist":
            return x.args[0]
        return T("abs", freeze(x), kind="num")

    def b_round(self, it, a, k):
        x = it.resolve(a[0])
        if isinstance(x, (int, float)) and all(isinstance(y, int) for y in a[1:]):
            return round(x, *a[1:])
        return T("round", freeze(x), *[freeze(y) for y in a[1:]], kind="num")

    def b_divmod(self, it, a, k):
        return (it.arith("//", a[0], a[1]), it.arith("%", a[0], a[1]))

    def b_pow(self, it, a, k):
        return it.arith("**", a[0], a[1])

    def b_isinstance(self, it, a, k):
        return self.isinst(it, a[0], a[1])

    def isinst(self, it, x, c):
        if isinstance(c, tuple):
            return any(self.isinst(it, x, y) for y in c)
        x = it.resolve(x)
        if isinstance(c, ClassV):
            if isinstance(x, AObj):
                return isinstance(x.cls, ClassV) and any(y is c for y in x.cls.mro())
            if isinstance(x, Native):
                return x.isinstance(c) if hasattr(x, "isinstance") else False
            if isinstance(x, T) and x.kind == "opt":
                return it.atom(("isinst", x, c.name), cat="foreign")
            return False
        if isinstance(c, Ext):
            n = c.name.split(".")[-1]
            full = c.name
            if isinstance(x, Native):
                return x.isext(full) if hasattr(x, "isext") else False
            if full.startswith("builtins.") or full.startswith("typing.") or full.startswith("collections."):
                n = {"Dict": "dict", "List": "list", "Tuple": "tuple", "Set": "set", "Mapping": "dict", "MutableMapping": "dict", "Iterable": "iterable", "Sequence": "list"}.get(n, n)
                if isinstance(x, T):
                    m = {"num": ("float", "int"), "int": ("int",), "bool": ("bool", "int"), "str": ("str",)}.get(x.kind)
                    if x.kind in ("int", "bool", "str"):
                        return n in m
                    if x.kind == "vec":
                        return False
                    if x.kind == "num" and n not in ("int", "float"):
                        return False
                    return it.atom(("isinst", x, n), "isinstance(%r, %s)" % (x, n), "foreign")
                t = {type(None): "NoneType", bool: "bool", int: "int", float: "float", str: "str", tuple: "tuple"}.get(type(x))
                if t is None:
                    t = "list" if isinstance(x, AList) and not x.np else "dict" if isinstance(x, ADict) else "set" if isinstance(x, ASet) else "str" if isinstance(x, Tok) else "int" if isinstance(x, (Lin, PosInt)) else "other"
                if n == "object":
                    return True
                if n == "iterable":
                    return t in ("list", "dict", "set", "str", "tuple") or isinstance(x, (AIter, AView))
                if n == "Callable":
                    return isinstance(x, (Func, Bound, Ext, ClassV))
                return t == n or (t == "bool" and n == "int") or (isinstance(x, ASet) and x.frozen and n == "frozenset")
            if full.startswith("numbers."):
                if isinstance(x, (int, float, Lin)) or isinstance(x, T) and x.kind in ("int", "num"):
                    return True if n in ("Number", "Real") else (isinstance(x, (int, Lin)) or isinstance(x, T) and x.kind == "int")
                return False
            if isinstance(x, T):
                if x.kind == "vec" or x.op == "vec":
                    return n in ("csr_matrix", "spmatrix", "csr_array", "_spbase")
                if x.kind in ("int", "str", "bool"):
                    return False
                return it.atom(("isinst", x, full), "isinstance(%r, %s)" % (x, full), "foreign")
            if isinstance(x, AList) and x.np:
                return n == "ndarray"
            if full in ("numpy.integer", "numpy.floating", "numpy.ndarray", "numpy.bool_", "numpy.int64", "scipy.sparse.csr_matrix", "scipy.sparse.spmatrix", "numpy.float64", "numpy.generic", "numpy.number"):
                return False
            if x is None or isinstance(x, (str, int, float, tuple, AList, ADict, ASet, Tok)):
                return False
        if isinstance(c, T):
            return it.atom(("isinst", freeze(x), c), cat="foreign")
        raise Unsupported("isinstance(%r, %r)" % (x, c))

    def b_issubclass(self, it, a, k):
        if isinstance(a[0], ClassV) and isinstance(a[1], ClassV):
            return a[1] in a[0].mro()
        raise Unsupported("issubclass")

    def b_type(self, it, a, k):
        x = it.resolve(a[0])
        if isinstance(x, AObj):
            return x.cls
        t = "NoneType" if x is None else "bool" if isinstance(x, bool) else "int" if isinstance(x, (int, Lin)) else "float" if isinstance(x, float) else "str" if isinstance(x, (str, Tok)) else "tuple" if isinstance(x, tuple) else "list" if isinstance(x, AList) and not x.np else "dict" if isinstance(x, ADict) else "set" if isinstance(x, ASet) else None
        if t is None and isinstance(x, T) and x.kind in ("int", "str", "bool"):
            t = x.kind
        if t is None:
            raise Unsupported("type of %r" % (x,))
        return Ext("builtins." + t)

    def b_any(self, it, a, k):
        for x, m in it.iter_live(a[0]):
            if it.truth(x):
                return True
        return False

    def b_all(self, it, a, k):
        for x, m in it.iter_live(a[0]):
            if not it.truth(x):
                return False
        return True

    def b_map(self, it, a, k):
        if len(a) == 2 and it.lazy and not it.multstack:
            return AIter([], None, (it.call(a[0], [x], {}) for x, _ in it.iter_live(a[1])))
        if len(a) == 2:
            items = it.iter_items(a[1])
            return AIter([it.call(a[0], [x], {}) for x, _ in items], [m for _, m in items] if any(m != 1 for _, m in items) else None)
        z = self.b_zip(it, a[1:], {})
        return AIter([it.call(a[0], list(x), {}) for x in z.items])

    def b_filter(self, it, a, k):
        items = it.iter_items(a[1])
        out = [(x, m) for x, m in items if it.truth(it.call(a[0], [x], {}) if a[0] is not None else x)]
        return AIter([x for x, _ in out], [m for _, m in out] if any(m != 1 for _, m in out) else None)

    def b_reversed(self, it, a, k):
        items = it.iter_items(a[0])[::-1]
        return AIter([x for x, _ in items], [m for _, m in items] if any(m != 1 for _, m in items) else None)

    def b_iter(self, it, a, k):
        if isinstance(a[0], AIter):
            return a[0]
        items = it.iter_items(a[0])
        return AIter([x for x, _ in items], [m for _, m in items] if any(m != 1 for _, m in items) else None)

    def b_next(self, it, a, k):
        x = a[0]
        if not isinstance(x, AIter):
            raise Unsupported("next")
        if x.fill(x.pos):
            x.pos += 1
            return x.buf[x.pos - 1]
        if len(a) > 1:
            return a[1]
        raise Raised("StopIteration", (), True)

    def b_hasattr(self, it, a, k):
        if not isinstance(a[1], str):
            raise Unsupported("hasattr")
        if isinstance(a[0], T):
            return it.atom(("hasattr", a[0], a[1]), cat="foreign")
        try:
            it.getattr(a[0], a[1])
            return True
        except Raised:
            return False

    def b_getattr(self, it, a, k):
        if not isinstance(a[1], str):
            raise Unsupported("getattr")
        try:
            return it.getattr(a[0], a[1])
        except Raised:
            if len(a) > 2:
                return a[2]
            raise

    def b_setattr(self, it, a, k):
        if not isinstance(a[1], str):
            raise Unsupported("setattr")
        it.setattr(a[0], a[1], a[2])
        return None

    def b_delattr(self, it, a, k):
        if not isinstance(a[1], str) or not isinstance(a[0], AObj):
            raise Unsupported("delattr")
        if a[1] not in a[0].attrs:
            raise Raised("AttributeError", (a[1],), True)
        it.mutated(a[0], a[1])
        del a[0].attrs[a[1]]
        return None

    def b_vars(self, it, a, k):
        if not a or not isinstance(a[0], AObj):
            raise Unsupported("vars")
        return it.getattr(a[0], "__dict__")

    def b_callable(self, it, a, k):
        return isinstance(a[0], (Func, Bound, BoundM, Ext, ClassV, PyFn))

    def b_id(self, it, a, k):
        return T("time", "id", id(a[0]), kind="int")

    def b_hash(self, it, a, k):
        return T("time", "hash", freeze(a[0]), kind="int")

    def b_ord(self, it, a, k):
        return ord(a[0]) if isinstance(a[0], str) and len(a[0]) == 1 else T("ext:ord", freeze(a[0]), kind="int")

    def b_chr(self, it, a, k):
        return chr(a[0]) if isinstance(a[0], int) else T("ext:chr", freeze(a[0]), kind="str")

    def b_slice(self, it, a, k):
        return slice(*a)

    def b_open(self, it, a, k):
        return FileModel(it, a, k)

    def b_object(self, it, a, k):
        return AObj(Ext("builtins.object"))


class FileModel(Native):
    typename = "file"

    def __init__(self, it, args, kwargs):
        names = ["file", "mode", "buffering", "encoding"]
        self.info = dict(zip(names, args))
        self.info.update(kwargs)
        it.events.append(("open", self, None))
        self.closed = False
        self.wrote = []

    def enter(self, it):
        return self

    def exit(self, it):
        self.closed = True

    def getattr(self, it, name):
        if name == "write":
            return PyFn("write", lambda i, a, k: self.wrote.append(a[0]))
        if name == "read":
            return PyFn("read", lambda i, a, k: T("filetext", id(self), kind="str"))
        if name in ("close", "flush"):
            return PyFn(name, lambda i, a, k: setattr(self, "closed", True) if name == "close" else None)
        raise Unsupported("file." + name)


import ast as _ast
ast_add = _ast.Add()


# ---------------------------------------------------------------------- library transfer functions
def arg(args, kwargs, i, name, default=None):
    if name in kwargs:
        return kwargs[name]
    return args[i] if i < len(args) else default


def x_vstack(m, it, a, k):
    src = arg(a, k, 0, "blocks", arg(a, k, 0, "tup"))
    items = it.iter_items(src)
    rows, muls = [], []
    for x, mu in items:
        if isinstance(x, ARows):
            rows.extend(x.rows)
            muls.extend(x.muls or [1] * len(x.rows))
        elif isinstance(x, T):
            rows.append(x)
            muls.append(mu)
        else:
            return m.uninterpreted(it, "vstack", a, k)
    if not rows:
        raise Raised("ValueError", ("blocks must be 2-D",), True)
    return ARows(rows, muls if any(x != 1 for x in muls) else None)


def pairwise(opname, default_metric):
    def f(m, it, a, k):
        X, Y = arg(a, k, 0, "X"), arg(a, k, 1, "Y")
        metric = k.get("metric", a[2] if len(a) > 2 else default_metric)
        extra = {x: y for x, y in k.items() if x not in ("X", "Y", "metric", "n_jobs")}

        def rows(v):
            if isinstance(v, ARows):
                return v.rows
            if isinstance(v, T) and v.op not in ("ext:vstack",):
                return [v]
            if isinstance(v, AList) and all(isinstance(x, T) for x in v.items):
                return v.items
            return None
        rx = rows(X)
        ry = rx if Y is None else rows(Y)
        if rx is None or ry is None or not isinstance(metric, str):
            return m.uninterpreted(it, opname, a, k)
        mat = AMatrix((opname, (metric,) + tuple(sorted((x, freeze(y)) for x, y in extra.items()))), rx, ry)
        it.events.append(("matrix", mat, tuple(rx)))
        return mat
    return f


def x_seed(which):
    def f(m, it, a, k):
        s = arg(a, k, 0, "a", arg(a, k, 0, "seed"))
        it.events.append(("seed", (which, s), None))
        it.reseed(which, s)
        return None
    return f


def x_shuffle(which):
    def f(m, it, a, k):
        it.events.append(("draw", which, None))
        l = a[0]
        if isinstance(l, AList):
            it.mutated(l)
            p = getattr(it, "shuffle_perm", None)
            if p is not None:
                l.items[:] = p(l.items)
        return None
    return f


def x_draw(which, name):
    def f(m, it, a, k):
        it.events.append(("draw", which, None))
        return it.draw(which, name, a, k)
    return f


def permuted(it, items):
    """the items in the order the scenario draws them"""
    p = getattr(it, "shuffle_perm", None)
    return list(p(list(items))) if p is not None else list(items)


def sample_of(it, a, k):
    """random.sample: the first n of the items in the order of the scenario"""
    pop, n = arg(a, k, 0, "population"), arg(a, k, 1, "k")
    pop = it.resolve(pop)
    if isinstance(pop, (ASet, ADict, AIter, AView)):
        raise Raised("TypeError", ("Population must be a sequence",), True)
    items = [x for x, _ in it.iter_items(pop)]
    n = it.resolve(n)
    if isinstance(n, (T, Lin)):
        n = it.int_cases(n, len(items) + 1)
    if n is None or isinstance(n, (str, float)):
        raise Raised("TypeError", (), True)
    if n > len(items) or n < 0:
        raise Raised("ValueError", ("Sample larger than population",), True)
    it.events.append(("random.sample", (tuple(items), n), None))
    return it.newlist(permuted(it, items)[:n])


def x_random_sample(m, it, a, k):
    it.events.append(("draw", "random", None))
    return sample_of(it, a, k)


def choice_of(it, seq):
    items = [x for x, _ in it.iter_items(seq)]
    if not items:
        raise Raised("IndexError", ("Cannot choose from an empty sequence",), True)
    return permuted(it, items)[0]


def x_random_choice(m, it, a, k):
    it.events.append(("draw", "random", None))
    pop = it.resolve(arg(a, k, 0, "seq"))
    if isinstance(pop, (AList, tuple)):
        return choice_of(it, pop)
    return it.draw("random", "choice", a, k)


def x_random_choices(m, it, a, k):
    it.events.append(("draw", "random", None))
    pop, n = it.resolve(arg(a, k, 0, "population")), it.resolve(k.get("k", 1))
    if isinstance(pop, (AList, tuple)) and isinstance(n, int) and len(a) < 2 and "weights" not in k and "cum_weights" not in k:
        # drawn with replacement: the same item may come again
        return it.newlist([choice_of(it, pop) for _ in range(n)])
    return it.draw("random", "choices", a, k)


def x_combinations(m, it, a, k):
    items = it.iter_items(a[0])
    r = it.resolve(arg(a, k, 1, "r"))
    if not isinstance(r, int):
        raise Unsupported("combinations")
    sym = any(mu != 1 for _, mu in items)
    if sym:
        raise Unsupported("combinations of unknown size")
    return AIter([tuple(x) for x in itertools.combinations([x for x, _ in items], r)])


def plain_items(it, v, what):
    items = it.iter_items(v)
    if any(mu != 1 for _, mu in items):
        raise Unsupported(what + " of unknown size")
    return [x for x, _ in items]


def x_combinations_wr(m, it, a, k):
    r = it.resolve(arg(a, k, 1, "r"))
    if not isinstance(r, int):
        raise Unsupported("combinations_with_replacement")
    return AIter([tuple(x) for x in itertools.combinations_with_replacement(plain_items(it, a[0], "combinations"), r)])


def x_starmap(m, it, a, k):
    return AIter([it.call(a[0], plain_items(it, x, "starmap"), {}) for x in plain_items(it, a[1], "starmap")])


def x_accumulate(m, it, a, k):
    f, out = arg(a, k, 1, "func"), []
    items = plain_items(it, a[0], "accumulate")
    if k.get("initial") is not None:
        items = [k["initial"]] + items
    for x in items:
        out.append(x if not out else it.call(f, [out[-1], x], {}) if f is not None else it.binop(_ast.Add(), out[-1], x))
    return AIter(out)


def x_while(take):
    def f(m, it, a, k):
        items = plain_items(it, a[1], "takewhile")
        n = 0
        while n < len(items) and it.truth(it.call(a[0], [items[n]], {})):
            n += 1
        return AIter(items[:n] if take else items[n:])
    return f


def x_filterfalse(m, it, a, k):
    return AIter([x for x in plain_items(it, a[1], "filterfalse") if not it.truth(it.call(a[0], [x], {}) if a[0] is not None else x)])


def x_compress(m, it, a, k):
    return AIter([x for x, y in zip(plain_items(it, a[0], "compress"), plain_items(it, a[1], "compress")) if it.truth(y)])


def x_zip_longest(m, it, a, k):
    return AIter([tuple(x) for x in itertools.zip_longest(*[plain_items(it, x, "zip_longest") for x in a], fillvalue=k.get("fillvalue"))])


def x_pairwise(m, it, a, k):
    items = plain_items(it, a[0], "pairwise")
    return AIter(list(zip(items, items[1:])))


def x_count(m, it, a, k):
    start, step = it.resolve(arg(a, k, 0, "start", 0)), it.resolve(arg(a, k, 1, "step", 1))
    if not isinstance(start, (int, float)) or not isinstance(step, (int, float)):
        raise Unsupported("count")
    r = AIter([], None, itertools.count(start, step))
    r.endless = True
    return r


def x_repeat(m, it, a, k):
    n = it.resolve(arg(a, k, 1, "times"))
    if n is None:
        r = AIter([], None, itertools.repeat(a[0]))
        r.endless = True
        return r
    if not isinstance(n, int):
        raise Unsupported("repeat")
    return AIter([a[0]] * n)


def x_cycle(m, it, a, k):
    items = plain_items(it, a[0], "cycle")
    r = AIter([], None, itertools.cycle(items))
    r.endless = bool(items)
    return r


def sorted_insert(it, l, x, right=True):
    """position of x in a sorted list"""
    n = 0
    while n < len(l.items) and (not it.lt(x, l.items[n]) if right else it.lt(l.items[n], x)):
        n += 1
    return n


def a_list(it, l, what):
    if not isinstance(l, AList) or l.muls is not None and any(mu != 1 for mu in l.muls):
        raise Unsupported(what)
    return l


def x_heappush(m, it, a, k):
    """a sorted list is a heap"""
    l = a_list(it, a[0], "heap")
    l.items.insert(sorted_insert(it, l, a[1]), a[1])
    l.muls = None
    it.mutated(l)


def x_heappop(m, it, a, k):
    l = a_list(it, a[0], "heap")
    if not l.items:
        raise Raised("IndexError", (), True)
    best = 0
    for i in range(1, len(l.items)):
        if it.lt(l.items[i], l.items[best]):
            best = i
    l.muls = None
    it.mutated(l)
    return l.items.pop(best)


def x_heapify(m, it, a, k):
    l = a_list(it, a[0], "heap")
    l.items[:] = m.do_sort(it, l, None, False).items
    it.mutated(l)


def x_bisect(right, insert):
    def f(m, it, a, k):
        l = a_list(it, a[0], "bisect")
        if len(a) > 2 or k:
            raise Unsupported("bisect")
        n = sorted_insert(it, l, a[1], right)
        if not insert:
            return n
        l.items.insert(n, a[1])
        l.muls = None
        it.mutated(l)
    return f


def x_deque(m, it, a, k):
    if len(a) > 1 or k.get("maxlen") is not None:
        raise Unsupported("bounded deque")
    return m.b_list(it, a[:1], {})


def x_compare(op):
    def f(m, it, a, k):
        return it.compare(op, a[0], a[1])
    return f


def x_methodcaller(m, it, a, k):
    return PyFn("methodcaller", lambda i, b, kw: i.call(i.getattr(b[0], a[0]), list(a[1:]), dict(k)))


def x_product(m, it, a, k):
    lists = [it.iter_items(x) for x in a]
    rep = k.get("repeat", 1)
    if any(mu != 1 for l in lists for _, mu in l):
        raise Unsupported("product of unknown size")
    return AIter([tuple(x) for x in itertools.product(*[[x for x, _ in l] for l in lists], repeat=rep)])


def x_permutations(m, it, a, k):
    items = [x for x, _ in it.iter_items(a[0])]
    return AIter([tuple(x) for x in itertools.permutations(items, *(a[1:]))])


def x_chain(m, it, a, k):
    out = []
    for x in a:
        out.extend(it.iter_items(x))
    return AIter([x for x, _ in out], [mu for _, mu in out] if any(mu != 1 for _, mu in out) else None)


def x_chain_from(m, it, a, k):
    return x_chain(m, it, [x for x, _ in it.iter_items(a[0])], k)


def x_defaultdict(m, it, a, k):
    d = it.newdict()
    d.factory = a[0] if a else None
    if len(a) > 1:
        it.dict_update(d, a[1])
    return d


def x_ordereddict(m, it, a, k):
    return m.b_dict(it, a, k)


def x_counter(m, it, a, k):
    d = it.newdict()
    d.factory = PyFn("zero", lambda i, a2, k2: 0)
    if a:
        for x, mu in it.iter_items(a[0]):
            i = it.dict_find(d, x)
            if i is None:
                it.dict_set(d, x, mu)
                i = it.dict_find(d, x)
                d.muls[i] = 1
            else:
                d.vals[i] = it.arith("+", d.vals[i], mu)
    return d


def x_deepcopy(m, it, a, k):
    memo = {}

    def cp(v):
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, AList):
            r = AList([], None if v.muls is None else list(v.muls))
            memo[id(v)] = r
            r.items = [cp(x) for x in v.items]
            r.np = v.np
            return r
        if isinstance(v, ADict):
            r = v.copy()
            memo[id(v)] = r
            r.vals = [cp(x) for x in v.vals]
            return r
        if isinstance(v, ASet):
            r = ASet()
            r.d = v.d.copy()
            return r
        if isinstance(v, tuple):
            return tuple(cp(x) for x in v)
        if isinstance(v, AObj):
            r = AObj(v.cls)
            memo[id(v)] = r
            r.attrs = {n: cp(x) for n, x in v.attrs.items()}
            return r
        if isinstance(v, Native) and hasattr(v, "clone"):
            return v.clone(it)
        return v
    return cp(a[0])


def x_copy(m, it, a, k):
    v = a[0]
    if isinstance(v, AList):
        return AList(v.items, None if v.muls is None else list(v.muls))
    if isinstance(v, ADict):
        return v.copy()
    if isinstance(v, ASet):
        return m.m_set(it, v, "copy", [], {})
    if isinstance(v, AObj):
        r = AObj(v.cls)
        r.attrs = dict(v.attrs)
        return r
    return v


def x_now(m, it, a, k):
    it.fresh_n += 1
    it.events.append(("clock", None, None))
    return T("time", "now", it.fresh_n, kind="num")


def x_warn(m, it, a, k):
    it.events.append(("warn", (a, k), None))
    return None


def x_none(m, it, a, k):
    return None


def x_json_dump(m, it, a, k):
    it.events.append(("json.dump", (a, k), None))
    return None


def x_json_dumps(m, it, a, k):
    it.events.append(("json.dumps", (a, k), None))
    t = T("jsontext", freeze(a[0]), kind="str")
    it.json_text = getattr(it, "json_text", {})
    it.json_text[t] = (a[0], k)
    return t


def x_np_array(m, it, a, k):
    v = arg(a, k, 0, "object", arg(a, k, 0, "a"))
    if isinstance(v, (AList, AIter, tuple, AView)):
        if isinstance(v, AIter):
            return npmodel.generic("numpy.array")(m, it, a, k)
        items = it.iter_items(v)
        l = AList([x for x, _ in items], [mu for _, mu in items] if any(mu != 1 for _, mu in items) else None, len(it.multstack))
        l.np = True
        for i, x in enumerate(l.items):
            if isinstance(x, AList) and not x.np:
                y = AList(x.items)
                y.np = True
                l.items[i] = y
        return l
    if isinstance(v, (AMatrix, ARows)):
        return AMatrix(v.op, v.rows, v.cols, v.over, v.neg) if isinstance(v, AMatrix) else v
    if isinstance(v, T):
        return v
    return npmodel.generic("numpy.array")(m, it, a, k)


def x_np_full(fill):
    def f(m, it, a, k):
        shape = it.resolve(arg(a, k, 0, "shape"))
        if fill == "arg":
            val = arg(a, k, 1, "fill_value")
        else:
            val = fill
        if isinstance(shape, tuple) and len(shape) == 1:
            shape = shape[0]
        if isinstance(shape, int):
            l = it.newlist([val] * shape)
            l.np = True
            return l
        return npmodel.generic("numpy.full")(m, it, a, k)
    return f


def x_np_arange(m, it, a, k):
    a = [it.resolve(x) for x in a]
    if all(isinstance(x, int) for x in a) and a:
        l = it.newlist(list(range(*a)))
        l.np = True
        return l
    return npmodel.generic("numpy.arange")(m, it, a, k)


def x_np_searchsorted(m, it, a, k):
    if len(a) == 2 and isinstance(a[1], AList):
        l = it.newlist([T("num:searchsorted", freeze(a[0]), freeze(x)) for x in a[1].items])
        l.np = True
        return l
    return npmodel.generic("numpy.searchsorted")(m, it, a, k)


def x_np_unique(m, it, a, k):
    if isinstance(a[0], AList) and not k:
        items = [it.resolve(x) for x in a[0].items]
        if all(isinstance(x, int) for x in items):
            l = it.newlist(sorted(set(items)))
            l.np = True
            return l
    return npmodel.generic("numpy.unique")(m, it, a, k)


def x_check_random_state(m, it, a, k):
    seed = arg(a, k, 0, "seed")
    return RandomStateModel(it, seed)


class RandomStateModel(Native):
    typename = "random-state"

    def __init__(self, it, seed):
        self.seed = seed
        self.key = ("generator", id(self))
        it.reseed(self.key, seed)
        it.events.append(("generator", seed, self))

    def getattr(self, it, name):
        def f(i, a, k):
            i.events.append(("draw-from", self.seed, self))
            if name == "shuffle" and a and isinstance(a[0], AList):
                p = getattr(i, "shuffle_perm", None)
                if p is not None:
                    a[0].items[:] = p(a[0].items)
                return None
            if name == "seed":
                self.seed = a[0] if a else None
                i.reseed(self.key, self.seed)
                return None
            if name == "sample" and a and isinstance(a[0], (AList, tuple)):
                return sample_of(i, a, k)
            if name == "choice" and len(a) == 1 and isinstance(a[0], (AList, tuple)) and not k and not getattr(a[0], "np", False):
                return choice_of(i, a[0])
            t = i.draw(self.key, name, a, k)
            return T("rand", "generator", *t.args[1:])
        return PyFn(name, f)


def x_random_cls(m, it, a, k):
    return RandomStateModel(it, arg(a, k, 0, "x", arg(a, k, 0, "seed")))


def x_reduce(m, it, a, k):
    items = [x for x, _ in it.iter_items(a[1])]
    if len(a) > 2:
        acc = a[2]
    else:
        if not items:
            raise Raised("TypeError", (), True)
        acc = items.pop(0)
    for x in items:
        acc = it.call(a[0], [acc, x], {})
    return acc


def x_nsmallest(largest):
    def f(m, it, a, k):
        n = it.resolve(arg(a, k, 0, "n"))
        seq = arg(a, k, 1, "iterable")
        key = arg(a, k, 2, "key")
        r = m.do_sort(it, seq, key, largest)
        return it.getitem(r, slice(None, n, None))
    return f


def x_itemgetter(m, it, a, k):
    keys = list(a)

    def f(i, b, kw):
        if len(keys) == 1:
            return i.getitem(b[0], keys[0])
        return tuple(i.getitem(b[0], x) for x in keys)
    return PyFn("itemgetter", f)


def x_attrgetter(m, it, a, k):
    return PyFn("attrgetter", lambda i, b, kw: i.getattr(b[0], a[0]))


def x_partial(m, it, a, k):
    return PyFn("partial", lambda i, b, kw: i.call(a[0], list(a[1:]) + list(b), dict(k, **kw)))


def x_isinf(m, it, a, k):
    x = it.resolve(a[0])
    if isinstance(x, (int, float)):
        return x in (float("inf"), float("-inf"))
    if isinstance(x, T) and x.kind in ("num", "int") or isinstance(x, Lin):
        return False
    return T("ext:isinf", freeze(x), kind="bool")


def x_islice(m, it, a, k):
    items = it.iter_items(a[0])
    if any(mu != 1 for _, mu in items):
        raise Unsupported("islice")
    b = [it.resolve(x) for x in a[1:]]
    l = AList([x for x, _ in items])
    r = it.do_slice(l, slice(*b) if len(b) > 1 else slice(None, b[0], None))
    return AIter(r.items)


def x_groupby(m, it, a, k):
    items = [x for x, _ in it.iter_items(a[0])]
    key = arg(a, k, 1, "key")
    out = []
    for x in items:
        kk = it.call(key, [x], {}) if key is not None else x
        if out and it.eq(out[-1][0], kk):
            out[-1][1].items.append(x)
        else:
            out.append((kk, AIter([x])))
    return AIter(out)


def x_mean(m, it, a, k):
    v = a[0]
    if isinstance(v, ARows):
        return npmodel.reduce_np("mean")(m, it, [AList(v.rows)], {"axis": 0})
    return npmodel.generic("numpy.mean")(m, it, a, k)


def x_math(name):
    def f(m, it, a, k):
        import math
        if all(isinstance(x, (int, float)) for x in a):
            try:
                return getattr(math, name)(*a)
            except (ValueError, OverflowError):
                raise Raised("ValueError", (), True)
        if name in ("floor", "ceil", "trunc"):
            return T(name, freeze(a[0]), kind="num")
        return T("ext:math." + name, *[freeze(x) for x in a], kind="num")
    return f


def x_round(m, it, a, k):
    x = it.resolve(a[0])
    d = list(a[1:]) + [k[n] for n in ("decimals", "ndigits") if n in k]
    if isinstance(x, (int, float)) or isinstance(x, T) and x.kind in ("num", "int"):
        return m.b_round(it, [x] + d, {})
    return npmodel.generic("numpy.round")(m, it, a, k)


def x_operator(op):
    def f(m, it, a, k):
        return it.binop(op, a[0], a[1])
    return f


EXT = {
    "scipy.sparse.vstack": x_vstack, "scipy.vstack": x_vstack, "numpy.vstack": x_vstack,
    "sklearn.metrics.pairwise_distances": pairwise("dist", "euclidean"), "sklearn.metrics.pairwise.pairwise_distances": pairwise("dist", "euclidean"),
    "sklearn.metrics.pairwise.euclidean_distances": pairwise("dist", "euclidean"), "sklearn.metrics.euclidean_distances": pairwise("dist", "euclidean"),
    "sklearn.metrics.pairwise_kernels": pairwise("kern", "linear"), "sklearn.metrics.pairwise.pairwise_kernels": pairwise("kern", "linear"),
    "sklearn.metrics.pairwise.rbf_kernel": pairwise("kern", "rbf"),
    "random.seed": x_seed("random"), "numpy.random.seed": x_seed("numpy"),
    "random.shuffle": x_shuffle("random"), "numpy.random.shuffle": x_shuffle("numpy"),
    "random.sample": x_random_sample, "random.choice": x_random_choice, "random.random": x_draw("random", "random"), "random.randint": x_draw("random", "randint"), "random.uniform": x_draw("random", "uniform"), "random.choices": x_random_choices, "random.randrange": x_draw("random", "randrange"), "random.gauss": x_draw("random", "gauss"),
    "numpy.random.rand": x_draw("numpy", "rand"), "numpy.random.randn": x_draw("numpy", "randn"), "numpy.random.randint": x_draw("numpy", "randint"), "numpy.random.permutation": x_draw("numpy", "permutation"), "numpy.random.random": x_draw("numpy", "random"), "numpy.random.uniform": x_draw("numpy", "uniform"), "numpy.random.normal": x_draw("numpy", "normal"),
    "random.Random": x_random_cls, "numpy.random.RandomState": x_random_cls, "numpy.random.default_rng": x_random_cls, "sklearn.utils.check_random_state": x_check_random_state,
    "itertools.combinations": x_combinations, "itertools.product": x_product, "itertools.permutations": x_permutations, "itertools.chain": x_chain, "itertools.chain.from_iterable": x_chain_from, "itertools.islice": x_islice, "itertools.groupby": x_groupby,
    "itertools.combinations_with_replacement": x_combinations_wr, "itertools.starmap": x_starmap, "itertools.accumulate": x_accumulate, "itertools.takewhile": x_while(True), "itertools.dropwhile": x_while(False), "itertools.filterfalse": x_filterfalse, "itertools.compress": x_compress, "itertools.zip_longest": x_zip_longest, "itertools.pairwise": x_pairwise, "itertools.count": x_count, "itertools.repeat": x_repeat, "itertools.cycle": x_cycle,
    "heapq.heappush": x_heappush, "heapq.heappop": x_heappop, "heapq.heapify": x_heapify, "bisect.bisect_left": x_bisect(False, False), "bisect.bisect_right": x_bisect(True, False), "bisect.bisect": x_bisect(True, False), "bisect.insort": x_bisect(True, True), "bisect.insort_right": x_bisect(True, True), "bisect.insort_left": x_bisect(False, True), "collections.deque": x_deque,
    "operator.lt": x_compare(_ast.Lt()), "operator.le": x_compare(_ast.LtE()), "operator.gt": x_compare(_ast.Gt()), "operator.ge": x_compare(_ast.GtE()), "operator.eq": x_compare(_ast.Eq()), "operator.ne": x_compare(_ast.NotEq()), "operator.is_": x_compare(_ast.Is()), "operator.is_not": x_compare(_ast.IsNot()),
    "operator.not_": lambda m, it, a, k: not it.truth(a[0]), "operator.truth": lambda m, it, a, k: it.truth(a[0]), "operator.contains": lambda m, it, a, k: it.contains(a[0], a[1]), "operator.getitem": lambda m, it, a, k: it.getitem(a[0], a[1]), "operator.methodcaller": x_methodcaller, "operator.or_": x_operator(_ast.BitOr()), "operator.and_": x_operator(_ast.BitAnd()), "operator.truediv": x_operator(_ast.Div()),
    "collections.defaultdict": x_defaultdict, "collections.OrderedDict": x_ordereddict, "collections.Counter": x_counter, "typing.DefaultDict": x_defaultdict,
    "copy.deepcopy": x_deepcopy, "copy.copy": x_copy,
    "datetime.datetime.now": x_now, "datetime.now": x_now, "time.time": x_now, "time.perf_counter": x_now, "time.monotonic": x_now, "datetime.datetime.utcnow": x_now,
    "warnings.warn": x_warn, "json.dump": x_json_dump, "json.dumps": x_json_dumps, "logging.getLogger": lambda m, it, a, k: T("ext:logger"),
    "numpy.array": x_np_array, "numpy.asarray": x_np_array, "numpy.full": x_np_full("arg"), "numpy.arange": x_np_arange, "numpy.searchsorted": x_np_searchsorted, "numpy.unique": x_np_unique,
    "functools.reduce": x_reduce, "functools.partial": x_partial, "heapq.nsmallest": x_nsmallest(False), "heapq.nlargest": x_nsmallest(True), "operator.itemgetter": x_itemgetter, "operator.attrgetter": x_attrgetter,
    "math.isinf": x_isinf, "numpy.isinf": x_isinf, "math.sqrt": x_math("sqrt"), "math.ceil": x_math("ceil"), "math.floor": x_math("floor"), "math.trunc": x_math("trunc"), "numpy.round": x_round, "numpy.around": x_round, "numpy.floor": x_math("floor"), "numpy.ceil": x_math("ceil"), "math.log": x_math("log"), "math.fsum": lambda m, it, a, k: m.b_sum(it, a, k),
    "operator.add": x_operator(_ast.Add()), "operator.mul": x_operator(_ast.Mult()), "operator.sub": x_operator(_ast.Sub()),
    **npmodel.TABLE, **strmodel.TABLE,
    "typing.cast": lambda m, it, a, k: a[1],
}
