"""Abstract interpreter of Python syntax trees, one trace partition at a time.

Undecided conditions (conditions over abstract values) split the trace: `explore` re-interprets the code for each
side until every partition has been covered or the partition budget is exhausted.  The analysed code is never
imported or executed; library calls are replaced by transfer functions (`models.py`) or by uninterpreted terms.
"""
import ast
import os
from fractions import Fraction
import operator
from .values import *
from .values import T, Tok, Lin
from .facts import Facts, is_numconst

BUILTIN_EXC = {"Exception": None, "ValueError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "TypeError": "Exception", "AttributeError": "Exception", "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "AssertionError": "Exception", "OSError": "Exception", "IOError": "OSError", "FileNotFoundError": "OSError", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "StopIteration": "Exception", "UnboundLocalError": "NameError", "NameError": "Exception", "BaseException": None, "UnicodeDecodeError": "ValueError", "ImportError": "Exception", "RecursionError": "RuntimeError", "OverflowError": "ArithmeticError", "Warning": "Exception", "FutureWarning": "Warning", "UserWarning": "Warning", "DeprecationWarning": "Warning", "PermissionError": "OSError"}


def exc_isa(name, target):
    if target in ("Exception", "BaseException"):
        return True
    while name:
        if name == target:
            return True
        name = BUILTIN_EXC.get(name)
    return False


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Cut(Exception):
    """partition not pursued further (iteration bound of the analysis)"""


BUILTINS = {"len", "range", "enumerate", "zip", "sorted", "min", "max", "sum", "list", "dict", "set", "tuple", "str", "int", "float", "bool", "isinstance", "print", "any", "all", "abs", "round", "map", "filter", "reversed", "frozenset", "iter", "next", "hasattr", "getattr", "setattr", "type", "id", "hash", "repr", "open", "super", "callable", "object", "bytes", "divmod", "pow", "format", "ord", "chr", "vars", "issubclass", "slice", "delattr", "staticmethod", "classmethod", "property", "sum", "complex", "__import__", "globals", "locals", "NotImplemented", "Ellipsis", "exit", "input", "dir", "bin", "ascii", "memoryview", "bytearray"} | set(BUILTIN_EXC)


CATS = ("ok", "num", "foreign", "opaque")


class Frame:
    def __init__(self, func, module, env, closure):
        self.func, self.module, self.env, self.closure = func, module, env, closure
        self.globals_decl, self.nonlocal_decl = set(), set()
        self.yields = None


class Interp:
    MAXSTEPS = 400000

    def __init__(self, project, prefix=(), models=None):
        self.project = project
        self.prefix = list(prefix)
        self.decisions = []       # bools
        self.notes = []           # (description, category)
        self.facts = Facts()
        self.modenv = {}
        self.loading = set()
        self.events = []
        self.steps = 0
        self.models = models if models is not None else default_models()
        self.multstack = []
        self.loop_counts = {}
        self.funcs_seen = set()
        self.frames = []
        self.loop_bound = 60
        self.while_bound = None   # iterations of undecided while loops
        self.opaque = []          # reasons
        self.fresh_n = 0
        self.rng = {}             # generator -> [seed, draws since]
        self.set_perm = None      # order in which hashed sets of strings are met
        self.loop_log = []        # [key, nesting depth, iterations]
        self.loop_depth = 0
        self.loop_stack = []      # logs of the loops being executed
        self.nesting = None       # function -> deepest recursion, when asked for
        self.hooks = {}
        self.summaries = {}       # function node name -> PyFn replacing it
        self.mutlog = None
        self.memo = {}
        self.lazy = True          # generator expressions produce on demand
        self.policy = None        # optional callback deciding an atom (scenario)

    # ------------------------------------------------------------------ partitions
    def fork(self, desc, cat="ok"):
        i = len(self.decisions)
        c = self.prefix[i] if i < len(self.prefix) else True
        self.decisions.append(c)
        self.notes.append((desc, cat, c))
        return c

    def atom(self, key, desc=None, cat="ok"):
        if key in self.facts.atoms:
            return self.facts.atoms[key]
        if self.policy is not None:
            r = self.policy(self, key)
            if r is not None:
                self.facts.atoms[key] = r
                return r
        r = self.fork(desc or key, cat)
        self.facts.atoms[key] = r
        return r

    def categories(self):
        return {c for _, c, _ in self.notes}

    def draw(self, which, name, a=(), k=None):
        """n-th draw of a generator since it was seeded: the same for the same seed"""
        st = self.rng.setdefault(which, [("never seeded",), 0])
        st[1] += 1
        return T("rand", which, name, freeze(st[0]), st[1], freeze(tuple(a)), freeze(tuple(sorted((k or {}).items()))))

    def reseed(self, which, seed):
        if seed is None:
            self.fresh_n += 1
            seed = ("entropy", self.fresh_n)
        self.rng[which] = [seed, 0]

    def hashed(self, s):
        """items of a set in the order of the scenario: strings hash differently in each process"""
        items = list(zip(s.d.keys, s.d.muls))
        if self.set_perm is None or len(items) < 2 or not any(isinstance(x, (Tok, str, tuple)) or isinstance(x, T) and x.kind == "str" for x, _ in items):
            return items
        return self.set_perm(items)

    def fresh(self, name, kind=None):
        self.fresh_n += 1
        return T("sym", "%s#%d" % (name, self.fresh_n), kind=kind)

    # ------------------------------------------------------------------ modules
    def module_env(self, name):
        if name in self.modenv:
            return self.modenv[name]
        m = self.project.modules[name]
        env = {"__name__": name}
        self.modenv[name] = env
        fr = Frame(None, m, env, None)
        self.frames.append(fr)
        try:
            for st in m.tree.body:
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                    continue
                if isinstance(st, ast.If) and isinstance(st.test, ast.Name) and st.test.id == "TYPE_CHECKING":
                    continue
                self.exec(st, fr)
        finally:
            self.frames.pop()
        return env

    def lookup_dotted(self, dotted):
        """module or attribute of a project module, else external"""
        if dotted in self.project.modules:
            return ModuleV(dotted)
        parts = dotted.split(".")
        for k in range(len(parts) - 1, 0, -1):
            base = ".".join(parts[:k])
            if base in self.project.modules:
                env = self.module_env(base)
                if parts[k] in env:
                    v = env[parts[k]]
                    for a in parts[k + 1:]:
                        v = self.getattr(v, a)
                    return v
                sub = base + "." + parts[k]
                if any(m == sub or m.startswith(sub + ".") for m in self.project.modules):
                    return ModuleV(sub)
                raise Raised("ImportError", (dotted,), True)
        return Ext(dotted)

    # ------------------------------------------------------------------ statements
    def block(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Unsupported("step budget")
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(st).__name__)
        try:
            return m(st, fr)
        except Raised as r:
            if r.node is None:
                r.node = (fr.module.path if fr.module else "?", getattr(st, "lineno", 0), fr.func.name if fr.func else "<module>")
            raise

    def s_Expr(self, st, fr):
        self.ev(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Return(self, st, fr):
        raise Ret(self.ev(st.value, fr) if st.value is not None else None)

    def s_Break(self, st, fr):
        raise Brk()

    def s_Continue(self, st, fr):
        raise Cont()

    def s_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            self.setname(t.id, self.inplace(st.op, cur, self.ev(st.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(st.op, cur, self.ev(st.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.slice(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(st.op, cur, self.ev(st.value, fr)))
        else:
            raise Unsupported("augmented assignment target")

    def inplace(self, op, cur, v):
        if isinstance(cur, AList) and isinstance(op, ast.Add) and not cur.np:
            for x, m in self.iter_items(v):
                self.list_append(cur, x, m)
            return cur
        if isinstance(cur, ASet) and isinstance(op, ast.BitOr):
            for x, m in self.iter_items(v):
                self.set_add(cur, x, m)
            return cur
        if isinstance(cur, ASet) and isinstance(op, (ast.Sub, ast.BitAnd)):
            r = self.binop(op, cur, v)
            cur.d = r.d
            self.mutated(cur)
            return cur
        if isinstance(cur, ADict) and isinstance(op, ast.BitOr):
            self.dict_update(cur, v)
            return cur
        if isinstance(cur, T) and stored_in(cur) is not None and (cur.op != "vec" or isinstance(op, (ast.Mult, ast.Div))):
            # csr matrices are scaled in place; += and -= make a new matrix, on their arrays they do not
            self.events.append(("mutate-input", stored_in(cur), None))
        if isinstance(cur, Native) and hasattr(cur, "write"):
            cur.write(self, T("num:" + self.OPS[type(op)], cur.term, freeze(v)))
            return cur
        if isinstance(cur, AList) and cur.np:
            r = self.binop(op, cur, v)
            if isinstance(r, AList) and len(r.items) == len(cur.items):
                cur.items[:] = r.items
                self.mutated(cur)
                return cur
        if isinstance(op, (ast.Add, ast.Sub)) and self.multstack and not isinstance(v, (Heap, str)) and not isinstance(cur, (Heap, str)):
            m = self.curmult(0)
            if m != 1:
                v = self.arith("*", v, m)
        return self.binop(op, cur, v)

    def curmult(self, depth):
        m = 1
        for x in self.multstack[depth:]:
            if m == 1:
                m = x
            elif x != 1:
                m = T("*", m if not isinstance(m, Lin) else T("lin", m), x if not isinstance(x, Lin) else T("lin", x), kind="int")
        return m

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.slice(t.slice, fr))
            elif isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, AObj):
                    if t.attr not in o.attrs:
                        raise Raised("AttributeError", (t.attr,), True)
                    del o.attrs[t.attr]
                    self.mutated(o)
                else:
                    raise Unsupported("del attribute")
            else:
                raise Unsupported("del")

    def s_If(self, st, fr):
        if self.truth(self.ev(st.test, fr)):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def s_For(self, st, fr):
        it = self.ev(st.iter, fr)
        key = ("for", fr.module.path, st.lineno)
        broke = False
        n = 0
        log = [key, self.loop_depth, 0, [0] * len(st.body)]
        self.loop_log.append(log)
        for x, m in self.iter_live(it):
            n += 1
            log[2] = n
            if n > max(2000, self.loop_bound):
                self.events.append(("nonterminating", key, None))
                raise Unsupported("for loop budget")
            pushed = False
            if m != 1:
                self.multstack.append(m)
                pushed = True
            self.loop_depth += 1
            self.loop_stack.append(log)
            try:
                self.assign(st.target, x, fr)
                self.loop_body(st.body, fr, log[3])
            except Cont:
                pass
            except Brk:
                broke = True
                break
            finally:
                self.loop_depth -= 1
                self.loop_stack.pop()
                if pushed:
                    self.multstack.pop()
        c = self.loop_counts.setdefault(key, [])
        c.append(n)
        if not broke:
            self.block(st.orelse, fr)

    def loop_body(self, body, fr, counts):
        for i, s in enumerate(body):
            counts[i] += 1
            self.block([s], fr)

    def s_While(self, st, fr):
        key = ("while", fr.module.path, st.lineno)
        c = self.loop_counts.setdefault(key, [])
        c.append(0)
        idx = len(c) - 1
        broke = False
        undec = 0
        log = [key, self.loop_depth, 0, [0] * len(st.body)]
        self.loop_log.append(log)
        while True:
            nd = len(self.decisions)
            go = self.truth(self.ev(st.test, fr))
            if not go:
                break
            if len(self.decisions) > nd:
                undec += 1
                if self.while_bound is not None and undec > self.while_bound:
                    raise Cut("while bound")
            c[idx] += 1
            log[2] += 1
            if c[idx] > self.loop_bound:
                self.events.append(("nonterminating", key, None))
                raise Unsupported("while loop budget at %s:%d" % (fr.module.path, st.lineno))
            self.loop_depth += 1
            self.loop_stack.append(log)
            try:
                self.loop_body(st.body, fr, log[3])
            except Cont:
                continue
            except Brk:
                broke = True
                break
            finally:
                self.loop_depth -= 1
                self.loop_stack.pop()
        if not broke:
            self.block(st.orelse, fr)

    def s_Raise(self, st, fr):
        if st.exc is None:
            cur = getattr(fr, "handling", None)
            if cur is None:
                raise Unsupported("bare raise")
            raise cur
        v = self.ev(st.exc, fr)
        if st.cause is not None:
            self.ev(st.cause, fr)
        raise self.to_raise(v)

    def to_raise(self, v):
        if isinstance(v, Ext) and v.name.startswith("builtins."):
            return Raised(v.name[9:], ())
        if isinstance(v, ExcObj):
            return Raised(v.name, v.eargs, obj=v)
        if isinstance(v, ClassV):
            return Raised(self.exc_name(v), (), obj=ExcObj(self.exc_name(v), (), v))
        if isinstance(v, AObj) and isinstance(v.cls, ClassV):
            return Raised(self.exc_name(v.cls), (), obj=ExcObj(self.exc_name(v.cls), (), v.cls))
        raise Unsupported("raise of %r" % (v,))

    def exc_name(self, cls):
        for c in cls.mro():
            if isinstance(c, Ext):
                return c.name.split(".")[-1]
        return cls.name

    def s_Try(self, st, fr):
        try:
            try:
                self.block(st.body, fr)
            except Raised as r:
                for h in st.handlers:
                    if h.type is None or self.exc_match(r, self.ev(h.type, fr)):
                        if h.name:
                            fr.env[h.name] = ExcObj(r.name, r.eargs)
                        old = getattr(fr, "handling", None)
                        fr.handling = r
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.handling = old
                        break
                else:
                    raise
            else:
                self.block(st.orelse, fr)
        finally:
            if st.finalbody:
                self.block(st.finalbody, fr)

    def exc_match(self, r, t):
        if isinstance(t, tuple):
            return any(self.exc_match(r, x) for x in t)
        if isinstance(t, Ext):
            return exc_isa(r.name, t.name.split(".")[-1])
        if isinstance(t, ClassV):
            return r.obj is not None and r.obj.cls is not None and t in r.obj.cls.mro()
        raise Unsupported("except clause")

    def s_With(self, st, fr):
        mgrs = []
        for it in st.items:
            v = self.ev(it.context_expr, fr)
            if isinstance(v, Native) and hasattr(v, "enter"):
                e = v.enter(self)
            elif isinstance(v, T):
                e = v
            else:
                raise Unsupported("with %r" % (v,))
            mgrs.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, e, fr)
        try:
            self.block(st.body, fr)
        finally:
            for v in reversed(mgrs):
                if isinstance(v, Native):
                    v.exit(self)

    def s_Assert(self, st, fr):
        v = self.ev(st.test, fr)
        d = len(self.notes)
        if not self.truth(v):
            raise Raised("AssertionError", ())

    def s_FunctionDef(self, st, fr):
        f = self.make_func(st, fr)
        for d in reversed(st.decorator_list):
            dv = self.dec_name(d)
            if dv in ("staticmethod", "classmethod", "property", "abstractmethod", "abc.abstractmethod"):
                f.decorators = f.decorators + (dv,)
            else:
                f.decorators = f.decorators + (dv,)
        fr.env[st.name] = f

    def dec_name(self, d):
        try:
            return ast.unparse(d)
        except Exception:
            return "?"

    def make_func(self, st, fr, name=None):
        a = st.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        clo = fr if fr.func is not None or getattr(fr, "is_class", False) else None
        return Func(st, fr.module, clo, name or getattr(st, "name", "<lambda>"), None, defaults, kwd)

    def s_ClassDef(self, st, fr):
        bases = [self.ev(b, fr) for b in st.bases]
        c = ClassV(st.name, fr.module, st, bases)
        env = {}
        cf = Frame(fr.func, fr.module, env, fr if fr.func else None)
        for s in st.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.exec(s, cf)
        for k, v in env.items():
            if isinstance(v, Func):
                v.cls = c
                v.closure = fr if fr.func else None
        c.attrs = env
        if any("dataclass" in self.dec_name(d) for d in st.decorator_list) or any(isinstance(b, Ext) and b.name.endswith(("NamedTuple", "Enum")) for b in bases):
            raise Unsupported("class decorator on %s" % st.name)
        fr.env[st.name] = c

    def s_Import(self, st, fr):
        for a in st.names:
            if a.asname:
                fr.env[a.asname] = self.lookup_dotted(a.name)
            else:
                top = a.name.split(".")[0]
                fr.env[top] = ModuleV(top) if any(m == top or m.startswith(top + ".") for m in self.project.modules) else Ext(top)

    def s_ImportFrom(self, st, fr):
        mod = st.module or ""
        if st.level:
            base = fr.module.name.split(".")
            is_pkg = fr.module.path.endswith("__init__.py")
            base = base[: len(base) - st.level + (1 if is_pkg else 0)]
            mod = ".".join(base + ([mod] if mod else []))
        for a in st.names:
            if a.name == "*":
                if mod in self.project.modules:
                    fr.env.update({k: v for k, v in self.module_env(mod).items() if not k.startswith("_")})
                    continue
                raise Unsupported("import *")
            if mod in ("typing", "__future__", "collections.abc", "types", "typing_extensions"):
                fr.env[a.asname or a.name] = Ext("typing." + a.name)
                continue
            fr.env[a.asname or a.name] = self.lookup_dotted(mod + "." + a.name)

    def s_Global(self, st, fr):
        fr.globals_decl.update(st.names)

    def s_Nonlocal(self, st, fr):
        fr.nonlocal_decl.update(st.names)

    def s_Match(self, st, fr):
        v = self.ev(st.subject, fr)
        for c in st.cases:
            if self.match(c.pattern, v, fr) and (c.guard is None or self.truth(self.ev(c.guard, fr))):
                self.block(c.body, fr)
                return

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, fr))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fr):
                return False
            if p.name:
                fr.env[p.name] = v
            return True
        raise Unsupported("match pattern")

    # ------------------------------------------------------------------ names and assignment
    def name(self, n, fr):
        if n in fr.globals_decl:
            return self.gname(n, fr)
        if n in fr.env:
            return fr.env[n]
        c = fr.closure
        while c is not None:
            if n in c.env:
                return c.env[n]
            c = c.closure
        if fr.func is not None and n in self.locals_of(fr.func) and n not in fr.nonlocal_decl:
            raise Raised("UnboundLocalError", (n,), True)
        return self.gname(n, fr)

    _locals_cache = {}

    def locals_of(self, func):
        k = id(func.node)
        if k not in self._locals_cache:
            names = set()
            decl = set()
            stack = list(func.node.body) if isinstance(func.node.body, list) else []
            while stack:
                x = stack.pop()
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    names.add(x.name)
                    continue
                if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    names.add(x.id)
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    decl.update(x.names)
                if isinstance(x, ast.ExceptHandler) and x.name:
                    names.add(x.name)
                stack.extend(ast.iter_child_nodes(x))
            self._locals_cache[k] = (names - decl, func.node)
        return self._locals_cache[k][0]

    def gname(self, n, fr):
        env = self.module_env(fr.module.name)
        if n in env:
            return env[n]
        if n in BUILTINS:
            return Ext("builtins." + n)
        if n == "__name__":
            return fr.module.name
        raise Raised("NameError", (n,), True)

    def setname(self, n, v, fr):
        if n in fr.globals_decl:
            self.module_env(fr.module.name)[n] = v
            self.events.append(("global-write", n, None))
            return
        if n in fr.nonlocal_decl:
            c = fr.closure
            while c is not None:
                if n in c.env:
                    c.env[n] = v
                    return
                c = c.closure
        fr.env[n] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = [x for x, _ in self.iter_items(v)] if not isinstance(v, T) else [self.getitem(v, i) for i in range(len(t.elts))]
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - 1 - i
                if len(items) < len(t.elts) - 1:
                    raise Raised("ValueError", ("unpack",), True)
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, AList(items[i:len(items) - k]), fr)
                for e, x in zip(t.elts[i + 1:], items[len(items) - k:]):
                    self.assign(e, x, fr)
                return
            if len(items) != len(t.elts):
                raise Raised("ValueError", ("unpack",), True)
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.slice(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, AList([x for x, _ in self.iter_items(v)]), fr)
        else:
            raise Unsupported("assignment target")

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, a, node=None):
        if isinstance(o, AObj):
            if a in o.attrs:
                return o.attrs[a]
            if a == "__dict__":
                return AttrsV(o)
            if a == "__class__":
                return o.cls
            for c in (o.cls.mro() if isinstance(o.cls, ClassV) else []):
                if isinstance(c, ClassV) and a in c.attrs:
                    f = c.attrs[a]
                    if isinstance(f, Func):
                        if "staticmethod" in f.decorators:
                            return f
                        if "classmethod" in f.decorators:
                            return Bound(f, o.cls)
                        if "property" in f.decorators:
                            return self.call_func(f, [o], {})
                        if any(d.endswith("cached_property") for d in f.decorators):
                            o.attrs[a] = self.call_func(f, [o], {})
                            return o.attrs[a]
                        return Bound(f, o)
                    return f
            raise Raised("AttributeError", (a,), True)
        if isinstance(o, Native):
            return o.getattr(self, a)
        if isinstance(o, ModuleV):
            return self.lookup_dotted(o.mod + "." + a)
        if isinstance(o, Ext):
            return self.models.ext_attr(self, o, a)
        if isinstance(o, ClassV):
            for c in o.mro():
                if isinstance(c, ClassV) and a in c.attrs:
                    f = c.attrs[a]
                    if isinstance(f, Func) and "classmethod" in f.decorators:
                        return Bound(f, o)
                    return f
            if a == "__name__":
                return o.name
            raise Raised("AttributeError", (a,), True)
        if isinstance(o, (AList, ADict, ASet, AView, AIter, str, tuple)):
            if isinstance(o, AList) and o.np:
                return self.models.np_attr(self, o, a)
            return BoundM(o, a)
        if isinstance(o, (ARows, AMatrix, ARow)):
            return self.models.matrix_attr(self, o, a)
        if isinstance(o, T):
            return self.models.term_attr(self, o, a)
        if isinstance(o, Tok):
            return BoundM(o, a)
        if isinstance(o, (bool, int, float)):
            return BoundM(o, a)
        if isinstance(o, ExcObj):
            return T("ext:exc." + a)
        if isinstance(o, Lin):
            return BoundM(o, a)
        if o is None:
            raise Raised("AttributeError", ("None." + a,), True)
        if isinstance(o, (Func, Bound)) and a in ("__name__", "__doc__"):
            return a
        raise Unsupported("attribute %s of %r" % (a, o))

    def setattr(self, o, a, v):
        if isinstance(o, AObj):
            o.attrs[a] = v
            self.mutated(o, a)
        elif isinstance(o, Native):
            o.setattr(self, a, v)
        elif isinstance(o, ClassV):
            o.attrs[a] = v
            self.events.append(("class-write", o.name + "." + a, None))
        elif isinstance(o, ModuleV):
            self.module_env(o.mod)[a] = v
        elif isinstance(o, T):
            self.events.append(("mutate-term", o, a))
        else:
            raise Unsupported("store to attribute %s of %r" % (a, o))

    def mutated(self, o, what=None):
        if self.mutlog is not None:
            self.mutlog.append((o, what))

    # ------------------------------------------------------------------ expressions
    def ev(self, e, fr):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Unsupported("step budget")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.name(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(y for y, _ in self.iter_items(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_List(self, e, fr):
        l = self.newlist()
        for x in e.elts:
            if isinstance(x, ast.Starred):
                for y, m in self.iter_items(self.ev(x.value, fr)):
                    self.list_append(l, y, m)
            else:
                l.items.append(self.ev(x, fr))
                if l.muls is not None:
                    l.muls.append(1)
        return l

    def newlist(self, items=()):
        return AList(items, None, len(self.multstack))

    def newdict(self):
        return ADict(len(self.multstack))

    def newset(self):
        return ASet(len(self.multstack))

    def e_Set(self, e, fr):
        s = self.newset()
        for x in self.elts(e.elts, fr):
            self.set_add(s, x)
        return s

    def e_Dict(self, e, fr):
        d = self.newdict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                self.dict_set(d, kk, self.ev(v, fr))
        return d

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, "<lambda>")

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        while getattr(f, "is_comp", False):
            f = f.closure
        self.setname(e.target.id, v, f)
        return v

    def e_BoolOp(self, e, fr):
        v = None
        for x in e.values:
            v = self.ev(x, fr)
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, T) else (False if v.kind == "bool" else v)
            if isinstance(e.op, ast.Or) and t:
                return v if not isinstance(v, T) else (True if v.kind == "bool" else v)
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return self.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, int):
                return ~v
            return self.models.elementwise(self, "~", v)
        raise Unsupported("unary")

    def neg(self, v):
        if isinstance(v, (int, float)):
            return -v
        if isinstance(v, Lin):
            return lin_scale(v, -1)
        if isinstance(v, T):
            if v.op == "neg":
                return v.args[0]
            if v.kind == "vec":
                return self.vec_arith("*", v, -1) or T("neg", v, kind="vec")
            return T("neg", v, kind="num")
        if isinstance(v, AMatrix):
            return AMatrix(v.op, v.rows, v.cols, {k: self.neg(x) for k, x in v.over.items()}, not v.neg)
        return self.models.elementwise(self, "neg", v)

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(e.op, a, b)

    OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>"}
    CONC = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod, "**": operator.pow, "|": operator.or_, "&": operator.and_, "^": operator.xor, "<<": operator.lshift, ">>": operator.rshift}

    def binop(self, op, a, b):
        o = self.OPS[type(op)]
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, AList) and (a.np or isinstance(b, AList) and b.np) or isinstance(b, AList) and b.np:
            return self.models.elementwise(self, o, a, b)
        if isinstance(a, (AMatrix, ARows, ARow, Native)) or isinstance(b, (AMatrix, ARows, ARow, Native)):
            return self.models.elementwise(self, o, a, b)
        if isinstance(a, AList) and isinstance(b, AList) and o == "+":
            l = self.newlist()
            for x, m in list(self.iter_items(a)) + list(self.iter_items(b)):
                self.list_append(l, x, m)
            return l
        if isinstance(a, tuple) and isinstance(b, tuple) and o == "+":
            return a + b
        if isinstance(a, AList) and isinstance(b, int) and o == "*":
            return self.newlist(a.items * b)
        if isinstance(a, int) and isinstance(b, AList) and o == "*":
            return self.newlist(b.items * a)
        if isinstance(a, AList) and isinstance(b, Lin) and o == "*" and len(a.items) == 1:
            for n, l in self.sizes():
                if n == b:
                    return AList([a.items[0] for _ in l.items], list(l.muls) if l.muls else None)
            raise Unsupported("list of symbolic length")
        if isinstance(a, (ASet, AView)) and isinstance(b, (ASet, AView)):
            return self.setop(o, a, b)
        if isinstance(a, ADict) and isinstance(b, ADict) and o == "|":
            d = a.copy()
            self.dict_update(d, b)
            return d
        if isinstance(a, str) and isinstance(b, str) and o == "+":
            return a + b
        if o == "%" and isinstance(a, str):
            return T("strfmt", a, freeze(b), kind="str")
        if self.stringish(a) or self.stringish(b):
            if o == "+":
                if a is None or b is None or isinstance(a, (int, float)) or isinstance(b, (int, float)):
                    raise Raised("TypeError", ("str concat",), True)
                if isinstance(a, Tok) or isinstance(b, Tok):
                    return T("idop:+", freeze(a), freeze(b), kind="str")
                return T("strcat", freeze(a), freeze(b), kind="str")
            if o == "*" and isinstance(a, str) and isinstance(b, int):
                return a * b
        if a is None or b is None:
            raise Raised("TypeError", ("None operand",), True)
        return self.arith(o, a, b)

    def stringish(self, x):
        return isinstance(x, (str, Tok)) or (isinstance(x, T) and x.kind == "str")

    def sizes(self):
        return [(self.len(l), l) for l in self.universe] if hasattr(self, "universe") else []

    def arith(self, o, a, b):
        num = (int, float)
        if isinstance(a, num) and isinstance(b, num):
            if (isinstance(a, PosInt) or isinstance(b, PosInt)):
                return T(o, a if not isinstance(a, PosInt) else T("pos", int(a)), b if not isinstance(b, PosInt) else T("pos", int(b)), kind="int")
            try:
                return self.CONC[o](a, b)
            except ZeroDivisionError:
                raise Raised("ZeroDivisionError", (), True)
            except (TypeError, KeyError, OverflowError, ValueError):
                raise Unsupported("arith")
        if isinstance(a, (Lin, int)) and isinstance(b, (Lin, int)) and not isinstance(a, bool) and not isinstance(b, bool) and not isinstance(a, PosInt) and not isinstance(b, PosInt):
            if o == "+":
                return lin_add(a, b)
            if o == "-":
                return lin_add(a, b, -1)
            if o == "*" and isinstance(a, int):
                return lin_scale(b, a)
            if o == "*" and isinstance(b, int):
                return lin_scale(a, b)
            if o == "/" and a == b:
                return 1.0
        if isinstance(a, Heap) or isinstance(b, Heap):
            return self.models.elementwise(self, o, a, b)
        if not all(isinstance(x, (T, Lin, int, float)) for x in (a, b)):
            if isinstance(a, Tok) or isinstance(b, Tok):
                if o in ("-", "*", "/"):
                    raise Raised("TypeError", ("str arithmetic",), True)
            raise Unsupported("arith %s on %r, %r" % (o, a, b))
        if isinstance(a, T) and a.kind == "vec" or isinstance(b, T) and b.kind == "vec":
            r = self.vec_arith(o, a, b)
            if r is not None:
                return r
        kind = "num"
        if all(isinstance(x, (int, Lin)) or (isinstance(x, T) and x.kind == "int") for x in (a, b)) and o in "+-*//%":
            kind = "int" if o != "/" else "num"
        if any(isinstance(x, T) and x.kind not in ("num", "int", "bool") for x in (a, b)):
            kind = None
        return self.norm(o, a, b, kind)

    @staticmethod
    def lincomb(v):
        """vector term as {vector: rational coefficient}"""
        if isinstance(v, T) and v.op == "lc":
            return {x: Fraction(n, d) for x, n, d in v.args}
        if isinstance(v, T) and v.kind == "vec":
            return {v: Fraction(1)}
        if isinstance(v, (int, float)) and v == 0:
            return {}
        return None

    def vec_arith(self, o, a, b):
        """normal form of linear combinations of vectors"""
        num = lambda x: isinstance(x, (int, float)) and not isinstance(x, PosInt) and abs(x) != float("inf") and x == x
        if o in "+-":
            p, q = self.lincomb(a), self.lincomb(b)
            if p is None or q is None:
                return None
            r = dict(p)
            for x, c in q.items():
                r[x] = r.get(x, 0) + (c if o == "+" else -c)
        elif o == "*" and (num(a) or num(b)) and (self.lincomb(a) is not None or self.lincomb(b) is not None):
            v, c = (b, a) if num(a) else (a, b)
            p = self.lincomb(v)
            if p is None:
                return None
            c = Fraction(c).limit_denominator(10**6)
            r = {x: y * c for x, y in p.items()}
        elif o == "/" and num(b):
            if b == 0:
                raise Raised("ZeroDivisionError", (), True)
            p = self.lincomb(a)
            if p is None:
                return None
            c = Fraction(b).limit_denominator(10**6)
            if c == 0:
                return None
            r = {x: y / c for x, y in p.items()}
        elif o == "**" and b == 2 and self.lincomb(a) is not None:
            return T("vsq", a, kind="vec")
        else:
            return None
        r = {x: c for x, c in r.items() if c}
        if not r:
            return T("lc", kind="vec")
        if len(r) == 1:
            x, c = next(iter(r.items()))
            if c == 1:
                return x
        return T("lc", *sorted(((x, c.numerator, c.denominator) for x, c in r.items()), key=repr), kind="vec")

    def euclid(self, v):
        """norm of a linear combination, as the distance of its positive and negative parts"""
        p = self.lincomb(v)
        if p is None:
            return None
        pos, neg = {x: c for x, c in p.items() if c > 0}, {x: -c for x, c in p.items() if c < 0}
        if not pos and not neg:
            return 0.0
        build = lambda r: T("lc", kind="vec") if not r else next(iter(r)) if len(r) == 1 and next(iter(r.values())) == 1 else T("lc", *sorted(((x, c.numerator, c.denominator) for x, c in r.items()), key=repr), kind="vec")
        a, b = sorted((build(pos), build(neg)), key=repr)
        return T("dist", ("euclidean",), a, b, kind="num")

    def norm(self, o, a, b, kind):
        if o == "-":
            if a is b or (isinstance(a, Lin) and a == b):
                return 0
            return self.norm("+", a, self.neg(b), kind)
        if o == "+":
            terms, const = [], 0
            for x in (a, b):
                if isinstance(x, T) and x.op == "+":
                    for y in x.args:
                        if isinstance(y, (int, float)):
                            const += y
                        else:
                            terms.append(y)
                elif isinstance(x, (int, float)):
                    const += x
                else:
                    terms.append(x)
            # cancel t + neg(t)
            out = []
            for t in terms:
                n = self.neg(t) if isinstance(t, T) else None
                if n is not None and n in out:
                    out.remove(n)
                else:
                    out.append(t)
            terms = sorted(out, key=repr)
            if const != 0:
                terms = terms + [const]
            if not terms:
                return 0
            if len(terms) == 1:
                return terms[0]
            return T("+", *terms, kind=kind)
        if o == "*":
            if isinstance(a, (int, float)) and a == 1:
                return b
            if isinstance(b, (int, float)) and b == 1:
                return a
            fs = []
            for x in (a, b):
                fs.extend(x.args if isinstance(x, T) and x.op == "*" else [x])
            c = 1
            rest = []
            for x in fs:
                if isinstance(x, (int, float)):
                    c = c * x
                else:
                    rest.append(x)
            rest = sorted(rest, key=repr)
            if c != 1:
                rest = [c] + rest
            return T("*", *rest, kind=kind)
        if o == "/":
            if isinstance(b, (int, float)) and b == 0:
                raise Raised("ZeroDivisionError", (), True)
            if isinstance(b, (int, float)) and b == 1:
                return a
            if a is b:
                return 1.0
        return T(o, a, b, kind=kind)

    def resolve(self, x):
        """constant equal to a term on this partition"""
        if isinstance(x, T):
            c = self.facts.const_of(x)
            if c is not None:
                return c[1]
        return x

    def setop(self, o, a, b):
        s = self.newset()
        ai, bi = [x for x, _ in self.iter_items(a)], [x for x, _ in self.iter_items(b)]
        if o == "|":
            for x in ai + bi:
                self.set_add(s, x)
        elif o == "&":
            for x in ai:
                if self.contains(b, x):
                    self.set_add(s, x)
        elif o == "-":
            for x in ai:
                if not self.contains(b, x):
                    self.set_add(s, x)
        elif o == "^":
            for x in ai:
                if not self.contains(b, x):
                    self.set_add(s, x)
            for x in bi:
                if not self.contains(a, x):
                    self.set_add(s, x)
        else:
            raise Unsupported("set op")
        return s

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            v = self.compare(op, left, right)
            if len(e.ops) == 1:
                return v
            if not self.truth(v):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return not self.contains(b, a)
        if (isinstance(a, Heap) or isinstance(b, Heap)) and self.models.is_array(a, b):
            return self.models.elementwise(self, {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)], a, b)
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return not self.eq(a, b)
        if isinstance(op, ast.Lt):
            return self.lt(a, b)
        if isinstance(op, ast.Gt):
            return self.lt(b, a)
        if isinstance(op, ast.LtE):
            return self.le(a, b)
        if isinstance(op, ast.GtE):
            return self.le(b, a)
        raise Unsupported("compare")

    def is_(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if a is None or b is None:
            x = b if a is None else a
            if x is None:
                return True
            if isinstance(x, T) and (x.op.startswith("ext:") or x.op.startswith("m:") or x.kind == "opt"):
                return self.atom(("is-none", x), "%r is None" % (x,), self.cat(x))
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            x, c = (b, a) if isinstance(a, bool) else (a, b)
            if isinstance(x, bool):
                return x is c
            if isinstance(x, T):
                if x.kind == "bool":
                    return self.truth(x) is c
                return self.atom(("is", x, c), "%r is %r" % (x, c), self.cat(x))
            return False
        if isinstance(a, (int, str, float)) and isinstance(b, (int, str, float)):
            return type(a) is type(b) and a == b
        if isinstance(a, T) or isinstance(b, T):
            if a is b:
                return True
            if isinstance(a, T) and isinstance(b, T) and a.op == "vec" and b.op == "vec":
                return False
            return self.atom(("is2", freeze(a), freeze(b)), "%r is %r" % (a, b), "foreign")
        if isinstance(a, Tok) or isinstance(b, Tok):
            return a is b
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a == b
        return a is b

    # -- equality and order (the only places where partitions arise from data)
    def eq(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if a is b and not isinstance(a, float):
            return True
        if isinstance(a, PosInt) != isinstance(b, PosInt) and isinstance(a, int) and isinstance(b, int):
            return self.atom(("poseq", int(a), int(b), isinstance(a, PosInt)), "position %r == %r" % (a, b))
        if isinstance(a, (T, Lin)) or isinstance(b, (T, Lin)):
            return self.eq_term(a, b)
        if isinstance(a, Tok) or isinstance(b, Tok):
            if isinstance(a, Tok) and isinstance(b, Tok):
                return False
            o = b if isinstance(a, Tok) else a
            t = a if isinstance(a, Tok) else b
            if isinstance(o, str):
                return self.atom(("idop:eq", t, o), "%r == %r" % (t, o))
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, AList) and isinstance(b, AList):
            if len(a.items) != len(b.items):
                return False
            return all(self.eq(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, (ASet, AView)) and isinstance(b, (ASet, AView)):
            ai, bi = [x for x, _ in self.iter_items(a)], [x for x, _ in self.iter_items(b)]
            return all(self.contains(b, x) for x in ai) and all(self.contains(a, x) for x in bi)
        if isinstance(a, ADict) and isinstance(b, ADict):
            if len(a.keys) != len(b.keys):
                return False
            for k, v in zip(a.keys, a.vals):
                i = self.dict_find(b, k)
                if i is None or not self.eq(v, b.vals[i]):
                    return False
            return True
        if isinstance(a, AObj) and isinstance(b, AObj):
            f = self.find_method(a, "__eq__")
            if f:
                return self.truth(self.call_func(f, [a, b], {}))
            return a is b
        if isinstance(a, Heap) or isinstance(b, Heap):
            if type(a) is not type(b) and not isinstance(a, Native) and not isinstance(b, Native):
                return False
            if isinstance(a, Native) or isinstance(b, Native):
                return a is b
            raise Unsupported("== on %r, %r" % (a, b))
        if isinstance(a, (Func, Bound, ClassV, Ext, BoundM, ModuleV)) or isinstance(b, (Func, Bound, ClassV, Ext, BoundM, ModuleV)):
            return a == b
        return a == b

    def eq_term(self, a, b):
        if isinstance(a, T) and isinstance(b, T) and a.op == b.op == "time" and a.args[0] == b.args[0] == "id":
            return a.args == b.args        # identities of objects
        if isinstance(a, Lin) or isinstance(b, Lin):
            if isinstance(a, (Lin, int)) and isinstance(b, (Lin, int)):
                return self.lin_cmp(a, b, "eq")
            if isinstance(a, float) or isinstance(b, float):
                x = a if isinstance(a, float) else b
                y = b if isinstance(a, float) else a
                if x == int(x) if x not in (float("inf"), float("-inf")) else False:
                    return self.eq_term(y, int(x))
                return False
            if not (isinstance(a, T) or isinstance(b, T)):
                return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, T) and x.kind in ("num", "int", "bool") and (y is None or isinstance(y, (str, tuple, Heap, Tok))):
                return False
            if isinstance(x, T) and x.kind == "str" and (y is None or isinstance(y, (int, float, tuple, Heap))):
                return False
            if isinstance(x, T) and x.kind in ("vec",) and (y is None or isinstance(y, (int, float, str))):
                return False
        if isinstance(a, (Heap, tuple)) or isinstance(b, (Heap, tuple)):
            return self.atom(("eqx", freeze(a), freeze(b)), "%r == %r" % (a, b), "foreign")
        if repr(b) < repr(a) and not isinstance(b, (str, int, float, bool, type(None))):
            a, b = b, a
        k = self.facts.known_eq(a, b)
        if k is not None:
            return k
        if self.policy is not None:
            r = self.policy(self, ("==", a, b))
            if r is not None:
                (self.facts.rec_eq if r else self.facts.rec_ne)(a, b)
                return r
        r = self.fork("%r == %r" % (a, b), self.cat(a, b))
        (self.facts.rec_eq if r else self.facts.rec_ne)(a, b)
        return r

    def lin_cmp(self, a, b, what):
        d = lin_add(a, b, -1)
        if not isinstance(d, Lin):
            return {"eq": d == 0, "lt": d < 0, "le": d <= 0}[what]
        # canonical sign
        s = 1
        if d.coefs[0][1] < 0:
            d, s = lin_scale(d, -1), -1
        c0 = -d.const
        body = lin_add(d, -d.const)   # pure symbol part; compare with c0
        if what == "eq":
            return self.cmp_store("eq", body, c0)
        if s == 1:
            return self.cmp_store(what, body, c0)
        return self.cmp_store(what, c0, body)

    def cmp_store(self, what, a, b):
        f = self.facts
        if what == "eq":
            k = f.known_eq(a, b)
            if k is not None:
                return k
            r = self.fork("%r == %r" % (a, b), self.cat(a, b))
            (f.rec_eq if r else f.rec_ne)(a, b)
            return r
        if what == "lt":
            k = f.known_lt(a, b)
            if k is not None:
                return k
            if self.policy is not None:
                r = self.policy(self, ("<", a, b))
                if r is not None:
                    f.rec_lt(a, b) if r else f.rec_le(b, a)
                    return r
            r = self.fork("%r < %r" % (a, b), self.cat(a, b))
            if r:
                f.rec_lt(a, b)
            else:
                f.rec_le(b, a)
            return r
        return not self.cmp_store("lt", b, a)

    def lt(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Tok) and isinstance(b, Tok):
            return a.rank < b.rank
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, AList) and isinstance(b, AList) and not a.np and not b.np:
            ai, bi = (a, b) if isinstance(a, tuple) else (a.items, b.items)
            for x, y in zip(ai, bi):
                if self.eq(x, y):
                    continue
                return self.lt(x, y)
            return len(ai) < len(bi)
        if isinstance(a, (ASet, AView)) and isinstance(b, (ASet, AView)):
            return all(self.contains(b, x) for x, _ in self.iter_items(a)) and not all(self.contains(a, x) for x, _ in self.iter_items(b))
        if isinstance(a, PosInt) != isinstance(b, PosInt) and isinstance(a, int) and isinstance(b, int):
            if isinstance(b, int) and not isinstance(b, PosInt) and b <= 0:
                return False
            return self.atom(("poslt", int(a), int(b), isinstance(a, PosInt)), "position %r < %r" % (a, b))
        if isinstance(a, (Lin, int)) and isinstance(b, (Lin, int)) and (isinstance(a, Lin) or isinstance(b, Lin)):
            return self.lin_cmp(a, b, "lt")
        if isinstance(a, (T, Lin)) or isinstance(b, (T, Lin)):
            if a is b:
                return False
            for x in (a, b):
                if x is None or isinstance(x, Heap):
                    raise Raised("TypeError", ("ordering",), True)
            if isinstance(a, T) and isinstance(b, T) and a.op == "neg" and b.op == "neg":
                return self.lt(b.args[0], a.args[0])
            if isinstance(a, T) and a.op == "neg" and isinstance(b, (int, float)):
                return self.lt(-b, a.args[0])
            if isinstance(b, T) and b.op == "neg" and isinstance(a, (int, float)):
                return self.lt(b.args[0], -a)
            return self.cmp_store("lt", a, b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a < b
        if isinstance(a, str) and isinstance(b, str):
            return a < b
        if isinstance(a, Tok) and isinstance(b, str) or isinstance(a, str) and isinstance(b, Tok):
            return self.atom(("idop:lt", a, b), "%r < %r" % (a, b))
        if a is None or b is None or isinstance(a, str) != isinstance(b, str):
            raise Raised("TypeError", ("ordering",), True)
        raise Unsupported("order on %r, %r" % (a, b))

    def le(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return not self.lt(b, a)
        if isinstance(a, (ASet, AView)) and isinstance(b, (ASet, AView)):
            return all(self.contains(b, x) for x, _ in self.iter_items(a))
        return not self.lt(b, a)

    SAFE = ("dist", "kern", "vec", "vsq", "sym", "lin", "pos", "rand", "time", "count", "neg", "+", "*", "/", "-", "//", "%", "**", "str", "strcat", "strfmt", "elem", "label", "abs", "round", "floor", "ceil", "trunc", "int", "max", "min", "mean", "len", "lc", "range")

    def cat(self, *xs):
        c = "ok"
        for x in xs:
            if isinstance(x, T):
                k = x._cat
                if k is None:
                    if x.op == "opaque":
                        k = "opaque"
                    elif x.op.startswith("num:"):
                        k = "num"
                    elif x.op.startswith("attr:") and x.args and self.cat(*x.args) == "num":
                        k = "num"
                    elif x.op in self.SAFE or x.op.startswith("idop:") or x.op.startswith("spec:"):
                        k = "ok"
                    else:
                        k = "foreign"
                    for y in x.args:
                        k = max(k, self.cat(y), key=CATS.index)
                    x._cat = k
                c = max(c, k, key=CATS.index)
            elif isinstance(x, tuple):
                c = max(c, self.cat(*x), key=CATS.index)
        return c

    def truth(self, v):
        v = self.resolve(v)
        if v is None or isinstance(v, (bool, int, float, str)):
            if isinstance(v, PosInt):
                return not self.eq(v, 0)
            return bool(v)
        if isinstance(v, Tok):
            return self.atom(("idop:truthy", v), "%r is non-empty" % (v,))
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, AList):
            if v.np:
                if len(v.items) == 1:
                    return self.truth(v.items[0])
                raise Unsupported("truth of array")
            return len(v.items) > 0
        if isinstance(v, ADict):
            return len(v.keys) > 0
        if isinstance(v, ASet):
            return len(v.d.keys) > 0
        if isinstance(v, AView):
            return len(v.d.keys) > 0
        if isinstance(v, Lin):
            return not self.lin_cmp(v, 0, "eq")
        if isinstance(v, T):
            if v.kind in ("num", "int"):
                return not self.eq(v, 0)
            if v.kind == "str":
                return not self.eq(v, "")
            return self.atom(("truthy", v), "%r" % (v,), self.cat(v))
        if isinstance(v, AObj):
            for n in ("__bool__", "__len__"):
                f = self.find_method(v, n)
                if f:
                    return self.truth(self.call_func(f, [v], {}))
            return True
        if isinstance(v, (AMatrix, ARows)):
            raise Unsupported("truth of matrix")
        if isinstance(v, Native) and hasattr(v, "truth"):
            return v.truth(self)
        return True

    def find_method(self, o, name):
        if isinstance(o.cls, ClassV):
            for c in o.cls.mro():
                if isinstance(c, ClassV) and name in c.attrs:
                    return c.attrs[name]
        return None

    # ------------------------------------------------------------------ containers
    def len(self, v):
        if isinstance(v, (str, tuple)):
            return len(v)
        if isinstance(v, AList):
            return self.summul(v.items, v.muls)
        if isinstance(v, ADict):
            return self.summul(v.keys, v.muls if any(m != 1 for m in v.muls) else None)
        if isinstance(v, AView):
            return self.len(v.d)
        if isinstance(v, ASet):
            return self.len(v.d)
        if isinstance(v, Tok):
            return T("idop:len", v, kind="int")
        if isinstance(v, T):
            return T("len", v, kind="int") if v.kind != "str" else T("len", v, kind="int")
        if isinstance(v, ARows):
            return self.summul(v.rows, v.muls)
        if isinstance(v, AMatrix):
            return len(v.rows)
        if isinstance(v, AObj):
            f = self.find_method(v, "__len__")
            if f:
                return self.call_func(f, [v], {})
        if isinstance(v, Native) and hasattr(v, "length"):
            return v.length(self)
        if v is None or isinstance(v, (int, float)):
            raise Raised("TypeError", ("len",), True)
        if isinstance(v, AIter):
            raise Raised("TypeError", ("len of iterator",), True)
        raise Unsupported("len of %r" % (v,))

    def summul(self, items, muls):
        if muls is None:
            return len(items)
        n = 0
        for m in muls:
            if isinstance(m, T):
                return T("count", freeze(tuple(muls)), kind="int")
            n = lin_add(n, m)
        return n

    def iter_items(self, v):
        """snapshot of the items with their multiplicities"""
        if isinstance(v, AList):
            return list(zip(v.items, v.muls or [1] * len(v.items)))
        if isinstance(v, tuple):
            return [(x, 1) for x in v]
        if isinstance(v, str):
            return [(x, 1) for x in v]
        if isinstance(v, ADict):
            return list(zip(v.keys, v.muls))
        if isinstance(v, ASet):
            return self.hashed(v)
        if isinstance(v, AView):
            d = v.d
            if v.what == "keys":
                return list(zip(d.keys, d.muls))
            if v.what == "values":
                return list(zip(d.vals, d.muls))
            return [((k, x), m) for k, x, m in zip(d.keys, d.vals, d.muls)]
        if isinstance(v, AIter):
            if getattr(v, "endless", False):
                raise Unsupported("iteration without end")
            r = list(zip(v.items[v.pos:], (v.muls or [1] * len(v.items))[v.pos:]))
            v.pos = len(v.items)
            return r
        if isinstance(v, AMatrix):
            return [(ARow(v, i), 1) for i in range(len(v.rows))]
        if isinstance(v, ARows):
            return list(zip(v.rows, v.muls or [1] * len(v.rows)))
        if isinstance(v, ARow):
            return [(v.m.entry(v.i, j), 1) for j in range(len(v.m.cols))]
        if isinstance(v, AObj):
            f = self.find_method(v, "__iter__")
            if f:
                return self.iter_items(self.call_func(f, [v], {}))
        if isinstance(v, Native) and hasattr(v, "iterate"):
            return [(x, 1) for x in v.iterate(self)]
        if v is None or isinstance(v, (int, float)):
            raise Raised("TypeError", ("not iterable",), True)
        if isinstance(v, (T, Tok, Lin)):
            r = self.models.iter_term(self, v)
            if r is not None:
                return r
        raise Unsupported("iteration over %r" % (v,))

    def iter_live(self, v):
        """iteration that observes changes made by the loop body, as Python does"""
        if isinstance(v, AList):
            i = 0
            while i < len(v.items):
                yield v.items[i], (v.muls[i] if v.muls else 1)
                i += 1
            return
        if isinstance(v, ASet) and self.set_perm is not None:
            n = len(v.d.keys)
            for x in self.hashed(v):
                yield x
                if len(v.d.keys) != n:
                    raise Raised("RuntimeError", ("changed size during iteration",), True)
            return
        if isinstance(v, (ADict, AView, ASet)):
            d = v if isinstance(v, ADict) else v.d
            n = len(d.keys)
            i = 0
            while i < len(d.keys):
                k, x, m = d.keys[i], d.vals[i], d.muls[i]
                yield ((k, x) if isinstance(v, AView) and v.what == "items" else x if isinstance(v, AView) and v.what == "values" else k), m
                if len(d.keys) != n:
                    raise Raised("RuntimeError", ("changed size during iteration",), True)
                i += 1
            return
        if isinstance(v, AIter):
            while v.fill(v.pos):
                i = v.pos
                v.pos += 1
                yield v.buf[i], (v.muls[i] if v.muls else 1)
            return
        for x in self.iter_items(v):
            yield x

    def list_append(self, l, x, m=1):
        if len(self.multstack) > l.depth and m == 1:
            m = self.curmult(l.depth)
        if m != 1 and l.muls is None:
            l.muls = [1] * len(l.items)
        l.items.append(x)
        if l.muls is not None:
            l.muls.append(m)
        self.mutated(l)

    def hashable(self, k):
        if isinstance(k, (AList, ADict, ASet)):
            if isinstance(k, ASet) and k.frozen:
                return
            raise Raised("TypeError", ("unhashable",), True)
        if isinstance(k, tuple):
            for x in k:
                self.hashable(x)

    def dict_find(self, d, k):
        self.hashable(k)
        k = self.resolve(k)
        if isinstance(k, ASet):
            raise Unsupported("frozenset key")
        if rigid(k) and not isinstance(k, float) or isinstance(k, float) and k == k:
            try:
                i = d.index.get(rkey(k))
            except TypeError:
                raise Unsupported("key %r" % (k,))
            if i is not None:
                if isinstance(k, PosInt) == isinstance(d.keys[i], PosInt) or not isinstance(k, int):
                    return i
        elif k in d.index:
            return d.index[k]
        for i, x in enumerate(d.keys):
            if rigid(x) and rigid(k):
                if isinstance(x, PosInt) != isinstance(k, PosInt) and isinstance(x, int) and isinstance(k, int):
                    if self.eq(x, k):
                        return i
                continue
            if self.eq(x, k):
                return i
        return None

    def dict_set(self, d, k, v, m=None):
        i = self.dict_find(d, k)
        k = self.resolve(k)
        self.mutated(d, k)
        if i is not None:
            d.vals[i] = v
            return
        if m is None:
            m = 1
            if isinstance(k, Tok) and k.mult is not None:
                m = k.mult
            elif isinstance(k, (PosInt,)):
                m = self.curmult(d.depth)
            elif isinstance(k, tuple) and any(isinstance(x, Tok) and x.mult is not None for x in k):
                m = self.curmult(d.depth)
        d.index[rkey(k)] = len(d.keys)
        d.keys.append(k)
        d.vals.append(v)
        d.muls.append(m)

    def dict_del(self, d, i):
        self.mutated(d, d.keys[i])
        del d.keys[i], d.vals[i], d.muls[i]
        d.reindex()

    def dict_update(self, d, other):
        if isinstance(other, ADict):
            for k, v, m in list(zip(other.keys, other.vals, other.muls)):
                self.dict_set(d, k, v, m)
        elif isinstance(other, Native) and hasattr(other, "as_dict"):
            self.dict_update(d, other.as_dict(self))
        else:
            for x, m in self.iter_items(other):
                k, v = self.unpack(x, 2)
                self.dict_set(d, k, v)

    def unpack(self, x, n):
        items = [y for y, _ in self.iter_items(x)] if not isinstance(x, T) else [self.getitem(x, i) for i in range(n)]
        if len(items) != n:
            raise Raised("ValueError", ("unpack",), True)
        return items

    def set_add(self, s, x, m=None):
        self.dict_set(s.d, x, None, m)
        self.mutated(s)

    def contains(self, c, x):
        if isinstance(c, (ADict, ASet)):
            return self.dict_find(c if isinstance(c, ADict) else c.d, x) is not None
        if isinstance(c, AView):
            if c.what == "keys":
                return self.dict_find(c.d, x) is not None
            return any(self.eq(y, x) for y, _ in self.iter_items(c))
        if isinstance(c, (AList, tuple, AIter)):
            if isinstance(c, AIter):
                for y, _ in self.iter_live(c):
                    if self.eq(y, x):
                        return True
                return False
            return any(self.eq(y, x) for y, _ in self.iter_items(c))
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            return self.atom(("instr", freeze(x), c), "%r in %r" % (x, c), self.cat(x))
        if isinstance(c, Tok):
            return self.atom(("idop:in", freeze(x), c), "%r in %r" % (x, c))
        if isinstance(c, T):
            return self.atom(("in", freeze(x), c), "%r in %r" % (x, c), self.cat(c, x) if self.cat(c, x) != "ok" else "foreign")
        if isinstance(c, Native) and hasattr(c, "contains"):
            return c.contains(self, x)
        if isinstance(c, AObj):
            f = self.find_method(c, "__contains__")
            if f:
                return self.truth(self.call_func(f, [c, x], {}))
        if c is None or isinstance(c, (int, float)):
            raise Raised("TypeError", ("in",), True)
        raise Unsupported("in %r" % (c,))

    def slice(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*(None if x is None else self.ev(x, fr) for x in (s.lower, s.upper, s.step)))
        if isinstance(s, ast.Tuple):
            return tuple(self.slice(x, fr) if isinstance(x, ast.Slice) else self.ev(x, fr) for x in s.elts)
        return self.ev(s, fr)

    def e_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.slice(e.slice, fr))

    def e_Slice(self, e, fr):
        return self.slice(e, fr)

    def norm_index(self, n, i):
        if i < 0:
            i += n
        if i < 0 or i >= n:
            raise Raised("IndexError", (i,), True)
        return i

    def getitem(self, o, k):
        k = self.resolve(k) if not isinstance(k, slice) else k
        if isinstance(o, ADict):
            i = self.dict_find(o, k)
            if i is None:
                if o.factory is not None:
                    v = self.call(o.factory, [], {})
                    self.dict_set(o, k, v)
                    return v
                raise Raised("KeyError", (k,), True)
            return o.vals[i]
        if isinstance(o, AList) and o.np:
            return self.models.np_getitem(self, o, k)
        if isinstance(o, (AList, tuple)):
            items = o.items if isinstance(o, AList) else o
            if isinstance(k, slice):
                return self.do_slice(o, k)
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, int):
                if isinstance(o, AList) and o.muls is not None and not isinstance(k, PosInt) and any(m != 1 for m in o.muls):
                    if k not in (0, -1):
                        raise Unsupported("index in a list of unknown size")
                return items[self.norm_index(len(items), int(k))]
            if isinstance(k, (T, Lin)):
                return T("elem", freeze(o), k if not isinstance(k, Lin) else T("lin", k))
            if isinstance(k, (str, float)) or k is None:
                raise Raised("TypeError", ("list index",), True)
            raise Unsupported("index %r" % (k,))
        if isinstance(o, str):
            if isinstance(k, (int, slice)):
                try:
                    return o[k]
                except IndexError:
                    raise Raised("IndexError", (), True)
            raise Unsupported("str index")
        if isinstance(o, (AMatrix, ARow, ARows)):
            return self.models.matrix_getitem(self, o, k)
        if isinstance(o, T):
            if isinstance(k, slice):
                k = ("slice", freeze(k.start), freeze(k.stop), freeze(k.step))
            return self.models.term_getitem(self, o, k)
        if isinstance(o, Tok):
            return T("idop:[]", o, freeze(k) if not isinstance(k, slice) else ("slice", freeze(k.start), freeze(k.stop), freeze(k.step)), kind="str")
        if isinstance(o, AObj):
            f = self.find_method(o, "__getitem__")
            if f:
                return self.call_func(f, [o, k], {})
        if isinstance(o, Native) and hasattr(o, "getitem"):
            return o.getitem(self, k)
        if isinstance(o, Ext):
            return o      # typing subscript
        if o is None or isinstance(o, (int, float, ASet, AView)):
            raise Raised("TypeError", ("not subscriptable",), True)
        raise Unsupported("subscript of %r" % (o,))

    def do_slice(self, o, k):
        items = o.items if isinstance(o, AList) else o
        muls = o.muls if isinstance(o, AList) else None
        parts = []
        for x in (k.start, k.stop, k.step):
            x = self.resolve(x)
            if isinstance(x, Lin) or isinstance(x, T):
                # symbolic bound: case split against the length
                x = self.int_cases(x, len(items)) if muls is None else self.sym_bound(x, o)
            elif x is not None and not isinstance(x, int):
                raise Raised("TypeError", ("slice indices must be integers",), True)
            parts.append(x)
        s = slice(*parts)
        if isinstance(o, tuple):
            return items[s]
        if muls is not None and any(m != 1 for m in muls) and parts != [None, None, None] and parts != [None, None, -1]:
            if parts[0] in (None, 0) and parts[1] is not None and parts[2] is None:
                if isinstance(parts[1], str):
                    if parts[1] == "all":
                        return AList(items, list(muls), len(self.multstack))
            raise Unsupported("slice of a list of unknown size")
        return AList(items[s], muls[s] if muls is not None else None, len(self.multstack))

    def sym_bound(self, x, o):
        n = self.len(o)
        if self.le(n, x):
            return "all"
        raise Unsupported("symbolic slice bound")

    def int_cases(self, x, n):
        """value of a symbolic integer, clipped to 0..n"""
        for c in range(0, n):
            if self.le(x, c) if c else self.le(x, 0):
                if c == 0 and not self.eq(x, 0):
                    raise Unsupported("negative symbolic bound")
                return c
        return n

    def setitem(self, o, k, v):
        k = self.resolve(k) if not isinstance(k, slice) else k
        if isinstance(o, ADict):
            self.dict_set(o, k, v)
        elif isinstance(o, AList) and o.np:
            self.models.np_setitem(self, o, k, v)
        elif isinstance(o, AList):
            if isinstance(k, slice):
                s = slice(*(self.resolve(x) for x in (k.start, k.stop, k.step)))
                if any(isinstance(x, (T, Lin)) for x in (s.start, s.stop, s.step)) or o.muls is not None:
                    raise Unsupported("slice store")
                o.items[s] = [x for x, _ in self.iter_items(v)]
            elif isinstance(k, int):
                o.items[self.norm_index(len(o.items), int(k))] = v
            elif isinstance(k, (T, Lin)):
                raise Unsupported("store at symbolic index")
            else:
                raise Raised("TypeError", ("list index",), True)
            self.mutated(o, k)
        elif isinstance(o, AMatrix):
            self.models.matrix_setitem(self, o, k, v)
        elif isinstance(o, Native) and hasattr(o, "setitem"):
            o.setitem(self, k, v)
        elif isinstance(o, T):
            self.events.append(("mutate-term", o, freeze(k) if not isinstance(k, slice) else "slice"))
            if stored_in(o) is not None:
                self.events.append(("mutate-input", stored_in(o), None))
        elif isinstance(o, AObj):
            f = self.find_method(o, "__setitem__")
            if not f:
                raise Raised("TypeError", ("item assignment",), True)
            self.call_func(f, [o, k, v], {})
        elif isinstance(o, (tuple, str)) or o is None:
            raise Raised("TypeError", ("item assignment",), True)
        else:
            raise Unsupported("store into %r" % (o,))

    def delitem(self, o, k):
        if isinstance(o, ADict):
            i = self.dict_find(o, k)
            if i is None:
                raise Raised("KeyError", (k,), True)
            self.dict_del(o, i)
        elif isinstance(o, AList):
            if isinstance(k, slice):
                if k.start is None and k.stop is None and k.step is None:
                    o.items[:] = []
                    o.muls = None
                else:
                    try:
                        del o.items[k]
                        if o.muls is not None:
                            del o.muls[k]
                    except TypeError:
                        raise Unsupported("del slice")
            elif isinstance(k, int):
                i = self.norm_index(len(o.items), int(k))
                del o.items[i]
                if o.muls is not None:
                    del o.muls[i]
            else:
                raise Unsupported("del index")
            self.mutated(o)
        else:
            raise Unsupported("del item")

    # ------------------------------------------------------------------ comprehensions
    def comp(self, gens, fr, emit):
        cf = Frame(fr.func, fr.module, {}, fr)
        cf.is_comp = True
        cf.yields = fr.yields
        first = self.ev(gens[0].iter, fr)

        def go(i):
            if i == len(gens):
                emit(cf)
                return
            g = gens[i]
            it = first if i == 0 else self.ev(g.iter, cf)
            for x, m in self.iter_live(it):
                pushed = m != 1
                if pushed:
                    self.multstack.append(m)
                try:
                    self.assign(g.target, x, cf)
                    if all(self.truth(self.ev(c, cf)) for c in g.ifs):
                        go(i + 1)
                finally:
                    if pushed:
                        self.multstack.pop()
        go(0)

    def comp_lazy(self, e, first, fr):
        gens = e.generators
        cf = Frame(fr.func, fr.module, {}, fr)
        cf.is_comp = True

        def go(i):
            if i == len(gens):
                yield self.ev(e.elt, cf)
                return
            g = gens[i]
            for x, m in self.iter_live(first if i == 0 else self.ev(g.iter, cf)):
                if m != 1:
                    raise Unsupported("lazy generator over a class of IDs")
                self.assign(g.target, x, cf)
                if all(self.truth(self.ev(c, cf)) for c in g.ifs):
                    yield from go(i + 1)
        return go(0)

    def e_ListComp(self, e, fr):
        l = self.newlist()
        self.comp(e.generators, fr, lambda cf: self.list_append(l, self.ev(e.elt, cf)))
        return l

    def e_GeneratorExp(self, e, fr):
        if self.lazy and not self.multstack:
            return AIter([], None, self.comp_lazy(e, self.ev(e.generators[0].iter, fr), fr))
        l = self.newlist()
        self.comp(e.generators, fr, lambda cf: self.list_append(l, self.ev(e.elt, cf)))
        return AIter(l.items, l.muls)

    def e_SetComp(self, e, fr):
        s = self.newset()
        self.comp(e.generators, fr, lambda cf: self.set_add(s, self.ev(e.elt, cf)))
        return s

    def e_DictComp(self, e, fr):
        d = self.newdict()

        def emit(cf):
            k = self.ev(e.key, cf)
            self.dict_set(d, k, self.ev(e.value, cf))
        self.comp(e.generators, fr, emit)
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.resolve(self.ev(v.value, fr))
                if isinstance(x, (str, int, float, bool)) and v.format_spec is None and v.conversion == -1 or x is None:
                    parts.append(str(x))
                else:
                    parts.append(freeze(x))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        if len(parts) == 1 and isinstance(parts[0], Tok):
            return parts[0]
        if any(isinstance(p, Tok) for p in parts):
            return T("idop:fmt", *parts, kind="str")
        return T("strfmt", *parts, kind="str")

    def e_FormattedValue(self, e, fr):
        return T("strfmt", freeze(self.ev(e.value, fr)), kind="str")

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        f = fr
        if f.yields is None:
            raise Unsupported("yield")
        self.list_append(f.yields, v)
        return None

    def e_YieldFrom(self, e, fr):
        for x, m in self.iter_items(self.ev(e.value, fr)):
            self.list_append(fr.yields, x, m)
        return None

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and getattr(f, "is_comp", False):
                f = f.closure
            return SuperV(f.func.cls, f.env.get(f.func.node.args.args[0].arg))
        fv = self.ev(e.func, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(y for y, _ in self.iter_items(self.ev(a.value, fr)))
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if isinstance(d, ADict):
                    for kk, vv in zip(d.keys, d.vals):
                        if not isinstance(kk, str):
                            raise Unsupported("** with abstract key")
                        if kk in kwargs:
                            raise Raised("TypeError", ("multiple values for keyword",), True)
                        kwargs[kk] = vv
                else:
                    raise Unsupported("** of %r" % (d,))
            else:
                if k.arg in kwargs:
                    raise Raised("TypeError", ("multiple values for keyword",), True)
                kwargs[k.arg] = self.ev(k.value, fr)
        return self.call(fv, args, kwargs, e, fr)

    def call(self, fv, args, kwargs, node=None, fr=None):
        if isinstance(fv, Func):
            return self.call_func(fv, args, kwargs)
        if isinstance(fv, Bound):
            return self.call_func(fv.func, [fv.self_] + list(args), kwargs)
        if isinstance(fv, PyFn):
            return fv.fn(self, args, kwargs)
        if isinstance(fv, ClassV):
            return self.instantiate(fv, args, kwargs)
        if isinstance(fv, BoundM):
            return self.models.method(self, fv.obj, fv.name, args, kwargs)
        if isinstance(fv, Ext):
            return self.models.ext_call(self, fv.name, args, kwargs, fr)
        if isinstance(fv, T):
            return self.models.term_call(self, fv, args, kwargs)
        if isinstance(fv, AObj):
            f = self.find_method(fv, "__call__")
            if f:
                return self.call_func(f, [fv] + list(args), kwargs)
        if isinstance(fv, Native) and hasattr(fv, "call"):
            return fv.call(self, args, kwargs)
        if fv is None or isinstance(fv, (int, float, str, tuple, Heap)):
            raise Raised("TypeError", ("not callable",), True)
        raise Unsupported("call of %r" % (fv,))

    def instantiate(self, c, args, kwargs):
        for b in c.mro():
            if isinstance(b, Ext) and b.name.startswith("builtins.") and b.name[9:] in BUILTIN_EXC:
                return ExcObj(b.name[9:], tuple(args), c)
        hook = self.hooks.get(("instantiate", c.name))
        if hook is not None:
            return hook(self, c, args, kwargs)
        o = AObj(c)
        for b in c.mro():
            if isinstance(b, ClassV) and "__init__" in b.attrs:
                self.call_func(b.attrs["__init__"], [o] + list(args), kwargs)
                return o
        if args or kwargs:
            raise Raised("TypeError", ("no constructor arguments",), True)
        return o

    def call_func(self, f, args, kwargs):
        s = self.summaries.get(f.name)
        if s is not None:
            return s.fn(self, args, kwargs)
        memo = None
        for d in f.decorators:
            base = d.split("(")[0].split(".")[-1]
            if base in ("lru_cache", "cache"):
                for x in list(args) + list(kwargs.values()):
                    self.hashable(x)
                memo = (id(f.node), freeze(tuple(args)), freeze(tuple(sorted(kwargs.items()))))
                if memo in self.memo:
                    return self.memo[memo][0]
            elif base not in ("staticmethod", "classmethod", "property", "abstractmethod", "cached_property", "override", "final", "overload", "no_type_check"):
                raise Unsupported("decorator %s" % d)
        if memo is not None:
            r = self.call_plain(f, args, kwargs)
            self.memo[memo] = (r, args)
            return r
        return self.call_plain(f, args, kwargs)

    def call_plain(self, f, args, kwargs):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if len(args) > len(pos) and a.vararg is None:
            raise Raised("TypeError", ("too many arguments for %s" % f.name,), True)
        for n, v in zip(pos, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(pos):])
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = self.newdict()
        for k, v in kwargs.items():
            if k in pos and k not in [x.arg for x in a.posonlyargs]:
                if k in env:
                    raise Raised("TypeError", ("multiple values for %s" % k,), True)
                env[k] = v
            elif k in kwonly:
                env[k] = v
            elif a.kwarg is not None:
                self.dict_set(extra, k, v)
            else:
                raise Raised("TypeError", ("unexpected keyword %s for %s" % (k, f.name),), True)
        if a.kwarg is not None:
            env[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for n, d in zip(pos[len(pos) - nd:], f.defaults):
            env.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            env.setdefault(n, d)
        for n in pos + kwonly:
            if n not in env:
                raise Raised("TypeError", ("missing argument %s of %s" % (n, f.name),), True)
        if len(self.frames) > 60:
            raise Unsupported("recursion depth")
        fr = Frame(f, f.module, env, f.closure)
        if self.nesting is not None:
            d = 1 + sum(1 for x in self.frames if x.func is not None and getattr(x.func, "node", None) is f.node)
            if d > self.nesting.get((f.module.path, f.name), 0):
                self.nesting[f.module.path, f.name] = d
        self.funcs_seen.add((f.module.path, f.name, getattr(f.node, "lineno", 0)))
        if isinstance(f.node, ast.Lambda):
            self.frames.append(fr)
            try:
                return self.ev(f.node.body, fr)
            finally:
                self.frames.pop()
        gen = self.is_generator(f.node)
        if gen:
            fr.yields = self.newlist()
        self.frames.append(fr)
        try:
            self.block(f.node.body, fr)
            r = None
        except Ret as x:
            r = x.v
        finally:
            self.frames.pop()
            h = self.hooks.get("frame-exit")
            if h:
                h(self, fr)
        if gen:
            return AIter(fr.yields.items, fr.yields.muls)
        return r

    _gen_cache = {}

    def is_generator(self, node):
        k = id(node)
        if k not in self._gen_cache:
            found = False
            stack = list(node.body)
            while stack:
                x = stack.pop()
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    found = True
                    break
                stack.extend(ast.iter_child_nodes(x))
            self._gen_cache[k] = (found, node)
        return self._gen_cache[k][0]


class SuperV(Native):
    typename = "super"

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj

    def getattr(self, interp, name):
        mro = self.obj.cls.mro() if isinstance(self.obj, AObj) else self.cls.mro()
        i = mro.index(self.cls)
        for c in mro[i + 1:]:
            if isinstance(c, ClassV) and name in c.attrs:
                f = c.attrs[name]
                return Bound(f, self.obj) if isinstance(f, Func) else f
        if name == "__init__":
            return PyFn("object.__init__", lambda it, a, k: None)
        raise Raised("AttributeError", (name,), True)


class AttrsV(Native):
    """`obj.__dict__`: a live dictionary of the attributes of one object"""
    typename = "dict"

    def __init__(self, obj):
        self.obj = obj

    def as_dict(self, interp):
        d = interp.newdict()
        for k, v in self.obj.attrs.items():
            interp.dict_set(d, k, v)
        return d

    def name(self, k):
        if not isinstance(k, str):
            raise Unsupported("attribute name %r" % (k,))
        return k

    def contains(self, interp, k):
        return self.name(k) in self.obj.attrs

    def getitem(self, interp, k):
        if self.name(k) not in self.obj.attrs:
            raise Raised("KeyError", (k,), True)
        return self.obj.attrs[k]

    def setitem(self, interp, k, v):
        interp.setattr(self.obj, self.name(k), v)

    def iterate(self, interp):
        return list(self.obj.attrs)

    def length(self, interp):
        return len(self.obj.attrs)

    def truth(self, interp):
        return bool(self.obj.attrs)

    def getattr(self, interp, name):
        at = self.obj.attrs

        def setdefault(it, a, k):
            if self.name(a[0]) not in at:
                it.setattr(self.obj, a[0], a[1] if len(a) > 1 else None)
            return at[a[0]]

        def pop(it, a, k):
            if self.name(a[0]) in at:
                it.mutated(self.obj, a[0])
                return at.pop(a[0])
            if len(a) > 1:
                return a[1]
            raise Raised("KeyError", (a[0],), True)

        def update(it, a, k):
            d = it.newdict()
            for x in a:
                it.dict_update(d, x)
            for n, v in list(zip(d.keys, d.vals)) + list(k.items()):
                it.setattr(self.obj, self.name(n), v)
        fns = {"setdefault": setdefault, "pop": pop, "update": update,
               "get": lambda it, a, k: at.get(self.name(a[0]), a[1] if len(a) > 1 else None)}
        if name in fns:
            return PyFn(name, fns[name])
        if name in ("keys", "values", "items", "copy"):
            return interp.getattr(self.as_dict(interp), name)
        raise Unsupported("__dict__." + name)


def default_models():
    from . import models
    return models.Models()


class PathResult:
    def __init__(self, interp, outcome, undecided=None):
        self.interp, self.outcome, self.undecided = interp, outcome, undecided

    @property
    def decisions(self):
        return self.interp.notes


DEBUG = bool(os.environ.get("VERIF_DEBUG"))


def explore(make, run, max_paths=2000, deadline=None):
    """Interpret `run(interp)` on every partition.  `make(prefix)` builds a fresh interpreter.

    Yields PathResult; the last yielded has outcome None and undecided 'budget' when the budget was exhausted."""
    import time
    pending = [[]]
    n = 0
    while pending:
        prefix = pending.pop()
        n += 1
        if n > max_paths or (deadline is not None and time.time() > deadline):
            yield PathResult(None, None, "partition budget exhausted (%d pending)" % (len(pending) + 1))
            return
        it = make(prefix)
        und = None
        out = None
        try:
            out = ("return", run(it))
        except Raised as r:
            out = ("raise", r)
        except Unsupported as u:
            und = "no transfer function: %s" % u
        except Cut as c:
            und = "cut: %s" % c
        except RecursionError:
            und = "recursion"
        except (TypeError, AttributeError, LookupError, ArithmeticError, AssertionError, ValueError) as e:
            und = "internal error of the analysis: %s: %s" % (type(e).__name__, str(e)[:120])
            if DEBUG:
                raise
        for i in range(len(prefix), len(it.decisions)):
            pending.append(it.decisions[:i] + [not it.decisions[i]])
        yield PathResult(it, out, und)
