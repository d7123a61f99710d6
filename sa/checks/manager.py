"""Constraints manager: properties C01-C08.

The abstract state of a manager is its heap (dictionaries, sharing included) over data IDs of which only identity and
order are known.  States are only ever produced by the transfer functions of the analysed constructor and methods, so
every analysed state is reachable; the set of abstract states over a few IDs is closed under all operations (fixpoint),
larger configurations (two groups, their cannot-linked groups, bystanders, groups of unknown size) are reached by
scripts.  In each state the answers of the queries are compared with the closure computed from the added constraints.
"""
import itertools
from ..interp import Interp, explore, Unsupported, Raised, exc_isa
from ..models import Models
from ..project import Project, PKG
from ..report import AnalysisBroken, Part, parallel
from ..values import *

ML, CL = "MUST_LINK", "CANNOT_LINK"
MAN = "BinaryConstraintsManager"


# ---------------------------------------------------------------------- the specification
class Spec:
    def __init__(self, ids):
        self.ids, self.added = list(ids), {}

    def copy(self):
        s = Spec(self.ids)
        s.added = dict(self.added)
        return s

    def groups(self):
        g = {i: {i} for i in self.ids}
        for p, t in self.added.items():
            if t == ML:
                a, b = tuple(p)
                if g[a] is not g[b]:
                    u = g[a] | g[b]
                    for x in u:
                        g[x] = u
        return g

    def closure(self):
        g = self.groups()
        r = {}
        for a in self.ids:
            for b in self.ids:
                r[a, b] = ML if b in g[a] else None
        for p, t in self.added.items():
            if t == CL:
                a, b = tuple(p)
                for x in g[a]:
                    for y in g[b]:
                        r[x, y] = r[y, x] = CL
        return r

    def apply(self, op):
        """True when accepted"""
        k = op[0]
        if k == "add":
            _, a, b, t = op
            if a not in self.ids or b not in self.ids or t not in (ML, CL):
                return False
            c = self.closure()[a, b]
            if c is not None and c != t:
                return False
            if a != b:
                self.added.setdefault(frozenset((a, b)), t)
            return True
        if k == "del":
            _, a, b = op
            if a not in self.ids or b not in self.ids:
                return False
            self.added.pop(frozenset((a, b)), None)
            return True
        if k == "addid":
            if op[1] in self.ids:
                return False
            self.ids.append(op[1])
            return True
        if k == "delid":
            if op[1] not in self.ids:
                return False
            self.ids.remove(op[1])
            self.added = {p: t for p, t in self.added.items() if op[1] not in p}
            return True
        raise AssertionError(k)

    def key(self):
        return (tuple(self.ids), tuple(sorted(((tuple(sorted(p, key=repr)), t) for p, t in self.added.items()), key=repr)))


# ---------------------------------------------------------------------- graph library: transfer function
class GraphModel(Native):
    typename = "networkx.Graph"

    def __init__(self):
        self.adj = {}

    def add(self, x):
        self.adj.setdefault(x, [])

    def getattr(self, it, name):
        def nodes(i, a, k):
            for x, _ in i.iter_items(a[0]):
                self.add(x)

        def edges(i, a, k):
            for e, _ in i.iter_items(a[0]):
                x, y = i.unpack(e, 2)[:2]
                self.edge(x, y)
        if name == "add_nodes_from":
            return PyFn(name, nodes)
        if name == "add_edges_from":
            return PyFn(name, edges)
        if name == "add_node":
            return PyFn(name, lambda i, a, k: self.add(a[0]))
        if name == "add_edge":
            return PyFn(name, lambda i, a, k: self.edge(a[0], a[1]))
        if name == "number_of_nodes" or name == "order" or name == "__len__":
            return PyFn(name, lambda i, a, k: len(self.adj))
        if name == "number_of_edges":
            return PyFn(name, lambda i, a, k: sum(len(set(v)) for v in self.adj.values()) // 2)
        if name == "has_edge":
            return PyFn(name, lambda i, a, k: a[1] in self.adj.get(a[0], ()))
        if name == "has_node":
            return PyFn(name, lambda i, a, k: a[0] in self.adj)
        if name == "neighbors":
            return PyFn(name, lambda i, a, k: AList(list(dict.fromkeys(self.adj[a[0]]))))
        if name == "nodes":
            return Called(AList(list(self.adj)))
        if name == "edges":
            seen = []
            for x in self.adj:
                for y in self.adj[x]:
                    if (y, x) not in seen and (x, y) not in seen:
                        seen.append((x, y))
            return Called(AList(seen))
        if name == "degree":
            return Degrees(self)
        if name in ("subgraph", "copy"):
            def sub(i, a, k):
                keep = [x for x, _ in i.iter_items(a[0])] if name == "subgraph" else list(self.adj)
                g = GraphModel()
                g.adj = {x: [y for y in ys if y in keep] for x, ys in self.adj.items() if x in keep}
                return g
            return PyFn(name, sub)
        if name in ("remove_node", "remove_nodes_from"):
            def remove(i, a, k):
                for x in ([a[0]] if name == "remove_node" else [y for y, _ in i.iter_items(a[0])]):
                    self.adj.pop(x, None)
                    for y in self.adj:
                        self.adj[y] = [z for z in self.adj[y] if z != x]
            return PyFn(name, remove)
        raise Unsupported("graph." + name)

    def iterate(self, it):
        return list(self.adj)

    def length(self, it):
        return len(self.adj)

    def contains(self, it, x):
        return x in self.adj

    def getitem(self, it, x):
        return AList(list(dict.fromkeys(self.adj[x])))

    def edge(self, x, y):
        self.add(x), self.add(y)
        self.adj[x].append(y)
        self.adj[y].append(x)


class Called(Native):
    """a view that may be called or used directly (nodes, edges)"""
    typename = "view"

    def __init__(self, items):
        self.items = items

    def call(self, it, a, k):
        if a or k:
            raise Unsupported("view with arguments")
        return self.items

    def iterate(self, it):
        return list(self.items.items)

    def length(self, it):
        return len(self.items.items)

    def contains(self, it, x):
        return it.contains(self.items, x)


class Degrees(Native):
    typename = "degrees"

    def __init__(self, g):
        self.g = g

    def deg(self, x):
        return len(set(self.g.adj[x])) + (1 if x in self.g.adj[x] else 0)

    def call(self, it, a, k):
        return self.deg(a[0]) if a else self

    def getitem(self, it, x):
        return self.deg(x)

    def iterate(self, it):
        return [(x, self.deg(x)) for x in self.g.adj]


def components(it, a, k):
    g = a[0] if a else k["G"]
    if not isinstance(g, GraphModel):
        raise Unsupported("connected_components")
    out, seen = [], set()
    for x in g.adj:
        if x in seen:
            continue
        s, todo = it.newset(), [x]
        while todo:
            y = todo.pop(0)
            if y in seen:
                continue
            seen.add(y)
            it.set_add(s, y)
            todo.extend(g.adj[y])
        out.append(s)
    return AList(out)


def first_fit(adj, order):
    col = {}
    for x in order:
        used = {col[y] for y in adj[x] if y in col}
        c = 0
        while c in used:
            c += 1
        col[x] = c
    return col


def best_colouring(adj):
    """a proper colouring with the fewest colours"""
    order = sorted(adj, key=lambda x: -len(set(adj[x])))
    if any(x in adj[x] for x in adj):
        raise Unsupported("graph with a loop")
    for k in range(1, len(order) + 1):
        col = {}

        def go(i):
            if i == len(order):
                return True
            x = order[i]
            for c in range(min(k, max(col.values(), default=-1) + 2)):
                if all(col.get(y) != c for y in adj[x]):
                    col[x] = c
                    if go(i + 1):
                        return True
                    del col[x]
            return False
        if go(0):
            return {x: col[x] for x in adj}
    return {}


def colour(adj, mode):
    if mode == "best":
        return best_colouring(adj)
    linked = [x for x in adj if adj[x]]
    alone = [x for x in adj if not adj[x]]
    if mode == "worst" and len(linked) <= 6:
        orders = itertools.permutations(linked)
    elif mode == "worst":
        orders = (linked[i:] + linked[:i] for i in range(len(linked)))
    elif mode == "reverse":
        orders = [linked[::-1]]
    else:
        return first_fit(adj, list(adj))
    cols = [first_fit(adj, list(o) + alone) for o in orders]
    return max(cols, key=lambda c: max(c.values(), default=-1))


def greedy(it, a, k):
    """greedy_color: some proper colouring; which one is a setting of the analysis"""
    g = a[0] if a else k["G"]
    if not isinstance(g, GraphModel):
        raise Unsupported("greedy_color")
    d = it.newdict()
    mode = getattr(it, "colouring", "first")
    if isinstance(mode, int):
        # the colouring of this number is the best one
        it.colourings = getattr(it, "colourings", 0) + 1
        it.coloured = getattr(it, "coloured", set()) | {(len(g.adj), sum(map(len, g.adj.values())))}
        mode = "best" if it.colourings == mode else "worst"
    for x, c in colour(g.adj, mode).items():
        it.dict_set(d, x, c)
    return d


def new_graph(it, a, k):
    g = GraphModel()
    if a and a[0] is not None:
        for e, _ in it.iter_items(a[0]):
            x, y = it.unpack(e, 2)[:2]
            g.edge(x, y)
    return g


def models():
    m = Models()
    m.ext["networkx.Graph"] = new_graph
    m.ext["networkx.coloring.greedy_color"] = greedy
    m.ext["networkx.greedy_color"] = greedy
    m.ext["networkx.connected_components"] = components
    m.ext["networkx.algorithms.components.connected_components"] = components
    m.ext["networkx.algorithms.coloring.greedy_color"] = greedy
    return m


# ---------------------------------------------------------------------- running scripts
class World:
    def __init__(self, project, uni, init, prefix=()):
        self.it = Interp(project, prefix, models())
        self.it.lazy = all(u[2] is None for u in uni)
        self.toks = [Tok(n, r, None if m is None else Lin(0, [(m, 1)])) for n, r, m in uni]
        self.init_list = AList([self.toks[i] for i in init], self.init_muls(init))
        cls = self.find_class()
        self.m = self.it.instantiate(cls, [], {"list_of_data_IDs": self.init_list})

    def sibling(self, init):
        """second manager over the same IDs in the same partition"""
        import copy
        w = copy.copy(self)
        w.init_list = AList([self.toks[i] for i in init], self.init_muls(init))
        w.m = self.it.instantiate(self.find_class(), [], {"list_of_data_IDs": w.init_list})
        return w

    def init_muls(self, init):
        ms = [self.toks[i].mult for i in init]
        return [1 if m is None else m for m in ms] if any(m is not None for m in ms) else None

    def find_class(self):
        v = self.it.lookup_dotted(PKG + ".constraints.binary." + MAN)
        if not isinstance(v, ClassV):
            raise AnalysisBroken("class %s not found" % MAN)
        return v

    def call(self, name, *args, **kw):
        return self.it.call(self.it.getattr(self.m, name), list(args), kw)

    def do(self, op):
        """('ok', value) or ('raise', exception name)"""
        k = op[0]
        t = lambda i: self.toks[i]
        try:
            if k == "add":
                return "ok", self.call("add_constraint", t(op[1]), t(op[2]), op[3])
            if k == "del":
                return "ok", self.call("delete_constraint", t(op[1]), t(op[2]))
            if k == "addid":
                return "ok", self.call("add_data_ID", t(op[1]))
            if k == "delid":
                return "ok", self.call("delete_data_ID", t(op[1]))
        except Raised as r:
            return "raise", r
        raise AssertionError(op)

    def query(self, name, *args):
        try:
            return "ok", self.call(name, *args)
        except Raised as r:
            return "raise", r.name

    # observable answers, as plain Python data over token indices
    def plain(self, v, unordered=False):
        if isinstance(v, Tok):
            return self.toks.index(v)
        if isinstance(v, AList):
            if v.muls is not None:
                raise Unsupported("list over classes of IDs")
            r = [self.plain(x, unordered) for x in v.items]
            return ("list",) + tuple(sorted(r, key=repr) if unordered else r)
        if isinstance(v, ASet):
            return ("set",) + tuple(sorted((self.plain(x, unordered) for x in v.d.keys), key=repr))
        if isinstance(v, tuple):
            return ("tuple",) + tuple(self.plain(x, unordered) for x in v)
        if isinstance(v, ADict):
            r = [(self.plain(a, unordered), self.plain(b, unordered)) for a, b in zip(v.keys, v.vals)]
            return ("dict",) + tuple(sorted(r, key=repr) if unordered else r)
        if v is None or isinstance(v, (bool, int, float, str)):
            return v
        if isinstance(v, T) and v.op.startswith("idop:"):
            return ("changed-id", repr(v))
        raise Unsupported("answer %r" % (v,))

    def ids(self):
        return self.query("get_list_of_managed_data_IDs")

    def observe(self, live, bounds=True, unordered=False, conflicts=False):
        """all answers about the IDs of `live` (indices)"""
        out = {}
        o, v = self.ids()
        if all(t.mult is None for t in self.toks):
            out["managed IDs"] = (o, self.plain(v, unordered))
        for a in live:
            for b in live:
                o, v = self.query("get_added_constraint", self.toks[a], self.toks[b])
                out["added", a, b] = (o, self.plain(v))
                o, v = self.query("get_inferred_constraint", self.toks[a], self.toks[b])
                out["inferred", a, b] = (o, self.plain(v))
                if conflicts:
                    for t in (ML, CL):
                        o, v = self.query("get_list_of_involved_data_IDs_in_a_constraint_conflict", self.toks[a], self.toks[b], t)
                        out["conflict", a, b, t] = (o, self.plain(v, unordered))
        if all(t.mult is None for t in self.toks):
            o, v = self.query("get_connected_components")
            out["groups"] = (o, self.plain(v, unordered))
            o, v = self.query("check_completude_of_constraints")
            out["complete"] = (o, self.plain(v))
            if bounds and live:
                o, v = self.query("get_min_and_max_number_of_clusters")
                if o == "ok":
                    v = v[1] if isinstance(v, tuple) and len(v) == 2 else v
                out["maximum number of clusters"] = (o, self.plain(v))
        return out

    # abstract heap of the manager, sharing included
    def snapshot(self):
        seen = {}

        def walk(v):
            if isinstance(v, Tok):
                return ("id", self.toks.index(v)) if v in self.toks else ("id", v.name)
            if isinstance(v, tuple):
                return ("t",) + tuple(walk(x) for x in v)
            if isinstance(v, (AList, ADict, ASet, AObj)):
                if id(v) in seen:
                    return ("ref", seen[id(v)])
                seen[id(v)] = len(seen)
                if isinstance(v, AList):
                    return ("l",) + tuple(walk(x) for x in v.items)
                if isinstance(v, ADict):
                    return ("d",) + tuple((walk(a), walk(b)) for a, b in zip(v.keys, v.vals))
                if isinstance(v, ASet):
                    return ("s",) + tuple(sorted((walk(x) for x in v.d.keys), key=repr))
                return ("o",) + tuple((a, walk(x)) for a, x in sorted(v.attrs.items()))
            if isinstance(v, T) or v is None or isinstance(v, (bool, int, float, str, Lin)):
                return (type(v).__name__, v)
            return ("x", id(v))
        return walk(self.m)

    def loc(self, name):
        """file:function of a public method"""
        for c in self.m.cls.mro():
            if isinstance(c, ClassV) and name in c.attrs:
                return "%s:%s.%s" % (c.module.path, c.name, name)
        return name


OPNAME = {"add": "add_constraint", "del": "delete_constraint", "addid": "add_data_ID", "delid": "delete_data_ID"}


def show(case, ops=None):
    uni, init, script = case[:3]
    n = lambda i: uni[i][0]
    s = ["IDs %s (alphabetical order %s)" % ([n(i) for i in init], "<".join(u[0] for u in sorted(uni, key=lambda u: u[1])))]
    for op in script:
        if op[0] == "add":
            s.append("add(%s,%s,%s)" % (n(op[1]), n(op[2]), op[3][0:6]))
        elif op[0] == "del":
            s.append("delete(%s,%s)" % (n(op[1]), n(op[2])))
        else:
            s.append("%s(%s)" % (op[0], n(op[1])))
    return "; ".join(s)


# ---------------------------------------------------------------------- cases
def uni_plain(k, ranks=None):
    names = "abcdefghijklmnopqrstuvwxyz"
    ranks = ranks or list(range(k))
    return [(names[r], r, None) for r in ranks]


def closed_states(project, uni, init, ops, limit, spare=()):
    """abstract states reachable from the constructor, closed under `ops` (breadth first, one script per state)"""
    seen = {}
    queue = [((), Spec(init))]
    truncated = 0
    und = {}
    w = World(project, uni, init)
    seen[w.snapshot(), Spec(init).key()] = ()
    i = 0
    while i < len(queue):
        script, spec = queue[i]
        i += 1
        if len(seen) >= limit:
            truncated += 1
            continue
        for op in ops:
            s2 = spec.copy()
            if not s2.apply(op):
                continue
            try:
                w = World(project, uni, init)
                for o in script + (op,):
                    r = w.do(o)
                    if r[0] != "ok":
                        break
                else:
                    if w.it.decisions:
                        continue
                    key = (w.snapshot(), s2.key())
                    if key not in seen:
                        seen[key] = script + (op,)
                        queue.append((script + (op,), s2))
            except Unsupported as u:
                und[str(u)] = und.get(str(u), 0) + 1
            if len(seen) >= limit:
                break
    return list(seen.values()), truncated, und


def all_ops(n, adds=True, dels=True, ids=True, ordered=True):
    out = []
    for a in range(n):
        for b in range(n):
            if a == b or (not ordered and a > b):
                continue
            if adds:
                out += [("add", a, b, ML), ("add", a, b, CL)]
            if dels:
                out.append(("del", a, b))
    if ids:
        for a in range(n):
            out += [("delid", a), ("addid", a)]
    return out


def scenario_cases(classes=False, thorough=False):
    """two groups A (of a) and B (of b) about to be related, groups cannot-linked to them, bystanders"""
    out = []
    # roles: 0=a 1=b then optional others
    shapes = []
    for na, nb in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1)) if not thorough else ((0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (2, 1), (1, 2), (2, 2)):
        for ca in (None, 0, 1):             # a group cannot-linked to A: absent, single, pair
            for cb in (None, 0, 1):
                for cab in (None, 0, 1):    # a group cannot-linked to both
                    for by in (0, 1):
                        if not thorough and (cab == 1 and (ca == 1 or cb == 1)):
                            continue
                        shapes.append((na, nb, ca, cb, cab, by))
    for shape in shapes:
        for via in (0, 1):                  # cannot-links attached to the named ID or to another member of its group
            for early in (0, 1):            # cannot-links added before or after the groups were formed
                if early and not thorough and via:
                    continue
                c = build_scenario(shape, via, early, classes)
                if c is not None:
                    out.append(c)
    seen, res = set(), []
    for c in out:
        k = repr(c)
        if k not in seen:
            seen.add(k)
            res.append(c)
    return res


def many_cases(n=17):
    """managers of many IDs: long chains, wide groups, one ID cannot-linked to many; the last ID is spare and may be added"""
    out = []
    for perm in (0, 1):
        uni = uni_plain(n + 1, [(5 * i + 3) % (n + 1) if perm else i for i in range(n + 1)])
        init = list(range(n))
        chain = tuple(("add", i, i + 1, ML) if i % 2 else ("add", i + 1, i, ML) for i in range(7))
        star = tuple(("add", 8, j, ML) for j in range(9, 13))
        between = (("add", 3, 10, CL), ("add", 13, 6, CL), ("add", 14, 13, ML))
        fan = tuple(("add", n - 1, j, CL) for j in range(n - 1) if j % 4 != 1)
        wide = tuple(("add", 0, j, ML) for j in range(1, n - 2)) + (("add", n - 2, 4, CL),)
        pairs = tuple(("add", j, j + 1, ML) for j in range(0, n - 1, 2)) + tuple(("add", j, j + 3, CL) for j in range(0, n - 3, 2))
        wide2 = wide[:-1] + (("add", 4, n - 2, CL),)
        # all pairs related but the last two IDs; then those too
        nearly = wide + (("add", 4, n - 1, CL),)
        sets = [chain + star + between, between + star[::-1] + chain[::-1], fan + chain, wide, pairs, wide2, nearly, nearly + (("add", n - 1, n - 2, CL),)]
        for k, s in enumerate(sets):
            if perm and k in (1, 3, 5, 6, 7):
                continue
            out.append((uni, init, s, n))
    return out


def many_last():
    """the last operation on such a manager"""
    for uni, init, s, n in many_cases():
        a = s[0][1]
        first, last = s[0], s[-1]
        yield uni, init, s
        yield uni, init, s + (("addid", n), ("add", n, a, ML))
        yield uni, init, s + (("addid", n), ("add", n - 1, n, CL))
        yield uni, init, s + (("del", first[2], first[1]),)
        yield uni, init, s + (("del", last[1], last[2]),)
        yield uni, init, s + (("delid", a),)
        yield uni, init, s + (("delid", n - 1),)
        yield uni, init, s + (("delid", 2), ("addid", n), ("add", n, 5, CL))


def build_scenario(shape, via, early, classes):
    na, nb, ca, cb, cab, by = shape
    names = ["x", "y"]
    members = {"A": [0], "B": [1]}
    mult = [None, None]

    def new(n, m=None):
        names.append(n)
        mult.append(m)
        return len(names) - 1
    for i in range(na):
        members["A"].append(new("a%d" % i, "mA" if classes and i == na - 1 else None))
    for i in range(nb):
        members["B"].append(new("b%d" % i, "mB" if classes and i == nb - 1 else None))
    extra = []
    for tag, spec, on in (("p", ca, "A"), ("q", cb, "B"), ("r", cab, "AB")):
        if spec is None:
            continue
        g = [new(tag + str(i), ("m" + tag) if classes and i == spec and i else None) for i in range(spec + 1)]
        extra.append((g, on))
    bys = []
    if by:
        g = [new("z0"), new("z1")]
        bys.append(g)
    if len(names) > 10:
        return None
    grp, cls = [], []
    for g in [members["A"], members["B"]] + [g for g, _ in extra]:
        for i in range(1, len(g)):
            grp.append(("add", g[i - 1] if via else g[0], g[i], ML))
    for g, on in extra:
        for side in on:
            tgt = members[side][-1] if via else members[side][0]
            cls.append(("add", g[-1] if via else g[0], tgt, CL))
    for g in bys:
        grp.append(("add", g[0], g[1], CL))
    script = (cls + grp) if early else (grp + cls)
    n = len(names)
    # alphabetical ranks: a fixed scrambled order, different for via/early, so that both orders of every role pair occur
    order = sorted(range(n), key=lambda i: ((i * 7 + 3 * via + 5 * early + na + 2 * nb) % (n + 3), i))
    rank = {i: k for k, i in enumerate(order)}
    uni = [(names[i], rank[i], mult[i]) for i in range(n)]
    init = sorted(range(n), key=lambda i: ((i * 5 + early * 2 + nb) % (n + 2), i))
    return (uni, init, tuple(script))


# ---------------------------------------------------------------------- generic driver
def drive(check, project, cases, body, max_paths=64):
    """body(part, world, case) is interpreted on every partition of every case"""
    def work(chunk):
        part = Part()
        for case in chunk:
            uni, init, script = case[:3]
            done = []

            def run(it_holder):
                return None
            pending = [[]]
            n = 0
            while pending:
                prefix = pending.pop()
                n += 1
                if n > max_paths:
                    part.und("partition budget")
                    break
                w = None
                try:
                    w = World(project, uni, init, prefix)
                    part["evaluations"] += 1
                    body(part, w, case)
                except Unsupported as u:
                    part.und("no transfer function: %s" % u)
                except Raised as r:
                    part.und("construction refused: %s" % r.name)
                except RecursionError:
                    part.und("recursion")
                except AnalysisBroken:
                    raise
                except Exception as e:
                    import traceback
                    part.und("internal error of the analysis: %s" % " / ".join(traceback.format_exc().strip().splitlines()[-3:])[:300])
                if w is not None:
                    for i in range(len(prefix), len(w.it.decisions)):
                        pending.append(w.it.decisions[:i] + [not w.it.decisions[i]])
                    part["functions"].update((f[0], f[1]) for f in w.it.funcs_seen)
        return part
    parallel(check, work, cases)


def understood(w):
    return w.it.categories() <= {"ok"}


def where(w):
    d = ["%s is %s" % (a, c) for a, _, c in w.it.notes]
    return (" when " + " and ".join(d[:6])) if d else ""


def replay(w, case, spec):
    """apply the script; False when the analysed code departs from the specified acceptance (another property's matter)"""
    for op in case[2]:
        ok = spec.apply(op)
        r = w.do(op)
        if (r[0] == "ok") != ok:
            return False
        if not ok:
            return False
    return True


def check_inferred(part, w, case, spec, rule, fn):
    want = spec.closure()
    for (a, b), exp in want.items():
        o, v = w.query("get_inferred_constraint", w.toks[a], w.toks[b])
        got = v if o == "ok" else "error " + str(v)
        part.count("inferred_answers_compared")
        if isinstance(got, T):
            raise Unsupported("inferred answer %r" % got)
        if got != exp:
            if not understood(w):
                part.und("depends on an uninterpreted condition")
                return False
            part.violation(rule, w.loc(fn), "%s%s: get_inferred_constraint(%s, %s) answers %s, closure of the added constraints is %s" % (
                show(case), where(w), w.toks[a].name, w.toks[b].name, got, exp), show(case))
            return False
    return True


def check_added(part, w, case, spec, rule, fn):
    for a in spec.ids:
        for b in spec.ids:
            if a == b:
                continue
            o, v = w.query("get_added_constraint", w.toks[a], w.toks[b])
            exp = spec.added.get(frozenset((a, b)))
            got = v[0] if o == "ok" and isinstance(v, tuple) and len(v) == 2 else (v if o == "ok" else "error " + str(v))
            part.count("added_answers_compared")
            if isinstance(got, T):
                raise Unsupported("added answer %r" % got)
            if got != exp:
                if not understood(w):
                    part.und("depends on an uninterpreted condition")
                    return False
                part.violation(rule, w.loc(fn), "%s%s: get_added_constraint(%s, %s) answers %r, expected %r" % (
                    show(case), where(w), w.toks[a].name, w.toks[b].name, got, exp), show(case))
                return False
    return True


def check_ids(part, w, case, spec, rule, fn):
    o, v = w.ids()
    got = w.plain(v) if o == "ok" and all(t.mult is None for t in w.toks) else None
    if got is None:
        return True
    if sorted(got[1:], key=repr) != sorted(spec.ids, key=repr):
        if not understood(w):
            part.und("depends on an uninterpreted condition")
            return False
        part.violation(rule, w.loc(fn), "%s%s: managed IDs are %s, expected %s" % (show(case), where(w), [w.toks[i].name if isinstance(i, int) else i for i in got[1:]], [w.toks[i].name for i in spec.ids]), show(case))
        return False
    return True


def base_states(check, project, n, inits, ops, limit, note):
    """closed sets of states for several initial orders, in parallel"""
    res = []

    def work(chunk):
        part = Part()
        part["states"] = []
        for uni, init in chunk:
            st, trunc, und = closed_states(project, uni, init, ops, limit)
            part["states"].append((uni, init, st, trunc))
            for k, v in und.items():
                part.und("no transfer function: " + k, v)
            part.count(note + "_abstract_states", len(st))
            if trunc:
                part.count(note + "_truncated_frontier", trunc)
        return part

    import sa.report as R
    items = inits
    old = check.absorb

    def absorb(p):
        res.extend(p.pop("states", []))
        old(p)
    check.absorb = absorb
    try:
        parallel(check, work, items, chunk=1)
    finally:
        check.absorb = old
    res.sort(key=lambda r: repr(r[:2]))
    return res


def inits3():
    out = []
    for ranks in itertools.permutations(range(3)):
        out.append((uni_plain(3, list(ranks)), [0, 1, 2]))
    return out


def inits4(thorough):
    perms = list(itertools.permutations(range(4)))
    sel = perms if thorough else [perms[0], perms[9], perms[17], perms[23]]
    return [(uni_plain(4, list(r)), [0, 1, 2, 3]) for r in sel]


def project_of(check):
    p = Project()
    if p.errors:
        raise AnalysisBroken("; ".join(p.errors))
    return p
