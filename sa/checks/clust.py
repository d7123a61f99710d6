"""Clustering algorithms under an arbitrary constraints manager: the common world of C09-C11, C15, C23, C24, C26-C28.

The manager is the declared interface of AbstractConstraintsManager and nothing else, its answers are those of a closed
relation over a few data IDs; vectors, distances and similarities are uninterpreted, so every comparison of distances
splits the trace.  Which distance is smaller is thus decided in every possible way, not computed."""
import itertools
from ..interp import Interp, explore, Unsupported, Raised, exc_isa
from ..models import Models, RandomStateModel
from ..npmodel import Opq
from ..project import Project, PKG
from ..report import AnalysisBroken, Part, parallel
from ..values import *
from .manager import Spec, ML, CL

ALGOS = {
    "kmeans": ("clustering.kmeans", "KMeansConstrainedClustering"),
    "hierarchical": ("clustering.hierarchical", "HierarchicalConstrainedClustering"),
    "spectral": ("clustering.spectral", "SpectralConstrainedClustering"),
    "dbscan": ("clustering.dbscan", "DBScanConstrainedClustering"),
    "affinity": ("clustering.affinity_propagation", "AffinityPropagationConstrainedClustering"),
    "mpckmeans": ("clustering.mpckmeans", "MPCKMeansConstrainedClustering"),
}


# ---------------------------------------------------------------------- any constraints manager
SIGN = {
    "get_list_of_managed_data_IDs": (), "add_data_ID": ("data_ID",), "delete_data_ID": ("data_ID",),
    "add_constraint": ("data_ID1", "data_ID2", "constraint_type", "constraint_value"), "delete_constraint": ("data_ID1", "data_ID2"),
    "get_added_constraint": ("data_ID1", "data_ID2"), "get_inferred_constraint": ("data_ID1", "data_ID2", "threshold"),
    "get_connected_components": ("threshold",), "check_completude_of_constraints": ("threshold",), "get_min_and_max_number_of_clusters": ("threshold",), "to_json": ("filepath",),
    "get_list_of_involved_data_IDs_in_a_constraint_conflict": ("data_ID1", "data_ID2", "constraint_type"),
}


class AnyManager(Native):
    typename = "any constraints manager"

    def __init__(self, spec, label="given"):
        self.spec, self.label = spec, label
        self._close()

    def _close(self):
        self.rel = self.spec.closure()

    def isinstance(self, c):
        return c.name in ("AbstractConstraintsManager", "ABC")

    def isext(self, full):
        return full in ("builtins.object", "abc.ABC")

    def clone(self, it):
        return AnyManager(self.spec.copy(), "copy")

    def setattr(self, it, name, value):
        it.events.append(("manager-write", (self, name), None))

    def getattr(self, it, name):
        if name == "__class__":
            raise Unsupported("class of the manager")
        if name in ("allowed_constraint_types", "allowed_constraint_value_range"):
            it.events.append(("manager-undeclared", (self, name), None))
            raise Raised("AttributeError", (name,), True)
        if name not in SIGN:
            it.events.append(("manager-undeclared", (self, name), None))
            raise Raised("AttributeError", (name,), True)

        def f(i, a, k):
            d = dict(zip(SIGN[name], a))
            if len(a) > len(SIGN[name]) or any(x not in SIGN[name] or x in d for x in k):
                i.events.append(("manager-undeclared", (self, name + " with undeclared arguments"), None))
                raise Raised("TypeError", (name,), True)
            d.update(k)
            return self.do(i, name, d)
        return PyFn(name, f)

    def need(self, *ids):
        for x in ids:
            if x not in self.spec.ids:
                raise Raised("ValueError", ("unmanaged ID",), False)

    def do(self, it, name, d):
        it.events.append(("manager", (self, name, tuple(d.values())), None))
        g = lambda n: d.get(n)
        need_args = [p for p in SIGN[name] if p not in d and p not in ("constraint_value", "threshold")]
        if need_args:
            raise Raised("TypeError", ("missing %s" % need_args,), True)
        for n in ("data_ID", "data_ID1", "data_ID2"):
            if n in d and not isinstance(d[n], Tok):
                if isinstance(d[n], T):
                    raise Unsupported("manager asked about %r" % (d[n],))
                raise Raised("ValueError", ("unmanaged ID",), False)
        if name == "get_list_of_managed_data_IDs":
            return AList(list(self.spec.ids), None, len(it.multstack))
        if name == "get_connected_components":
            seen, out = set(), []
            gr = self.spec.groups()
            for x in self.spec.ids:
                if id(gr[x]) not in seen:
                    seen.add(id(gr[x]))
                    out.append(AList([y for y in self.spec.ids if y in gr[x]]))
            return AList(out)
        if name in ("get_added_constraint", "get_inferred_constraint"):
            a, b = g("data_ID1"), g("data_ID2")
            self.need(a, b)
            if name == "get_inferred_constraint":
                return self.rel[a, b]
            t = self.spec.added.get(frozenset((a, b)))
            return None if t is None or a is b else (t, 1.0)
        if name == "check_completude_of_constraints":
            return all(self.rel[a, b] is not None for a in self.spec.ids for b in self.spec.ids)
        if name == "get_min_and_max_number_of_clusters":
            return (2, len(self.do(it, "get_connected_components", {}).items))
        if name == "get_list_of_involved_data_IDs_in_a_constraint_conflict":
            return None
        if d.get("threshold", 1.0) != 1.0:
            raise Unsupported("constraints below a threshold")
        if name == "to_json":
            return True
        op = {"add_data_ID": ("addid", g("data_ID")), "delete_data_ID": ("delid", g("data_ID")), "delete_constraint": ("del", g("data_ID1"), g("data_ID2")),
              "add_constraint": ("add", g("data_ID1"), g("data_ID2"), g("constraint_type"))}[name]
        it.events.append(("manager-mutator", (self, name), None))
        if not self.spec.apply(op):
            raise Raised("ValueError", (name,), False)
        self._close()
        return True


# ---------------------------------------------------------------------- library stand-ins
class SpectralModel(Native):
    typename = "SpectralClustering"

    def __init__(self, it, a, k):
        self.args, self.kw, self.fits = a, dict(k), []
        it.events.append(("estimator", self, None))
        self.attrs = {}

    def getattr(self, it, name):
        if name in ("fit", "fit_predict"):
            def f(i, a, k):
                x = k.get("X", a[0] if a else None)
                self.fits.append(x)
                snap = freeze(x)
                rows = len(x.rows) if isinstance(x, AMatrix) else None
                if rows is None:
                    self.labels = Opq(T("num:spectral.labels", freeze(x)))
                else:
                    self.labels = AList([T("label", snap, r, kind="int") for r in range(rows)])
                    self.labels.np = True
                i.events.append(("fit", (self, x, snap), None))
                return self.labels if name == "fit_predict" else self
            return PyFn(name, f)
        if name == "labels_":
            if not self.fits:
                raise Raised("AttributeError", (name,), True)
            return self.labels
        if name in self.attrs:
            return self.attrs[name]
        raise Unsupported("SpectralClustering." + name)

    def setattr(self, it, name, v):
        self.attrs[name] = v
        self.kw[name] = v


def models():
    m = Models()
    m.ext["sklearn.cluster.SpectralClustering"] = lambda it, a, k: SpectralModel(it, a, k)
    return m


# ---------------------------------------------------------------------- scenarios
NAMES = "abcdefghijklmnopqrstuvwxyz"


class Scen(dict):
    """algo, n, order (manager order as indices), ranks, added [(i, j, type)], nb, settings, perm, vorder, policy"""
    __getattr__ = dict.get

    def show(self):
        names = NAMES
        r = self.ranks
        n = lambda i: names[r[i]]
        s = "%s(%s) on IDs %s" % (self.algo, ", ".join("%s=%r" % kv for kv in sorted((self.settings or {}).items())), [n(i) for i in self.order])
        s += "; " + (", ".join("%s(%s,%s)" % ("MUST" if t == ML else "CANNOT", n(i), n(j)) for i, j, t in self.added) or "no constraint")
        s += "; nb_clusters=%r" % (self.nb,)
        if self.perm is not None:
            s += "; draw order %r" % (self.perm,)
        if self.tie:
            s += "; ties allowed"
        if self.hashed:
            s += "; order of hashed strings %r" % (self.hashed,)
        if self.dup:
            s += "; first and last data have the same vector"
        return s


def perm_fn(p):
    """a permutation given by a key: 'id', 'rev', 'rot'"""
    def f(items):
        l = list(items)
        if p == "rev":
            l.reverse()
        elif p == "rot":
            l = l[1:] + l[:1]
        elif p == "mid":
            l = l[::2] + l[1::2]
        return l
    return f


def no_ties(it, key):
    if key[0] == "==" and all(isinstance(x, T) for x in key[1:]) and all(numeric(x) for x in key[1:]):
        return False
    return None


def numeric(x):
    return isinstance(x, T) and (x.kind == "num" or x.op.startswith("num:"))


class CWorld:
    def __init__(self, project, scen, prefix=()):
        self.scen = scen
        self.it = it = Interp(project, prefix, models())
        it.while_bound = None
        names = NAMES
        self.toks = [Tok(names[r], r) for r in scen["ranks"]]
        self.extra = Tok("aa", -0.5)
        self.ids = [self.toks[i] for i in scen["order"]]
        spec = Spec(self.ids)
        for i, j, t in scen["added"]:
            if not spec.apply(("add", self.toks[i], self.toks[j], t)):
                raise AssertionError("scenario %s" % scen.show())
        self.mgr = AnyManager(spec)
        self.spec0 = spec.key()
        self.rel = dict(self.mgr.rel)
        it.shuffle_perm = perm_fn(scen.perm or "id")
        if scen.hashed:
            it.set_perm = perm_fn(scen.hashed)
        base = None if scen.tie else no_ties
        pol = scen.policy
        it.policy = (lambda i, k: (pol(i, k) if pol else None) if base is None or base(i, k) is None else base(i, k))
        self.vectors = self.make_vectors(scen.vorder)

    def vec(self, tok):
        if self.scen.dup and tok is self.toks[-1]:
            tok = self.toks[0]
        return T("vec", tok, kind="vec")

    def make_vectors(self, vorder=None):
        d = ADict()
        idx = list(range(len(self.toks)))
        if vorder == "manager":
            idx = list(self.scen["order"])
        elif vorder in ("rank", "rank only"):
            idx.sort(key=lambda i: self.toks[i].rank)
        elif vorder == "rot":
            idx = idx[1:] + idx[:1]
        else:
            idx = list(self.scen["order"])[::-1]
        seq = [self.toks[i] for i in idx]
        if vorder not in ("manager", "rank only", "reverse only"):
            seq.insert(1 if vorder == "rot" else 0, self.extra)
        for t in seq:
            self.it.dict_set(d, t, self.vec(t))
        return d

    def cls(self, algo=None):
        mod, name = ALGOS[algo or self.scen["algo"]]
        v = self.it.lookup_dotted(PKG + "." + mod + "." + name)
        if not isinstance(v, ClassV):
            raise AnalysisBroken("class %s not found" % name)
        return v

    def build(self):
        self.obj = self.it.instantiate(self.cls(), [], dict(self.scen.settings or {}))
        return self.obj

    def cluster(self, **over):
        kw = {"constraints_manager": self.mgr, "vectors": self.vectors, "nb_clusters": self.scen.nb}
        if self.scen.verbose is not None:
            kw["verbose"] = self.scen.verbose
        kw.update(over)
        return self.it.call(self.it.getattr(self.obj, "cluster"), [], kw)

    def loc(self, name="cluster"):
        for c in self.cls().mro():
            if isinstance(c, ClassV) and name in c.attrs:
                return "%s:%s.%s" % (c.module.path, c.name, name)
        return "%s.%s" % (self.cls().name, name)

    # labels of the managed IDs as values; None when not a dictionary over known IDs
    def labels(self, res):
        if not isinstance(res, ADict):
            return None
        return dict(zip(res.keys, [self.it.resolve(v) for v in res.vals]))


def relations(n, complete=True):
    """every closed relation over n IDs, given by added constraints (spanning chains, one cannot-link per pair of groups)"""
    def parts(items):
        if not items:
            yield []
            return
        first, rest = items[0], items[1:]
        for k in range(len(rest) + 1):
            for c in itertools.combinations(rest, k):
                left = [x for x in rest if x not in c]
                for p in parts(left):
                    yield [[first] + list(c)] + p
    for p in parts(list(range(n))):
        ml = [(g[i], g[i + 1], ML) for g in p for i in range(len(g) - 1)]
        pairs = list(itertools.combinations(range(len(p)), 2))
        for bits in itertools.product((0, 1), repeat=len(pairs)):
            cl = [(p[a][-1], p[b][0], CL) for (a, b), x in zip(pairs, bits) if x]
            yield ml + cl


def scramble(n, k):
    """manager order and ranks that disagree"""
    orders = {1: [(0,)], 2: [(1, 0), (0, 1)], 3: [(1, 2, 0), (0, 2, 1), (2, 1, 0)], 4: [(2, 0, 3, 1), (1, 3, 0, 2), (3, 2, 1, 0)], 5: [(3, 0, 4, 1, 2), (1, 4, 2, 0, 3)]}[n]
    return orders[k % len(orders)]


def sc(algo, n, added, nb=2, settings=None, k=0, **kw):
    return Scen(algo=algo, n=n, order=list(range(n)), ranks=list(scramble(n, k)), added=list(added), nb=nb, settings=settings or {}, **kw)


def paths(project, scen, run=None, max_paths=400, deadline=None):
    """(world, PathResult) of every partition of one scenario"""
    box = {}

    def make(prefix):
        w = CWorld(project, scen, prefix)
        box["w"] = w
        return w.it

    def go(it):
        w = box["w"]
        if run is not None:
            return run(w)
        w.build()
        return w.cluster()
    for pr in explore(make, go, max_paths, deadline):
        yield (box["w"] if pr.interp is not None else None), pr


USABLE = {"ok", "num"}


def usable(it):
    return it.categories() <= USABLE


def decisions(it, limit=14):
    return "; ".join("%s%s" % ("" if c else "not ", d) for d, _, c in it.notes[:limit])
