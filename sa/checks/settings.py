"""C17 (validation of settings) and C18 (factories): settings are symbols, every test on them splits the trace, and each
part of the value space that is accepted or refused is compared with the documented range."""
import itertools
from ..interp import Interp, Cut, Unsupported, explore, exc_isa
from ..models import Models
from ..project import Project, PKG
from ..report import AnalysisBroken
from ..values import *
from .clust import *
from .clust_props import EPS, R3
from .manager import ML, CL, Spec
from .relational import Order, canonical
from .sampling import SWorld, SScen, ss, SAME, DIFF, NEAR, FAR, got, told_sample

CLASSES = dict(ALGOS, sampler=("sampling.clusters_based", "ClustersBasedConstraintsSampling"))


# ---------------------------------------------------------------------- documented ranges
class Dom:
    """accept(it, x), refuse(it, x): is every value of x on this partition to be accepted / refused"""


class AtLeast(Dom):
    def __init__(self, lo):
        self.lo, self.kind = lo, "int"

    def accept(self, it, x):
        return it.facts.known_lt(x, self.lo) is False

    def refuse(self, it, x):
        return it.facts.known_lt(x, self.lo) is True

    values = property(lambda s: [(s.lo, True), (s.lo - 1, False), (s.lo - 4, False), (s.lo + 1, True), (10 ** 6, True)])
    text = property(lambda s: "at least %d" % s.lo)


class Positive(Dom):
    kind, text = "num", "greater than 0"

    def accept(self, it, x):
        return it.facts.known_lt(0, x) is True

    def refuse(self, it, x):
        return it.facts.known_lt(0, x) is False
    values = [(1e-9, True), (0.5, True), (1, True), (7.5, True), (0, False), (0.0, False), (-0.5, False)]


class NotNegative(Dom):
    """0 itself: the check and its message disagree, nothing is claimed"""
    kind, text = "num", "not negative (0 left open)"

    def accept(self, it, x):
        return it.facts.known_le(0, x) is True

    def refuse(self, it, x):
        return it.facts.known_le(x, 0) is True
    values = [(1e-9, True), (0.5, True), (3, True), (-1e-9, False), (-1, False), (-2.5, False)]


class Names(Dom):
    kind = "str"

    def __init__(self, names, none=False):
        self.names, self.none = tuple(names), none

    text = property(lambda s: "one of %s" % ", ".join(map(repr, s.names + ((None,) if s.none else ()))))

    def accept(self, it, x):
        c = it.facts.const_of(x)
        return c is not None and c[1] in self.names

    def refuse(self, it, x):
        return all(it.facts.known_eq(x, n) is False for n in self.names)

    @property
    def values(self):
        out = [(n, True) for n in self.names] + [("", False), ("unknown", False), ("None", False)]
        for n in self.names:
            out += [(v, False) for v in (n.upper(), n.lower(), n + " ", n[:-1], n + "s", n.title()) if v not in self.names]
        out += [(None, self.none), (0, False), (3, False)]
        return out


class Flag(Dom):
    kind, text = "bool", "a boolean"

    def accept(self, it, x):
        return True

    def refuse(self, it, x):
        return False
    values = [(True, True), (False, True), (None, False), (0, False), (1, False), ("True", False), ("", False), (1.0, False)]


class OptAtLeast(AtLeast):
    @property
    def values(self):
        return AtLeast.values.fget(self) + [(None, True)]


SETTINGS = {
    "kmeans": dict(model=Names(["COP"]), max_iteration=AtLeast(1), tolerance=NotNegative()),
    "hierarchical": dict(linkage=Names(["ward", "average", "complete", "single"])),
    "spectral": dict(model=Names(["SPEC"]), nb_components=OptAtLeast(2)),
    "dbscan": dict(eps=Positive(), min_samples=AtLeast(1)),
    "affinity": dict(max_iteration=AtLeast(1), convergence_iteration=AtLeast(1)),
    "mpckmeans": dict(model=Names(["MPC"]), max_iteration=AtLeast(1), w=NotNegative()),
    "sampler": dict(clusters_restriction=Names([SAME, DIFF], True), distance_restriction=Names([NEAR, FAR], True), without_added_constraints=Flag(), without_inferred_constraints=Flag()),
}


def sym(name, dom):
    return T("sym", name, kind=dom.kind)


def init_world(project, algo, settings, prefix=()):
    s = ss(2, [], 1, settings) if algo == "sampler" else sc(algo, 2, [], 2, settings)
    s["tie"] = True
    return (SWorld if algo == "sampler" else CWorld)(project, s, prefix)


def ctor_loc(w):
    return w.loc("__init__")


COMPUTE = {"matrix", "fit", "draw", "draw-from", "estimator"}


class Reached(Exception):
    """the settings were accepted: the computation starts"""


class Watch(list):
    def append(self, e):
        if e[0] in COMPUTE or e[0] == "seed":
            raise Reached()
        list.append(self, e)


def describe(it, syms):
    out = []
    for n, x in syms.items():
        c = it.facts.const_of(x)
        out.append("%s = %r" % (n, c[1]) if c is not None else n)
    return ", ".join(out) + ("" if not it.notes else " where " + "; ".join("%s%s" % ("" if c else "not ", d) for d, _, c in it.notes[:10]))


def values_of(part, project, algo, syms, doms, call):
    """explore a call over symbolic settings; compare accepted and refused partitions with the documented ranges"""
    box = {}

    def make(prefix):
        box["w"] = w = call[0](prefix)
        return w.it

    def go(it):
        try:
            return call[1](box["w"])
        except Reached:
            return "reached"
    for pr in explore(make, go, 400):
        part["evaluations"] += 1
        if pr.undecided:
            part.und(pr.undecided)
            continue
        w = box["w"]
        part["functions"].update(w.it.funcs_seen)
        if not usable(w.it):
            part.und("depends on a decision the analysis has no meaning for: %s" % [d for d, c, _ in w.it.notes if c not in USABLE][:1])
            continue
        text = "%s: %s" % (algo, describe(w.it, syms))
        part["nontrivial"].add(text)
        loc = call[2](w)
        if pr.outcome[0] == "raise":
            e = pr.outcome[1]
            if not exc_isa(e.name, "ValueError"):
                part.violation("a refused setting raises ValueError", loc, "%s: raises %s" % (text, e.name))
            elif not any(doms[n].refuse(w.it, x) for n, x in syms.items()):
                part.violation("values in the documented range are accepted", loc, "%s: refused, but the range is %s" % (text, "; ".join("%s %s" % (n, doms[n].text) for n in syms)))
        else:
            bad = [n for n, x in syms.items() if not doms[n].accept(w.it, x)]
            if bad:
                part.violation("values outside the documented range are refused", loc, "%s: accepted, but %s must be %s" % (text, bad[0], doms[bad[0]].text))
        if len(part["samples"]) < 4:
            part["samples"].append("%s -> %s" % (text, "refused" if pr.outcome[0] == "raise" else "accepted"))


def init_symbolic(project, part, algo):
    doms = SETTINGS[algo]
    groups = [(n,) for n in doms] + [tuple(doms)] + list(itertools.combinations(doms, 2))
    for g in dict.fromkeys(groups):
        syms = {n: sym(n, doms[n]) for n in g}
        values_of(part, project, algo, syms, doms, (lambda prefix: init_world(project, algo, syms, prefix), lambda w: w.build() and "built", ctor_loc))


def one_value(part, w, f, text, ok, loc):
    """one concrete call: accepted or refused as documented"""
    part["evaluations"] += 1
    n0 = len(w.it.events)
    try:
        f()
        res = "accepted"
    except Raised as r:
        res = r.name
    except (Unsupported, Cut, TypeError, AttributeError, LookupError) as u:
        part.und("no transfer function: %s" % u)
        return
    part["functions"].update(w.it.funcs_seen)
    part["nontrivial"].add(text)
    if not usable(w.it):
        part.und("depends on a decision the analysis has no meaning for")
        return
    if ok and res != "accepted":
        part.violation("values in the documented range are accepted", loc, "%s: raises %s" % (text, res))
    elif not ok and res == "accepted":
        part.violation("values outside the documented range are refused", loc, "%s: accepted" % text)
    elif not ok and not exc_isa(res, "ValueError"):
        part.violation("a refused setting raises ValueError", loc, "%s: raises %s" % (text, res))
    elif not ok:
        did = [e[0] for e in w.it.events[n0:] if e[0] in COMPUTE]
        if did:
            part.violation("settings are refused before anything is computed", loc, "%s: raises %s after %s" % (text, res, "drawing random numbers" if "draw" in did[0] else "computing on the vectors"))


def init_concrete(project, part, algo):
    doms = SETTINGS[algo]
    for n, d in doms.items():
        for v, ok in d.values:
            w = init_world(project, algo, {n: v})
            one_value(part, w, w.build, "%s(%s=%r)" % (CLASSES[algo][1], n, v), ok, ctor_loc(w))
    # defaults, and every setting valid together
    w = init_world(project, algo, {})
    one_value(part, w, w.build, "%s()" % CLASSES[algo][1], True, ctor_loc(w))
    allv = [[v for v, ok in d.values if ok] for d in doms.values()]
    for combo in itertools.islice(itertools.product(*allv), 0, 400, 3):
        st = dict(zip(doms, combo))
        w = init_world(project, algo, st)
        one_value(part, w, w.build, "%s(%s)" % (CLASSES[algo][1], ", ".join("%s=%r" % kv for kv in st.items())), True, ctor_loc(w))


# ---------------------------------------------------------------------- arguments of the call
class Stranger(Native):
    """an object of another class"""
    typename = "object of another class"

    def isinstance(self, c):
        return False

    def isext(self, full):
        return full == "builtins.object"

    def getattr(self, it, name):
        raise Raised("AttributeError", (name,), True)


VALID = "valid"
MANAGERS = [VALID, None, "ids", 3, "list", "dict", "stranger", "class"]
VECTORS = [VALID, None, "list", "text", "pairs", "stranger", "set"]


def make_arg(w, what, kind):
    if what == VALID:
        return w.mgr if kind == "m" else w.vectors if kind == "v" else w.result
    if what == "list":
        return AList([w.vec(t) for t in w.ids] if kind == "v" else list(w.ids))
    if what == "pairs":
        return AList([(t, w.vec(t)) for t in w.ids])
    if what == "dict":
        return w.vectors
    if what == "set":
        s = ASet()
        for t in w.ids:
            w.it.set_add(s, t)
        return s
    if what == "stranger":
        return Stranger()
    if what == "class":
        return w.it.lookup_dotted(PKG + ".constraints.abstract.AbstractConstraintsManager")
    return what


AUTO = ("dbscan", "affinity")


ALT = {"spectral": dict(nb_components=3), "kmeans": dict(tolerance=0.5), "hierarchical": dict(linkage="single"), "mpckmeans": dict(w=3), "dbscan": dict(min_samples=1), "affinity": dict(absolute_must_links=False)}


def call_scen(algo, n, rel, nb, salt, alt=False):
    st = dict({"dbscan": dict(eps=EPS(), min_samples=2), "kmeans": dict(max_iteration=2), "affinity": dict(max_iteration=2, convergence_iteration=1), "mpckmeans": dict(max_iteration=1)}.get(algo, {}))
    from .clust_props import pol_eps
    if alt:
        st.update(ALT[algo])
    return sc(algo, n, rel, nb, st, policy=Order(salt, pol_eps if algo == "dbscan" else None), tie=True)


def call_concrete(project, part, algo):
    n = 3
    nbs = [(None, True)] + [(v, False) for v in (0, 1, 2, 3, 5, -1)] if algo in AUTO else [(None, False), (2, True), (3, True), (4, True), (1000, True), (1, False), (0, False), (-1, False), (-7, False)]
    for alt, m, v, (nb, nb_ok) in itertools.product((False, True), MANAGERS, VECTORS, nbs):
        if alt and not m == v == VALID:
            continue
        if sum((m != VALID, v != VALID, not nb_ok)) > 1 and (nb not in (0, 2, None) or m not in (VALID, None, "dict") or v not in (VALID, None, "list")):
            continue
        ok = m == VALID and v == VALID and nb_ok
        w = CWorld(project, call_scen(algo, n, [(0, 1, ML)] if nb == 2 else [], nb, "v", alt))
        w.build()
        args = dict(constraints_manager=make_arg(w, m, "m"), vectors=make_arg(w, v, "v"), nb_clusters=nb)
        text = "%s.cluster(manager: %s, vectors: %s, nb_clusters=%r) on 3 data" % (CLASSES[algo][1] + ("(%s)" % ", ".join("%s=%r" % o for o in ALT[algo].items()) if alt else ""), m, v, nb)
        one_value(part, w, lambda: w.cluster(**args), text, ok, w.loc())
    if algo in AUTO:
        w = CWorld(project, call_scen(algo, n, [], None, "v"))
        w.build()
        one_value(part, w, lambda: w.it.call(w.it.getattr(w.obj, "cluster"), [], {"constraints_manager": w.mgr, "vectors": w.vectors}), "%s.cluster without a number of clusters" % CLASSES[algo][1], True, w.loc())


class AnyNumber(Dom):
    kind, text = "int", "None"

    def accept(self, it, x):
        return False

    def refuse(self, it, x):
        return True


def call_symbolic(project, part, algo):
    x = T("sym", "nb_clusters", kind="int")
    dom = AnyNumber() if algo in AUTO else AtLeast(2)
    for n, rel in ((2, []), (3, [(0, 1, ML)]), (4, [(0, 1, CL), (2, 3, ML)]), (1, [])):
        def make(prefix):
            s = call_scen(algo, n, rel, x, "v")
            s["policy"] = None
            if algo == "dbscan":
                s["settings"]["eps"] = 0.5
            w = CWorld(project, s, prefix)
            w.build()
            w.it.events = Watch()
            return w
        values_of(part, project, "%s on %d data" % (algo, n), {"nb_clusters": x}, {"nb_clusters": dom}, (make, lambda w: w.cluster(), lambda w: w.loc()))


def capped(project, part, algo):
    """more clusters than data: as many as data"""
    for n in (2, 3, 4):
        for k, rel in enumerate([[], [(0, 1, ML)], [(0, n - 1, CL)]] + ([R3[5], R3[9]] if n == 3 else [])):
            outs = []
            for nb in (n, n + 1, n + 7, 10 ** 6):
                w = CWorld(project, call_scen(algo, n, rel, nb, "cap%d" % k))
                w.build()
                try:
                    outs.append((nb, w, ("ok", canonical(w.cluster()))))
                except Raised as r:
                    outs.append((nb, w, ("raise", r.name)))
                part["evaluations"] += 1
            for nb, w, o in outs[1:]:
                part["nontrivial"].add((algo, n, k, nb))
                if o != outs[0][2]:
                    part.violation("more clusters than data are treated as the number of data", w.loc(), "%s: the result with nb_clusters=%d differs from the one with nb_clusters=%d" % (w.scen.show(), nb, n))
                    return


def sampler_calls(project, part, _):
    for cr, dr in itertools.product((None, SAME, DIFF), (None, NEAR, FAR)):
        st = {}
        if cr:
            st["clusters_restriction"] = cr
        if dr:
            st["distance_restriction"] = dr
        for m, v, c, (nb, nb_ok) in itertools.product(MANAGERS, VECTORS, VECTORS, [(1, True), (2, True), (10 ** 6, True), (-1, False), (-5, False), (1.5, False), (2.0, False), ("2", False), (None, False)]):
            if sum((m != VALID, v != VALID, c != VALID, not nb_ok)) > 1:
                continue
            ok = m == VALID and nb_ok and (v == VALID or dr is None) and (c == VALID or cr is None)
            w = SWorld(project, ss(3, [], nb, st, policy=Order("v"), tie=True, labels=[0, 1, 0]))
            w.build()
            args = dict(constraints_manager=make_arg(w, m, "m"), vectors=make_arg(w, v, "v"), clustering_result=make_arg(w, c, "c"), nb_to_select=nb)
            one_value(part, w, lambda: w.cluster(**args), "sampler(%s).sample(manager: %s, nb_to_select=%r, clustering_result: %s, vectors: %s)" % (st, m, nb, c, v), ok, w.loc())
        x = T("sym", "nb_to_select", kind="int")

        def make(prefix):
            w = SWorld(project, ss(2, [], x, st, tie=True, labels=[0, 1] if cr else None), prefix)
            w.build()
            w.it.events = Watch()
            return w
        values_of(part, project, "sampler(%s)" % st, {"nb_to_select": x}, {"nb_to_select": AtLeast(0)}, (make, lambda w: w.cluster(), lambda w: w.loc()))


def c17_any(project, part, item):
    f, algo = item
    f(project, part, algo)


def c17(check):
    check.rule = "for symbolic and limit values of every setting and argument, ValueError is raised exactly outside the documented range, and before any distance, estimator or random draw"
    check.assumptions += ["settings given as numbers, names, booleans or None; containers and managers of any other class are refused by class"]
    from .clust_rel import drive
    items = [(f, a) for a in ALGOS for f in (init_symbolic, init_concrete, call_symbolic, call_concrete)] + [(init_symbolic, "sampler"), (init_concrete, "sampler"), (sampler_calls, None)]
    items += [(capped, a) for a in ALGOS if a not in AUTO]
    drive(check, items, c17_any)


# ---------------------------------------------------------------------- C18
CLUST = {"affinity_propagation": "affinity", "dbscan": "dbscan", "hierarchical": "hierarchical", "kmeans": "kmeans", "mpckmeans": "mpckmeans", "spectral": "spectral"}
SAMPL = {"random": {}, "random_in_same_cluster": dict(clusters_restriction=SAME), "farthest_in_same_cluster": dict(clusters_restriction=SAME, distance_restriction=FAR),
         "closest_in_different_clusters": dict(clusters_restriction=DIFF, distance_restriction=NEAR)}
OPTIONS = {
    "kmeans": dict(max_iteration=7, tolerance=0.25, random_seed=11), "hierarchical": dict(linkage="single", random_seed=0), "spectral": dict(nb_components=5, random_seed=3),
    "dbscan": dict(eps=1.75, min_samples=4, random_seed=0), "affinity": dict(max_iteration=9, convergence_iteration=3, random_seed=8, absolute_must_links=False),
    "mpckmeans": dict(max_iteration=6, w=0.5, random_seed=2), "sampler": dict(random_seed=0, without_added_constraints=False, without_inferred_constraints=False),
}
EXTRA = {"other_option": 13, "n_init": 4}
FACT = {"clustering": ("clustering.factory", "clustering_factory"), "sampling": ("sampling.factory", "sampling_factory"), "managing": ("constraints.factory", "managing_factory")}


def factory(it, which):
    mod, name = FACT[which]
    f = it.lookup_dotted(PKG + "." + mod + "." + name)
    if not isinstance(f, Func):
        raise AnalysisBroken("function %s not found" % name)
    return f


def floc(it, which):
    f = factory(it, which)
    return "%s:%s" % (f.module.path, f.name)


def option_sets(algo, tier):
    full = OPTIONS[algo]
    keys = list(full)
    out = [{}]
    for n in range(1, len(keys) + 1):
        for c in itertools.combinations(keys, n):
            out.append({k: full[k] for k in c})
    out.append(dict(full, **EXTRA))
    out.append(dict(EXTRA))
    if algo in ("kmeans", "spectral", "mpckmeans"):
        out.append(dict(full, model=SETTINGS[algo]["model"].names[0]))
    return out


def c18_any(project, part, item):
    which, name, kw = item
    it = Interp(project, (), models())
    loc = floc(it, which)
    f = factory(it, which)
    call = lambda *a, **k: it.call(f, list(a), k)
    if which == "managing":
        ids = AList([Tok("b", 1), Tok("a", 0), Tok("c", 2)])
        want_cls, want_kw = "constraints.binary.BinaryConstraintsManager", dict(kw, list_of_data_IDs=ids)
        variants = [lambda: call(ids, **kw), lambda: call(list_of_data_IDs=ids, **kw), lambda: call(ids, manager="binary", **kw), lambda: call(ids, "binary", **kw)]
    elif which == "clustering":
        want_cls, want_kw = "%s.%s" % ALGOS[CLUST[name]], dict(kw)
        variants = [lambda: call(algorithm=name, **kw), lambda: call(name, **kw)] + ([lambda: call(**kw)] if name == "kmeans" else [])
    else:
        want_cls, want_kw = "%s.%s" % CLASSES["sampler"], dict(SAMPL[name], **kw)
        variants = [lambda: call(algorithm=name, **kw), lambda: call(name, **kw)]
    c = it.lookup_dotted(PKG + "." + want_cls)
    if not isinstance(c, ClassV):
        raise AnalysisBroken("class %s not found" % want_cls)
    want = it.instantiate(c, [], want_kw)
    text = "%s(%s)" % (FACT[which][1], ", ".join([repr(name)] + ["%s=%r" % o for o in kw.items()]))
    prev = []
    for v in variants:
        part["evaluations"] += 1
        try:
            o = v()
        except Raised as r:
            part.violation("each documented name is built", loc, "%s raises %s" % (text, r.name))
            return
        part["functions"].update(it.funcs_seen)
        part["nontrivial"].add(text)
        if len(part["samples"]) < 3:
            part["samples"].append("%s -> %r" % (text, o))
        if not isinstance(o, AObj):
            part.violation("each documented name is built", loc, "%s returns %r" % (text, o))
            return
        if o.cls is not c:
            part.violation("each name gives its own class", loc, "%s gives an object of class %s instead of %s" % (text, getattr(o.cls, "name", o.cls), c.name))
            return
        a, b = ({k: canonical(x) for k, x in y.attrs.items()} for y in (o, want))
        diff = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
        if diff:
            part.violation("options are passed on unchanged", loc, "%s gives an object whose %s differs from that of %s(%s): %r instead of %r" % (
                text, diff[0], c.name, ", ".join("%s=%r" % kv for kv in want_kw.items() if kv[0] != "list_of_data_IDs"), o.attrs.get(diff[0]), want.attrs.get(diff[0])))
            return
        if any(o is p for p in prev):
            part.violation("each call builds a new object", loc, "%s called twice gives the same object" % text)
            return
        prev.append(o)


def c18_names(project, part, which):
    valid = {"clustering": tuple(CLUST), "sampling": tuple(SAMPL), "managing": ("binary",)}[which]
    dom = Names(valid)
    key = "manager" if which == "managing" else "algorithm"
    box = {}

    def call(it, name):
        kw = {key: name}
        if which == "managing":
            kw["list_of_data_IDs"] = AList([])
        return it.call(factory(it, which), [], kw)
    x = T("sym", key, kind="str")

    class W:
        pass

    def make(prefix):
        w = W()
        w.it = Interp(project, prefix, models())
        return w
    values_of(part, project, FACT[which][1], {key: x}, {key: dom}, (make, lambda w: call(w.it, x), lambda w: floc(w.it, which)))
    for v, ok in dom.values:
        if v is None and which == "sampling":
            ok = False
        w = W()
        w.it = Interp(project, (), models())
        one_value(part, w, lambda: call(w.it, v), "%s(%s=%r)" % (FACT[which][1], key, v), ok, floc(w.it, which))


def c18_one(project, part, item):
    if item[0] == "names":
        c18_names(project, part, item[1])
    else:
        c18_any(project, part, item[1])


def c18(check):
    check.rule = "for every documented name, the factory's object has the class and attributes of that class instantiated directly with the same options; every other name (symbolic and near misses) raises ValueError"
    check.assumptions += ["options of different values per setting; unknown options are kept by the classes in their own way"]
    from .clust_rel import drive
    items = [("names", w) for w in FACT]
    items += [("build", ("clustering", n, o)) for n in CLUST for o in option_sets(CLUST[n], check.tier)]
    items += [("build", ("sampling", n, o)) for n in SAMPL for o in option_sets("sampler", check.tier)]
    items += [("build", ("managing", "binary", o)) for o in ({}, {"other_option": 1})]
    drive(check, items, c18_one)
