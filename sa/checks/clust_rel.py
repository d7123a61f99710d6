"""C12-C16 for the clustering algorithms."""
import itertools
import random
from ..interp import Cut, DEBUG
from ..project import Project, PKG
from ..report import Part, parallel
from ..values import *
from .clust import *
from .clust_props import R2, R3, R4, ROLE5, EPS, pol_eps, explain, FAMILIES, random_relation
from .manager import ML, CL, Spec
from .sampling import SScen, SWorld, world, told_sample, sampler_scens
from .relational import digest, Order, attempt, canonical, show_outcome, has_op

SEED = T("sym", "random_seed", kind="int")


def pol_seed(zero):
    def f(it, key):
        if any(k is SEED for k in key[1:]):
            if key[0] == "==":
                return zero if 0 in [k for k in key[1:] if isinstance(k, int)] else False
            if key[0] == "<":
                return bool(key[2] is SEED and isinstance(key[1], int) and (key[1] < 0 or not zero))
        return None
    return f


def chain(*ps):
    def f(it, key):
        for p in ps:
            if p is not None:
                r = p(it, key)
                if r is not None:
                    return r
        return None
    return f


def scen(algo, n, rel, nb, settings, salt, k=0, zero=False, **kw):
    first = chain(pol_eps if algo == "dbscan" else None, pol_seed(zero))
    if algo == "dbscan":
        settings = dict({"eps": EPS()}, **settings)
    settings = dict({"random_seed": SEED}, **settings)
    return sc(algo, n, rel, None if algo in ("dbscan", "affinity") else nb, settings, k=k, policy=Order(salt, first), salt=salt, tie=True, **kw)


VARIANTS = {
    "kmeans": [dict(max_iteration=1), dict(max_iteration=6), dict(max_iteration=3)],
    "hierarchical": [dict(linkage=l) for l in ("single", "complete", "average", "ward")],
    "spectral": [dict()],
    "dbscan": [dict(min_samples=1), dict(min_samples=2), dict(min_samples=3)],
    "affinity": [dict(max_iteration=3, convergence_iteration=1, absolute_must_links=True), dict(max_iteration=3, convergence_iteration=1, absolute_must_links=False), dict(max_iteration=2, convergence_iteration=2)],
    "mpckmeans": [dict(max_iteration=1), dict(max_iteration=2)],
}


def base_scens(tier, algos=None, salts=2):
    if tier == "thorough":
        salts *= 4
    out = []
    for algo, vs in VARIANTS.items():
        if algos is not None and algo not in algos:
            continue
        for vi, v in enumerate(vs):
            for k, (n, r) in enumerate([(3, r) for r in R3] + [(4, r) for r in R4[::9]] + [(5, r) for r in ROLE5[:4]] + [(2, r) for r in R2]):
                for s in range(salts):
                    out.append(scen(algo, n, r, (2, 3, 4)[(k + s) % 3], v, "%s%d" % (algo, s + 7 * vi), k=k + s, zero=bool((k + s) % 2)))
        out += crowd(algo, vs, tier)
    return out


CROWD = {"kmeans": (12, 17), "hierarchical": (9, 12), "spectral": (12, 17), "dbscan": (9, 11), "affinity": (9, 12), "mpckmeans": (8, 11)}


def crowd(algo, vs, tier):
    """larger data sets, with several constraints"""
    rng = random.Random("crowd " + algo)
    out = []
    for k in range(16 if tier == "thorough" else 6):
        n = CROWD[algo][k % 2]
        r = random_relation(rng, n, (n // 2, 0, n)[k % 3])
        s = scen(algo, 2, [], (2, 5, n - 2)[k % 3], vs[k % len(vs)], "%s crowd %d" % (algo, k), zero=bool(k % 2))
        out.append(Scen(s, n=n, order=list(range(n)), ranks=rng.sample(range(n), n), added=r))
    return out


def drive(check, items, work1):
    project = Project()

    def work(chunk_):
        part = Part()
        for s in chunk_:
            try:
                work1(project, part, s)
            except Unsupported as e:
                part["evaluations"] += 1
                part.und("no transfer function: %s" % e)
            except Cut as e:
                part.und("cut: %s" % e)
            except RecursionError:
                part.und("recursion")
            except (TypeError, AttributeError, LookupError, ArithmeticError, AssertionError, ValueError) as e:
                if DEBUG:
                    raise
                part.und("internal error of the analysis: %s: %s" % (type(e).__name__, str(e)[:120]))
        return part
    out = list(items)
    parallel(check, work, out[::5] + [x for i in range(1, 5) for x in out[i::5]], 6)


def note(part, w, text):
    part["nontrivial"].add(text)
    part["functions"].update(w.it.funcs_seen)
    if len(part["samples"]) < 3:
        part["samples"].append(text)


def outcome(w, **over):
    r = attempt(lambda: w.cluster(**over))
    return r


def canon(o):
    return (o[0], canonical(o[1]))


def told(o):
    if o[0] == "raise":
        return "raises " + o[1]
    d = o[1]
    if isinstance(d, AList):
        return told_sample(o)
    if isinstance(d, ADict) and all(isinstance(k, Tok) for k in d.keys):
        return "returns {%s}" % ", ".join("%s: %r" % (k.name, v) for k, v in sorted(zip(d.keys, d.vals), key=lambda p: p[0].rank))
    return "returns %r" % (d,)


HIDDEN = ("constraints_manager", "vectors")


def exposed(w, obj):
    """attributes of the object after a run, inputs and private names excluded"""
    return {k: canonical(v) for k, v in obj.attrs.items() if not k.startswith("_") and k not in HIDDEN and v is not w.mgr and v is not w.vectors}


def rng_trace(it):
    out = []
    for kind, x, extra in it.events:
        if kind == "seed":
            out.append(("seed", x[0], repr(x[1])))
        elif kind in ("draw",):
            out.append(("draw", x))
        elif kind in ("generator", "draw-from"):
            out.append((kind, repr(x)))
    while out and out[-1][0] == "seed":
        out.pop()
    return out


# ---------------------------------------------------------------------- C16
def c16_one(project, part, s):
    runs = []
    for v in (False, True):
        w = CWorld(project, Scen(s, verbose=v))
        w.build()
        o = outcome(w)
        runs.append((w, o))
    (w0, o0), (w1, o1) = runs
    part["evaluations"] += 1
    note(part, w1, s.show() + " " + told(o0))
    if canon(o0) != canon(o1):
        part.violation("verbose changes no result", w1.loc(), "%s: quiet run %s, verbose run %s" % (s.show(), told(o0), told(o1)))
        return
    e0, e1 = exposed(w0, w0.obj), exposed(w1, w1.obj)
    diff = sorted(k for k in set(e0) | set(e1) if e0.get(k) != e1.get(k) and not k.startswith("verbose"))
    clock = [k for k in diff if k in w1.obj.attrs and has_time(w1.obj.attrs[k]) or k in w0.obj.attrs and has_time(w0.obj.attrs[k])]
    diff = [k for k in diff if k not in clock]
    if diff:
        part.violation("verbose changes no exposed state", w1.loc(), "%s: attribute(s) %s differ between the quiet and the verbose run" % (s.show(), ", ".join(diff)))
    t0, t1 = rng_trace(w0.it), rng_trace(w1.it)
    last = max([i for i, e in enumerate(t0) if e[0] != "seed"], default=-1)
    if t1[:last + 1] != t0[:last + 1]:
        part.violation("verbose leaves the random generators alone", w1.loc(), "%s: quiet run uses the generators as %s, verbose run as %s" % (s.show(), t0[:6], t1[:6]))


def pol_slow(it, key):
    """centroids that moved moved by more than any small tolerance"""
    if key[0] == "<" and isinstance(key[1], T) and isinstance(key[2], float) and 0 < key[2] < 0.01:
        return False
    return None


def long_scens(tier):
    """runs of many iterations: progress may be reported now and then"""
    out = []
    for k in range(160 if tier == "thorough" else 40):
        n = 4 + k % 2
        r = [[], [(0, 1, CL)], [(0, 2, ML)], [(1, 2, CL), (0, 3, CL)]][k % 4]
        out.append(sc("kmeans", n, r, 2 + k // 2 % 2, dict(max_iteration=12, random_seed=SEED), k=k, policy=Order("long%d" % k, chain(pol_slow, pol_seed(False))), tie=True))
    return out


def has_time(v, depth=0):
    if isinstance(v, (T, tuple)):
        return has_op(v, ("time",))
    if isinstance(v, AList):
        return any(has_time(x) for x in v.items)
    if isinstance(v, ADict):
        return any(has_time(x) for x in v.vals)
    return False


def c16(check):
    check.rule = "the same call with verbose on and off, under the same answers to every numeric comparison, gives the same result, error, public attributes and use of the random generators"
    check.assumptions += ["one fixed arbitrary order of numbers per scenario and salt"]
    drive(check, base_scens(check.tier) + long_scens(check.tier), c16_one)


# ---------------------------------------------------------------------- C13
def second_inputs(w, kind):
    """inputs of the second call"""
    s = w.scen
    if kind == "result":
        return dict(clustering_result=w.make_result([(l + i) % 2 for i, l in enumerate(s.labels)]))
    if kind == "nb" and isinstance(w, SWorld):
        return dict(nb_to_select=1 if s.nb > 1 else 3)
    if kind == "nb":
        return dict(nb_clusters=3 if s.nb == 2 else 2)
    if kind == "vectors":
        d = ADict()
        for t in [w.extra] + list(w.ids):
            w.it.dict_set(d, t, T("vec", t, "other", kind="vec"))
        return dict(vectors=d)
    if kind == "manager":
        spec = Spec(list(w.ids))
        ids = w.ids
        for a, b, t in [(ids[0], ids[-1], ML)] + ([(ids[0], ids[1], CL)] if len(ids) > 2 else []):
            spec.apply(("add", a, b, t))
        return dict(constraints_manager=AnyManager(spec, "second"))
    if kind == "fewer":
        spec = Spec([i for i in w.ids[1:]])
        return dict(constraints_manager=AnyManager(spec, "second"))
    if kind == "grown":
        # the user goes on with the same manager: a constraint is added between the two calls
        m = w.mgr
        ids = w.ids
        for a, b in itertools.combinations(ids, 2):
            if m.rel[a, b] is None:
                m.spec.apply(("add", a, b, ML if a.rank < b.rank else CL))
                m._close()
                break
        return {}
    if kind == "reduced":
        # a constraint is taken back, or a data ID leaves
        m = w.mgr
        if m.spec.added:
            a, b = sorted(sorted(m.spec.added, key=names_of)[0], key=lambda t: t.rank)
            m.spec.apply(("del", a, b))
        elif len(w.ids) > 2:
            m.spec.apply(("delid", w.ids[0]))
        m._close()
        return {}
    if kind == "revised":
        # the same dictionary, with other vectors
        for t in list(w.vectors.keys):
            w.it.dict_set(w.vectors, t, T("vec", t, "other", kind="vec"))
        return {}
    if kind == "relabelled":
        # the same clustering result, with other labels
        for i, t in enumerate(list(w.result.keys)):
            w.it.dict_set(w.result, t, (w.result.vals[i] + i) % 2)
        return {}
    if kind == "same":
        return {}
    raise AssertionError(kind)


def names_of(pair):
    return sorted(t.name for t in pair)


def grow_only(project, s, kind):
    """world whose first call is already the second one"""
    w = world(project, s)
    return w, second_inputs(w, kind)


def c13_one(project, part, item):
    s, kind, first_bad = item
    if kind == "nb" and s.nb is None:
        kind = "same"
    if kind == "fewer" and len(s.order) < 3 or kind in ("result", "relabelled") and s.labels is None:
        kind = "same"
    w = world(project, s)
    w.build()
    old = w.obj
    a = outcome(w) if not first_bad else outcome(w, vectors=AList([]))
    if s.first_zero:
        outcome(w, nb_to_select=0)
    over = second_inputs(w, kind)
    b = outcome(w, **over)
    w.build()
    c = outcome(w, **over)
    w2, over2 = grow_only(project, s, kind)
    w2.build()
    d = outcome(w2, **over2)
    part["evaluations"] += 1
    note(part, w, "%s then %s: %s" % (s.show(), kind, told(d)))
    what = {"nb": "another cluster number", "vectors": "other vectors", "manager": "another manager", "fewer": "a manager with fewer IDs", "grown": "a constraint added to the manager", "same": "the same inputs", "result": "another clustering result",
            "reduced": "a constraint or data ID taken from the manager", "revised": "other vectors in the same dictionary", "relabelled": "other labels in the same clustering result"}[kind]
    if canon(b) != canon(d):
        part.violation("a reused object gives what a fresh one gives", w.loc(), "%s, then %s: the reused object %s, a fresh object %s" % (s.show(), what, told(b), told(d)))
    elif canon(c) != canon(d):
        part.violation("earlier runs of other objects do not matter", w.loc(), "%s, then %s: an object used after another one %s, alone it %s" % (s.show(), what, told(c), told(d)))
    writes = [e for e in w.it.events if e[0] in ("global-write", "class-write")]
    if writes:
        part.count("runs writing module or class state")
    if a[0] == "raise" and not first_bad and s.algo != "spectral":
        part.count("first runs that raise")


def c13_clustering(check):
    items = []
    for k, s in enumerate(base_scens(check.tier, salts=1)):
        kinds = ["nb", "vectors", "manager", "fewer", "grown", "revised", "reduced"]
        for j in (0, 1, 2):
            items.append((s, kinds[(k + j * 2) % 7], False))
        if k % 7 == 0:
            items.append((s, "same", k % 2 == 0))
    for k, s in enumerate(sampler_scens(check.tier)):
        kinds = ["nb", "vectors", "manager", "fewer", "grown", "result", "revised", "reduced", "relabelled"]
        for j in (0, 1, 2, 3):
            items.append((s, kinds[(k + j * 2) % 9], False))
        items.append((s, "same", k % 2 == 0))
    check.rule = "a call after an earlier call on the same or another object (other cluster number, vectors, manager or result, or the same ones changed in place) compared with the same call in a fresh interpreter"
    check.assumptions += ["one fixed arbitrary order of numbers per scenario and salt"]
    drive(check, items, c13_one)
    from . import texts
    texts.go(check, texts.c13_text_items(check.tier), texts.c13_texts, 8)


# ---------------------------------------------------------------------- C14
def c14_one(project, part, s):
    w = world(project, s)
    before = freeze(w.vectors)
    rbefore = freeze(w.result) if isinstance(w, SWorld) else None
    opts = ADict()
    w.it.dict_set(opts, "assign_labels", "kmeans")
    w.build()
    o = outcome(w)
    part["evaluations"] += 1
    note(part, w, s.show() + " " + told(o))
    if freeze(w.vectors) != before:
        part.violation("the vectors dictionary is not modified", w.loc(), "%s: the vectors dictionary becomes %r" % (s.show(), w.vectors))
    if isinstance(w, SWorld) and w.result is not None and freeze(w.result) != rbefore:
        part.violation("the clustering result is not modified", w.loc(), "%s: the clustering result becomes %r" % (s.show(), w.result))
    if w.mgr.spec.key() != w.spec0:
        part.violation("the constraints manager is not modified", w.loc(), "%s: the call changes the manager through %s" % (s.show(), sorted({e[1][1] for e in w.it.events if e[0] == "manager-mutator" and e[1][0] is w.mgr})))
    for kind, x, extra in w.it.events:
        if kind == "manager-write" and x[0] is w.mgr:
            part.violation("the constraints manager is not modified", w.loc(), "%s: the call sets attribute %s of the manager" % (s.show(), x[1]))
        if kind == "mutate-input" and isinstance(x, T) and x.op == "vec" or kind == "mutate-term" and isinstance(x, T) and x.op == "vec":
            part.violation("vectors are not modified in place", w.loc(), "%s: %r is modified in place" % (s.show(), x))


def c14_clustering(check):
    check.rule = "abstract vectors, texts, clustering results, option values and constraints manager before and after each call compared; in-place operations on a vector reported"
    drive(check, base_scens(check.tier) + sampler_scens(check.tier), c14_one)
    from . import texts
    texts.go(check, texts.c14_text_items(check.tier), texts.c14_texts, 8)


# ---------------------------------------------------------------------- C12
def is_seed(it, v):
    return it.resolve(v) is SEED or v is SEED or (isinstance(it.resolve(v), int) and not isinstance(v, bool) and it.resolve(v) == it.resolve(SEED))


def rng_check(it, start=0, extra_ok=()):
    """first use of randomness that the seed does not determine, or None"""
    seeded, gens = set(), []
    for kind, x, extra in it.events[start:]:
        if kind == "seed":
            if is_seed(it, x[1]):
                seeded.add(x[0])
            else:
                seeded.discard(x[0])
        elif kind == "draw" and x not in seeded:
            return "a draw of the %s generator is not preceded, in the same call, by seeding it with random_seed" % x
        elif kind == "generator":
            if is_seed(it, x):
                gens.append(extra)
        elif kind == "draw-from":
            if not any(g is extra for g in gens):
                return "a draw comes from a generator that the call did not create from random_seed (seed %r)" % (x,)
        elif kind == "estimator":
            rs = x.kw.get("random_state")
            if not (is_seed(it, rs) if not isinstance(rs, Native) else any(g is rs for g in gens)):
                return "the estimator gets random_state=%r" % (rs,)
        elif kind == "ext":
            n = x[0]
            if n.startswith("random.") and "random" not in seeded or n.startswith("numpy.random.") and "numpy" not in seeded or n.startswith(("secrets.", "uuid.uuid1", "uuid.uuid4", "os.urandom")):
                return "%s is called without the seed" % n
    return None


def c12_one(project, part, s):
    w = world(project, s)
    w.build()
    clocks = s.policy.clock
    del clocks[:]
    start = len(w.it.events)
    a = outcome(w)
    part["evaluations"] += 1
    note(part, w, s.show() + " " + told(a))
    bad = rng_check(w.it, start)
    if bad is None:
        # the same object again, after other code used the global generators
        w.it.draw("random", "other code")
        w.it.draw("numpy", "other code")
        start = len(w.it.events)
        b = outcome(w)
        bad = rng_check(w.it, start)
        if bad is not None:
            bad = "second call on the same object: " + bad
        elif canon(a) != canon(b):
            bad = "the same call again on the same object %s, the first time it %s" % (told(b), told(a))
    if bad is None and clocks:
        bad = "a decision depends on the clock or on an object identity: %r" % (clocks[0],)
    if bad is None and a[0] == "ok" and isinstance(a[1], ADict) and any(has_time(v) for v in a[1].vals):
        bad = "the result depends on the clock or on an object identity"
    if bad is not None:
        part.violation("only random_seed drives the run", w.loc(), "%s: %s" % (s.show(), bad))
        return
    for perm in (lambda l: l[::-1], lambda l: l[1:] + l[:1]):
        w2 = world(project, s)
        w2.it.set_perm = perm
        w2.build()
        c = outcome(w2)
        if canon(c) != canon(a):
            part.violation("the hash order of strings does not matter", w.loc(), "%s: with one order of hashed strings it %s, with another it %s" % (s.show(), told(a), told(c)))
            return


def c12_clustering(check):
    check.rule = "every random draw of a call is preceded by seeding its generator with random_seed; the same call repeated, after other draws, or under another order of hashed strings gives the same result; nothing depends on clock or object identity"
    check.assumptions += ["one fixed arbitrary order of numbers per scenario and salt", "a generator seeded with the same value yields the same draws"]
    drive(check, base_scens(check.tier) + sampler_scens(check.tier), c12_one)


# ---------------------------------------------------------------------- C29
def spoil(w, v):
    """what a client may do to a result: empty it, then put its own things in"""
    if isinstance(v, ADict):
        ks = list(v.keys)
        w.it.call(w.it.getattr(v, "clear"), [], {})
        for t in [w.extra] + ks[:1]:
            w.it.dict_set(v, t, 77)
    elif isinstance(v, AList):
        w.it.call(w.it.getattr(v, "clear"), [], {})
        w.it.call(w.it.getattr(v, "append"), [(w.extra, w.extra)], {})
    else:
        return False
    return True


def c29_one(project, part, item):
    s, kind, other = item
    if kind == "nb" and s.nb is None:
        kind = "same"
    if kind == "fewer" and len(s.order) < 3 or kind in ("result", "relabelled") and s.labels is None:
        kind = "same"
    w = world(project, s)
    w.build()
    a = outcome(w)
    before = canon(a)
    over = second_inputs(w, kind)
    if other:
        w.build()
    outcome(w, **over)
    part["evaluations"] += 1
    note(part, w, "%s then %s: first %s" % (s.show(), kind, told(a)))
    after = canon(a)
    if before != after:
        part.violation("a returned result keeps its content", w.loc(), "%s: the result of the first call is later changed by a call on %s object (%s): it now %s" % (s.show(), "another" if other else "the same", kind, told(a)))
        return
    if kind == "grown":
        return
    # a client changes the result it got
    w = world(project, s)
    w.build()
    a = outcome(w)
    first = canon(a)
    if a[0] != "ok" or not spoil(w, a[1]):
        return
    if other:
        w.build()
    b = outcome(w)
    if canon(b) != first:
        part.violation("what a client does to a result does not matter", w.loc(), "%s: after the client changed the result of a first call, the same call on %s object %s" % (s.show(), "another" if other else "the same", told(b)))


def c29_cut(project, part, s):
    """hierarchical clustering: another number of clusters asked of the same tree"""
    w = world(project, s)
    w.build()
    a = outcome(w)
    if a[0] != "ok":
        return
    ask = lambda n: attempt(lambda: w.it.call(w.it.getattr(w.obj, "compute_predicted_clusters"), [], {"nb_clusters": n}))
    before = canon(a)
    got = [ask(n) for n in (2, 3, s.nb)]
    keep = [canon(g) for g in got]
    again = [ask(n) for n in (3, 2)]
    part["evaluations"] += 1
    note(part, w, "%s then other numbers of clusters" % s.show())
    if canon(a) != before or [canon(g) for g in got] != keep:
        part.violation("a returned result keeps its content", w.loc("compute_predicted_clusters"), "%s: an earlier result is changed by asking for another number of clusters" % s.show())
        return
    for g in got + [a]:
        if g[0] == "ok":
            spoil(w, g[1])
    last = [canon(ask(n)) for n in (2, 3)]
    if last != keep[:2]:
        part.violation("what a client does to a result does not matter", w.loc("compute_predicted_clusters"), "%s: after the client changed the results it got, asking again for 2 or 3 clusters gives something else" % s.show())


def c29(check):
    items = []
    for k, s in enumerate(base_scens(check.tier, salts=1)):
        kinds = ["nb", "vectors", "manager", "fewer", "grown", "same"]
        for j in (0, 1):
            items.append((s, kinds[(k + j * 2) % 6], k % 3 == 0))
    for k, s in enumerate(sampler_scens(check.tier)):
        kinds = ["nb", "vectors", "manager", "fewer", "grown", "result", "same"]
        for j in (0, 1):
            items.append((s, kinds[(k + 3 * j) % 7], k % 3 == 0))
    check.rule = "content of a returned dictionary or list compared before and after later calls on the same or another object; a call repeated after the client emptied and refilled the result it got compared with the first one"
    check.assumptions += ["one fixed arbitrary order of numbers per scenario and salt"]
    drive(check, items, c29_one)
    drive(check, base_scens(check.tier, ("hierarchical",), salts=1), c29_cut)
    from . import texts
    texts.go(check, texts.c13_text_items(check.tier), texts.c29_texts, 8)
