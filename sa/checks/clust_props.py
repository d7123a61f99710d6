"""C09, C10, C11, C23, C24: judges over the clustering world."""
import itertools
import math
import os
import random
import zlib
from ..interp import exc_isa
from ..project import Project
from ..report import AnalysisBroken, Part, parallel
from ..values import *
from .clust import *
from .manager import ML, CL, Spec
from .relational import digest

QUERIES = {"get_list_of_managed_data_IDs", "get_added_constraint", "get_inferred_constraint", "get_connected_components",
           "check_completude_of_constraints", "get_min_and_max_number_of_clusters", "get_list_of_involved_data_IDs_in_a_constraint_conflict"}
R3, R4 = list(relations(3)), list(relations(4))


# ---------------------------------------------------------------------- policies: what is known of the numbers
def EPS():
    return T("sym", "eps", kind="num")


def pol_eps(it, key):
    if key[0] == "<" and key[1] == 0 and key[2] is EPS():
        return True
    if key[0] == "<" and key[2] == 0 and key[1] is EPS():
        return False
    return None


def pol_mpc(it, key):
    """different vectors are at a positive distance; the order of plain squared distances is one fixed generic order"""
    if key[0] == "<":
        a, b = key[1:]
        if isinstance(a, (int, float)) and a == 0:
            return True
        if all(isinstance(x, T) and x.op == "**" for x in (a, b)):
            return repr(a) < repr(b)
    return None


def pol_mpc_first(it, key):
    """argmin decided by the textual order of the terms: one path per scenario"""
    r = pol_mpc(it, key)
    if r is not None:
        return r
    if key[0] == "<" and all(isinstance(x, T) for x in key[1:]):
        return repr(key[1]) < repr(key[2])
    return None


def valued(salt, points=None, eps=None):
    """one generic assignment of numbers to the distances (all nearly equal, hence possible for some vectors): one path per scenario

    points: {ID name: place} gives the distances of data placed there instead"""
    def place(v):
        if v.op == "vec" and isinstance(v.args[0], Tok):
            return points.get(v.args[0].name)
        if v.op == "lc":
            ps = [(place(t), a / b) for t, a, b in v.args]
            if any(q is None for q, _ in ps):
                return None
            return tuple(sum(q[i] * c for q, c in ps) for i in range(len(ps[0][0])))
        return None

    def val(x):
        if isinstance(x, bool) or not isinstance(x, (int, float, T)):
            return None
        if not isinstance(x, T):
            return x
        if x.op in ("+", "-", "*", "/", "neg", "**"):
            a = [val(y) for y in x.args]
            if any(y is None for y in a):
                return None
            if x.op == "+":
                return sum(a)
            if x.op == "-":
                return a[0] - a[1]
            if x.op == "neg":
                return -a[0]
            if x.op == "*":
                r = 1.0
                for y in a:
                    r *= y
                return r
            try:
                return a[0] / a[1] if x.op == "/" else a[0] ** a[1]
            except (ZeroDivisionError, OverflowError, ValueError):
                return None
        if points is not None:
            if x is EPS() and eps is not None:
                return eps
            if x.op == "dist" and all(isinstance(y, T) for y in x.args[1:]):
                a, b = [place(y) for y in x.args[1:3]]
                if a is not None and b is not None:
                    return math.dist(a, b)
        return 1.0 + zlib.crc32(repr((salt, digest(x))).encode()) / 2**32 * 0.4

    def pol(it, key):
        if key[0] not in ("<", "==") or it.cat(*key[1:]) not in USABLE or not any(isinstance(x, T) for x in key[1:]):
            return None
        if key[0] == "==":
            if all(isinstance(x, T) and x.op == "label" for x in key[1:]):
                return len({zlib.crc32(repr((salt, digest(x))).encode()) % (3 if points is None else 13) for x in key[1:]}) == 1
            if not all(numeric(x) or isinstance(x, (int, float)) and not isinstance(x, bool) for x in key[1:]):
                return None
        a, b = val(key[1]), val(key[2])
        if a is None or b is None or isinstance(a, complex) or isinstance(b, complex):
            return None
        if key[0] == "==":
            return a == b
        return None if a == b else a < b
    return pol


def random_relation(rng, n, count=None):
    """added constraints of a closed relation over n IDs"""
    spec = Spec(list(range(n)))
    out = []
    for _ in range(rng.choice((0, 1, 2, 3, 4, 5)) if count is None else count):
        i, j = rng.sample(range(n), 2)
        t = rng.choice((ML, CL, CL))
        if spec.apply(("add", i, j, t)):
            out.append((i, j, t))
    return out


def wide(algo, tier, per=24):
    """more data, one assignment of numbers each"""
    rng = random.Random("wide " + algo)
    out = []
    for k in range(per * (8 if tier == "thorough" else 1)):
        n = rng.choice({"dbscan": (4, 5, 6), "mpckmeans": (5, 6), "affinity": (4, 5, 6)}.get(algo, (5, 6, 7)))
        r = random_relation(rng, n)
        ranks = rng.sample(range(n), n)
        nb, st, pol = rng.choice((2, 2, 3, 4)), {}, valued(k)
        if algo == "kmeans":
            st = dict(max_iteration=rng.choice((1, 2, 3)))
        elif algo == "hierarchical":
            st = dict(linkage=LINKS[k % 4])
        elif algo == "dbscan":
            nb, st = None, dict(eps=EPS(), min_samples=rng.choice((1, 2, 2, 3)))
        elif algo == "affinity":
            nb, st = None, dict(max_iteration=2, convergence_iteration=1, absolute_must_links=k % 3 > 0)
        elif algo == "mpckmeans":
            st = dict(max_iteration=1)
        out.append(Scen(algo=algo, n=n, order=list(range(n)), ranks=ranks, added=r, nb=nb, settings=st, policy=pol, perm=rng.choice(("id", "rev", "rot", "mid")), hashed=(None, "rev", "rot")[k % 3], max_paths=40))
    return out


def spots(rng, n, shape):
    """places of n data, by rank"""
    if shape == "line":
        return [(float(3 ** i), 0.0) for i in range(n)]
    if shape == "far":
        return [(10.0 * i + rng.random(), 7.0 * (i % 3)) for i in range(n)]
    if shape == "blobs":
        return [(10.0 * (i % 3) + rng.random(), rng.random()) for i in range(n)]
    return [(rng.random() * 3, rng.random() * 3) for i in range(n)]


def large(algo, tier):
    """many data at given places, one path each"""
    rng = random.Random("large " + algo)
    out = []
    for k in range((8 if algo in ("dbscan", "kmeans", "spectral") else 4) * (4 if tier == "thorough" else 1)):
        n = {"dbscan": 24 if k % 4 in (0, 3) else 8, "kmeans": 24, "hierarchical": 14, "spectral": 24, "affinity": 12, "mpckmeans": 11}[algo] - k % 2
        r = random_relation(rng, n, 2 * n if k % 4 == 2 and algo != "dbscan" else None) if k % 4 > 1 else []
        ranks = rng.sample(range(n), n)
        sp = spots(rng, n, ("far", "any", "blobs", "line")[k % 4])
        rng.shuffle(sp)
        pts = {NAMES[i]: q for i, q in enumerate(sp)}
        nb, st = (n - 1, 2, 3, 11)[k % 4], {}
        if algo == "kmeans":
            st = dict(max_iteration=2)
        elif algo == "hierarchical":
            st = dict(linkage=LINKS[k % 4])
        elif algo == "dbscan":
            nb, st = None, dict(eps=EPS(), min_samples=2 + k % 2)
        elif algo == "affinity":
            nb, st = None, dict(max_iteration=2, convergence_iteration=1, absolute_must_links=k % 3 > 0)
        elif algo == "mpckmeans":
            st = dict(max_iteration=1)
        out.append(Scen(algo=algo, n=n, order=list(range(n)), ranks=ranks, added=r, nb=nb, settings=st, policy=valued(k, pts, 1.0), perm=rng.choice(("id", "rev", "rot", "mid")), max_paths=60))
    if algo == "dbscan":
        # one datum within eps of many that are far from each other
        for k, added in enumerate(([(-1, -2, CL)], [(0, -1, CL)], [(1, 2, CL)], [(-1, -2, ML), (-2, -3, CL)], [(-1, 1, ML)], [])):
            n = 17 - k % 2
            ranks = rng.sample(range(n), n)
            pts = {NAMES[ranks[i]]: tuple(0.8 + 0.001 * i if j == i else 0.0 for j in range(1, n)) for i in range(n)}
            out.append(Scen(algo=algo, n=n, order=list(range(n)), ranks=ranks, added=[(i % n, j % n, t) for i, j, t in added], nb=None, settings=dict(eps=EPS(), min_samples=3), policy=valued(k, pts, 1.0), max_paths=20))
    return out


def near_far(tier, per=60):
    """density-based clustering of data at given places, with several constraints"""
    rng = random.Random("near and far")
    out = []
    for k in range(per * (6 if tier == "thorough" else 1)):
        n = rng.choice((4, 5, 5, 6))
        ranks = rng.sample(range(n), n)
        pts = {NAMES[i]: (rng.random() * rng.choice((2, 3, 4)), rng.random()) for i in range(n)}
        r = random_relation(rng, n, rng.choice((0, 1, 2, 3, 4)))
        out.append(Scen(algo="dbscan", n=n, order=list(range(n)), ranks=ranks, added=r, nb=None, settings=dict(eps=EPS(), min_samples=rng.choice((1, 2, 2, 3))), policy=valued(k, pts, rng.choice((0.7, 0.9, 1.0))), hashed=(None, "rev", "rot")[k % 3], max_paths=60))
    return out


# ---------------------------------------------------------------------- scenario families
ROLE5 = [
    [(i, j, CL) for i, j in itertools.combinations(range(5), 2)],
    [(0, 1, ML), (1, 2, ML), (2, 3, CL), (3, 4, CL)],
    [(0, 2, ML), (1, 3, ML), (2, 3, CL), (4, 0, CL)],
    [(0, 4, ML), (1, 2, CL), (2, 3, CL), (1, 3, CL), (0, 1, CL)],
    [(0, 1, ML), (0, 2, ML), (0, 3, ML), (0, 4, ML)],
    [],
]
R2 = list(relations(2))


def kmeans_scens(tier):
    out = []
    for k, r in enumerate(R3):
        for nb in (2, 3, 5):
            out.append(sc("kmeans", 3, r, nb, dict(max_iteration=1), k=k))
            out.append(sc("kmeans", 3, r, nb, dict(max_iteration=2), k=k + 1))
        out.append(sc("kmeans", 3, r, 2, dict(max_iteration=1), k=k + 2, perm="rev"))
        out.append(sc("kmeans", 3, r, 2, dict(max_iteration=1), k=k, tie=True))
    for k, r in enumerate(R2):
        out.append(sc("kmeans", 2, r, 2, dict(max_iteration=2), k=k))
        out.append(sc("kmeans", 2, r, 2, dict(max_iteration=2), k=k, dup=True))
    for k, r in enumerate(R4):
        out.append(sc("kmeans", 4, r, 2, dict(max_iteration=1), k=k))
        if tier == "thorough":
            out.append(sc("kmeans", 4, r, 3, dict(max_iteration=1), k=k + 1))
            out.append(sc("kmeans", 4, r, 2, dict(max_iteration=2), k=k + 2))
            out.append(sc("kmeans", 4, r, 2, dict(max_iteration=1), k=k, perm="rot", tie=True))
    for r in R3:
        out.append(sc("kmeans", 3, r, 2, dict(max_iteration=1), dup=True))
    for k, r in enumerate(ROLE5):
        out.append(sc("kmeans", 5, r, 2, dict(max_iteration=1), k=k))
        if tier == "thorough":
            out.append(sc("kmeans", 5, r, 3, dict(max_iteration=1), k=k + 1))
    if tier == "thorough":
        for k, r in enumerate(R3):
            out.append(sc("kmeans", 3, r, 2, dict(max_iteration=3), k=k))
            out.append(sc("kmeans", 3, r, 3, dict(max_iteration=3), k=k, perm="rot"))
    return out


LINKS = ("single", "complete", "average", "ward")


def hier_scens(tier):
    out = []
    for li, l in enumerate(LINKS):
        for k, r in enumerate(R3):
            for nb in (2, 3, 5):
                out.append(sc("hierarchical", 3, r, nb, dict(linkage=l), k=k + li))
            out.append(sc("hierarchical", 3, r, 2, dict(linkage=l), k=k, tie=True))
        for k, r in enumerate(R2):
            out.append(sc("hierarchical", 2, r, 2, dict(linkage=l), k=k))
        step = 1 if tier == "thorough" else 4
        for k, r in enumerate(R4[li % step::step]):
            out.append(sc("hierarchical", 4, r, (2, 3, 4)[k % 3], dict(linkage=l), k=k + li))
        if tier == "thorough":
            for k, r in enumerate(ROLE5[:5]):
                out.append(sc("hierarchical", 5, r, 3, dict(linkage=l), k=k))
    return out


def spectral_scens(tier):
    out = [sc("spectral", 4, r, (2, 3, 9)[k % 3], dict(), k=k) for k, r in enumerate(R4)]
    out += [sc("spectral", 3, r, 2, dict(), k=k) for k, r in enumerate(R3)]
    out += [sc("spectral", 2, r, 2, dict(), k=k) for k, r in enumerate(R2)]
    if tier == "thorough":
        out += [sc("spectral", 5, r, 3, dict(), k=k) for k, r in enumerate(ROLE5)]
    return out


def dbscan_scens(tier):
    out = []
    for ms in (1, 2, 3):
        for k, r in enumerate(R3):
            out.append(sc("dbscan", 3, r, None, dict(eps=EPS(), min_samples=ms), k=k + ms, policy=pol_eps))
    for k, r in enumerate(R2):
        for ms in (1, 2):
            out.append(sc("dbscan", 2, r, None, dict(eps=EPS(), min_samples=ms), k=k, policy=pol_eps))
    if tier == "thorough":
        for k, r in enumerate(R4[::6]):
            out.append(sc("dbscan", 4, r, None, dict(eps=EPS(), min_samples=2 + k % 2), k=k, policy=pol_eps))
    return out


def affinity_scens(tier):
    out = []
    for ab in (True, False):
        for k, r in enumerate(R3):
            for mi, ci in ((2, 1), (1, 1)):
                out.append(sc("affinity", 3, r, None, dict(max_iteration=mi, convergence_iteration=ci, absolute_must_links=ab), k=k + mi))
        for k, r in enumerate(R2):
            out.append(sc("affinity", 2, r, None, dict(max_iteration=2, convergence_iteration=1, absolute_must_links=ab), k=k))
        out.append(sc("affinity", 1, [], None, dict(max_iteration=2, convergence_iteration=1, absolute_must_links=ab)))
        step = 1 if tier == "thorough" else 8
        for k, r in enumerate(R4[::step]):
            out.append(sc("affinity", 4, r, None, dict(max_iteration=2, convergence_iteration=1, absolute_must_links=ab), k=k))
    return out


def mpc_scens(tier):
    out = []
    for k, r in enumerate(R3):
        out.append(sc("mpckmeans", 3, r, 2, dict(max_iteration=1), k=k, policy=pol_mpc))
        out.append(sc("mpckmeans", 3, r, 5, dict(max_iteration=1), k=k + 1, policy=pol_mpc))
        out.append(sc("mpckmeans", 3, r, 2, dict(max_iteration=2), k=k + 2, policy=pol_mpc_first))
        out.append(sc("mpckmeans", 3, r, 2, dict(max_iteration=1), k=k, policy=pol_mpc_first, dup=True, perm="rev"))
    for k, r in enumerate(R2):
        out.append(sc("mpckmeans", 2, r, 2, dict(max_iteration=1), k=k, policy=pol_mpc))
        out.append(sc("mpckmeans", 2, r, 2, dict(max_iteration=1), k=k, policy=pol_mpc, dup=True))
    out.append(sc("mpckmeans", 1, [], 2, dict(max_iteration=1), policy=pol_mpc))
    for k, r in enumerate(R4[::3]):
        out.append(sc("mpckmeans", 4, r, 2 + k % 3, dict(max_iteration=1), k=k, policy=pol_mpc_first))
    if tier == "thorough":
        for k, r in enumerate(R3):
            out.append(sc("mpckmeans", 3, r, 2, dict(max_iteration=2), k=k + 2, policy=pol_mpc))
        for k, r in enumerate(R4[::6]):
            out.append(sc("mpckmeans", 4, r, 2, dict(max_iteration=1), k=k, policy=pol_mpc))
    return out


FAMILIES = {"kmeans": kmeans_scens, "hierarchical": hier_scens, "spectral": spectral_scens, "dbscan": dbscan_scens, "affinity": affinity_scens, "mpckmeans": mpc_scens}


def scens(tier, algos=None):
    out = []
    for a, f in FAMILIES.items():
        if algos is None or a in algos:
            out += f(tier) + wide(a, tier) + large(a, tier)
    # costly ones are spread over the workers
    return out[::7] + [s for i in range(1, 7) for s in out[i::7]]


# ---------------------------------------------------------------------- driver
def where(pr):
    node = getattr(pr.outcome[1], "node", None)
    return "" if node is None else " (line %s)" % getattr(node, "lineno", "?")


def explain(w, pr, what):
    return "%s: %s; decisions: %s" % (w.scen.show(), what, decisions(w.it) or "none")


def drive(check, scenarios, judge, run=None, max_paths=700, chunk=None):
    project = Project(check.repo) if hasattr(check, "repo") else Project()

    def work(chunk_):
        part = Part()
        for s in chunk_:
            for w, pr in paths(project, s, run, s.max_paths or max_paths):
                part["evaluations"] += 1
                if pr.undecided:
                    part.und(pr.undecided)
                    continue
                part["functions"].update(w.it.funcs_seen)
                if not usable(w.it):
                    part.und("depends on a decision the analysis has no meaning for: %s" % [d for d, c, _ in w.it.notes if c not in USABLE][:1])
                    continue
                judge(part, w, pr)
        return part
    parallel(check, work, scenarios, chunk or 4)


def raised(w, pr):
    e = pr.outcome[1]
    return "%s%s" % (e.name, where(pr))


def result_labels(part, w, pr, rule):
    """labels of a returning partition; reports and returns None otherwise"""
    if pr.outcome[0] == "raise":
        part.violation(rule, w.loc(), explain(w, pr, "the call raises %s instead of returning a clustering" % raised(w, pr)))
        return None
    lab = w.labels(pr.outcome[1])
    if lab is None:
        v = pr.outcome[1]
        if v is None or isinstance(v, (AList, ASet, tuple, str, int, float)):
            part.violation(rule, w.loc(), explain(w, pr, "the call returns %r, not a dictionary" % (v,)))
        else:
            part.und("result is not an understood dictionary")
        return None
    if any(not isinstance(k, Tok) for k in lab):
        odd = [k for k in lab if not isinstance(k, Tok)]
        if all(isinstance(k, (int, float, str, tuple, type(None))) for k in odd):
            part.violation(rule, w.loc(), explain(w, pr, "the result has keys %r, which are not data IDs" % (odd,)))
        else:
            part.und("result key not understood")
        return None
    return lab


def show(lab):
    return "{%s}" % ", ".join("%s: %r" % (k.name, v) for k, v in lab.items())


def c09_judge(part, w, pr):
    lab = result_labels(part, w, pr, "a clustering returns a label for each managed ID")
    if lab is None:
        return
    part["nontrivial"].add((w.scen.show(), show(lab)))
    part["samples"].append("%s -> %s" % (w.scen.show(), show(lab)))
    missing, more = [k.name for k in w.ids if k not in lab], [k.name for k in lab if k not in w.ids]
    if missing or more:
        part.violation("the keys are the managed IDs", w.loc(), explain(w, pr, "result %s: managed IDs without label %s, unmanaged IDs with a label %s" % (show(lab), missing, more)))
        return
    for k, v in lab.items():
        if isinstance(v, bool) or v is None or isinstance(v, (str, float, tuple, Heap, Tok)) and not isinstance(v, int):
            part.violation("labels are integers", w.loc(), explain(w, pr, "label of %s is %r" % (k.name, v)))
            return
        if not isinstance(v, int) and not (isinstance(v, T) and (v.kind == "int" or v.op.startswith("num:arg"))) and not isinstance(v, Lin):
            part.und("label not understood: %r" % (v,))
            return


def same(it, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return it.facts.known_eq(a, b)


STRICT = {"kmeans": (ML, CL), "hierarchical": (ML, CL), "affinity": (ML,), "dbscan": (CL,)}


def c10_judge(part, w, pr):
    kinds = STRICT[w.scen.algo]
    if w.scen.algo == "affinity" and not w.scen.settings.get("absolute_must_links"):
        return
    lab = result_labels(part, w, pr, "a clustering respecting the constraints is returned")
    if lab is None:
        return
    part["nontrivial"].add((w.scen.show(), show(lab)))
    part["samples"].append("%s -> %s" % (w.scen.show(), show(lab)))
    for a, b in itertools.combinations(w.ids, 2):
        t = w.rel[a, b]
        if t not in kinds:
            continue
        if a not in lab or b not in lab:
            part.violation("MUST_LINK data share a cluster" if t == ML else "CANNOT_LINK data are apart", w.loc(), explain(w, pr, "result %s has no label for %s" % (show(lab), a if a not in lab else b)))
            return
        s = same(w.it, lab[a], lab[b])
        part.count("constrained pairs compared")
        if s is None:
            part.und("labels not comparable: %r, %r" % (lab[a], lab[b]))
        elif t == ML and not s:
            part.violation("MUST_LINK data share a cluster", w.loc(), explain(w, pr, "result %s separates %s and %s" % (show(lab), a.name, b.name)))
        elif t == CL and s:
            part.violation("CANNOT_LINK data are apart", w.loc(), explain(w, pr, "result %s joins %s and %s" % (show(lab), a.name, b.name)))


def c11_judge(part, w, pr):
    lab = result_labels(part, w, pr, "a clustering with canonical labels is returned")
    if lab is None:
        return
    part["nontrivial"].add((w.scen.show(), show(lab)))
    part["samples"].append("%s -> %s" % (w.scen.show(), show(lab)))
    vals = []
    for k in sorted(lab, key=lambda t: t.rank):
        v = lab[k]
        if isinstance(v, T) and v.op == "label":
            part.violation("clusters are renumbered", w.loc(), explain(w, pr, "the label of %s is the estimator's own label %r" % (k.name, v)))
            return
        if not isinstance(v, int) or isinstance(v, bool):
            part.und("label not understood: %r" % (v,))
            return
        vals.append(v)
    regular = [v for v in vals if v >= 0]
    first = list(dict.fromkeys(regular))
    if first != list(range(len(first))):
        part.violation("clusters are numbered 0, 1, 2... by first member", w.loc(), explain(w, pr, "in sorted ID order the labels are %s" % (vals,)))
    neg = [v for v in vals if v < 0]
    if neg and w.scen.algo in ("kmeans", "hierarchical", "spectral"):
        part.violation("negative labels are for noise", w.loc(), explain(w, pr, "%s has no noise but labels are %s" % (w.scen.algo, vals)))
    if w.scen.algo == "dbscan" and len(set(neg)) != len(neg):
        part.violation("noise points have different labels", w.loc(), explain(w, pr, "labels are %s" % (vals,)))


def with_assumptions(check, rule):
    check.rule = rule
    check.assumptions += [
        "vectors enter only through the distance and kernel functions and linear combinations; each comparison of such numbers is taken both ways",
        "scikit-learn, numpy and scipy follow their documentation",
    ]


def c09(check):
    with_assumptions(check, "for every closed constraint relation over the analysed IDs and every outcome of the numeric comparisons, the returned dictionary has exactly the managed IDs as keys and integer values")
    drive(check, scens(check.tier), c09_judge)


def c10(check):
    with_assumptions(check, "for every closed constraint relation over the analysed IDs and every outcome of the numeric comparisons, labels agree with the relation")
    drive(check, [s for s in scens(check.tier, ("kmeans", "hierarchical", "affinity", "dbscan")) + near_far(check.tier) if s.algo != "affinity" or s.settings["absolute_must_links"]], c10_judge)


def c11(check):
    with_assumptions(check, "labels of the returned dictionary, read in sorted ID order, first appear as 0, 1, 2...; negatives only for noise")
    drive(check, scens(check.tier), c11_judge)
