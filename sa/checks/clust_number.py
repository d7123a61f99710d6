"""C32, C33: how many clusters, and when to stop.

C32 walks the exposed tree of the hierarchical clustering and splits it as specified; the other algorithms are asked how
many clusters they make at most.  C33 gives the data definite places, so that every comparison of distances has one
answer, and compares what the KMeans returns for successive iteration limits with the movement of the centroids."""
import itertools
import math
import random
from ..interp import Raised
from ..values import *
from ..values import T
from .clust import *
from .clust_props import drive, explain, result_labels, show, with_assumptions, R2, R3, R4, ROLE5, LINKS, wide, large, random_relation, spots
from .clust_spec import node, walk, names
from .manager import ML, CL
from .places import Places, mean
from .relational import attempt


def blocks(lab):
    out = {}
    for k, v in lab.items():
        out.setdefault(v, set()).add(k)
    return frozenset(frozenset(b) for b in out.values())


def cuts(tree, k, by):
    """every partition obtained by splitting a largest (latest) node until there are k nodes or the chosen one is a leaf"""
    size = (lambda x: len(x[0])) if by == "size" else (lambda x: x[2] if x[1] else float("-inf"))       # a leaf is not a merge
    todo, seen, out = [(tree,)], set(), set()
    while todo:
        cur = todo.pop()
        key = frozenset(frozenset(x[0]) for x in cur)
        if key in seen:
            continue
        seen.add(key)
        if len(cur) >= k:
            out.add(key)
            continue
        top = max(size(x) for x in cur)
        for x in cur:
            if size(x) == top:
                if not x[1]:
                    out.add(key)
                else:
                    todo.append(tuple(y for y in cur if y is not x) + tuple(x[1]))
    return out


def c32_run(w):
    w.build()
    res = w.cluster()
    w.extra_info = {}
    if w.scen.algo == "hierarchical":
        w.extra_info["root"] = w.obj.attrs.get("clustering_root")
        try:
            f = w.it.getattr(w.obj, "compute_predicted_clusters")
        except Raised:
            f = None
        asked = []
        if f is not None:
            n = len(w.ids)
            for by in (None, "size", "iteration"):
                for k in sorted({2, 3, n - 1, n, n + 2}) if n > 5 else range(1, n + 2):
                    kw = {"nb_clusters": k}
                    if by is not None:
                        kw["by"] = by
                    o = attempt(lambda: w.it.call(f, [], kw))
                    asked.append((k, by, o[1] if o[0] == "raise" else w.labels(o[1])))
        w.extra_info["asked"] = asked
    return res


def c32_judge(part, w, pr):
    lab = result_labels(part, w, pr, "a clustering is returned")
    if lab is None:
        return
    rule = lambda r, t: part.violation(r, w.loc(), explain(w, pr, t))
    s, n = w.scen, len(w.ids)
    want = min(s.nb, n)
    free = CL not in w.rel.values()
    part["nontrivial"].add((s.show(), show(dict(sorted(lab.items(), key=lambda p: p[0].rank)))))
    if s.algo == "hierarchical":
        tree = node(w, w.extra_info["root"])
        if tree is None:
            part.und("tree not understood")
            return
        inner = [x for x in walk(tree) if x[1]]
        for x in inner:
            for y in x[1]:
                if y[1] and y[2] >= x[2]:
                    return rule("merges are numbered in their order", "the cluster %s of iteration %d contains the cluster %s of iteration %d" % (names(x[0]), x[2], names(y[0]), y[2]))
        if len({x[2] for x in inner}) < len(inner):
            return rule("merges are numbered in their order", "several merges have the same iteration: %s" % sorted((x[2], names(x[0])) for x in inner))
        for k, by, l in [(want, None, lab)] + w.extra_info["asked"]:
            if not isinstance(l, dict):
                if isinstance(l, str):
                    return rule("the tree can be cut in any number of clusters", "asking for %d clusters raises %s" % (k, l))
                part.und("result not understood")
                return
            if not all(isinstance(x, Tok) for x in l) or not all(isinstance(v, int) for v in l.values()):
                part.und("labels not understood")
                return
            part.count("cuts compared")
            ok = cuts(tree, k, by or "size")
            if blocks(l) not in ok:
                return rule("the result is the tree cut at the requested number", "for %d clusters%s the result is %s; splitting the %s cluster of the tree gives %s" % (
                    k, " by %s" % by if by else "", sorted(map(names, blocks(l))), "latest" if by == "iteration" else "largest", " or ".join(str(sorted(map(names, b))) for b in ok)))
        return
    if s.algo == "spectral":
        fits = [x for kind, x, _ in w.it.events if kind == "fit"]
        if not fits:
            part.und("no estimator call recognised")
            return
        est = fits[-1][0]
        k = est.kw.get("n_clusters", est.args[0] if est.args else None)
        k = w.it.resolve(k) if isinstance(k, T) else k
        if not isinstance(k, (int, type(None))):
            part.und("n_clusters not understood: %r" % (k,))
        elif k != want:
            rule("the model is asked for the requested number of clusters", "n_clusters=%r is asked for, %d data, nb_clusters=%d" % (k, n, s.nb))
        return
    used = {v for v in lab.values() if not (isinstance(v, int) and v < 0)}
    if not all(isinstance(v, int) for v in used):
        part.und("labels not understood")
    elif len(used) > want and (free or s.algo == "mpckmeans"):
        rule("no more clusters than requested", "%d clusters are returned, %d were requested: %s" % (len(used), want, show(lab)))


def c32_scens(tier):
    out = []
    for li, l in enumerate(LINKS):
        for k, r in enumerate(R3):
            out.append(sc("hierarchical", 3, r, 2 + k % 2, dict(linkage=l), k=k + li))
        for k, r in enumerate(R2):
            out.append(sc("hierarchical", 2, r, 2, dict(linkage=l), k=k))
        step = 2 if tier == "thorough" else 7
        for k, r in enumerate(R4[li % step::step]):
            out.append(sc("hierarchical", 4, r, (2, 3, 4)[k % 3], dict(linkage=l), k=k + li))
    out += wide("hierarchical", tier) + large("hierarchical", tier)
    for k, r in enumerate(R3 + R2):
        n = 3 if k < len(R3) else 2
        for nb in (2, 3, 9):
            out.append(sc("spectral", n, r, nb, {}, k=k))
            out.append(sc("kmeans", n, r, nb, dict(max_iteration=2), k=k, max_paths=150))
    for algo in ("spectral", "kmeans", "mpckmeans"):
        out += wide(algo, tier) + large(algo, tier)
    return out


def c32(check):
    with_assumptions(check, "the result and every answer of compute_predicted_clusters are among the cuts of the exposed tree obtained by splitting a largest (latest) node; n_clusters given to the spectral model, and the number of labels of the KMeans algorithms, compared with the request")
    drive(check, c32_scens(check.tier), c32_judge, c32_run, max_paths=700)


# ---------------------------------------------------------------------- C33
def run_at(project, part, s, **settings):
    """partition returned for these settings, as blocks of names; None when not understood"""
    pol = Places(s.pts)
    w = CWorld(project, Scen(s, settings=dict(s.settings, **settings), policy=pol, tie=True))
    w.build()
    o = attempt(w.cluster)
    part["evaluations"] += 1
    part["functions"].update(w.it.funcs_seen)
    if pol.odd is not None or not usable(w.it):
        part.und("comparison not understood: %r" % (pol.odd,))
        return w, None
    lab = w.labels(o[1]) if o[0] == "ok" else None
    if lab is None or not all(isinstance(v, int) for v in lab.values()) or len(lab) != len(w.ids) or not all(isinstance(k, Tok) for k in lab):
        part.und("result not understood")
        return w, None
    return w, frozenset(frozenset(x.name for x in b) for b in blocks(lab))


def moves(pts, P, Q):
    """how far each centroid moves from partition P to the next pass Q; None when Q is not the nearest-centroid pass of P"""
    cent = {b: mean([pts[x] for x in b]) for b in P}
    out, used = [], set()
    for b in Q:
        near = {min(P, key=lambda c: math.dist(pts[x], cent[c])) for x in b}
        if len(near) != 1 or near & used:
            return None
        used |= near
        out.append(math.dist(cent[next(iter(near))], mean([pts[x] for x in b])))
    return out


def c33_one(project, part, s):
    pts, last = s.pts, s.last
    sh = lambda p: sorted("{%s}" % ",".join(sorted(b)) for b in p)
    where = "places %s" % {k: tuple(round(c, 2) for c in v) for k, v in sorted(pts.items())}
    seq = []
    for limit in range(1, last + 1):
        w, p = run_at(project, part, s, max_iteration=limit, tolerance=0)
        if p is None:
            return
        seq.append(p)
        if limit > 1 and p == seq[-2]:
            break
    mv = [None]
    for i in range(1, len(seq)):
        m = moves(pts, seq[i - 1], seq[i])
        if m is None:
            if seq[i] == seq[i - 1]:
                x, b, c = next((x, b, c) for b in seq[i] for x in b for c in seq[i] if math.dist(pts[x], mean([pts[y] for y in c])) < math.dist(pts[x], mean([pts[y] for y in b])))
                part.violation("it stops early only when the centroids moved less than the tolerance", w.loc(), "%s, tolerance 0, %s: for the iteration limits %d and %d it returns %s, although %s is nearer to the centroid of {%s}" % (
                    s.show(), where, i, i + 1, sh(seq[i]), x, ",".join(sorted(c))))
            else:
                part.und("passes are not nearest-centroid passes")
            return
        mv.append(sum(m) if len(seq[i]) == len(seq[i - 1]) else math.inf)
    if seq[-1] != seq[-2]:
        part.count("runs that do not settle within the limits tried")
    part["nontrivial"].add((s.show(), tuple(seq)))
    if len(part["samples"]) < 3:
        part["samples"].append("%s: total movement of the centroids by pass: %s" % (s.show(), ["%.3f" % x for x in mv[1:]]))
    tols = {1e-4}
    for x in mv[1:]:
        if 0.01 < x < math.inf:
            tols |= {x * 0.97, x * 1.03}
    for tol in sorted(tols):
        stop = next((i for i in range(1, len(seq)) if mv[i] < tol), len(seq) - 1)
        w, p = run_at(project, part, s, max_iteration=last + 3, **({} if tol == 1e-4 else {"tolerance": tol}))
        if p is None:
            return
        part.count("tolerances tried")
        if p == seq[stop] or seq[-1] != seq[-2] and stop == len(seq) - 1:
            continue
        if p in seq[:stop]:
            i = seq.index(p)
            return part.violation("it stops early only when the centroids moved less than the tolerance", w.loc(), "%s, tolerance %.4f, %s: it returns the clusters %s of pass %d, which moved the centroids by %s in total; another pass gives %s" % (
                s.show(), tol, where, sh(p), i + 1, "an unknown distance" if mv[i] is None else "%.4f" % mv[i], sh(seq[i + 1])))
        if p in seq[stop:]:
            return part.violation("it stops when the centroids moved less than the tolerance", w.loc(), "%s, tolerance %.4f, %s: pass %d moves the centroids by %.4f in total and gives %s, yet it goes on to %s" % (s.show(), tol, where, stop + 1, mv[stop], sh(seq[stop]), sh(p)))
        part.und("result is not that of any pass")
        return


def c33_scens(tier):
    rng = random.Random("stop")
    out = []
    for k in range(1600 if tier == "thorough" else 180):
        n = rng.choice((7, 9, 12, 17, 22))
        pts = {NAMES[i]: (rng.random() * 4, rng.random() * 4) for i in range(n)}
        out.append(Scen(algo="kmeans", n=n, order=list(range(n)), ranks=rng.sample(range(n), n), added=[], nb=rng.choice((2, 3, 3, 4, 6)), settings={}, perm=rng.choice(("id", "rev", "rot", "mid")), pts=pts, last=12))
    return out


def c33(check):
    from .clust_rel import drive as each
    check.rule = "KMeans on data at definite places, for the iteration limits 1, 2, ... and tolerances just above and below the movement of each pass: the result is that of the first pass that moves the centroids, in total, by less than the tolerance"
    check.assumptions += ["scenarios whose comparisons are not made of euclidean distances between data and means of data are left undecided", "no constraints, so that each pass assigns every datum to the nearest centroid"]
    each(check, c33_scens(check.tier), c33_one)
