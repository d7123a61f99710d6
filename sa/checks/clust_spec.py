"""C26, C27, C28: the algorithms against their definition."""
import itertools
import math
import random
from fractions import Fraction
from ..report import Part
from ..values import *
from ..values import T
from .clust import *
from .clust_props import drive, scens, explain, result_labels, show, with_assumptions, R2, R3, R4, ROLE5, LINKS, pol_mpc, pol_mpc_first, wide, large, valued, random_relation
from .manager import ML, CL
from .places import Places, mean, scatter
from .relational import attempt
from .poly import Known, poly, add, distances_only


# ---------------------------------------------------------------------- C26
def node(w, o):
    """(members, children, iteration) of a tree node, or None"""
    if not isinstance(o, AObj):
        return None
    m, c, i = o.attrs.get("members"), o.attrs.get("children"), o.attrs.get("clustering_iteration")
    if not isinstance(m, AList) or not isinstance(c, (AList, tuple)) or not isinstance(i, int):
        return None
    mem = list(m.items)
    if not all(isinstance(x, Tok) for x in mem):
        return None
    kids = []
    for x in (c.items if isinstance(c, AList) else c):
        k = node(w, x)
        if k is None:
            return None
        kids.append(k)
    return (mem, kids, i, o)


def walk(n):
    yield n
    for k in n[1]:
        for x in walk(k):
            yield x


class Linkage:
    def __init__(self, w, metric):
        self.w, self.k, self.metric = w, Known(w.it), metric

    def d(self, a, b):
        a, b = self.w.vec(a), self.w.vec(b)
        if a is b:
            return 0.0
        if repr(b) < repr(a):
            a, b = b, a
        return T("dist", self.metric, a, b, kind="num")

    def mean(self, m):
        acc = 0
        for x in m:
            acc = self.w.it.arith("+", acc, self.w.vec(x))
        return self.w.it.arith("/", acc, len(m))

    def value(self, A, B):
        """('min'|'max', terms)"""
        l = self.w.scen.settings.get("linkage", "ward")
        if l in ("single", "complete"):
            return ("min" if l == "single" else "max", [self.d(a, b) for a in A for b in B])
        if l == "average":
            x, y = self.mean(A), self.mean(B)
            if x is y:
                return ("min", [0.0])
            if repr(y) < repr(x):
                x, y = y, x
            return ("min", [T("dist", self.metric, x, y, kind="num")])
        acc = 0
        for a, b in itertools.combinations(list(A) + list(B), 2):
            acc = self.w.it.arith("+", acc, self.d(a, b))
        return ("min", [self.w.it.arith("/", acc, len(A) * len(B))])

    def le(self, p, q):
        kind, A = p
        _, B = q
        if kind == "min":
            return any(all(self.k.le(a, b) for b in B) for a in A)
        return any(all(self.k.le(a, b) for a in A) for b in B)

    def lt(self, p, q):
        kind, A = p
        _, B = q
        if kind == "min":
            return any(all(self.k.lt(a, b) for b in B) for a in A)
        return any(all(self.k.lt(a, b) for a in A) for b in B)


def admissible(w, A, B):
    return not any(w.rel[a, b] == CL for a in A for b in B)


def names(m):
    return "{%s}" % ",".join(sorted(x.name for x in m))


def c26_judge(part, w, pr):
    lab = result_labels(part, w, pr[0], "a hierarchical clustering is returned")
    if lab is None:
        return
    p0, extra = pr
    rule = lambda r, t: part.violation(r, w.loc(), explain(w, p0, t))
    root = extra["root"]
    if root is None:
        rule("the tree of merges is exposed", "no clustering_root after the run")
        return
    tree = node(w, root)
    if tree is None:
        part.und("tree not understood")
        return
    part["nontrivial"].add((w.scen.show(), tuple((names(x[0]), x[2]) for x in walk(tree))))
    part["samples"].append("%s -> merges %s" % (w.scen.show(), " ".join(names(x[0]) for x in sorted(walk(tree), key=lambda x: x[2]) if x[1])))
    for x in walk(tree):
        if x[1]:
            below = [m for k in x[1] for m in k[0]]
            if len(below) != len(set(below)) or set(below) != set(x[0]) or len(x[0]) != len(set(x[0])):
                return rule("a node has exactly the data of its children", "node %s has children %s" % (names(x[0]), [names(k[0]) for k in x[1]]))
    if set(tree[0]) != set(w.ids):
        return rule("the tree has all managed data", "the root has %s" % names(tree[0]))
    groups = {frozenset(y for y in w.ids if w.rel[x, y] == ML or x is y) for x in w.ids}
    leaves = [x for x in walk(tree) if not x[1]]
    if {frozenset(x[0]) for x in leaves} != groups or len(leaves) != len(groups):
        return rule("the leaves are the MUST_LINK groups", "leaves are %s" % sorted(names(x[0]) for x in leaves))
    ok, odd = distances_only(w.it)
    metrics = odd if ok else set()
    link = Linkage(w, next(iter(metrics)) if len(metrics) == 1 else ("euclidean",))
    inner = [x for x in walk(tree) if x[1]]
    inner.sort(key=lambda x: (x[2], len(x[0])))
    cur = {frozenset(x[0]) for x in leaves}
    for x in inner:
        kids = [frozenset(k[0]) for k in x[1]]
        pairs = list(itertools.combinations(kids, 2))
        gather = x is tree or x[3] is tree[3]
        if any(k not in cur for k in kids):
            return rule("merges join current clusters", "node %s joins %s while the clusters are %s" % (names(x[0]), [names(k) for k in kids], sorted(map(names, cur))))
        if len(kids) == 2 and admissible(w, *kids):
            chosen = link.value(*[sorted(k, key=lambda t: t.rank) for k in kids])
            for a, b in itertools.combinations(sorted(cur, key=names), 2):
                if {a, b} == set(kids) or not admissible(w, a, b):
                    continue
                other = link.value(sorted(a, key=lambda t: t.rank), sorted(b, key=lambda t: t.rank))
                part.count("pairs of clusters compared")
                if link.le(chosen, other):
                    continue
                if link.lt(other, chosen):
                    return rule("the closest admissible clusters are merged", "merges %s although %s and %s are closer" % (" and ".join(map(names, kids)), names(a), names(b)))
                if not ok:
                    part.und("merge decided by a number that is not a combination of distances: %r" % (odd,))
                elif len(metrics) > 1:
                    part.und("several metrics")
                elif w.scen.tie and w.it.facts.known_eq(chosen[1][0], other[1][0]):
                    continue
                else:
                    return rule("the closest admissible clusters are merged", "merges %s without having found them closer than %s and %s (compared numbers are not the %s linkage)" % (
                        " and ".join(map(names, kids)), names(a), names(b), w.scen.settings.get("linkage")))
        elif gather:
            if set(kids) != cur:
                return rule("the root gathers what is left", "the root joins %s while the clusters are %s" % ([names(k) for k in kids], sorted(map(names, cur))))
            left = [(a, b) for a, b in pairs if admissible(w, a, b)]
            if left:
                return rule("merging goes on while a merge is admissible", "%s and %s are never merged although no CANNOT_LINK separates them" % (names(left[0][0]), names(left[0][1])))
        else:
            return rule("merges respect CANNOT_LINK", "node %s joins %s" % (names(x[0]), [names(k) for k in kids]))
        cur = (cur - set(kids)) | {frozenset(x[0])}
    # every answer is made of nodes of the tree; another number of clusters splits the same tree
    nodes = {frozenset(x[0]) for x in walk(tree)}
    for what, l in [("the result", lab)] + extra["again"]:
        if l is None:
            continue
        blocks = {}
        for k, v in l.items():
            blocks.setdefault(v, set()).add(k)
        if not all(frozenset(b) in nodes for b in blocks.values()):
            return rule("clusters are nodes of the tree", "%s has clusters %s" % (what, sorted(map(names, blocks.values()))))
    for k, again, fresh in extra["pairs"]:
        if again != fresh:
            return rule("asking again splits the same tree", "asked again for %d clusters it gives %s, a fresh run for %d gives %s" % (k, again, k, fresh))


class Multi:
    """outcome of the main call with what was asked afterwards"""


def c26_run(w):
    w.build()
    res = w.cluster()
    obj = w.obj
    root = obj.attrs.get("clustering_root")
    extra = {"root": root, "again": [], "pairs": []}
    n = len(w.ids)
    f = None
    try:
        f = w.it.getattr(obj, "compute_predicted_clusters")
    except Raised:
        pass
    if f is not None and not w.scen.tie:
        for k in (2, n, 3):
            l = w.labels(w.it.call(f, [], {"nb_clusters": k}))
            if l is not None and all(isinstance(x, Tok) for x in l):
                extra["again"].append(("asking again for %d clusters" % k, l))
        # fresh object for another number
        k = 3 if w.scen.nb != 3 else 2
        if n >= k and w.scen.n <= 3:
            a = w.labels(w.it.call(f, [], {"nb_clusters": k}))
            save = w.obj
            w.build()
            b = w.labels(w.cluster(nb_clusters=k))
            w.obj = save
            if a is not None and b is not None:
                sh = lambda d: show(dict(sorted(d.items(), key=lambda p: p[0].rank)))
                extra["pairs"].append((k, sh(a), sh(b)))
    w.extra_info = extra
    return res


def c26_scens(tier):
    out = []
    for li, l in enumerate(LINKS):
        for k, r in enumerate(R3):
            out.append(sc("hierarchical", 3, r, 2 + k % 2, dict(linkage=l), k=k + li))
            out.append(sc("hierarchical", 3, r, 2, dict(linkage=l), k=k, tie=True))
        for k, r in enumerate(R2):
            out.append(sc("hierarchical", 2, r, 2, dict(linkage=l), k=k))
        step = 1 if tier == "thorough" else 3
        for k, r in enumerate(R4[li % step::step]):
            out.append(sc("hierarchical", 4, r, (2, 3, 4)[k % 3], dict(linkage=l), k=k + li))
        for k, r in enumerate(ROLE5[1:5] if tier == "quick" else ROLE5[:5]):
            out.append(sc("hierarchical", 5, r, 3, dict(linkage=l), k=k))
        for k, r in enumerate(R3):
            # two data share one vector
            out.append(sc("hierarchical", 3, r, 2, dict(linkage=l), k=k, tie=True, dup=True))
        for k, r in enumerate(R4[li::6]):
            out.append(sc("hierarchical", 4, r, 2, dict(linkage=l), k=k, tie=True, dup=True))
    return out + wide("hierarchical", tier) + large("hierarchical", tier)


def c26_placed(project, part, s):
    """data at definite places: each merge of the exposed tree is a closest admissible one"""
    pts, link = s.pts, s.settings["linkage"]
    pol = Places(pts)
    w = CWorld(project, Scen(s, policy=pol, tie=True))
    w.build()
    o = attempt(w.cluster)
    part["evaluations"] += 1
    part["functions"].update(w.it.funcs_seen)
    if pol.odd is not None or not usable(w.it):
        part.und("comparison not understood: %r" % (pol.odd,))
        return
    tree = node(w, w.obj.attrs.get("clustering_root")) if o[0] == "ok" else None
    if tree is None:
        part.und("tree not understood")
        return
    text = "%s, places %s" % (s.show(), {k: tuple(round(c, 2) for c in v) for k, v in sorted(pts.items())})
    part["nontrivial"].add(text)
    rule = lambda r, t: part.violation(r, w.loc(), "%s: %s" % (text, t))
    at = lambda m: [pts[x.name] for x in m]

    def value(A, B):
        P, Q = at(A), at(B)
        ds = [math.dist(p, q) for p in P for q in Q]
        if link == "single":
            return min(ds)
        if link == "complete":
            return max(ds)
        if link == "average":
            return math.dist(mean(P), mean(Q))
        return sum(math.dist(p, q) for p, q in itertools.combinations(P + Q, 2)) / (len(P) * len(Q))
    inner = sorted((x for x in walk(tree) if x[1]), key=lambda x: (x[2], len(x[0])))
    cur = {frozenset(x[0]) for x in walk(tree) if not x[1]}
    for x in inner:
        kids = [frozenset(k[0]) for k in x[1]]
        if any(k not in cur for k in kids):
            return rule("merges join current clusters", "node %s joins %s while the clusters are %s" % (names(x[0]), [names(k) for k in kids], sorted(map(names, cur))))
        pairs = [(a, b) for a, b in itertools.combinations(sorted(cur, key=names), 2) if admissible(w, a, b)]
        if len(kids) == 2 and admissible(w, *kids):
            d = value(*kids)
            for a, b in pairs:
                part.count("pairs of clusters compared")
                if value(a, b) < d - 1e-6:
                    return rule("the closest admissible clusters are merged", "merges %s (distance %.4f) although %s and %s are closer (%.4f)" % (" and ".join(map(names, kids)), d, names(a), names(b), value(a, b)))
        elif x is tree and set(kids) == cur:
            if pairs:
                return rule("merging goes on while a merge is admissible", "%s and %s are never merged although no CANNOT_LINK separates them" % tuple(map(names, pairs[0])))
        else:
            return rule("merges respect CANNOT_LINK", "node %s joins %s" % (names(x[0]), [names(k) for k in kids]))
        cur = (cur - set(kids)) | {frozenset(x[0])}


def placed_scens(algo, tier, settings, per):
    rng = random.Random("placed " + algo)
    out = []
    for k in range(per * (6 if tier == "thorough" else 1)):
        n = rng.choice((5, 7, 9, 12))
        pts = scatter(rng, n, NAMES, rng.choice((1.0, 4.0, 300.0)))
        out.append(Scen(algo=algo, n=n, order=list(range(n)), ranks=rng.sample(range(n), n), added=random_relation(rng, n, rng.choice((0, 1, 3, 6))), nb=rng.choice((2, 3)), settings=settings(k), pts=pts, perm=rng.choice(("id", "rev", "rot", "mid"))))
    return out


def c26(check):
    with_assumptions(check, "walk of the exposed tree: each merge joins current admissible clusters whose linkage, as a normal form over pair distances, is known to be smallest by the decisions taken")
    check.assumptions.append("distances of four or five points may come in any order")
    drive(check, c26_scens(check.tier), lambda part, w, pr: c26_judge(part, w, (pr, w.extra_info if pr.outcome[0] == "return" else None)), c26_run, max_paths=1500)
    from .clust_rel import drive as each
    each(check, placed_scens("hierarchical", check.tier, lambda k: dict(linkage=LINKS[k % 4]), 64), c26_placed)


# ---------------------------------------------------------------------- C27
TOL = T("sym", "tolerance", kind="num")


def pol_tol(it, key):
    """never converged"""
    if key[0] == "<" and key[2] is TOL:
        return isinstance(key[1], (int, float)) and key[1] <= 0
    if key[0] == "<" and key[1] is TOL:
        return not (isinstance(key[2], (int, float)) and key[2] <= 0)
    return None


def passes(w, k, metric):
    """every partition of the groups that one pass from the given centroids can give, as far as the decisions tell.

    centroids: {index: vector}; yields (partition as frozenset of blocks, known)"""
    groups = []
    for x in w.ids:
        if not any(x in g for g in groups):
            groups.append([y for y in w.ids if y is x or w.rel[x, y] == ML])

    def dist(x, c):
        a = w.vec(x)
        if a is c:
            return 0.0
        b = c
        if repr(b) < repr(a):
            a, b = b, a
        return T("dist", metric, a, b, kind="num")

    def one(centroids):
        out = set()

        def go(left, placed, new):
            if not left:
                blocks = {}
                for g, c in placed:
                    blocks.setdefault(c, set()).update(g)
                out.add(frozenset((c, frozenset(b)) for c, b in blocks.items()))
                return
            for gi, g in enumerate(left):
                rest = left[:gi] + left[gi + 1:]
                allowed = [c for c in centroids if not any(p == c and any(w.rel[x, y] == CL for x in g for y in h) for h, p in placed)]
                if not allowed:
                    go(rest, placed + [(g, ("new", len(new)))], new + [1])
                    continue
                for c in allowed:
                    if any(all(k.le(dist(rep, centroids[c]), dist(rep, centroids[o])) for o in allowed if o != c) for rep in g):
                        go(rest, placed + [(g, c)], new)
        go(groups, [], [])
        return out
    return one


def mean_of(w, block):
    acc = 0
    for x in sorted(block, key=lambda t: t.rank):
        acc = w.it.arith("+", acc, w.vec(x))
    return w.it.arith("/", acc, len(block))


def c27_judge(part, w, pr):
    lab = result_labels(part, w, pr, "a clustering is returned")
    if lab is None:
        return
    part["nontrivial"].add((w.scen.show(), show(lab)))
    part["samples"].append("%s -> %s" % (w.scen.show(), show(lab)))
    rule = lambda r, t: part.violation(r, w.loc(), explain(w, pr, t))
    if any(not isinstance(v, int) for v in lab.values()) or set(lab) != set(w.ids):
        part.und("labels not understood")
        return
    blocks = {}
    for x, c in lab.items():
        blocks.setdefault(c, set()).add(x)
    cents = w.obj.attrs.get("centroids")
    if isinstance(cents, ADict) and all(isinstance(k, int) for k in cents.keys):
        if set(cents.keys) != set(blocks):
            return rule("centroids are keyed by the returned labels", "labels %s, centroid keys %s" % (show(lab), sorted(cents.keys)))
        for c, v in zip(cents.keys, cents.vals):
            want = mean_of(w, blocks[c])
            if v is not want:
                if isinstance(v, T) and (v.op in ("vec", "lc") or v.kind == "vec"):
                    return rule("an exposed centroid is the mean of its data", "cluster %s is %s but its centroid is %r" % (c, names(blocks[c]), v))
                part.und("centroid not understood: %r" % (v,))
    elif cents is None:
        return rule("centroids are exposed", "no centroids after the run")
    else:
        part.und("centroids not understood")
    if len(w.ids) > 6:
        return                # too many starts to replay: only the exposed centroids
    ok, odd = distances_only(w.it)
    metrics = odd if ok else set()
    k = Known(w.it)
    one = passes(w, k, next(iter(metrics)) if len(metrics) == 1 else ("euclidean",))
    nb = min(w.scen.nb, len(w.ids))
    target = frozenset(frozenset(b) for b in blocks.values())
    want_passes = w.scen.settings["max_iteration"]
    reached = set()
    for init in itertools.permutations(w.ids, nb):
        if w.scen.perm is not None or True:
            start = {i: w.vec(x) for i, x in enumerate(init)}
            states = one(start)
        for p in range(want_passes):
            if p + 1 == want_passes or not w.scen.denied:
                if any(frozenset(b for _, b in st) == target for st in states):
                    return
            if p + 1 < want_passes:
                nxt = set()
                for st in states:
                    nxt |= one({c: mean_of(w, b) for c, b in st})
                reached |= states
                states = nxt
    if not ok:
        part.und("assignment decided by a number that is not a distance: %r" % (odd,))
    elif len(metrics) > 1:
        part.und("several metrics")
    else:
        rule("data go to the closest allowed centroid", "no start and no order of assignment to the closest allowed centroid, as far as the compared distances tell, gives %s after %s%d pass(es)" % (show(lab), "" if w.scen.denied else "at most ", want_passes))


def c27_scens(tier):
    out = []
    for k, r in enumerate(R3):
        for nb in (2, 3, 5):
            out.append(sc("kmeans", 3, r, nb, dict(max_iteration=1, tolerance=TOL), k=k, policy=pol_tol, denied=True))
        out.append(sc("kmeans", 3, r, 2, dict(max_iteration=2, tolerance=TOL), k=k + 1, policy=pol_tol, denied=True))
        out.append(sc("kmeans", 3, r, 3, dict(max_iteration=2, tolerance=TOL), k=k + 2, policy=pol_tol, denied=True))
        out.append(sc("kmeans", 3, r, 2, dict(max_iteration=2), k=k))
    for k, r in enumerate(R4):
        out.append(sc("kmeans", 4, r, 2, dict(max_iteration=1, tolerance=TOL), k=k, policy=pol_tol, denied=True))
        if tier == "thorough":
            out.append(sc("kmeans", 4, r, 3, dict(max_iteration=1, tolerance=TOL), k=k, policy=pol_tol, denied=True))
            out.append(sc("kmeans", 4, r, 2, dict(max_iteration=2, tolerance=TOL), k=k, policy=pol_tol, denied=True))
    for k, r in enumerate(ROLE5):
        out.append(sc("kmeans", 5, r, 2, dict(max_iteration=1, tolerance=TOL), k=k, policy=pol_tol, denied=True))
    for k, r in enumerate(R3 + R4[::3]):
        # two data share one vector
        out.append(sc("kmeans", 3 if k < len(R3) else 4, r, 2, dict(max_iteration=1, tolerance=TOL), k=k, policy=pol_tol, denied=True, dup=True))
    many = large("kmeans", tier)
    once = [Scen(s, settings=dict(max_iteration=1)) for s in many]
    return out + [s for s in many + once + wide("kmeans", tier) if s.n > 6]


def one_pass(w, pts, cents, target):
    """can one pass from these centroids give the target partition, for some order of the groups and some member of each?"""
    groups = sorted({frozenset(y for y in w.ids if y is x or w.rel[x, y] == ML) for x in w.ids}, key=names)
    block = {}
    for g in groups:
        b = [t for t in target if g & t]
        if len(b) != 1 or not g <= b[0]:
            return False
        block[g] = b[0]
    foe = {g: [h for h in groups if any(w.rel[a, b] == CL for a in g for b in h)] for g in groups}
    if any(block[h] == block[g] for g in groups for h in foe[g]):
        return False
    order = {g: [sorted(range(len(cents)), key=lambda i: math.dist(pts[x.name], cents[i])) for x in g] for g in groups}
    dead = set()

    def go(done, at):
        """at: {block: centroid number, or None for a cluster opened in this pass}"""
        if len(done) == len(groups):
            return True
        key = (done, frozenset(at.items()))
        if key in dead:
            return False
        tried = set()
        for g in groups:
            if g in done:
                continue
            no = {at[block[h]] for h in foe[g] if h in done}
            for o in order[g]:
                c = next((i for i in o if i not in no), None)
                if (g, c) in tried:
                    continue
                tried.add((g, c))
                if c is None and block[g] in at:
                    continue
                if c is not None and (block[g] in at and at[block[g]] != c or any(b != block[g] and v == c for b, v in at.items())):
                    continue
                if go(done | {g}, {**at, block[g]: c}):
                    return True
        dead.add(key)
        return False
    return go(frozenset(), {})


def c27_placed(project, part, s):
    """data at definite places: the partitions for the limits 1, 2, 3, ... follow from one another by passes"""
    pts = s.pts
    text = "%s, places %s" % (s.show(), {k: tuple(round(c, 2) for c in v) for k, v in sorted(pts.items())})
    prev = None
    for limit in range(1, 5):
        pol = Places(pts)
        w = CWorld(project, Scen(s, settings=dict(s.settings, max_iteration=limit, tolerance=0), policy=pol, tie=True))
        w.build()
        o = attempt(w.cluster)
        part["evaluations"] += 1
        part["functions"].update(w.it.funcs_seen)
        if pol.odd is not None or not usable(w.it):
            part.und("comparison not understood: %r" % (pol.odd,))
            return
        lab = w.labels(o[1]) if o[0] == "ok" else None
        if lab is None or set(lab) != set(w.ids) or any(isinstance(v, bool) or not isinstance(v, int) for v in lab.values()):
            part.und("result not understood")
            return
        cur = {l: frozenset(x for x in w.ids if lab[x] == l) for l in set(lab.values())}
        part["nontrivial"].add((text, limit))
        target = set(cur.values())
        if prev is None:
            ok = any(one_pass(w, pts, [pts[x.name] for x in start], target) for start in itertools.combinations(w.ids, min(s.nb, len(w.ids))))
        else:
            ok = one_pass(w, pts, [mean([pts[n] for n in b]) for b in prev], target)
        part.count("passes compared")
        if not ok:
            return part.violation("each datum goes to the closest allowed centroid", w.loc(), "%s: pass %d from %s gives %s, which no order of the data gives" % (
                text, limit, "any start" if prev is None else "the clusters %s" % sorted("{%s}" % ",".join(sorted(b)) for b in prev), sorted(map(names, target))))
        prev = [frozenset(x.name for x in b) for b in target]
        cents = w.obj.attrs.get("centroids")
        if isinstance(cents, ADict) and all(isinstance(k, int) for k in cents.keys):
            have = {k: pol.place(v) for k, v in zip(cents.keys, cents.vals)}
            if None in have.values():
                part.und("exposed centroids not understood")
            elif set(have) != set(cur) or any(math.dist(have[l], mean([pts[x.name] for x in cur[l]])) > 1e-6 for l in cur):
                return part.violation("the exposed centroids are the means of the returned clusters", w.loc(), "%s: exposed centroids %s, clusters %s" % (text, have, sorted(map(names, target))))


def c27(check):
    with_assumptions(check, "some start from managed data and some order of the MUST_LINK groups, each going to the centroid known closest among the allowed ones, gives the returned partition; exposed centroids are the normal-form means")
    drive(check, c27_scens(check.tier), c27_judge)
    from .clust_rel import drive as each
    each(check, [x for x in placed_scens("kmeans", check.tier, lambda k: {}, 90) if x.n <= 9], c27_placed)


# ---------------------------------------------------------------------- C28
W = T("sym", "w", kind="num")


def pol_w(full):
    def f(it, key):
        if key[0] == "<" and key[1] is W:
            return False
        if key[0] == "<" and key[2] is W:
            return True
        return (pol_mpc if full else pol_mpc_first)(it, key)
    return f


def matrix_ids(w, m):
    """ID of each row, through its vector"""
    by = {w.vec(x): x for x in w.ids}
    return [by.get(v) for v in m.rows]


def spectral_judge(part, w, pr):
    rule = lambda r, t: part.violation(r, w.loc(), explain(w, pr, t))
    if result_labels(part, w, pr, "a clustering is returned") is None:
        return
    fits = [x for kind, x, _ in w.it.events if kind == "fit"]
    if not fits:
        part.und("no estimator call recognised")
        return
    est, m, snap = fits[-1]
    if not isinstance(m, AMatrix) or not (isinstance(snap, tuple) and snap[0] == "M"):
        part.und("matrix given to the estimator not understood")
        return
    m = AMatrix(snap[1], snap[2], snap[3], dict(snap[5]), snap[4])
    aff = est.kw.get("affinity", est.args[4] if len(est.args) > 4 else None)
    if aff != "precomputed":
        if isinstance(aff, (str, type(None))):
            rule("the estimator takes the similarities as they are", "affinity=%r" % (aff,))
        else:
            part.und("affinity not understood")
        return
    ids = matrix_ids(w, m)
    if None in ids or list(m.rows) != list(m.cols) or len(set(ids)) != len(ids):
        if all(isinstance(v, T) and v.op in ("vec", "lc") for v in m.rows):
            rule("one row per managed ID", "rows are %r" % (m.rows,))
        else:
            part.und("rows not understood")
        return
    if m.op[0] == "kern" and m.op[1] != ("rbf",):
        if len(m.op[1]) == 1:
            rule("the similarities are Gaussian similarities of the vectors", "the model works on the %s kernel" % m.op[1][0])
        else:
            part.und("options of the kernel not understood")
        return
    if m.op[0] != "kern" and len(ids) > 1 and m.op[0] == "dist":
        rule("the similarities are Gaussian similarities of the vectors", "the model works on %s" % (m.op,))
        return
    part["nontrivial"].add((w.scen.show(), repr(snap)))
    part["samples"].append("%s -> overrides %s" % (w.scen.show(), {(ids[i].name, ids[j].name): v for (i, j), v in m.over.items()}))
    for i, a in enumerate(ids):
        for j, b in enumerate(ids):
            v, t = m.entry(i, j), w.rel[a, b]
            part.count("matrix entries compared")
            want = 1.0 if t == ML else 0.0 if t == CL else AMatrix(m.op, m.rows, m.cols, {}, m.neg).entry(i, j)
            if isinstance(v, (int, float)) and isinstance(want, (int, float)):
                good = float(v) == float(want)
            else:
                good = v is want
            if not good:
                if isinstance(v, T) and v.op not in ("kern", "dist", "neg", "vec"):
                    part.und("matrix entry not understood: %r" % (v,))
                else:
                    return rule("inferred pairs override the similarities, the others keep theirs", "the similarity of %s and %s (%s) is given as %r" % (a.name, b.name, t or "not constrained", v))


def wpart(t):
    """(coefficients of w, the rest) of a polynomial"""
    p = poly(t)
    if p is None:
        return None, None
    a, b = {}, {}
    for k, c in p.items():
        if W in k:
            k = list(k)
            k.remove(W)
            a[tuple(k)] = c
        else:
            b[k] = c
    return a, b


def pair_of(a):
    """two vectors of a squared metric distance"""
    if isinstance(a, T) and a.op == "**" and a.args[1] == 2 and isinstance(a.args[0], T) and a.args[0].op == "num:mahalanobis":
        return a.args[0].args[:2]
    return None


def mpc_judge(part, w, pr):
    rule = lambda r, t: part.violation(r, w.loc(), explain(w, pr, t))
    lab = result_labels(part, w, pr, "a clustering is returned")
    if lab is None:
        return
    vec = {w.vec(x): x for x in w.ids}
    evs = []
    for kind, x, _ in w.it.events:
        if kind == "extremum" and x[0] in ("argmin", "min"):
            ps = [wpart(t) for t in x[1]]
            if all(p[0] is not None for p in ps) and any(pair_of(a) for p in ps for k in p[1] for a in k):
                evs.append((x[1], x[2], ps))
    if len(evs) != len(w.ids):
        part.und("assignments not recognised (%d choices of a smallest objective for %d data)" % (len(evs), len(w.ids)))
        return
    part["nontrivial"].add((w.scen.show(), show(lab), tuple(e[1] for e in evs)))
    part["samples"].append("%s -> %d objectives compared term by term" % (w.scen.show(), sum(len(e[0]) for e in evs)))

    def fits(x, ps, assigned):
        for c, (wp, rest) in enumerate(ps):
            if any(pair_of(a) and w.vec(x) not in pair_of(a) for k in rest for a in k):
                return False
            if any(len(k) != 1 or not pair_of(k[0]) for k in wp):
                return None
            exp, q = {}, 0
            for y, l in assigned.items():
                atom = None
                if w.rel[x, y] == ML and l != c:
                    add(exp, {("pair", frozenset((w.vec(x), w.vec(y)))): Fraction(1)})
                if w.rel[x, y] == CL and l == c:
                    add(exp, {("pair", frozenset((w.vec(x), w.vec(y)))): Fraction(-1)})
                    q += 1
            got = {}
            for k, co in wp.items():
                add(got, {("pair", frozenset(pair_of(k[0]))): co})
            good = False
            for alpha in ({abs(v) for v in got.values()} | {abs(v) / max(q, 1) for v in got.values()}) or {Fraction(1)}:
                res = dict(got)
                add(res, exp, -alpha)
                if not res if q == 0 else (not res or len(res) == 1 and next(iter(res.values())) == alpha * q):
                    good = True
                    break
            if not good and not (not got and not exp):
                # a penalty of the farthest pair is zero
                return c
        return True

    # the data behind each choice is not known by name: some order of the data must explain every objective
    worst, unknown = [None], [False]

    def explains(i, assigned):
        if i == len(evs):
            return True
        items, best, ps = evs[i]
        for x in w.ids:
            if x in assigned:
                continue
            if not all(not [a for k in rest for a in k if pair_of(a)] or any(w.vec(x) in pair_of(a) for k in rest for a in k if pair_of(a)) for _, rest in ps):
                continue
            v = fits(x, ps, assigned)
            if v is None:
                unknown[0] = True
            elif v is True:
                if explains(i + 1, {**assigned, x: best}):
                    return True
            elif v is not False and (worst[0] is None or worst[0][0] < i):
                worst[0] = (i, x, v, dict(assigned), ps)
        return False

    if not explains(0, {}):
        if unknown[0] or worst[0] is None:
            part.und("objective not attributed to a data ID")
            return
        _, x, c, assigned, ps = worst[0]
        return rule("the objective penalises exactly the violated inferred pairs", "placing %s in cluster %d, with %s placed, the objective has penalties %s" % (
            x.name, c, show(assigned), {tuple(map(repr, k)): str(v) for k, v in ps[c][0].items()}))
    part.count("objectives compared", sum(len(e[0]) for e in evs))
    # metric update
    if w.scen.settings.get("max_iteration") != 1:
        return
    same = lambda a, b: lab[a] == lab[b]
    if any(coordinate(n[1]) for x, d in w.it.facts.le.items() for n in [x] + list(d)) or any(coordinate(tuple(key[1:])) for key in w.it.facts.atoms):
        # which terms are there depends on the coordinates of the data: nothing to compare term by term
        part.und("metric update decided by coordinates")
        return
    for kind, x, _ in w.it.events:
        if kind != "array-store" or not isinstance(x[2], T):
            continue
        s = metric_sum(x[2])
        if s is None:
            continue
        wp, _ = wpart(s)
        if wp is None:
            continue
        got_ml, got_cl, odd = set(), set(), False
        for k in wp:
            if len(k) == 1 and k[0].op == "max":
                pr_ = [neg_pair(a) for a in k[0].args if isinstance(a, T)]
                got_cl.update(p for p in pr_ if p)
                odd = odd or not any(pr_)
            elif elem_pair({k: wp[k]}):
                got_ml.add(elem_pair({k: wp[k]}))
            else:
                odd = True
        if odd:
            part.und("metric update not understood")
            return
        by = {w.vec(y): y for y in w.ids}
        ml = {frozenset((w.vec(a), w.vec(b))) for a, b in itertools.combinations(w.ids, 2) if w.rel[a, b] == ML and not same(a, b)}
        cl = {frozenset((w.vec(a), w.vec(b))) for a, b in itertools.combinations(w.ids, 2) if w.rel[a, b] == CL and same(a, b)}
        nm = lambda s_: sorted("-".join(sorted(by[v].name for v in p)) for p in s_)
        if got_ml != ml:
            return rule("the metric update counts exactly the violated inferred pairs", "result %s: MUST_LINK pairs counted as apart %s, expected %s" % (show(lab), nm(got_ml), nm(ml)))
        miss, more = cl - got_cl, got_cl - cl
        if more or len(miss) > 1:
            return rule("the metric update counts exactly the violated inferred pairs", "result %s: CANNOT_LINK pairs counted as together %s, expected %s" % (show(lab), nm(got_cl), nm(cl)))
        part.count("metric updates compared")


def coordinate(t):
    """does a coordinate of a vector occur in a term"""
    if isinstance(t, T):
        return t.op == "elem" and isinstance(t.args[0], T) and t.args[0].op in ("vec", "lc") or any(coordinate(a) for a in t.args)
    return isinstance(t, tuple) and any(coordinate(a) for a in t)


def metric_sum(t):
    """S of N / max(S, epsilon)"""
    if t.op == "/" and isinstance(t.args[1], T) and t.args[1].op == "max":
        a = [x for x in t.args[1].args if isinstance(x, T)]
        return a[0] if len(a) == 1 else None
    return None


def elem_diff(t):
    """frozenset of the two vectors of a coordinate difference, None otherwise"""
    p = poly(t)
    if p is None or len(p) != 2:
        return None
    vs = []
    for k, c in p.items():
        if len(k) != 1 or k[0].op != "elem" or not isinstance(k[0].args[0], T) or k[0].args[0].op != "vec":
            return None
        vs.append(k[0].args[0])
    return frozenset(vs) if len(set(vs)) == 2 else None


def elem_pair(p):
    for k in p:
        if len(k) == 1 and k[0].op == "**" and k[0].args[1] == 2:
            return elem_diff(k[0].args[0])
    return None


def neg_pair(t):
    p = poly(t)
    for k, c in (p or {}).items():
        if c < 0 and len(k) == 1 and k[0].op == "**":
            return elem_diff(k[0].args[0])
    return None


def c28_judge(part, w, pr):
    (spectral_judge if w.scen.algo == "spectral" else mpc_judge)(part, w, pr)


def c28_scens(tier):
    out = []
    for k, r in enumerate(R4):
        out.append(sc("spectral", 4, r, 2 + k % 2, {}, k=k, tie=True, policy=labels_apart))
    for k, r in enumerate(R3 + R2):
        out.append(sc("spectral", 3 if k < 15 else 2, r, 2, {}, k=k, tie=True, policy=labels_apart))
    for k, r in enumerate(ROLE5):
        out.append(sc("spectral", 5, r, 2, {}, k=k, tie=True, policy=labels_apart))
    for k, r in enumerate(R3):
        for nb in (2, 3):
            out.append(sc("mpckmeans", 3, r, nb, dict(max_iteration=1, w=W), k=k + nb, policy=pol_w(True)))
        out.append(sc("mpckmeans", 3, r, 2, dict(max_iteration=1, w=W), k=k, perm="rev", policy=pol_w(True)))
    for k, r in enumerate(R4[::(1 if tier == "thorough" else 3)]):
        for p in ("id", "mid"):
            out.append(sc("mpckmeans", 4, r, 2, dict(max_iteration=1, w=W), k=k, perm=p, policy=pol_w(False)))
    if tier == "thorough":
        for k, r in enumerate(R4[::4]):
            out.append(sc("mpckmeans", 4, r, 2, dict(max_iteration=1, w=W), k=k, policy=pol_w(True)))
    for s in wide("spectral", tier) + large("spectral", tier):
        s.update(tie=True, policy=labels_apart)
        out.append(s)
    return out


def labels_apart(it, key):
    if key[0] == "==" and all(isinstance(x, T) and x.op == "label" for x in key[1:]):
        return False
    return None


def c28(check):
    with_assumptions(check, "the matrix given to the spectral estimator, entry by entry, and the objective of each candidate cluster of MPCKMeans, as a polynomial in the penalty weight, are those of the inferred relation")
    drive(check, c28_scens(check.tier), c28_judge, max_paths=1500)
