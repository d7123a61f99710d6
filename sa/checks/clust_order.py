"""C15: vectors are matched to data by ID.

(a) the order of the vectors dictionary, and vectors of unmanaged IDs, change nothing (every algorithm);
(b) the order in which the manager lists its IDs changes no partition, where the algorithm itself is order-free
    (no ties, no processing order that decides between constraints);
(c) labels computed by position (spectral, affinity propagation) are given to the ID of that row."""
import hashlib
import itertools
from ..values import *
from .clust import *
from .clust_props import R2, R3, R4, ROLE5, EPS, pol_eps, show
from .clust_rel import SEED, VARIANTS, base_scens, canon, chain, drive, note, outcome, pol_seed, told
from .manager import ML, CL
from .sampling import sampler_scens, world, got
from .relational import Order, digest, has_op

_cd = {}


def cdigest(x):
    """digest in which the order of the terms of sums, products, extrema, means and of the two ends of a distance is forgotten"""
    if isinstance(x, T):
        d = _cd.get(x)
        if d is None:
            args = tuple(cdigest(a) for a in x.args)
            if x.op in ("+", "*", "max", "min"):
                flat = []
                for a, o in zip(args, x.args):
                    flat += list(a[2]) if isinstance(a, tuple) and len(a) == 3 and a[0] == "C" and a[1] == x.op else [a]
                d = ("C", x.op, tuple(sorted(flat, key=repr)))
                if len(repr(d)) > 400:
                    d = ("H", x.op, hashlib.md5(repr(d).encode()).hexdigest())
            elif x.op in ("dist", "num:mahalanobis", "euclid") or x.op.startswith("num:mahal"):
                d = hashlib.md5(repr((x.op, tuple(sorted(args, key=repr)))).encode()).hexdigest()
            elif x.op in ("mean", "vmean", "sum"):
                d = hashlib.md5(repr((x.op, tuple(tuple(sorted(a, key=repr)) if isinstance(a, tuple) else a for a in args))).encode()).hexdigest()
            else:
                d = hashlib.md5(repr((x.op, x.kind, args)).encode()).hexdigest()
            _cd[x] = d
        return d
    if isinstance(x, (tuple, list)):
        return tuple(cdigest(a) for a in x)
    return digest(x)


class COrder(Order):
    def h(self, x):
        return int(hashlib.md5((self.salt + repr(cdigest(x))).encode()).hexdigest()[:8], 16)


def c15_vorder(project, part, s):
    runs = []
    for v in (None, "manager", "rot", "rank", "reverse only", "rank only"):
        w = world(project, type(s)(s, vorder=v))
        w.build()
        runs.append((v, w, outcome(w)))
    part["evaluations"] += 1
    _, w0, o0 = runs[0]
    note(part, w0, "%s %s whatever the order of the vectors" % (s.show(), told(o0)))
    names = {None: "in reverse order, with an unmanaged ID first", "manager": "in the order of the manager", "rot": "rotated, with an unmanaged ID", "rank": "in alphabetical order, with an unmanaged ID",
             "reverse only": "in reverse order", "rank only": "in alphabetical order"}
    for v, w, o in runs[1:]:
        if canon(o) != canon(o0):
            part.violation("the order of the vectors dictionary does not matter", w.loc(), "%s: with vectors %s the call %s; with vectors %s it %s" % (s.show(), names[None], told(o0), names[v], told(o)))
            return


def partition(o):
    if o[0] != "ok" or not isinstance(o[1], ADict) or not all(isinstance(k, Tok) for k in o[1].keys):
        return None
    if not all(isinstance(v, int) for v in o[1].vals):
        return None
    return frozenset(frozenset(k.name for k, v in zip(o[1].keys, o[1].vals) if v == l) for l in set(o[1].vals))


def by_rank(w):
    ids = w.ids

    def f(items):
        l = list(items)
        if all(isinstance(x, Tok) for x in l):
            return sorted(l, key=lambda t: t.rank)
        if l and all(isinstance(x, int) for x in l) and sorted(l) == list(range(len(ids))):
            return sorted(l, key=lambda i: ids[i].rank)
        return l
    return f


def c15_listing(project, part, s):
    """s lists the IDs alphabetically; the other worlds list the same IDs, with the same relation, in other orders"""
    n = len(s.order)
    seen = []
    for p in ([tuple(range(n))] + [q for q in itertools.permutations(range(n)) if q != tuple(range(n))][:: 1 if n <= 3 else 5]):
        w = CWorld(project, Scen(s, order=list(p), ranks=list(range(n))))
        w.it.shuffle_perm = by_rank(w)
        w.build()
        o = outcome(w)
        seen.append((p, w, o))
    part["evaluations"] += 1
    p0, w0, o0 = seen[0]
    note(part, w0, "%s %s whatever the order of the managed IDs" % (s.show(), told(o0)))
    a = partition(o0)
    if a is None:
        part.und("result of the run in alphabetical order not understood")
        return
    for p, w, o in seen[1:]:
        b = partition(o)
        if b is None:
            if o[0] == "raise":
                part.violation("the order of the managed IDs does not change which vector belongs to which ID", w.loc(), "%s: listed as %s the call %s" % (s.show(), [x.name for x in w.ids], told(o)))
                return
            part.und("result not understood")
            return
        if a != b:
            part.violation("the order of the managed IDs does not change which vector belongs to which ID", w.loc(), "%s: with this order of the managed IDs the call %s; listed as %s it %s" % (s.show(), told(o0), [x.name for x in w.ids], told(o)))
            return


def c15_labels(project, part, s):
    """labels by position go to the ID of the row"""
    w = CWorld(project, s)
    w.build()
    o = outcome(w)
    part["evaluations"] += 1
    note(part, w, "%s %s, labels by row" % (s.show(), told(o)))
    fits = [e[1] for e in w.it.events if e[0] == "fit"]
    if len(fits) != 1 or not isinstance(fits[0][1], AMatrix):
        part.und("matrix given to the estimator not understood")
        return
    _, m, snap = fits[0]
    vec = {w.vec(x): x for x in w.ids}
    rows = [vec.get(r) for r in m.rows]
    a = partition(o)
    if a is None or None in rows or len(rows) != len(w.ids):
        part.und("rows or result not understood")
        return
    lab = {x.name: T("label", snap, r, kind="int") for r, x in enumerate(rows)}
    same = lambda x, y: x == y or any(x in b and y in b for b in a)
    for x, y in itertools.combinations(sorted(lab), 2):
        e = w.it.facts.known_eq(lab[x], lab[y])
        if e is not None and e != same(x, y):
            part.violation("labels computed by row are given to the ID of the row", w.loc(), "%s: the rows of %s and %s get %s label, but the result is %s" % (s.show(), x, y, "the same" if e else "another", told(o)))
            return


def index_of(t):
    """(array, position) of a label computed from one element of an array"""
    while isinstance(t, T):
        if t.op == "elem" and len(t.args) == 2 and isinstance(t.args[1], int) and not isinstance(t.args[1], bool):
            return t.args
        nxt = [a for a in t.args if isinstance(a, T) and has_op(a, ("elem",))]
        if t.op != "num:searchsorted" and len(nxt) != 1:
            return None
        t = nxt[-1] if nxt else None
    return None


def ap_policy(pair, asked):
    """the messages converge, and exactly the rows of `pair` have the same exemplar"""
    def f(it, key):
        if key[0] == "truthy" and isinstance(key[1], T) and key[1].op in ("num:!=", "num:==", "num:all", "num:>", "num:<"):
            return key[1].op == "num:>" or key[1].op == "num:==" or key[1].op == "num:<" and key[1].args[0] == 0
        if key[0] == "<" and key[1] == 0 and isinstance(key[2], T) and key[2].op == "num:size":
            return True
        if key[0] == "nonempty":
            return True
        if key[0] == "==" and len(key) == 3:
            a, b = index_of(key[1]), index_of(key[2])
            if a is not None and b is not None and a[0] is b[0]:
                asked.append((a[0], a[1], b[1]))
                return {a[1], b[1]} == set(pair) or a[1] == b[1]
        return None
    return f


def c15_affinity(project, part, s):
    """labels by row, or by row of the merged must-link groups, go to the IDs of the row"""
    n, ab = len(s.order), s.settings["absolute_must_links"]
    groups = n - sum(1 for c in s.added if c[2] == ML) if ab else n
    for pair in itertools.combinations(range(groups), 2):
        asked = []
        w = CWorld(project, Scen(s, policy=Order("ap", chain(ap_policy(pair, asked), pol_seed(False)))))
        w.build()
        o = outcome(w)
        part["evaluations"] += 1
        note(part, w, "%s %s, rows %s and %s alike" % (s.show(), told(o), *pair))
        a = partition(o)
        mats = [e[2] for e in w.it.events if e[0] == "matrix"]
        vec = {w.vec(x): x for x in w.ids}
        if a is None or len({m for m in mats}) != 1 or not asked or any(r not in vec for r in mats[0]):
            part.und("labels or rows not understood")
            return
        row = [vec[r] for r in mats[0]]
        members = {i: {x} for i, x in enumerate(row)}
        if ab:
            support = {}
            for e in w.it.events:
                if e[0] == "array-store" and isinstance(e[1][1], tuple) and len(e[1][1]) == 2 and all(isinstance(k, int) and not isinstance(k, bool) for k in e[1][1]):
                    ps = positions(e[1][2])
                    if ps:
                        support[e[1][1]] = support.get(e[1][1], set()) | ps
            members = {}
            for i in range(groups):
                ks = [v for k, v in support.items() if i in k and k[0] != k[1]]
                if len(ks) < 3:
                    part.und("merged similarities not understood")
                    return
                members[i] = {row[r] for r in set.intersection(*ks) if r < len(row)}
            if sorted(x.name for v in members.values() for x in v) != sorted(x.name for x in w.ids):
                part.und("merged similarities not understood")
                return
        want = [set(x.name for x in members[i]) for i in range(groups) if i not in pair] + [set(x.name for i in pair for x in members[i])]
        want = frozenset(frozenset(b) for b in want)
        if a != want:
            part.violation("labels computed by row are given to the ID of the row", w.loc(), "%s: when the rows of %s get the same label and all others another one, the call %s" % (s.show(), " and ".join("{%s}" % ",".join(sorted(x.name for x in members[i])) for i in pair), told(o)))
            return


def positions(t, out=None):
    """row and column numbers of the similarities a value is made of"""
    out = set() if out is None else out
    if isinstance(t, T):
        if t.op == "elem" and len(t.args) == 2 and isinstance(t.args[1], tuple) and len(t.args[1]) == 2 and all(isinstance(k, int) for k in t.args[1]):
            out.update(t.args[1])
            return out
        for a in t.args:
            positions(a, out)
    return out


def near_policy(pairs):
    """exactly the given pairs of IDs (by name) are within eps"""
    def f(it, key):
        r = pol_eps(it, key)
        if r is not None:
            return r
        if key[0] == "<" and len(key) == 3:
            for d, e, up in ((key[1], key[2], True), (key[2], key[1], False)):
                if e is EPS() and isinstance(d, T) and d.op == "dist":
                    ends = frozenset(a.args[0].name for a in d.args if isinstance(a, T) and a.op == "vec")
                    near = len(ends) < 2 or ends in pairs
                    return near if up else not near
                if e is EPS() and isinstance(d, (int, float)):
                    return (d <= 0) if up else (d > 0)
        return None
    return f


def listing_scens(tier):
    out = []
    salts = 8 if tier == "thorough" else 3
    for s in range(salts):
        for l in ("single", "complete", "average", "ward"):
            for k, (n, r) in enumerate([(3, r) for r in R3] + [(4, r) for r in R4[s % 5::(4 if tier == "thorough" else 9)]]):
                out.append(sc("hierarchical", n, r, 2 + (k + s) % 3, dict(linkage=l), policy=COrder("h%d" % s), tie=True))
        for mi in (1, 2, 4):
            for n in (3, 4):
                for nb in (2, 3):
                    out.append(sc("kmeans", n, [], nb, dict(max_iteration=mi, random_seed=SEED), policy=COrder("k%d" % s, pol_seed(False)), tie=True))
        for k, (n, r) in enumerate([(3, r) for r in R3] + [(4, r) for r in R4[::9]]):
            groups = n - sum(1 for c in r if c[2] == ML)
            if groups >= 2:
                out.append(sc("mpckmeans", n, r, groups, dict(max_iteration=1, random_seed=SEED), policy=COrder("m%d" % s, pol_seed(False)), tie=True))
    names = "abcd"
    for n in (3, 4):
        cliques = [[], ["ab"], ["ac"], ["bc"]] + ([["ab", "cd"], ["ac", "bd"], ["ad", "bc"], ["ab", "ac", "bc"], ["bc", "bd", "cd"], ["cd"], ["bd"]] if n == 4 else [["ab", "ac", "bc"]])
        for c in cliques:
            for ms in (1, 2, 3):
                out.append(sc("dbscan", n, [], None, dict(eps=EPS(), min_samples=ms), policy=COrder("d", near_policy({frozenset(p) for p in c})), tie=True, near=c))
    return out


def c15_sampler(project, part, s):
    """the same pairs whatever the order of the managed IDs: all of them for a random draw, the same ones by distance"""
    n = len(s.order)
    seen = []
    for p in itertools.permutations(range(n)):
        if n > 3 and p != tuple(range(n)) and sum(i * x for i, x in enumerate(p)) % 5:
            continue
        inv = {s.ranks[i]: i for i in range(n)}
        order = [inv[r] for r in p]
        w = world(project, type(s)(s, order=order))
        w.build()
        o = outcome(w)
        r = got(part, w, o)
        if r is None:
            part.und("result not understood")
            return
        seen.append((w, o, r if r == "raise" else [tuple(x.name for x in q) for q in r]))
    part["evaluations"] += 1
    w0, o0, r0 = seen[0]
    note(part, w0, "%s %s whatever the order of the managed IDs" % (s.show(), told(o0)))
    for w, o, r in seen[1:]:
        if r == "raise" or r0 == "raise" or sorted(r) != sorted(r0):
            part.violation("the order of the managed IDs does not change which vector belongs to which ID", w.loc(), "%s: with the IDs listed as %s the call %s; listed as %s it %s" % (s.show(), [x.name for x in w0.ids], told(o0), [x.name for x in w.ids], told(o)))
            return


def c15_any(project, part, item):
    kind, s = item
    {"sampler": c15_sampler, "vorder": c15_vorder, "listing": c15_listing, "labels": c15_labels, "affinity": c15_affinity}[kind](project, part, s)


def c15_items(tier):
    items = [("vorder", s) for s in base_scens(tier, salts=2)]
    items += [("vorder", s) for s in sampler_scens(tier)]
    items += [("sampler", s) for s in sampler_scens(tier) if len(s.order) <= 4 and (s.settings.get("distance_restriction") or s.nb >= 50)]
    items += [("listing", s) for s in listing_scens(tier)]
    for s in range(6 if tier == "thorough" else 2):
        for k, (n, r) in enumerate([(3, r) for r in R3] + [(4, r) for r in R4[s % 3::3]] + [(5, r) for r in ROLE5]):
            items.append(("labels", sc("spectral", n, r, 2 + k % 2, dict(random_seed=SEED), k=k + s, policy=Order("s%d" % s, pol_seed(False)), tie=True)))
    for ab in (True, False):
        for k, (n, r) in enumerate([(3, []), (4, []), (4, [(0, 2, ML)]), (4, [(1, 3, ML), (0, 1, CL)]), (4, [(0, 3, ML), (1, 2, CL)]), (5, [(0, 3, ML), (1, 4, ML)]), (5, [(0, 4, ML), (4, 2, ML)])] + ([(4, r) for r in R4 if sum(c[2] == ML for c in r) <= 1] if tier == "thorough" else [])):
            for j in range(3 if tier == "thorough" else 2):
                items.append(("affinity", sc("affinity", n, r, None, dict(max_iteration=3, convergence_iteration=1, absolute_must_links=ab, random_seed=SEED), k=k + j, tie=True)))
    return items


def c15(check):
    check.rule = ("the same call with the vectors dictionary in another order and with vectors of unmanaged IDs gives the same result; with the managed IDs listed in another order, the same partition where the algorithm has no order of its own; "
                  "labels computed by row are given to the ID whose vector is that row")
    check.assumptions += ["one fixed arbitrary order of numbers per scenario and salt", "comparisons of sums do not depend on the order of their terms"]
    drive(check, c15_items(check.tier), c15_any)
