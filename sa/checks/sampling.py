"""The sampler under an arbitrary manager: C19, C20 and the sampler side of C12-C15.

Distances are uninterpreted, so a sort by distance is followed through every order of the candidates; a random draw is
the first items of the population in an order given by the scenario."""
import itertools
import random
from ..interp import Cut, exc_isa
from ..project import PKG
from ..report import AnalysisBroken
from ..values import *
from .clust import *
from .clust_props import R2, R3, R4, ROLE5, random_relation
from .manager import ML, CL, Spec
from .relational import Order, canonical

SAMPLER = ("sampling.clusters_based", "ClustersBasedConstraintsSampling")
SAME, DIFF, NEAR, FAR = "same_cluster", "different_clusters", "closest_neighbors", "farthest_neighbors"


class SWorld(CWorld):
    def __init__(self, project, scen, prefix=()):
        CWorld.__init__(self, project, scen, prefix)
        self.result = self.make_result(scen.labels)

    def make_result(self, labels):
        if labels is None:
            return None
        d = ADict()
        seq = list(zip(self.toks, labels))[::-1]
        if self.scen.extra_label:
            seq.insert(1, (self.extra, labels[0]))
        for t, l in seq:
            self.it.dict_set(d, t, l)
        return d

    def cls(self, algo=None):
        v = self.it.lookup_dotted(PKG + "." + ".".join(SAMPLER))
        if not isinstance(v, ClassV):
            raise AnalysisBroken("class %s not found" % SAMPLER[1])
        return v

    def cluster(self, **over):
        kw = {"constraints_manager": self.mgr, "nb_to_select": self.scen.nb}
        if self.result is not None:
            kw["clustering_result"] = self.result
        if self.scen.settings.get("distance_restriction") or self.scen.always_vectors:
            kw["vectors"] = self.vectors
        kw.update(over)
        return self.it.call(self.it.getattr(self.obj, "sample"), [], kw)

    def loc(self, name="sample"):
        return CWorld.loc(self, "sample" if name == "cluster" else name)

    def eligible(self):
        st = self.scen.settings
        out = []
        for a, b in itertools.combinations(sorted(self.ids, key=lambda t: t.rank), 2):
            la, lb = (self.scen.labels[self.toks.index(x)] for x in (a, b)) if self.scen.labels is not None else (None, None)
            r = st.get("clusters_restriction")
            if r == SAME and la != lb or r == DIFF and la == lb:
                continue
            if st.get("without_added_constraints", True) and frozenset((a, b)) in self.mgr.spec.added:
                continue
            if st.get("without_inferred_constraints", True) and self.rel[a, b] is not None:
                continue
            out.append((a, b))
        return out

    def dist(self, p):
        a, b = (self.vec(x) for x in p)
        if a is b:
            return 0.0
        if repr(b) < repr(a):
            a, b = b, a
        return T("dist", ("euclidean",), a, b, kind="num")


class SScen(Scen):
    def show(self):
        n = lambda i: NAMES[self.ranks[i]]
        s = "sampler(%s) on IDs %s" % (", ".join("%s=%r" % kv for kv in sorted(self.settings.items())), [n(i) for i in self.order])
        s += "; " + (", ".join("%s(%s,%s)" % ("MUST" if t == ML else "CANNOT", n(i), n(j)) for i, j, t in self.added) or "no constraint")
        if self.labels is not None:
            s += "; clusters {%s}" % ", ".join("%s: %r" % (n(i), l) for i, l in enumerate(self.labels))
        s += "; nb_to_select=%r" % (self.nb,)
        if self.rot:
            s += "; draw order rotated by %d" % self.rot
        if self.dup:
            s += "; first and last data have the same vector"
        return s


def world(project, s, prefix=()):
    return (SWorld if isinstance(s, SScen) else CWorld)(project, s, prefix)


def ss(n, added, nb, settings, k=0, labels=None, ranks=None, **kw):
    if ranks is None:
        if n <= 5:
            ranks = list(scramble(n, k))
        else:
            ranks = [(i * 5 + 2 + k) % n for i in range(n)] if n % 5 else [(i * 3 + k) % n for i in range(n)]
    if settings.get("clusters_restriction") and labels is None:
        labels = [0, 1, 0, 7, 1, -1, 0][:n]
    return SScen(algo="sampler", n=n, order=list(range(n)), ranks=list(ranks), added=list(added), nb=nb, settings=dict(settings), labels=labels, **kw)


LABELS = {1: [[0]], 2: [[0, 0], [0, 1]], 3: [[0, 0, 0], [0, 1, 0], [1, 0, 0], [2, 1, 0], [-1, 0, -1]],
          4: [[0, 0, 1, 1], [0, 1, 0, 1], [3, 3, 3, 0], [-1, -2, -1, 0], [1, 0, 2, 3]], 5: [[0, 1, 0, 1, 1], [2, 2, 0, 1, 0]], 6: [[0, 1, 0, 1, 0, 1]]}
FLAGS = [dict(), dict(without_added_constraints=False), dict(without_inferred_constraints=False), dict(without_added_constraints=False, without_inferred_constraints=False)]


def eligible_scens(tier):
    """(C19) random draw and both distance restrictions, every cluster restriction, every flag"""
    out = []
    rels = [(3, r) for r in R3] + [(4, r) for r in R4[:: 1 if tier == "thorough" else 5]] + [(2, r) for r in R2] + [(5, r) for r in ROLE5] + [(6, []), (6, [(0, 3, ML), (3, 5, ML), (1, 2, CL)]), (1, [])]
    for k, (n, r) in enumerate(rels):
        for cr in (None, SAME, DIFF):
            for fi, f in enumerate(FLAGS):
                for dr in ((None, NEAR, FAR) if n <= 3 else (None,)):
                    st = dict(f)
                    if cr:
                        st["clusters_restriction"] = cr
                    if dr:
                        st["distance_restriction"] = dr
                    labs = LABELS[n] if cr else [None]
                    for lab in (labs if n <= 3 or tier == "thorough" else [labs[(k + fi) % len(labs)]]):
                        if dr and n >= 3 and (k + fi) % 3 and tier != "thorough":
                            continue
                        ranks = None
                        if n == 3:
                            ranks = list(itertools.permutations(range(3)))[(k + fi) % 6]
                        out.append(ss(n, r, 50, st, k=k + fi, labels=lab, ranks=ranks, extra_label=bool((k + fi) % 2), policy=Order("s%d" % (k % 4)) if dr else None, tie=True))
    for k, n, r, st, lab, ranks in crowd(tier, "eligible", (None, NEAR, FAR)):
        out.append(ss(n, r, 500, st, labels=lab, ranks=ranks, extra_label=bool(k % 2), policy=Order("sc%d" % k), tie=True))
    return out


def crowd(tier, seed, dists=(None,)):
    """larger data sets: (scenario arguments) with several constraints and clusters"""
    rng = random.Random("sampler crowd " + seed)
    for k in range(48 if tier == "thorough" else 12):
        n = (9, 12, 16, 7)[k % 4]
        r = random_relation(rng, n, (n // 2, n, 0, 2 * n)[k % 4])
        st = dict(FLAGS[k // 2 % 4])
        cr = (None, SAME, DIFF)[k % 3]
        if cr:
            st["clusters_restriction"] = cr
        dr = dists[k // 3 % len(dists)]
        if dr:
            st["distance_restriction"] = dr
        yield k, n, r, st, [rng.choice((0, 1, 2, -1)) for _ in range(n)] if cr else None, rng.sample(range(n), n)


def reach_scens(tier):
    out = []
    rels = [(3, r) for r in R3] + [(4, r) for r in R4[::7]] + [(5, r) for r in ROLE5[1:4]] + [(6, [])]
    for k, (n, r) in enumerate(rels):
        for cr in (None, SAME, DIFF):
            for f in (FLAGS if n <= 4 else FLAGS[::3]):
                st = dict(f)
                if cr:
                    st["clusters_restriction"] = cr
                for lab in (LABELS[n][k % len(LABELS[n])],) if cr else (None,):
                    for nb in (1, 2):
                        out.append(ss(n, r, nb, st, k=k, labels=lab, tie=True))
    for k, n, r, st, lab, ranks in crowd(tier, "reach"):
        if n < 12:
            out.append(ss(n, r, (2, 7, 12)[k % 3], st, labels=lab, ranks=ranks, tie=True))
    return out


def sampler_scens(tier):
    """scenarios of the properties about repeated runs, inputs and orders"""
    from .clust_rel import SEED, pol_seed
    out = []
    for k, (n, r) in enumerate([(3, r) for r in R3] + [(4, r) for r in R4[:: 2 if tier == "thorough" else 7]] + [(5, r) for r in ROLE5]):
        for cr in (None, SAME, DIFF):
            for dr in (None, NEAR, FAR):
                st = dict(FLAGS[k % 4], random_seed=SEED)
                if cr:
                    st["clusters_restriction"] = cr
                if dr:
                    st["distance_restriction"] = dr
                for j, nb in enumerate((1, 2, 50)):
                    if n > 3 and (k + j) % 3:
                        continue
                    out.append(ss(n, r, nb, st, k=k + j, tie=True, always_vectors=bool(k % 2), labels=LABELS[n][(k + j) % len(LABELS[n])], policy=Order("w%d" % (k % 5), pol_seed(bool((k + j) % 2)))))
    for k, n, r, st, lab, ranks in crowd(tier, "runs", (None, NEAR, FAR)):
        out.append(ss(n, r, (3, 10, 25, 60)[k % 4], dict(st, random_seed=SEED), labels=lab or [0] * n, ranks=ranks, tie=True, always_vectors=bool(k % 2), policy=Order("wc%d" % k, pol_seed(bool(k % 2)))))
    return out


def got(part, w, o):
    """returned pairs, or None when the result is not understood"""
    if o[0] == "raise":
        return "raise"
    v = o[1]
    if isinstance(v, tuple):
        v = AList(list(v))
    if not isinstance(v, AList):
        return None
    out = []
    for p in v.items:
        if isinstance(p, AList) and not p.np:
            p = tuple(p.items)
        if not isinstance(p, tuple) or not all(isinstance(x, Tok) for x in p):
            return None
        out.append(p)
    return out


def showp(ps):
    return "[%s]" % ", ".join("(%s)" % ",".join(x.name for x in p) for p in ps)


def told_sample(o):
    if o[0] == "raise":
        return "raises " + o[1]
    r = got(None, None, o)
    return "returns %s" % (showp(r) if isinstance(r, list) else repr(o[1]))


def run(project, s, part, rot=None):
    w = SWorld(project, s)
    if rot is not None:
        w.it.shuffle_perm = lambda l: list(l)[rot % len(l):] + list(l)[:rot % len(l)] if l else []
    try:
        w.build()
        o = ("ok", w.cluster())
    except Raised as r:
        o = ("raise", r.name)
    part["evaluations"] += 1
    part["functions"].update(w.it.funcs_seen)
    t = "%s %s" % (s.show(), told_sample(o))
    part["nontrivial"].add(t)
    if len(part["samples"]) < 3:
        part["samples"].append(t)
    if not usable(w.it):
        part.und("depends on a decision the analysis has no meaning for: %s" % [d for d, c, _ in w.it.notes if c not in USABLE][:1])
        return w, None, o
    r = got(part, w, o)
    if r is None:
        part.und("result not understood: %r" % (o[1],))
    return w, r, o


def bad_pairs(w, r, elig):
    for p in r:
        if len(p) != 2 or p[0] is p[1]:
            return "%s is not a pair of two data IDs" % showp([p])
        if any(x not in w.ids for x in p):
            return "%s names an ID that is not managed" % showp([p])
        if p[0].rank > p[1].rank:
            return "%s is not in alphabetical order" % showp([p])
        if p not in elig:
            return "%s is not eligible" % showp([p])
    if len(set(r)) != len(r):
        return "a pair appears twice"
    return None


def c19_any(project, part, item):
    kind, s = item
    if kind == "all":
        w, r, o = run(project, s, part)
        if r is None:
            return
        if r == "raise":
            part.violation("a sampling returns pairs", w.loc(), "%s: the call raises %s" % (s.show(), o[1]))
            return
        elig = w.eligible()
        bad = bad_pairs(w, r, elig)
        if bad:
            part.violation("only eligible pairs are proposed", w.loc(), "%s: result %s: %s" % (s.show(), showp(r), bad))
        elif set(r) != set(elig):
            part.violation("every eligible pair is a candidate", w.loc(), "%s: result %s misses %s although all were asked for" % (s.show(), showp(r), showp([p for p in elig if p not in r])))
        return
    seen, elig, w = set(), None, None
    w0, r0, o0 = run(project, s, part, 0)
    elig = w0.eligible()
    for rot in range(max(1, len(elig))):
        w, r, o = run(project, s, part, rot)
        if r is None:
            return
        if r == "raise":
            part.violation("a sampling returns pairs", w.loc(), "%s: the call raises %s" % (s.show(), o[1]))
            return
        elig = w.eligible()
        bad = bad_pairs(w, r, elig)
        if bad:
            part.violation("only eligible pairs are proposed", w.loc(), "%s: result %s: %s" % (s.show(), showp(r), bad))
            return
        seen.update(tuple(w0.toks[w.toks.index(x)] for x in p) for p in r)
        if len(elig) > s.nb and not any(e[0] in ("draw", "draw-from", "random.sample") for e in w.it.events):
            part.violation("every eligible pair can be drawn", w.loc(), "%s: the %d candidates are chosen from without any random draw" % (s.show(), len(elig)))
            return
    elig = w0.eligible()
    if not any(e[0] == "random.sample" for e in w.it.events) and seen != set(elig):
        part.und("how the pairs are drawn is not understood")
        return
    if seen != set(elig):
        part.violation("every eligible pair can be drawn", w.loc(), "%s: whatever the draw, only %s are proposed out of %s" % (s.show(), showp(sorted(seen, key=lambda p: (p[0].rank, p[1].rank))), showp(elig)))


def drive_s(check, items, one):
    from .clust_rel import drive
    drive(check, items, one)


def c19(check):
    check.rule = "with more pairs asked for than there are, the result is exactly the eligible pairs; with fewer, every eligible pair appears for some draw"
    check.assumptions += ["random.sample gives the first items of some order of its population, and every rotation of it is possible"]
    drive_s(check, [("all", s) for s in eligible_scens(check.tier)] + [("reach", s) for s in reach_scens(check.tier)], c19_any)


# ---------------------------------------------------------------------- C20
def count_scens(tier):
    out = []
    for k, (n, r) in enumerate([(3, r) for r in R3] + [(4, r) for r in R4[::9]] + [(5, r) for r in ROLE5] + [(6, []), (1, []), (2, [])]):
        for cr in (None, SAME, DIFF):
            st = dict(FLAGS[k % 4])
            if cr:
                st["clusters_restriction"] = cr
            for dr in (None, NEAR, FAR):
                d = dict(st, **({"distance_restriction": dr} if dr else {}))
                for nb in (0, 1, 2, 3, 5, 9, 15, 16, 1000):
                    if nb > 3 and n <= 3 and nb not in (5, 1000):
                        continue
                    out.append(("count", ss(n, r, nb, d, k=k, policy=Order("c%d" % (k % 3)), tie=True)))
    for k, n, r, st, lab, ranks in crowd(tier, "count", (None, NEAR, FAR)):
        for nb in (10, 11, 25, 50, 64, 101):
            out.append(("count", ss(n, r, nb, st, labels=lab, ranks=ranks, policy=Order("cc%d" % k), tie=True)))
    return out


def order_scens(tier):
    out = []
    for k, r in enumerate(R3):
        for dr in (NEAR, FAR):
            for f in (FLAGS if tier == "thorough" else [FLAGS[k % 4], FLAGS[3]]):
                for cr in (None, SAME, DIFF):
                    st = dict(f, distance_restriction=dr)
                    if cr:
                        st["clusters_restriction"] = cr
                    for nb in (1, 2, 3):
                        out.append(("order", ss(3, r, nb, st, k=k + nb, tie=True, labels=LABELS[3][k % 5] if cr else None)))
    for k, r in enumerate([[], [(0, 1, ML)], [(0, 2, CL)], [(0, 3, ML), (1, 3, CL)]]):
        for dr in (NEAR, FAR):
            for nb in (1, 2, 3):
                st = dict(distance_restriction=dr)
                if nb < 3:
                    st["clusters_restriction"] = (SAME, DIFF)[nb % 2]
                out.append(("order", ss(4, r, nb, st, k=k, tie=True, labels=LABELS[4][k] if nb < 3 else None, policy=None if nb < 3 or r else Order("o%d" % k))))
            for salt in range(12 if tier == "thorough" else 4):
                out.append(("order", ss(4, r, 1 + salt % 4, dict(distance_restriction=dr), k=k + salt, tie=True, policy=Order("q%d" % salt))))
                out.append(("order", ss(5, ROLE5[k + 1], 1 + salt % 5, dict(distance_restriction=dr), k=k + salt, tie=True, policy=Order("r%d" % salt))))
    for dr in (NEAR, FAR):
        for nb in (1, 2, 3):
            out.append(("order", ss(3, [], nb, dict(distance_restriction=dr), k=nb, tie=True, dup=True)))
    for k, n, r, st, lab, ranks in crowd(tier, "order", (NEAR, FAR)):
        out.append(("order", ss(n, r, (3, 10, 25, 60)[k % 4], st, labels=lab, ranks=ranks, policy=Order("oc%d" % k), tie=True)))
    return out


def plain(key):
    """a comparison of pair distances and constants only"""
    return all(isinstance(x, (int, float)) or isinstance(x, T) and (x.op == "dist" or x.op == "neg" and isinstance(x.args[0], T) and x.args[0].op == "dist") for x in key[1:])


def judge_order(part, w, o, r):
    s = w.scen
    elig = w.eligible()
    bad = bad_pairs(w, r, elig)
    if bad or len(r) != min(s.nb, len(elig)):
        part.violation("as many pairs as asked for, or all of them", w.loc(), "%s: result %s for %d candidates%s; decisions: %s" % (s.show(), showp(r), len(elig), ": " + bad if bad else "", decisions(w.it)))
        return
    near = s.settings["distance_restriction"] == NEAR
    f = w.it.facts
    le = lambda p, q: f.known_le(w.dist(p), w.dist(q)) if near else f.known_le(w.dist(q), w.dist(p))
    todo = [(p, q, "comes before") for p, q in zip(r, r[1:])] + [(p, q, "is returned and not") for p in r[-1:] for q in elig if q not in r]
    for p, q, what in todo:
        k = le(p, q)
        part.count("pairs of candidates compared")
        if k is None:
            terms = [x for e in w.asked for x in e[1:] if isinstance(x, T)]
            lossy = {x.args[1:] for x in terms if x.op == "round" and isinstance(x.args[0], T) and x.args[0].op == "dist"}
            if lossy and all(x.op == "dist" or x.op == "round" and isinstance(x.args[0], T) and x.args[0].op == "dist" for x in terms):
                # rounding keeps a strict order, and joins distances that differ
                R = [[T("round", w.dist(y), *l, kind="num") for y in (p, q)] for l in lossy]
                if any((f.known_lt(x, y) if near else f.known_lt(y, x)) is True for x, y in R):
                    continue
                terms = []
            if any(not (isinstance(x, T) and x.op == "dist") for x in terms):
                part.und("candidates are not compared by their distances alone")
                return
        if k is not True:
            part.violation("pairs are the %s ones, in order of distance" % ("closest" if near else "farthest"), w.loc(), "%s: result %s: %s %s %s, but %s; decisions: %s" % (
                s.show(), showp(r), showp([p]), what, showp([q]), "it is not at least as %s" % ("close" if near else "far") if k is False else "nothing in the decisions makes it at least as %s" % ("close" if near else "far"), decisions(w.it) or "one fixed order of distances"))
            return


def c20_any(project, part, item):
    kind, s = item
    if kind == "count":
        w, r, o = run(project, s, part)
        if r is None:
            return
        if r == "raise":
            part.violation("as many pairs as asked for, or all of them", w.loc(), "%s: the call raises %s" % (s.show(), o[1]))
            return
        elig = w.eligible()
        if len(r) != min(s.nb, len(elig)) or len(set(r)) != len(r):
            part.violation("as many pairs as asked for, or all of them", w.loc(), "%s: result %s, candidates %s" % (s.show(), showp(r), showp(elig)))
        return
    box = {}

    def make(prefix):
        w = box["w"] = SWorld(project, s, prefix)
        w.asked = asked = []
        pol = w.it.policy

        def watch(it, key):
            if key[0] in ("<", "=="):
                asked.append(key)
            return pol(it, key)
        w.it.policy = watch
        return w.it

    def go(it):
        w = box["w"]
        w.build()
        return w.cluster()
    from ..interp import explore
    for pr in explore(make, go, 900):
        part["evaluations"] += 1
        if pr.undecided:
            part.und(pr.undecided)
            continue
        w = box["w"]
        part["functions"].update(w.it.funcs_seen)
        if not usable(w.it):
            part.und("depends on a decision the analysis has no meaning for: %s" % [d for d, c, _ in w.it.notes if c not in USABLE][:1])
            continue
        o = ("raise", pr.outcome[1].name) if pr.outcome[0] == "raise" else ("ok", pr.outcome[1])
        r = got(part, w, o)
        part["nontrivial"].add("%s %s" % (s.show(), told_sample(o)))
        if len(part["samples"]) < 3:
            part["samples"].append("%s %s" % (s.show(), told_sample(o)))
        if r == "raise":
            part.violation("as many pairs as asked for, or all of them", w.loc(), "%s: the call raises %s" % (s.show(), o[1]))
        elif r is None:
            part.und("result not understood: %r" % (o[1],))
        else:
            judge_order(part, w, o, r)


def c20(check):
    check.rule = "the number of pairs is the smaller of the number asked for and of the candidates; each returned pair is at least as close (far) as the next one and as every candidate left out, by the comparisons made on the way"
    check.assumptions += ["the distances of different pairs of vectors can be in any order (true of few vectors in enough dimensions)"]
    drive_s(check, count_scens(check.tier) + order_scens(check.tier), c20_any)
