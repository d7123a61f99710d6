"""C31: what density-based clustering calls a cluster and noise."""
import math
import random
from ..values import *
from ..values import T
from .clust import *
from .clust_props import drive, explain, result_labels, show, with_assumptions, EPS, R2, R3, R4, ROLE5, wide, large, near_far, pol_eps, random_relation
from .manager import ML, CL
from .places import Places, scatter
from .poly import LOSSY
from .relational import attempt


def pol_small(it, key):
    """eps lies between 0 and 1"""
    if key[0] in ("<", "==") and EPS() in key[1:]:
        a, b = key[1:]
        o = b if a is EPS() else a
        if isinstance(o, (int, float)) and not isinstance(o, bool) and (o <= 0 or o >= 1):
            if key[0] == "==":
                return False
            return (o >= 1) if a is EPS() else (o <= 0)
    return None


def first(p, q):
    def f(it, key):
        r = p(it, key)
        return r if r is not None or q is None else q(it, key)
    return f


def c31_scens(tier):
    out = []
    for ms in (1, 2, 3):
        for k, r in enumerate(R3):
            out.append(sc("dbscan", 3, r, None, dict(eps=EPS(), min_samples=ms), k=k + ms, policy=pol_small))
    for k, r in enumerate(R2):
        for ms in (1, 2):
            out.append(sc("dbscan", 2, r, None, dict(eps=EPS(), min_samples=ms), k=k, policy=pol_small))
            out.append(sc("dbscan", 2, r, None, dict(eps=EPS(), min_samples=ms), k=k, policy=pol_eps))
            out.append(sc("dbscan", 2, r, None, dict(eps=EPS(), min_samples=ms), k=k, policy=pol_small, tie=True))
    for k, r in enumerate(R3[::4]):
        out.append(sc("dbscan", 3, r, None, dict(eps=EPS(), min_samples=2), k=k, policy=pol_small, tie=True))
    for ms in (1, 2):
        out.append(sc("dbscan", 1, [], None, dict(eps=EPS(), min_samples=ms), policy=pol_small))
    if tier == "thorough":
        for k, r in enumerate(R4[::5]):
            out.append(sc("dbscan", 4, r, None, dict(eps=EPS(), min_samples=2 + k % 2), k=k, policy=pol_small, max_paths=400))
    for s in wide("dbscan", tier) + large("dbscan", tier) + near_far(tier, 90):
        s["policy"] = first(pol_small, s.policy)
        out.append(s)
    return out


def c31_groups(part, w, lab, metrics, at_eps, bad):
    """clusters and noise, with the distances that were only found not to be below eps either above it or equal to it"""
    it, eps, ms = w.it, w.scen.settings["eps"], w.scen.settings["min_samples"]
    open_ = []

    def near(a, b):
        """known to be within eps; what was never compared may well be farther"""
        if a is b or w.vec(a) is w.vec(b):
            return True
        x, y = sorted((w.vec(a), w.vec(b)), key=repr)
        for m in metrics:
            d = T("dist", m, x, y, kind="num")
            if it.facts.known_le(d, eps) is True:
                return True
            if it.facts.known_le(eps, d) is True and it.facts.known_lt(eps, d) is not True and it.facts.known_eq(eps, d) is not False:
                open_.append(d)
                if at_eps:
                    return True
        return False
    nb = {a: [b for b in w.ids if near(a, b)] for a in w.ids}
    if at_eps and not open_:
        return True
    small = it.policy(it, ("<", eps, 1)) is True if isinstance(eps, T) else eps <= 1
    return recount(part, w, lab, nb, small, bad)


def recount(part, w, lab, nb, small, bad):
    """clusters and noise against the neighbourhoods nb; True, or what bad gave"""
    ms = w.scen.settings["min_samples"]
    linked = lambda a, b: b in nb[a] or w.rel[a, b] == ML
    for a in w.ids:
        if lab[a] < 0:
            continue
        seen, todo = {a}, [a]
        while todo:
            x = todo.pop()
            for y in w.ids:
                if y not in seen and linked(x, y):
                    seen.add(y)
                    todo.append(y)
        part.count("clusters traced")
        far = [b for b in w.ids if lab[b] == lab[a] and b not in seen]
        if far:
            return bad("data of one cluster are linked by close data or MUST_LINK", "%s and %s share a cluster, no chain of data within eps or MUST_LINK joins them" % (a.name, far[0].name))
    dense = [a for a in w.ids if len(nb[a]) >= ms]
    free = not any(w.rel[a, b] == CL for a in w.ids for b in w.ids)
    for a in w.ids:
        lone = a not in dense and not any(c in nb[a] for c in dense) and not any(b is not a and w.rel[a, b] == ML for b in w.ids)
        if lone and lab[a] >= 0:
            return bad("sparse data are noise", "%s has %d data within eps (min_samples=%d), none of them dense, and no MUST_LINK, but is in a cluster" % (a.name, len(nb[a]), ms))
        if not lone and lab[a] < 0 and free and small:
            return bad("only sparse data are noise", "%s is noise although %s" % (a.name, "it has %d data within eps (min_samples=%d)" % (len(nb[a]), ms) if a in dense else "it is near a dense datum" if any(c in nb[a] for c in dense) else "it has a MUST_LINK"))
    return True


def c31_judge(part, w, pr):
    lab = result_labels(part, w, pr, "a density-based clustering is returned")
    if lab is None:
        return
    if set(lab) != set(w.ids) or any(isinstance(v, bool) or not isinstance(v, int) for v in lab.values()):
        part.und("labels not understood")
        return
    part["nontrivial"].add((w.scen.show(), show(lab)))
    part["samples"].append("%s -> %s" % (w.scen.show(), show(lab)))
    bad = lambda r, t: part.violation(r, w.loc(), explain(w, pr, "result %s: %s" % (show(lab), t)))
    it = w.it
    metrics, odd = set(), None
    for x, d in it.facts.le.items():
        for n in [x] + list(d):
            v = n[1]
            while isinstance(v, T) and v.op in LOSSY:
                v = v.args[0]
            if isinstance(v, T) and v.op == "dist" and all(isinstance(y, T) and y.op == "vec" for y in v.args[1:3]):
                metrics.add(v.args[0])
            elif isinstance(v, T) and (v.kind == "num" or v.op.startswith("num:")) and v is not w.scen.settings["eps"]:
                odd = v
    if odd is not None or len(metrics) > 1:
        part.und("neighbourhoods decided by something other than distances and eps: %r" % (odd,))
    else:
        for at_eps in (False, True):
            if not c31_groups(part, w, lab, metrics, at_eps, bad):
                return
    reg, noise = len({v for v in lab.values() if v >= 0}), len({v for v in lab.values() if v < 0})
    for name, want in (("number_of_regular_clusters", reg), ("number_of_single_noise_point_clusters", noise), ("number_of_clusters", reg + noise)):
        v = it.resolve(w.obj.attrs.get(name))
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            part.count("exposed counts compared")
            if v != want:
                return bad("exposed counts match the result", "%s is %r, expected %d" % (name, v, want))
        elif v is None:
            return bad("exposed counts match the result", "%s is missing" % name)
        else:
            part.und("%s not understood" % name)


def c31_placed(project, part, s):
    """data at definite places, eps a number: neighbourhoods are those of the places"""
    pts, eps, ms = s.pts, s.settings["eps"], s.settings["min_samples"]
    pol = Places(pts)
    w = CWorld(project, Scen(s, policy=pol, tie=True))
    w.build()
    o = attempt(w.cluster)
    part["evaluations"] += 1
    part["functions"].update(w.it.funcs_seen)
    if pol.odd is not None or not usable(w.it):
        part.und("comparison not understood: %r" % (pol.odd,))
        return
    lab = w.labels(o[1]) if o[0] == "ok" else None
    if lab is None or set(lab) != set(w.ids) or any(isinstance(v, bool) or not isinstance(v, int) for v in lab.values()):
        part.und("result not understood")
        return
    text = "%s, places %s" % (s.show(), {k: tuple(round(c, 2) for c in v) for k, v in sorted(pts.items())})
    part["nontrivial"].add(text)
    bad = lambda r, t: part.violation(r, w.loc(), "%s: result %s: %s" % (text, show(lab), t))
    nb = {a: [b for b in w.ids if math.dist(pts[a.name], pts[b.name]) <= eps] for a in w.ids}
    recount(part, w, lab, nb, eps <= 1, bad)


def placed_scens(tier):
    rng = random.Random("dense")
    out = []
    while len(out) < (1200 if tier == "thorough" else 220):
        n = rng.choice((5, 6, 7, 9))
        pts = scatter(rng, n, NAMES, rng.choice((2.0, 3.0, 4.0)))
        eps = rng.choice((0.5, 0.7, 0.9, 0.9, 1.0, 1.3))
        if any(abs(math.dist(p, q) - eps) < 1e-4 for p in pts.values() for q in pts.values()):
            continue
        out.append(Scen(algo="dbscan", n=n, order=list(range(n)), ranks=rng.sample(range(n), n), added=random_relation(rng, n, rng.choice((0, 1, 2, 4))), nb=None, settings=dict(eps=eps, min_samples=rng.choice((1, 2, 2, 3, 4))), pts=pts))
    return out


def c31(check):
    with_assumptions(check, "clusters are traced through pairs known to be within eps and MUST_LINK pairs, noise and exposed counts recounted from the neighbourhoods; a pair whose distance the partition never compared is taken as far (every graph of near pairs is one of some vectors)")
    drive(check, c31_scens(check.tier), c31_judge)
    from .clust_rel import drive as each
    each(check, placed_scens(check.tier), c31_placed)
