"""C34: an option that is left out counts as its documented default, and nothing is printed unless asked for."""
import itertools
from ..interp import Interp
from ..project import PKG
from ..values import *
from . import texts as tx
from .clust import *
from .clust_props import R3
from .clust_spec import labels_apart
from .clust_rel import base_scens, canon, drive, note, outcome, told
from .relational import attempt, canonical
from .settings import CLASSES, FACT, OPTIONS, factory, floc, init_world

DOCUMENTED = {
    "kmeans": dict(model="COP", max_iteration=150, tolerance=1e-4, random_seed=None),
    "hierarchical": dict(linkage="ward", random_seed=None),
    "spectral": dict(model="SPEC", nb_components=None, random_seed=None),
    "dbscan": dict(eps=0.5, min_samples=5, random_seed=None),
    "affinity": dict(max_iteration=150, absolute_must_links=True, random_seed=None),
    "mpckmeans": dict(model="MPC", max_iteration=150, random_seed=None),
    "sampler": dict(random_seed=None, clusters_restriction=None, distance_restriction=None, without_added_constraints=True, without_inferred_constraints=True),
}
RULE = "an option left out counts as its documented default"


def obj_of(project, algo, kw):
    w = init_world(project, algo, kw)
    w.build()
    return w, {k: canonical(v) for k, v in w.obj.attrs.items()}


def build_one(project, part, algo):
    doc = DOCUMENTED[algo]
    for name, value in doc.items():
        for others in ({}, {k: v for k, v in OPTIONS[algo].items() if k != name}):
            part["evaluations"] += 1
            (w, a), (_, b) = obj_of(project, algo, others), obj_of(project, algo, dict(others, **{name: value}))
            note(part, w, "%s(%s) without %s" % (algo, ", ".join("%s=%r" % x for x in others.items()), name))
            for k in sorted(set(a) | set(b)):
                if a.get(k) == b.get(k):
                    continue
                if a.get(k) is None:
                    part.und("%s of %s decided later than in the constructor" % (k, algo))
                    continue
                part.violation(RULE, w.loc("__init__"), "%s without %s has %s = %r; with the documented default %s=%r it is %r" % (
                    w.cls().name, name, k, w.obj.attrs.get(k), name, value, b.get(k)))
                return


def quiet_one(project, part, s):
    """cluster() without `verbose` prints nothing, and without `nb_clusters` where it has to be None works"""
    w = CWorld(project, Scen(s, verbose=None))
    w.build()
    o = outcome(w)
    part["evaluations"] += 1
    note(part, w, "%s, verbose left out" % s.show())
    said = [e for e in w.it.events if e[0] == "print"]
    if said:
        part.violation("nothing is printed unless asked for", w.loc(), "%s: prints %r" % (s.show(), said[0][1][:2]))
    if s["algo"] in ("dbscan", "affinity"):
        v = CWorld(project, Scen(s, verbose=None))
        v.build()
        p = attempt(lambda: v.it.call(v.it.getattr(v.obj, "cluster"), [], {"constraints_manager": v.mgr, "vectors": v.vectors}))
        if canon(o) != canon(p):
            part.violation(RULE, w.loc(), "%s: %s with nb_clusters=None, %s when it is left out" % (s.show(), told(o), told(p)))
    if s["algo"] == "hierarchical" and o[0] == "ok":
        ask = lambda **k: attempt(lambda: w.it.call(w.it.getattr(w.obj, "compute_predicted_clusters"), [], dict(k)))
        for n in (2, 3, 4):
            x, y = ask(nb_clusters=n), ask(nb_clusters=n, by="size")
            if canon(x) != canon(y):
                part.violation(RULE, w.loc("compute_predicted_clusters"), "%s: asked for %d clusters: %s without `by`, %s with by='size'" % (s.show(), n, told(x), told(y)))
                return


def factory_one(project, part, which):
    key, name = {"clustering": ("algorithm", "kmeans"), "managing": ("manager", "binary")}[which]
    outs = []
    for kw in ({}, {key: name}):
        it = Interp(project, (), models())
        if which == "managing":
            kw["list_of_data_IDs"] = AList([Tok("b", 1), Tok("a", 0)])
        o = attempt(lambda: it.call(factory(it, which), [], kw))
        outs.append((o[0], (o[1].cls.name, {k: canonical(v) for k, v in o[1].attrs.items()}) if o[0] == "ok" and isinstance(o[1], AObj) else o[1]))
        part["functions"].update(it.funcs_seen)
    part["evaluations"] += 1
    part["nontrivial"].add(which)
    if repr(outs[0]) != repr(outs[1]):
        part.violation(RULE, floc(it, which), "%s without %s gives %r instead of what %s=%r gives" % (FACT[which][1], key, outs[0], key, name))


NLP = "fr_core_news_md"
TEXTS = ["Le Chat dort très bien", "des MOTS vides, et l'arbre", "un chien"]


def text_one(project, part, item):
    mod, fn, doc, given, salt = item

    def run(kw):
        w = tx.TWorld(project, (), tx.some_flags(salt), (NLP,))
        toks = tx.ids(len(TEXTS))
        return w, attempt(lambda: w.call(mod, fn, [tx.texts_dict(w.it, toks, TEXTS)], dict(kw)))
    for name, value in doc.items():
        if name in given:
            continue
        (w, a), (v, b) = run(given), run(dict(given, **{name: value}))
        part["evaluations"] += 1
        part["functions"].update(w.it.funcs_seen)
        part["nontrivial"].add((fn, name, tuple(sorted(given.items())), salt))
        if not (usable(w.it) and usable(v.it)):
            part.und("depends on a decision the analysis has no meaning for")
            continue
        if canon(a) != canon(b):
            part.violation(RULE, tx.loc(mod, fn), "%s(%s): without %s %s; with the documented default %s=%r %s" % (
                fn, ", ".join("%s=%r" % x for x in given.items()), name, told(a)[:300], name, value, told(b)[:300]))
            return


def extra_one(project, part, s):
    """options that the class does not name go to the model of spectral clustering"""
    w = CWorld(project, s)
    w.build()
    o = outcome(w)
    part["evaluations"] += 1
    note(part, w, s.show())
    fits = [x for kind, x, _ in w.it.events if kind == "fit"]
    if o[0] != "ok" or len(fits) != 1 or not usable(w.it):
        part.und("model call not understood")
        return
    est = fits[0][0]
    for k in EXTRA:
        if est.kw.get(k) != EXTRA[k]:
            if len(est.args) > 1 or any(not isinstance(n, str) for n in est.kw):
                part.und("arguments of the model not understood")
            else:
                part.violation("options that the class does not name are handed to the model", w.loc("clustering_spectral_model_SPEC"),
                               "%s: %s given as %r reaches the model as %r" % (s.show(), k, EXTRA[k], est.kw.get(k, "nothing")))
            return


EXTRA = {"n_init": 7, "assign_labels": "discretize"}


def one(project, part, item):
    kind, x = item
    {"extra": extra_one, "build": build_one, "quiet": quiet_one, "factory": factory_one, "text": text_one}[kind](project, part, x)


def c34(check):
    check.rule = ("an object, call or factory with an option left out compared with the same one given the documented default explicitly (attributes, results, errors); "
                  "calls without `verbose` searched for printing; further options looked for in the model call of spectral clustering")
    check.assumptions += ["the documented defaults are those of the docstrings at the pinned commit"]
    items = [("build", a) for a in DOCUMENTED] + [("factory", f) for f in ("clustering", "managing")]
    pre = dict(apply_stopwords_deletion=False, apply_parsing_filter=False, apply_lemmatization=False, spacy_language_model=NLP)
    vec = dict(vectorizer_type="tfidf", spacy_language_model=NLP)
    flags = list(pre)[:3]
    for salt in "abcd" if check.tier == "quick" else "abcdefghijklmnop":
        for n in range(4):
            for on in itertools.combinations(flags, n):
                items.append(("text", (tx.PRE, "preprocess", pre, {f: True for f in on}, salt)))
    for given in ({}, {"vectorizer_type": "spacy"}, {"vectorizer_type": "tfidf"}, {"spacy_language_model": NLP}):
        items.append(("text", (tx.VEC, "vectorize", vec, given, "a")))
    items += [("quiet", s) for s in base_scens(check.tier, salts=1)[::2]]
    for k, r in enumerate(R3[:6]):
        items.append(("extra", sc("spectral", 3, r, 2, dict(EXTRA, random_seed=1 if k % 2 else None), k=k, tie=True, policy=labels_apart)))
    drive(check, items, one)
