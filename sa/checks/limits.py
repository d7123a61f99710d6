"""C23 (iteration limits, termination, nesting of calls) and C24 (use of a constraints manager through its interface)."""
import ast
import itertools
from ..interp import Cut, Unsupported, explore
from ..project import Project, PKG
from ..report import AnalysisBroken, Part
from ..values import *
from .clust import *
from .clust_props import EPS, R2, R3, R4, ROLE5, pol_eps, c09_judge, explain, valued
from .clust_rel import base_scens, drive, note, outcome, told, SEED
from .manager import ML, CL, Spec
from .relational import Order, has_op
from .sampling import SWorld, SScen, ss, world, sampler_scens


# ---------------------------------------------------------------------- C23
TOL = T("sym", "tolerance", kind="num")


class Converged:
    """answers every question whether the run has converged, and notes the loops in which it is asked"""

    def __init__(self, answer):
        self.answer, self.loops = answer, set()

    def ask(self, it, yes):
        self.loops.update(log[0] for log in it.loop_stack)
        return yes if self.answer else not yes

    def __call__(self, it, key):
        if key[0] == "<" and len(key) == 3 and TOL in key[1:]:
            other = key[1] if key[2] is TOL else key[2]
            if isinstance(other, (int, float)):
                return other <= 0 if key[2] is TOL else other > 0
            return self.ask(it, key[2] is TOL)
        if key[0] == "==" and TOL in key[1:]:
            return False
        if key[0] == "truthy" and isinstance(key[1], T):
            if key[1].op in ("num:allclose", "num:array_equal", "num:=="):
                return self.ask(it, True)
            if key[1].op == "num:!=":
                return self.ask(it, False)
        return None


KS = (1, 2, 3, 5)
LIMITED = {
    "kmeans": [dict(tolerance=0), dict(tolerance=TOL), dict(tolerance=0.0)],
    "affinity": [dict(convergence_iteration=1, absolute_must_links=True), dict(convergence_iteration=2, absolute_must_links=False), dict(convergence_iteration=4), dict(convergence_iteration=15)],
    "mpckmeans": [dict()],
}


def limit_items(tier):
    out = []
    for algo, vs in LIMITED.items():
        rels = [(3, r) for r in R3] + [(2, r) for r in R2] + [(4, r) for r in R4[::13]]
        if algo == "mpckmeans":
            rels = rels[::2]
        for v in vs:
            for k, (n, r) in enumerate(rels):
                for salt in range(2 if tier == "quick" else 6):
                    out.append(("limit", algo, n, r, v, "%s%d" % (algo, salt), k + salt))
    return out


def passes(log):
    """complete passes of a loop"""
    return min([log[2]] + log[3])


def limit_run(project, part, item, lim, conv):
    """passes of each loop for one limit; None when a loop does not end"""
    _, algo, n, rel, settings, salt, k = item
    st = dict({"random_seed": SEED}, max_iteration=lim, **settings)
    s = sc(algo, n, rel, None if algo == "affinity" else (2, 3)[k % 2], st, k=k, policy=Order(salt, conv), tie=True)
    w = CWorld(project, s)
    w.it.loop_bound = 300
    w.build()
    w.it.loop_log = []
    try:
        o = ("return", w.cluster())
    except Raised as r:
        o = ("raise", r)
    except Unsupported:
        if any(e[0] == "nonterminating" for e in w.it.events):
            endless(part, w, s)
            return None, None
        raise
    part["evaluations"] += 1
    note(part, w, s.show() + ", convergence " + ("at once" if conv.answer else "never reached"))

    class PR:
        outcome = o
        decisions = w.it.notes
    c09_judge(part, w, PR)
    here = {}
    for log in w.it.loop_log:
        here[log[0]] = max(here.get(log[0], 0), passes(log))
    return here, s


def limit_one(project, part, item):
    granted, s = limit_run(project, part, item, KS[-1], Converged(True))
    if granted is None:
        return
    runs, asked = [], set()
    for lim in KS:
        conv = Converged(False)
        here, s = limit_run(project, part, item, lim, conv)
        if here is None:
            return
        runs.append(here)
        asked |= conv.loops
    for key in set().union(*runs):
        vals = [r.get(key, 0) for r in runs]
        part.count("loops observed under four limits")
        follows = all(a < b for a, b in zip(vals, vals[1:])) and vals[-1] - vals[0] >= 3
        decides = key in asked and vals[-1] > granted.get(key, 0)
        if follows or decides:
            part.count("iteration loops")
            if any(v > l for l, v in zip(KS, vals)):
                part.violation("at most max_iteration iterations", "%s:%d" % (key[1], key[2]), "%s, convergence never reached: the loop makes %s passes for max_iteration = %s" % (s.show(), vals, list(KS)))
                return


def endless(part, w, s):
    key = [e[1] for e in w.it.events if e[0] == "nonterminating"][0]
    part.violation("every loop ends", "%s:%d" % (key[1], key[2]), "%s: the loop is still running after %d passes" % (s.show(), w.it.loop_bound))


def ends_one(project, part, item):
    s = item[1]
    w = world(project, s)
    w.it.loop_bound = 300
    w.build()
    try:
        o = outcome(w)
    except Unsupported:
        if any(e[0] == "nonterminating" for e in w.it.events):
            endless(part, w, s)
            return
        raise
    part["evaluations"] += 1
    note(part, w, s.show() + " " + told(o))


NESTED = (3, 4, 5, 6, 7)


def nest_items(tier):
    out = []
    for algo in ALGOS:
        for shape in ("must", "free", "star", "pairs", "cannot", "line", "line back"):
            out.append(("nest", algo, shape))
    return out


def shape_rel(shape, n):
    if shape == "must":
        return [(i, i + 1, ML) for i in range(n - 1)]
    if shape == "star":
        return [(0, i, ML) for i in range(1, n)]
    if shape == "pairs":
        return [(i, i + 1, ML) for i in range(0, n - 1, 2)]
    if shape == "cannot":
        return [(0, i, CL) for i in range(1, n)]
    return []


def line_first(shape, n):
    """data on a line, each farther from the one before: they join one after the other"""
    pts = {NAMES[i]: (float(3 ** (i if shape == "line" else n - i)), 0.0) for i in range(n)}
    return valued("line", pts, float(3 ** (n + 1)))


def nest_one(project, part, item):
    _, algo, shape = item
    deep = {}
    for n in NESTED:
        st = {"kmeans": dict(max_iteration=1, random_seed=SEED), "affinity": dict(max_iteration=2, convergence_iteration=1, random_seed=SEED), "mpckmeans": dict(max_iteration=1, random_seed=SEED), "dbscan": dict(eps=EPS(), min_samples=1)}.get(algo, {})
        s = Scen(algo=algo, n=n, order=list(range(n)), ranks=list(range(n)), added=shape_rel(shape, n), nb=None if algo in ("dbscan", "affinity") else 2, settings=st, tie=True,
                 policy=Order("nest", line_first(shape, n) if shape.startswith("line") else pol_eps if algo == "dbscan" else None))
        w = CWorld(project, s)
        w.it.loop_bound = 300
        w.it.nesting = {}
        w.build()
        outcome(w)
        part["evaluations"] += 1
        note(part, w, "nesting of calls: " + s.show())
        for f, d in w.it.nesting.items():
            deep.setdefault(f, {})[n] = d
    for f, d in deep.items():
        vals = [d.get(n, 0) for n in NESTED]
        part.count("functions whose nesting is observed for five sizes")
        if all(a < b for a, b in zip(vals, vals[1:])):
            part.violation("calls do not nest deeper as the data grow", "%s:%s" % f, "%s on %d to %d data (%s constraints): %s is nested %s levels deep, so enough data exhaust the recursion limit and the call fails" % (
                algo, NESTED[0], NESTED[-1], shape, f[1], vals))


def c23(check):
    check.rule = ("with convergence denied and max_iteration = 1, 2, 3, 5, every loop whose passes follow the limit makes at most that many and the result is complete; "
                  "no loop runs on in any scenario; no function nests deeper with each further data ID")
    check.assumptions += ["one fixed arbitrary order of numbers per scenario and salt; tolerance 0 or never undercut", "a loop counts as endless after 300 passes on at most five data"]

    def one(project, part, item):
        {"limit": limit_one, "ends": ends_one, "nest": nest_one}[item[0]](project, part, item)
    items = limit_items(check.tier) + [("ends", s) for s in base_scens(check.tier, salts=1)] + nest_items(check.tier)
    drive(check, items, one)


# ---------------------------------------------------------------------- C24
QUERIES = ("get_list_of_managed_data_IDs", "get_added_constraint", "get_inferred_constraint", "get_connected_components", "check_completude_of_constraints",
           "get_min_and_max_number_of_clusters", "get_list_of_involved_data_IDs_in_a_constraint_conflict")


def use_one(project, part, s):
    w = world(project, s)
    w.build()
    o = outcome(w)
    part["evaluations"] += 1
    note(part, w, s.show() + " " + told(o))
    used = set()
    for kind, x, extra in w.it.events:
        if kind == "manager":
            used.add(x[1])
            part.count("operations asked of the manager")
        if kind == "manager-undeclared" and x[0] is w.mgr:
            part.violation("only declared operations of the manager are used", w.loc(), "%s: the call uses %s, which AbstractConstraintsManager does not declare" % (s.show(), x[1]))
            return
        if kind == "manager-mutator" and x[0] is w.mgr:
            part.violation("only queries of the manager are used", w.loc(), "%s: the call uses %s" % (s.show(), x[1]))
            return
        if kind == "manager-write" and x[0] is w.mgr:
            part.violation("only queries of the manager are used", w.loc(), "%s: the call sets attribute %s of the manager" % (s.show(), x[1]))
            return
    if o[0] == "raise":
        part.violation("a manager of any class is accepted", w.loc(), "%s: the call raises %s" % (s.show(), o[1]))


def params(node):
    """[(name, kind, default or None)], *args name, **kwargs name"""
    a = node.args
    pos = a.posonlyargs + a.args
    d = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
    out = [(p.arg, "positional only" if p in a.posonlyargs else "any", x) for p, x in zip(pos, d)]
    out += [(p.arg, "keyword only", x) for p, x in zip(a.kwonlyargs, a.kw_defaults)]
    return out, a.vararg is not None, a.kwarg is not None


def constant(node, it, fr=None):
    try:
        return ("c", repr(ast.literal_eval(node)))
    except (ValueError, TypeError, SyntaxError):
        return ("e", ast.dump(node))


def compare(part, abstract, concrete, name, fa, fc):
    where_ = "%s:%s.%s" % (fc.module.path, concrete.name, name)
    pa, va, ka = params(fa.node)
    pc, vc, kc = params(fc.node)
    if "staticmethod" not in fa.decorators:
        pa = pa[1:]
    if "staticmethod" not in fc.decorators:
        pc = pc[1:]
    rule = "declared operations have the declared parameters and defaults"
    names = [p[0] for p in pc]
    for i, (n, k, d) in enumerate(pa):
        if n not in names:
            part.violation(rule, where_, "parameter %s declared by %s.%s is missing" % (n, abstract.name, name))
            return
        j = names.index(n)
        cn, ck, cd = pc[j]
        if k == "any" and (ck != "any" or j != i):
            part.violation(rule, where_, "parameter %s declared as number %d of %s.%s is %s" % (n, i + 1, abstract.name, name, "number %d" % (j + 1) if ck == "any" else ck))
            return
        if d is not None:
            if cd is None:
                part.violation(rule, where_, "parameter %s has the declared default %s in %s.%s, here it has none" % (n, ast.unparse(d), abstract.name, name))
                return
            ca, cb = constant(d, None), constant(cd, None)
            if ca[0] == cb[0] == "c" and ca != cb:
                part.violation(rule, where_, "parameter %s has the declared default %s in %s.%s, here it is %s" % (n, ast.unparse(d), abstract.name, name, ast.unparse(cd)))
                return
            if ca != cb:
                part.und("defaults that are not constants")
    for n, k, d in pc:
        if n not in [p[0] for p in pa] and d is None:
            part.violation(rule, where_, "parameter %s is required but not declared by %s.%s" % (n, abstract.name, name))
            return
    if ka and not kc:
        part.violation(rule, where_, "%s.%s accepts further keyword arguments, here they are refused" % (abstract.name, name))


FAMILY = [
    (("constraints.abstract", "AbstractConstraintsManager"), [("constraints.binary", "BinaryConstraintsManager")]),
    (("clustering.abstract", "AbstractConstrainedClustering"), list(ALGOS.values())),
    (("sampling.abstract", "AbstractConstraintsSampling"), [("sampling.clusters_based", "ClustersBasedConstraintsSampling")]),
]


def interface_one(project, part, item):
    from ..interp import Interp
    it = Interp(project, (), models())

    def cls(mod, name):
        c = it.lookup_dotted("%s.%s.%s" % (PKG, mod, name))
        if not isinstance(c, ClassV):
            raise AnalysisBroken("class %s not found" % name)
        return c
    for (am, an), concretes in FAMILY:
        A = cls(am, an)
        declared = {n: f for n, f in A.attrs.items() if isinstance(f, Func) and any(d.split(".")[-1] == "abstractmethod" for d in f.decorators)}
        if an == "AbstractConstraintsManager":
            for n in SIGN:
                part["evaluations"] += 1
                if n not in declared:
                    part.violation("the abstract manager declares the operations", "%s:%s" % (A.module.path, an), "%s is not declared abstract" % n)
                elif [p[0] for p in params(declared[n].node)[0][1:]] != list(SIGN[n]):
                    part.violation("the abstract manager declares the operations", "%s:%s.%s" % (A.module.path, an, n), "declared with the parameters %s, documented are %s" % ([p[0] for p in params(declared[n].node)[0][1:]], list(SIGN[n])))
        for cm, cn in concretes:
            C = cls(cm, cn)
            if not any(c is A for c in C.mro()):
                part.violation("concrete classes derive from the declared one", "%s:%s" % (C.module.path, cn), "%s does not derive from %s" % (cn, an))
                continue
            for n, f in declared.items():
                part["evaluations"] += 1
                part["nontrivial"].add("%s.%s" % (cn, n))
                got = [c.attrs[n] for c in C.mro() if isinstance(c, ClassV) and n in c.attrs]
                if got and isinstance(got[0], Func) and got[0] is not f and not any(d.split(".")[-1] == "abstractmethod" for d in got[0].decorators):
                    part["functions"].add((got[0].module.path, "%s.%s" % (cn, n), 0))
                    if [d for d in got[0].decorators if d not in ("staticmethod", "classmethod")]:
                        part.und("decorated method %s.%s" % (cn, n))
                        continue
                    compare(part, A, C, n, f, got[0])
                elif got and not isinstance(got[0], Func):
                    part.und("%s.%s is not a plain function" % (cn, n))
                else:
                    part.violation("every declared operation is provided", "%s:%s" % (C.module.path, cn), "%s does not provide %s" % (cn, n))


def c24(check):
    check.rule = ("events of a symbolic manager that knows nothing but the declared operations, over all algorithms and samplers: an undeclared name, a changing operation or a store is a violation, so is an error; "
                  "declared and implemented signatures compared on the syntax trees")
    check.assumptions += ["the declared operations are those of AbstractConstraintsManager at the pinned commit"]

    def one(project, part, item):
        (interface_one if item == "interface" else use_one)(project, part, item)
    drive(check, ["interface"] + base_scens(check.tier, salts=1) + sampler_scens(check.tier), one)
