"""The decisions for C01-C08 (see manager.py for the abstract states)."""
from .manager import *
from ..facts import Facts


def std_cases(check, project, thorough, dels=True, ids=True, n4=500):
    """(cases, classes): scripts leading to every analysed state"""
    cases = []
    for uni, init, states, trunc in base_states(check, project, 3, inits3(), all_ops(3, dels=dels, ids=False), 300, "three_ids"):
        cases += [(uni, init, s) for s in states]
    if ids:
        ops = all_ops(3, dels=dels, ids=False, ordered=False) + [("delid", 1), ("addid", 1), ("delid", 2), ("addid", 2)]
        for uni, init, states, trunc in base_states(check, project, 3, inits3()[1:3] if not thorough else inits3(), ops, 250 if not thorough else 3000, "three_ids_with_id_changes"):
            cases += [(uni, init, s) for s in states]
    ops4 = all_ops(4, dels=dels, ids=False, ordered=False)
    ops4 = [(o[0], o[2], o[1]) + o[3:] if (o[1] + o[2]) % 2 else o for o in ops4]
    for uni, init, states, trunc in base_states(check, project, 4, inits4(thorough), ops4, n4 if not thorough else 4000, "four_ids"):
        cases += [(uni, init, s) for s in states]
    return cases


def dedupe(cases):
    seen, out = set(), []
    for c in cases:
        k = repr(c)
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


def note_cases(check, cases):
    check.nontrivial.update(hash(repr(c)) for c in cases if c[2])
    for c in cases[:: max(1, len(cases) // 5)][:5]:
        check.sample(show(c))


COMMON_ASSUMPTIONS = [
    "IDs are strings of which the code uses only identity and order (any other use becomes an uninterpreted term and the partition is not decided)",
    "closure under all operations is computed for three IDs and, up to the reported limit, four; larger configurations are the enumerated role scenarios (two groups, groups cannot-linked to one or both, bystanders)",
    "networkx colouring is replaced by a greedy colouring; the minimum estimate is not part of this property"]


# ---------------------------------------------------------------------- C01
def c01(check):
    p = project_of(check)
    th = check.tier == "thorough"
    check.rule = ("case = initial IDs with an alphabetical order + a script of additions reaching an abstract manager state (fixpoint over 3 IDs, 4 IDs up to a limit, role scenarios up to 10 IDs, groups of symbolic size); "
                  "non-trivial = at least one constraint; rule: get_inferred_constraint of every ordered pair equals the closure of the added constraints")
    check.assumptions = COMMON_ASSUMPTIONS
    cases = std_cases(check, p, th, dels=False, n4=350)
    scen = []
    for classes in (False, True):
        for uni, init, script in scenario_cases(classes, th):
            for t in (ML, CL):
                for a, b in ((0, 1), (1, 0)):
                    scen.append((uni, init, script + (("add", a, b, t),)))
            if th:
                for a, b in ((len(uni) - 1, 0), (1, len(uni) - 1)):
                    for t in (ML, CL):
                        scen.append((uni, init, script + (("add", 0, 1, ML), ("add", a, b, t))))
    # a new ID joining an existing configuration
    for uni, init, script in scenario_cases(False, th)[::3]:
        n = len(uni)
        uni2 = uni + [("n", 1.5, None)]
        for t in (ML, CL):
            scen.append((uni2, init, script + (("addid", n), ("add", n, 0, t), ("add", 1, n, ML))))
    cases = dedupe(cases + scen + [c for c in many_last() if not any(o[0].startswith("del") for o in c[2])])
    note_cases(check, cases)

    def body(part, w, case):
        spec = Spec(case[1])
        # queries are asked between the operations as well: answers must not go stale
        for i, op in enumerate(case[2]):
            if i == len(case[2]) - 1:
                w.query("get_connected_components") if all(t.mult is None for t in w.toks) else None
                for a in spec.ids[:3]:
                    for b in spec.ids[:3]:
                        w.query("get_inferred_constraint", w.toks[a], w.toks[b])
            ok = spec.apply(op)
            r = w.do(op)
            if ok and r[0] != "ok" and not exc_isa(r[1].name, "ValueError") and understood(w):
                part.violation("additions complete", w.loc(OPNAME[op[0]]), "%s%s: the last addition fails with %s at %s" % (show((case[0], case[1], case[2][:i + 1])), where(w), r[1].name, r[1].node), show(case))
            if not ok or r[0] != "ok":
                return
        check_inferred(part, w, case, spec, "inferred constraints = closure of the added ones", "add_constraint")
    drive(check, p, cases, body)


# ---------------------------------------------------------------------- C02
def c02(check):
    p = project_of(check)
    th = check.tier == "thorough"
    check.rule = ("case = abstract manager state + one deletion (of each pair in both orders, of each ID); after it managed IDs, added and inferred constraints are compared with those of the remaining constraints; "
                  "non-trivial = the state has at least one constraint")
    check.assumptions = COMMON_ASSUMPTIONS
    cases = []
    for uni, init, s in std_cases(check, p, th, dels=True, ids=True, n4=90):
        spec = Spec(init)
        if not all(spec.apply(o) for o in s):
            continue
        for pr in sorted(map(sorted, spec.added)):
            cases.append((uni, init, s + (("del", pr[0], pr[1]),)))
            cases.append((uni, init, s + (("del", pr[1], pr[0]),)))
        for i in spec.ids:
            cases.append((uni, init, s + (("delid", i),)))
        un = [(a, b) for a in spec.ids for b in spec.ids if a != b and frozenset((a, b)) not in spec.added]
        for a, b in un[:2]:
            cases.append((uni, init, s + (("del", a, b),)))
    for classes in (False, True):
        for uni, init, script in scenario_cases(classes, th)[:: 1 if th else 7]:
            for t in (ML, CL):
                full = script + (("add", 0, 1, t),)
                spec = Spec(init)
                if not all(spec.apply(o) for o in full):
                    continue
                for k, pr in enumerate(sorted(map(sorted, spec.added))):
                    if uni[pr[0]][2] or uni[pr[1]][2]:
                        continue
                    cases.append((uni, init, full + (("del", pr[k % 2], pr[1 - k % 2]),)))
                for i in range(len(uni)):
                    if uni[i][2] is None:
                        cases.append((uni, init, full + (("delid", i),)))
    # histories: delete, re-add and delete again
    more = []
    for uni, init, s in cases[::7]:
        d = s[-1]
        if d[0] == "del":
            sp = Spec(init)
            [sp.apply(o) for o in s[:-1]]
            t = sp.added.get(frozenset(d[1:]))
            if t:
                more.append((uni, init, s + (("add", d[2], d[1], CL if t == ML else ML), ("del", d[1], d[2]))))
        else:
            more.append((uni, init, s + (("addid", d[1]),)))
    cases = dedupe(cases + more + [c for c in many_last() if any(o[0].startswith("del") for o in c[2])])
    note_cases(check, cases)

    def body(part, w, case):
        spec = Spec(case[1])
        for i, op in enumerate(case[2]):
            if i == len(case[2]) - 1:
                warm(w, spec)
            ok = spec.apply(op)
            r = w.do(op)
            if ok and r[0] != "ok" and op[0] in ("del", "delid") and understood(w):
                part.violation("deletions complete", w.loc(OPNAME[op[0]]), "%s%s: the last deletion fails with %s at %s" % (show((case[0], case[1], case[2][:i + 1])), where(w), r[1].name, r[1].node), show(case))
            if not ok or r[0] != "ok":
                return
        last = OPNAME[case[2][-1][0]] if case[2][-1][0] != "addid" else "delete_data_ID"
        rule = "after a deletion only the remaining constraints count"
        if check_ids(part, w, case, spec, rule, last) and check_added(part, w, case, spec, rule, last) and check_inferred(part, w, case, spec, rule, last):
            if case[2][-1][0] == "delid":
                gone = w.toks[case[2][-1][1]]
                for other in spec.ids[:2]:
                    for q in ("get_added_constraint", "get_inferred_constraint"):
                        for args in ((gone, w.toks[other]), (w.toks[other], gone)):
                            o, v = w.query(q, *args)
                            if o == "ok":
                                if understood(w):
                                    part.violation(rule, w.loc(last), "%s: %s still answers %r for the deleted ID" % (show(case), q, v), show(case))
                                return
    drive(check, p, cases, body)


def warm(w, spec):
    """ask the queries once, so that remembered answers would show"""
    if all(t.mult is None for t in w.toks):
        w.query("get_connected_components")
        w.query("check_completude_of_constraints")
        w.query("get_list_of_managed_data_IDs")
        if spec.ids:
            w.query("get_min_and_max_number_of_clusters")
    for a in spec.ids[:4]:
        for b in spec.ids[:4]:
            w.query("get_inferred_constraint", w.toks[a], w.toks[b])
            w.query("get_added_constraint", w.toks[a], w.toks[b])


# ---------------------------------------------------------------------- C03
NEAR = ["must_link", "Must_Link", "MUST-LINK", "MUST_LINK ", "", "CANNOT", "LINK", "MAYBE_LINK", "M", "CANNOT_LINK,MUST_LINK"]


def c03(check):
    p = project_of(check)
    th = check.tier == "thorough"
    check.rule = ("case = abstract manager state + one request: every pair in both orders with each type, each with an unmanaged ID in each position, a constraint type of any string value (partitioned), "
                  "IDs added twice or deleted when unmanaged; refused exactly when specified, with ValueError; an accepted addition is recorded")
    check.assumptions = COMMON_ASSUMPTIONS
    base = std_cases(check, p, th, dels=True, ids=True, n4=50)
    scen = []
    for classes in (False, True):
        scen += scenario_cases(classes, th)[:: 1 if th else 5]
        for uni, init, script in scenario_cases(classes, th)[:: 2 if th else 9]:
            scen.append((uni, init, script + (("add", 0, 1, ML),)))
    cases = []
    for uni, init, s in dedupe(base):
        spec = Spec(init)
        if not all(spec.apply(o) for o in s):
            continue
        n = len(uni)
        uni2 = uni + [("new", n - 1.5, None)]
        reqs = []
        for a in range(n + 1):
            for b in range(n + 1):
                for t in (ML, CL):
                    reqs.append(("add", a, b, t))
                reqs.append(("del", a, b))
                reqs.append(("q", a, b))
        for a in range(n + 1):
            reqs += [("addid", a), ("delid", a)]
        if len(s) <= 2:
            reqs.append(("sym", 0, 1))
            reqs += [("add", 0, 1, t) for t in NEAR] + [("conf", 0, 1, t) for t in NEAR[:3]]
        cases.append((uni2, init, s, tuple(reqs)))
    for uni, init, s in dedupe(scen):
        n = len(uni)
        reqs = [("add", a, b, t) for a in range(n) for b in range(n) for t in (ML, CL) if a < 2 or b < 2]
        cases.append((uni, init, s, tuple(reqs if th else reqs[:36])))
    for uni, init, s, n in many_cases():
        reqs = [("addid", n), ("addid", n - 1), ("delid", n), ("delid", 0), ("q", n, 2), ("q", n - 1, n - 2), ("q", 3, n), ("del", n - 1, n), ("del", n - 1, 3)]
        reqs += [("add", a, b, t) for a, b in ((0, n - 1), (n - 2, 4), (7, 12), (13, 0), (15, 14), (n, 0)) for t in (ML, CL)]
        cases.append((uni, init, s, tuple(reqs)))
    check.nontrivial.update(hash(repr(c[:3]) + repr(r)) for c in cases for r in c[3])
    for c in cases[:: max(1, len(cases) // 5)][:5]:
        check.sample(show(c) + " then %d requests" % len(c[3]))

    def one(part, w, case, req):
        spec = Spec(case[1])
        if not replay(w, case, spec):
            return
        k = req[0]
        part.count("requests_decided")
        where_ = show(case)
        if k == "q":
            a, b = w.toks[req[1]], w.toks[req[2]]
            exp = req[1] in spec.ids and req[2] in spec.ids
            for q, args in (("get_added_constraint", (a, b)), ("get_inferred_constraint", (a, b)), ("get_list_of_involved_data_IDs_in_a_constraint_conflict", (a, b, ML))):
                if q.startswith("get_list") and any(t.mult is not None for t in w.toks):
                    continue
                o, v = w.query(q, *args)
                decide(part, w, where_, "%s(%s, %s)" % (q, a.name, b.name), q, exp, o == "ok", v)
            return
        if k == "conf":
            o, v = w.query("get_list_of_involved_data_IDs_in_a_constraint_conflict", w.toks[0], w.toks[1], req[3])
            decide(part, w, where_, "conflict query with type %r" % req[3], "get_list_of_involved_data_IDs_in_a_constraint_conflict", False, o == "ok", v)
            return
        if k == "sym":
            s = T("sym", "constraint_type", kind="str")
            o = w.do(("add", 0, 1, s))
            c = w.it.resolve(s)
            spec2 = spec.copy()
            exp = spec2.apply(("add", 0, 1, c if isinstance(c, str) else "other"))
            decide(part, w, where_, "add_constraint with a type that is %s" % (c if isinstance(c, str) else "neither allowed value"), "add_constraint", exp, o[0] == "ok", o[1])
            return
        spec2 = spec.copy()
        exp = spec2.apply(req)
        o, v = w.do(req)
        desc = show((case[0], case[1], (req,))).split("; ", 1)[1]
        if k == "add" and req[3] not in (ML, CL):
            desc += " type %r" % req[3]
        if not decide(part, w, where_, desc, OPNAME[k], exp, o == "ok", v):
            return
        if k == "add" and exp and req[1] != req[2]:
            o, v = w.query("get_added_constraint", w.toks[req[1]], w.toks[req[2]])
            want = spec2.added.get(frozenset(req[1:3]))
            if o != "ok" or not isinstance(v, tuple) or v[0] != want:
                if understood(w):
                    part.violation("an accepted addition is recorded", w.loc("add_constraint"), "%s; then %s is accepted but get_added_constraint answers %r" % (where_, desc, v), where_)
            elif len(v) != 2 or v[1] != 1.0:
                if understood(w) and not isinstance(v[1], T):
                    part.violation("an accepted addition is recorded", w.loc("add_constraint"), "%s; then %s is recorded as %r" % (where_, desc, v), where_)
        if k == "addid" and exp:
            if not check_ids(part, w, (case[0], case[1], case[2] + (req,)), spec2, "an accepted ID is managed", "add_data_ID"):
                return
            new = w.toks[req[1]]
            for other in spec2.ids:
                for q in ("get_added_constraint", "get_inferred_constraint"):
                    for args in ((new, w.toks[other]), (w.toks[other], new)):
                        o, v = w.query(q, *args)
                        want = None if other != req[1] else "any"
                        if o != "ok" or (want is None and v is not None and not isinstance(v, T)):
                            if understood(w):
                                part.violation("an accepted ID can be used", w.loc("add_data_ID"), "%s; then %s(%s) answers %r" % (where_, q, [x.name for x in args], v), where_)
                            return

    def decide(part, w, where_, desc, fn, exp, got, v):
        name = v.name if isinstance(v, Raised) else v
        if not understood(w):
            part.und("depends on an uninterpreted condition")
            return False
        if exp and not got:
            part.violation("only invalid requests are refused", w.loc(fn), "%s%s; then %s must be accepted but raises %s" % (where_, where(w), desc, name), where_)
            return False
        if not exp and got:
            part.violation("invalid requests are refused", w.loc(fn), "%s%s; then %s must be refused but is accepted" % (where_, where(w), desc), where_)
            return False
        if not exp and not exc_isa(name, "ValueError"):
            part.violation("refusals are ValueErrors", w.loc(fn), "%s%s; then %s raises %s" % (where_, where(w), desc, name), where_)
            return False
        return exp

    drive_requests(check, p, cases, one)


def drive_requests(check, p, cases, one, max_paths=24):
    """cases carry requests: each is interpreted from the state reached by the script"""
    flat = [(c[0], c[1], c[2], r) for c in cases for r in c[3]]

    def body(part, w, case):
        one(part, w, case, case[3])
    drive(check, p, flat, body, max_paths)


# ---------------------------------------------------------------------- C04
def follow_ups(spec):
    ids = spec.ids
    out = []
    for a in ids[:3]:
        for b in ids[:3]:
            if a < b:
                for t in (ML, CL):
                    if spec.copy().apply(("add", a, b, t)):
                        out.append(("add", a, b, t))
                out.append(("del", a, b))
    out += [("delid", ids[0])] if ids else []
    return out


def diff(a, b):
    for k in a:
        if k not in b or a[k] != b[k]:
            return "%s: %r instead of %r" % (k if isinstance(k, str) else " ".join(map(str, k)), b.get(k), a[k])
    return None


def behaviour_differs(project, uni, init, mk_a, mk_b, spec, part):
    """first observable difference between two histories, now or after one more request; None when none was found"""
    def run(mk, fu):
        w = World(project, uni, init)
        mk(w)
        if w.it.decisions:
            raise Unsupported("history depends on a condition")
        sp = spec.copy()
        if fu is not None:
            sp.apply(fu)
            r = w.do(fu)
            if r[0] != "ok":
                return {"request": "refused"}, w
        o = w.observe(sp.ids)
        if w.it.decisions:
            raise Unsupported("answers depend on a condition")
        return o, w
    for fu in [None] + follow_ups(spec):
        a, _ = run(mk_a, fu)
        b, w = run(mk_b, fu)
        part.count("histories_compared")
        d = diff(a, b)
        if d:
            return d if fu is None else "after a further %s: %s" % (fu[0], d)
    return None


def c04(check):
    p = project_of(check)
    th = check.tier == "thorough"
    check.rule = ("case = abstract manager state + one request that ends in an error on the analysed path; the abstract heap after it must equal the heap before, or else every answer, now and after one more request, must be the same; "
                  "non-trivial = refused request")
    check.assumptions = COMMON_ASSUMPTIONS
    base = dedupe(std_cases(check, p, th, dels=True, ids=True, n4=60))
    scen = scenario_cases(False, th)[:: 1 if th else 7]
    cases = []
    for uni, init, s in base + scen:
        n = len(uni)
        uni2 = uni + [("new", n - 1.5, None)]
        reqs = []
        lim = n if n <= 4 else 3
        for a in list(range(lim)) + [n]:
            for b in list(range(lim)) + [n]:
                reqs += [("add", a, b, ML), ("add", a, b, CL)]
                if n in (a, b) and len(s) < 4:
                    reqs += [("del", a, b), ("get_added_constraint", a, b), ("get_inferred_constraint", a, b)]
        reqs += [("addid", a) for a in range(lim)] + [("delid", n), ("add", 0, 1, "OTHER"), ("add", 1, 0, "")]
        if len(s) < 3:
            reqs += [("delid", a) for a in range(lim)] + [("conf", n, 0, ML), ("conf", 0, n, CL), ("conf", 0, 1, "OTHER")]
        cases.append((uni2, init, s, tuple(reqs)))
    for uni, init, s, n in many_cases():
        reqs = [("add", a, b, t) for a, b in ((0, n - 1), (n - 2, 4), (7, 12), (13, 0), (n, 0)) for t in (ML, CL, "OTHER")]
        cases.append((uni, init, s, tuple(reqs + [("addid", n - 1), ("delid", n)])))

    def one(part, w, case, req):
        spec = Spec(case[1])
        if not replay(w, case, spec):
            return
        live = list(spec.ids)
        before = w.snapshot()
        o, v = ask(w, req)
        if o != "raise":
            return
        part["nontrivial"].add(hash(repr(case)))
        part.count("refused_requests")
        if not part["samples"] and req[0] == "add":
            part["samples"].append(show(case) + " then refused %s" % (req,))
        if w.snapshot() == before:
            part.count("heap_identical")
            return
        if not understood(w) or w.it.decisions:
            part.und("refusal with a changed heap under an uninterpreted condition")
            return
        part.count("heap_changed_compared_by_answers")

        def plain_(w2):
            for op in case[2]:
                w2.do(op)

        def with_refusal(w2):
            plain_(w2)
            ask(w2, req)
        d = behaviour_differs(p, case[0], case[1], plain_, with_refusal, spec, part)
        if d:
            part.violation("a refused request leaves the manager unchanged", w.loc(OPNAME.get(req[0], req[0])), "%s; then the refused %s(%s) changes an answer: %s" % (
                show(case), OPNAME.get(req[0], req[0]), ", ".join(case[0][x][0] if isinstance(x, int) else str(x) for x in req[1:]), d), show(case))

    drive_requests(check, p, cases, one)


def ask(w, req):
    k = req[0]
    if k in OPNAME:
        return w.do(req)
    if k == "conf":
        return w.query("get_list_of_involved_data_IDs_in_a_constraint_conflict", w.toks[req[1]], w.toks[req[2]], req[3])
    if k in ("get_added_constraint", "get_inferred_constraint"):
        return w.query(k, w.toks[req[1]], w.toks[req[2]])
    return w.query(k)


# ---------------------------------------------------------------------- C05
def c05(check):
    p = project_of(check)
    th = check.tier == "thorough"
    check.rule = ("case = abstract manager state + a request or query on an unordered pair, analysed with the pair in both orders; the outcomes and all answers afterwards (as sets) must agree; non-trivial = two different IDs")
    check.assumptions = COMMON_ASSUMPTIONS
    base = dedupe(std_cases(check, p, th, dels=True, ids=False, n4=60))
    scen = scenario_cases(False, th)[:: 1 if th else 9] + scenario_cases(True, th)[:: 2 if th else 20]
    cases = []
    for uni, init, s in base + scen:
        n = len(uni)
        reqs = []
        pairs = [(a, b) for a in range(n) for b in range(a + 1, n)]
        if n > 4:
            pairs = pairs[:4] + pairs[-2:]
        for a, b in pairs:
            reqs += [("add", a, b, ML), ("add", a, b, CL), ("del", a, b), ("query", a, b)]
        if n <= 4 and len(s) < 3:
            reqs += [("add", 0, n, ML), ("del", n, 0), ("query", 1, n)]
        cases.append((uni + [("new", n - 1.5, None)], init, s, tuple(reqs)))
    for uni, init, s, n in many_cases():
        reqs = [(k, a, b) for k in ("del", "query") for a, b in ((0, n - 1), (n - 2, 4), (7, 12), s[0][1:3])]
        cases.append((uni, init, s, tuple(reqs + [("add", 15, 0, ML), ("add", 14, 15, CL)])))
        cases.append((uni, init, s + (("addid", n),), (("add", n - 1, n, ML), ("add", n, 2, CL), ("query", n, 0), ("query", n, n - 1))))
    check.nontrivial.update(hash(repr(c[:3]) + repr(r)) for c in cases for r in c[3])
    for c in cases[:: max(1, len(cases) // 5)][:5]:
        check.sample(show(c) + " then pairs in both orders")

    def one(part, w, case, req):
        spec = Spec(case[1])
        if not replay(w, case, spec):
            return
        a, b = req[1], req[2]
        part.count("order_pairs_compared")
        loc = w.loc(OPNAME.get(req[0], "get_inferred_constraint"))
        if req[0] == "query":
            qs = [("get_added_constraint", ()), ("get_inferred_constraint", ())]
            if all(t.mult is None for t in w.toks):
                qs += [("get_list_of_involved_data_IDs_in_a_constraint_conflict", (t,)) for t in (ML, CL)]
            for q, ex in qs:
                r1 = w.query(q, w.toks[a], w.toks[b], *ex)
                r2 = w.query(q, w.toks[b], w.toks[a], *ex)
                r1, r2 = (r1[0], w.plain(r1[1], True)), (r2[0], w.plain(r2[1], True))
                if r1 != r2:
                    if understood(w):
                        part.violation("pair order is irrelevant to queries", w.loc(q), "%s%s: %s(%s, %s)=%r but %s(%s, %s)=%r" % (show(case), where(w), q, case[0][a][0], case[0][b][0], r1, q, case[0][b][0], case[0][a][0], r2), show(case))
                    return
            return
        w2 = w.sibling(case[1])
        if not replay(w2, case, Spec(case[1])):
            return
        op2 = (req[0], b, a) + req[3:]
        r1, r2 = w.do(req), w2.do(op2)
        if not understood(w) or not understood(w2):
            part.und("depends on an uninterpreted condition")
            return
        desc = "%s: %s of (%s, %s)" % (show(case), OPNAME[req[0]], case[0][a][0], case[0][b][0]) + (" " + req[3] if len(req) > 3 else "")
        if r1[0] != r2[0]:
            part.violation("pair order is irrelevant to requests", loc, "%s: %s in one order, %s in the other" % (desc, r1[0], r2[0]), show(case))
            return
        live = [i for i in spec.ids]
        if r1[0] == "ok" and a != b and max(a, b) < len(case[0]) - 1:
            for v in (w, w2):
                for x, y in ((a, b), (b, a)):
                    g = v.query("get_added_constraint", v.toks[x], v.toks[y])
                    g = (g[0], v.plain(g[1], True))
                    ok = g[0] == "ok" and (g[1] is None if req[0] == "del" else isinstance(g[1], tuple) and req[3] in g[1])
                    if not ok and understood(v):
                        part.violation("a constraint given in one order is found, and deleted, in the other", loc, "%s%s, then get_added_constraint(%s, %s)=%r" % (desc, where(v), case[0][x][0], case[0][y][0], g), show(case))
                        return
        o1, o2 = w.observe(live, unordered=True), w2.observe(live, unordered=True)
        d = diff(o1, o2)
        if d:
            if understood(w) and understood(w2):
                part.violation("pair order is irrelevant to requests", loc, "%s%s: after the other order, %s" % (desc, where(w), d), show(case))

    drive_requests(check, p, cases, one)


# ---------------------------------------------------------------------- C06
QUERIES = ["get_list_of_managed_data_IDs", "get_connected_components", "check_completude_of_constraints", "get_min_and_max_number_of_clusters", "to_json"]


def c06(check):
    p = project_of(check)
    th = check.tier == "thorough"
    check.rule = ("case = abstract manager state + one query; the abstract heap must be the same before and after (or all answers, now and after one more request); every list, dictionary or set reachable from the answer or from the "
                  "constructor's list must not be an object whose modification changes an answer; non-trivial = every case")
    check.assumptions = COMMON_ASSUMPTIONS
    base = dedupe(std_cases(check, p, th, dels=True, ids=True, n4=60))
    scen = scenario_cases(False, th)[:: 2 if th else 8]
    cases = []
    for uni, init, s in base + scen + [c[:3] for c in many_cases()]:
        n = len(uni)
        live = Spec(init)
        if not all(live.apply(o) for o in s):
            continue
        ids = live.ids
        reqs = [(q,) for q in QUERIES if ids or q != "get_min_and_max_number_of_clusters"] + [("init",)]
        pr = [(a, b) for a in ids for b in ids]
        if len(pr) > 9:
            pr = pr[:3] + pr[-3:]
        for a, b in pr:
            reqs += [("get_added_constraint", a, b), ("get_inferred_constraint", a, b)]
            if a != b:
                reqs += [("conf", a, b, ML), ("conf", a, b, CL)]
        cases.append((uni, init, s, tuple(reqs)))

    def mutables(v, acc=None, depth=0):
        acc = [] if acc is None else acc
        if isinstance(v, (AList, ADict, ASet)) and all(v is not x for x in acc):
            acc.append(v)
            for x in (v.items if isinstance(v, AList) else v.vals if isinstance(v, ADict) else []):
                mutables(x, acc, depth + 1)
        elif isinstance(v, tuple):
            for x in v:
                mutables(x, acc, depth + 1)
        elif isinstance(v, AView):
            mutables(v.d, acc)
        return acc

    def reach(w):
        acc, seen = [], set()
        stack = [w.m] + [v for env in w.it.modenv.values() for v in env.values() if isinstance(v, Heap)] + [r for r, _ in w.it.memo.values()]
        while stack:
            v = stack.pop()
            if id(v) in seen:
                continue
            if isinstance(v, AObj):
                seen.add(id(v))
                stack.extend(v.attrs.values())
            elif isinstance(v, AList):
                seen.add(id(v))
                stack.extend(v.items)
            elif isinstance(v, ADict):
                seen.add(id(v))
                stack.extend(v.vals)
            elif isinstance(v, (ASet,)):
                seen.add(id(v))
            elif isinstance(v, AView):
                stack.append(v.d)
            elif isinstance(v, tuple):
                stack.extend(v)
        return seen

    def scramble(w, v, how):
        """what a caller may do with a list, dictionary or set it received"""
        tok = w.toks[0]
        if isinstance(v, AList):
            if how == 0:
                v.items[:] = []
                v.muls = None
            elif how == 1:
                v.items.reverse()
            elif how == 2:
                v.items.append(Tok("extra", 99))
            elif how == 3 and v.items:
                v.items[0] = Tok("extra", 99)
        elif isinstance(v, ADict):
            if how == 0:
                v.keys, v.vals, v.muls = [], [], []
                v.reindex()
            elif how == 1 and v.keys:
                v.vals[0] = None
        elif isinstance(v, ASet) and how == 0:
            v.d.keys, v.d.vals, v.d.muls = [], [], []
            v.d.reindex()

    def one(part, w, case, req):
        spec = Spec(case[1])
        if not replay(w, case, spec):
            return
        name = {"conf": "get_list_of_involved_data_IDs_in_a_constraint_conflict", "init": "__init__"}.get(req[0], req[0])
        part["nontrivial"].add(hash(repr(case)))
        part.count("queries_checked")
        before = w.snapshot()
        if req[0] == "init":
            answer = w.init_list
        else:
            o, answer = ask(w, req)
            if o != "ok":
                return
        changed = w.snapshot() != before
        if w.it.decisions and not understood(w):
            part.und("query under an uninterpreted condition")
            return

        def plain_(w2):
            for op in case[2]:
                w2.do(op)

        def queried(w2):
            plain_(w2)
            ask(w2, req)
        if changed and req[0] != "init":
            part.count("heap_changed_compared_by_answers")
            if w.it.decisions:
                part.und("query changes the heap under a condition")
                return
            d = behaviour_differs(p, case[0], case[1], plain_, queried, spec, part)
            if d:
                part.violation("queries are read-only", w.loc(name), "%s: %s(%s) changes a later answer: %s" % (show(case), name, ", ".join(case[0][x][0] if isinstance(x, int) else str(x) for x in req[1:]), d), show(case))
                return
        inner = reach(w)
        ms = mutables(answer)
        part.count("answer_objects_checked_for_sharing", len(ms))
        for k, v in enumerate(ms):
            if id(v) in inner:
                part.count("shared_objects")
                if w.it.decisions:
                    part.und("shared answer under a condition")
                    return
                for how in range(4):
                    def tampered(w2):
                        plain_(w2)
                        x = w2.init_list if req[0] == "init" else ask(w2, req)[1]
                        xs = mutables(x)
                        if k < len(xs):
                            scramble(w2, xs[k], how)
                    try:
                        d = behaviour_differs(p, case[0], case[1], plain_ if req[0] == "init" else queried, tampered, spec, part)
                    except Raised as r:
                        d = "an answer fails with %s" % r.name
                    if d:
                        part.violation("answers share no internal state" if req[0] != "init" else "the constructor's list is not kept", w.loc(name), "%s: modifying the object %s %s changes a later answer: %s" % (
                            show(case), "returned by" if req[0] != "init" else "given to", name, d), show(case))
                        return

    drive_requests(check, p, cases, one)


# ---------------------------------------------------------------------- C07
def c07(check):
    p = project_of(check)
    th = check.tier == "thorough"
    check.rule = ("case = abstract manager state; groups, completeness, maximum cluster number and every conflict report are compared with the closure; queries are also asked before the last request so that remembered answers would show; "
                  "non-trivial = at least one constraint")
    check.assumptions = COMMON_ASSUMPTIONS
    cases = std_cases(check, p, th, dels=True, ids=True, n4=400)
    for uni, init, script in scenario_cases(False, th):
        cases.append((uni, init, script))
        for t in (ML, CL):
            cases.append((uni, init, script + (("add", 0, 1, t),)))
            cases.append((uni, init, script + (("add", 1, 0, t), ("del", 0, 2))) if len(uni) > 2 else (uni, init, script))
    # complete configurations: k groups, all pairwise cannot-linked
    for k, sizes in ((2, (2, 1)), (3, (1, 1, 2)), (3, (2, 2, 1)), (4, (1, 2, 1, 1))):
        n = sum(sizes)
        uni = uni_plain(n, [(i * 3 + 1) % n if n % 3 else (i * 2 + 1) % n if n % 2 else i for i in range(n)])
        if len({u[1] for u in uni}) != n:
            uni = uni_plain(n)
        gs, pos = [], 0
        for z in sizes:
            gs.append(list(range(pos, pos + z)))
            pos += z
        sc = []
        for g in gs:
            sc += [("add", g[0], x, ML) for x in g[1:]]
        cl = [("add", gs[i][-1], gs[j][0], CL) for i in range(k) for j in range(i + 1, k)]
        for drop in [None] + list(range(len(cl))):
            cases.append((uni, list(range(n)), tuple(sc + [c for i, c in enumerate(cl) if i != drop])))
            cases.append((uni, list(range(n))[::-1], tuple([c for i, c in enumerate(cl) if i != drop] + sc)))
    cases = dedupe(cases + list(many_last()))
    note_cases(check, cases)

    def body(part, w, case):
        spec = Spec(case[1])
        for i, op in enumerate(case[2]):
            if i == len(case[2]) - 1:
                warm(w, spec)
            ok = spec.apply(op)
            r = w.do(op)
            if not ok or r[0] != "ok":
                return
        cl = spec.closure()
        g = spec.groups()
        nm = lambda i: w.toks[i].name if isinstance(i, int) else str(i)

        def bad(rule, fn, msg):
            if understood(w):
                part.violation(rule, w.loc(fn), "%s%s: %s" % (show(case), where(w), msg), show(case))
            else:
                part.und("depends on an uninterpreted condition")
        o, v = w.query("get_connected_components")
        part.count("answers_compared", 3)
        if o != "ok":
            return bad("groups match inference", "get_connected_components", "raises %s" % v)
        got = w.plain(v)
        gl = [list(x[1:]) for x in got[1:]]
        exp = {frozenset(x) for x in g.values()}
        if sorted(map(sorted, gl)) != sorted(map(sorted, exp)):
            return bad("groups match inference", "get_connected_components", "reports groups %s, expected %s" % ([[nm(i) for i in x] for x in gl], [[nm(i) for i in sorted(x)] for x in exp]))
        o, v = w.query("check_completude_of_constraints")
        comp = all(x is not None for x in cl.values())
        if o != "ok" or (not isinstance(v, T) and bool(v) is not comp):
            return bad("completeness matches inference", "check_completude_of_constraints", "answers %r, expected %r" % (v, comp))
        if spec.ids:
            o, v = w.query("get_min_and_max_number_of_clusters")
            if o != "ok":
                return bad("maximum cluster number = number of groups", "get_min_and_max_number_of_clusters", "raises %s" % v)
            if isinstance(v, tuple) and len(v) == 2 and not isinstance(v[1], T) and v[1] != len(exp):
                return bad("maximum cluster number = number of groups", "get_min_and_max_number_of_clusters", "answers %r, there are %d groups" % (v, len(exp)))
        pairs = [(a, b) for a in spec.ids for b in spec.ids]
        if len(pairs) > 16:
            pairs = pairs[::3]
        for a, b in pairs:
            for t in (ML, CL):
                o, v = w.query("get_list_of_involved_data_IDs_in_a_constraint_conflict", w.toks[a], w.toks[b], t)
                part.count("conflict_reports_compared")
                inf = cl[a, b]
                want = None if inf is None or inf == t else sorted(g[a] | g[b], key=repr)
                got = w.plain(v) if o == "ok" else "error " + str(v)
                gotl = sorted(got[1:], key=repr) if isinstance(got, tuple) else got
                if gotl != want:
                    return bad("conflict reports match inference", "get_list_of_involved_data_IDs_in_a_constraint_conflict", "conflict of (%s, %s, %s) reports %s, expected %s" % (
                        nm(a), nm(b), t, [nm(i) for i in gotl] if isinstance(gotl, list) else gotl, [nm(i) for i in want] if want else want))
    drive(check, p, cases, body)


# ---------------------------------------------------------------------- C08
LOSSY = {"idop:strip", "idop:lower", "idop:upper", "idop:split", "idop:replace", "idop:[]", "idop:rstrip", "idop:lstrip", "idop:title", "idop:casefold", "idop:capitalize", "idop:splitlines", "idop:swapcase"}


def norm_json(it, v):
    """what a JSON encoder followed by a decoder makes of a value"""
    if isinstance(v, (AList, tuple)):
        return AList([norm_json(it, x) for x in (v.items if isinstance(v, AList) else v)])
    if isinstance(v, ADict):
        d = ADict()
        for k, x in zip(v.keys, v.vals):
            if isinstance(k, (str, Tok)) or isinstance(k, T) and k.kind == "str":
                kk = k
            elif k is None or isinstance(k, (bool, int, float)):
                kk = {None: "null", True: "true", False: "false"}.get(k, str(k)) if k is None or isinstance(k, bool) else repr(k)
            elif isinstance(k, tuple):
                raise Raised("TypeError", ("keys must be str",), True)
            else:
                raise Unsupported("JSON key %r" % (k,))
            it.dict_set(d, kk, norm_json(it, x))
        return d
    if isinstance(v, (ASet, AView, AIter, AObj)):
        raise Raised("TypeError", ("not JSON serializable",), True)
    if v is None or isinstance(v, (bool, int, float, str, Tok)) or isinstance(v, T):
        return v
    raise Unsupported("JSON of %r" % (v,))


def json_models(store):
    m = models()

    def fkey(f):
        return repr(f.info.get("file"))

    def dump(it, a, k):
        obj = k.get("obj", a[0] if a else None)
        fp = k.get("fp", a[1] if len(a) > 1 else None)
        if not hasattr(fp, "info"):
            raise Unsupported("json.dump to %r" % (fp,))
        if k.get("default") is not None or k.get("cls") is not None or k.get("skipkeys"):
            raise Unsupported("json options")
        store.setdefault(fkey(fp), []).append((norm_json(it, obj), fp, k))

    def dumps(it, a, k):
        if k.get("default") is not None or k.get("cls") is not None:
            raise Unsupported("json options")
        t = it.fresh("jsontext", "str")
        store[t] = (norm_json(it, k.get("obj", a[0] if a else None)), k)
        return t

    def copy(it, v):
        if isinstance(v, AList):
            return AList([copy(it, x) for x in v.items])
        if isinstance(v, ADict):
            d = ADict()
            for x, y in zip(v.keys, v.vals):
                it.dict_set(d, x, copy(it, y))
            return d
        return v

    def find(it, fp):
        if not hasattr(fp, "info"):
            raise Unsupported("json.load from %r" % (fp,))
        k = fkey(fp)
        got = list(store.get(k, ()))
        for ev in it.events:
            if ev[0] == "open" and fkey(ev[1]) == k and ev[1].wrote:
                if len(ev[1].wrote) == 1 and ev[1].wrote[0] in store:
                    obj, kk = store[ev[1].wrote[0]]
                    got.append((obj, ev[1], kk))
                else:
                    raise Unsupported("file text")
        if not got:
            raise Raised("FileNotFoundError", (k,), True)
        if len(got) > 1:
            raise Raised("ValueError", ("several JSON documents in one file",), True)
        obj, w, kk = got[0]
        store["#used"] = (w, fp, kk)
        return copy(it, obj)

    def load(it, a, k):
        return find(it, k.get("fp", a[0] if a else None))

    def loads(it, a, k):
        t = k.get("s", a[0] if a else None)
        if isinstance(t, T) and t.op == "filetext":
            for ev in it.events:
                if ev[0] == "open" and id(ev[1]) == t.args[0]:
                    return find(it, ev[1])
        raise Unsupported("json.loads of %r" % (t,))
    m.ext["json.dump"] = dump
    m.ext["json.dumps"] = dumps
    m.ext["json.load"] = load
    m.ext["json.loads"] = loads
    return m


ENC = {None: None, "utf8": "utf-8", "utf-8": "utf-8", "UTF-8": "utf-8", "utf_8": "utf-8", "utf-8-sig": "utf-8-sig"}


def c08(check):
    p = project_of(check)
    th = check.tier == "thorough"
    check.rule = ("case = abstract manager state, saved and reloaded through the analysed code with json.dump/json.load replaced by the JSON value transfer (tuples become lists, keys strings); IDs in order, added and inferred constraints must be the same; "
                  "text encodings of writer and reader must agree for every character; non-trivial = at least one constraint")
    check.assumptions = COMMON_ASSUMPTIONS + ["json.dump followed by json.load reproduces strings, numbers, lists and dictionaries with string keys"]
    cases = std_cases(check, p, th, dels=True, ids=True, n4=250)
    for uni, init, script in scenario_cases(False, th)[:: 1 if th else 2]:
        cases.append((uni, init, script + (("add", 0, 1, ML),)))
        cases.append((uni, init, script + (("add", 0, 1, CL),)))
    for k in (0, 1, 2):
        cases.append((uni_plain(3), list(range(k)), ()))
    cases = dedupe(cases + list(many_last()))
    note_cases(check, cases)

    def body(part, w, case):
        spec = Spec(case[1])
        if not replay(w, case, spec):
            return
        store = {}
        w.it.models = json_models(store)
        it = w.it
        live = list(spec.ids)
        before = w.observe(live, bounds=False)
        path = T("sym", "filepath", kind="str")
        loc = w.loc("to_json")

        def bad(msg, fn="to_json"):
            if understood(w):
                part.violation("saved and reloaded manager are the same", loc, "%s%s: %s" % (show(case), where(w), msg), show(case))
            else:
                part.und("depends on an uninterpreted condition")
        part.count("round_trips")
        try:
            w.call("to_json", filepath=path)
            f = it.lookup_dotted(PKG + ".constraints.binary.load_constraints_manager_from_json")
            if not isinstance(f, Func):
                raise AnalysisBroken("load_constraints_manager_from_json not found")
            w2m = it.call(f, [], {"filepath": path})
        except Raised as r:
            return bad("saving and reloading raises %s at %s" % (r.name, r.node))
        if not isinstance(w2m, AObj):
            return bad("reloading returns %r" % (w2m,))
        used = store.get("#used")
        if used:
            wf, rf, kk = used
            ascii_ = kk.get("ensure_ascii", True)
            we, re_ = ENC.get(wf.info.get("encoding"), wf.info.get("encoding")), ENC.get(rf.info.get("encoding"), rf.info.get("encoding"))
            part.count("encodings_checked")
            if not wf.closed:
                part.und("file not closed before it is read")
                return
            if ascii_ is not True:
                if we != re_:
                    return bad("non-ASCII characters are written with encoding %r and read with %r" % (we, re_))
                if we is not None and isinstance(we, str) and we.replace("_", "-").lower() in ("ascii", "latin-1", "latin1", "cp1252", "iso-8859-1", "us-ascii"):
                    return bad("encoding %r cannot represent every character and ASCII escaping is off" % we)
                if wf.info.get("errors") in ("ignore", "replace") or rf.info.get("errors") in ("ignore", "replace"):
                    return bad("characters that cannot be encoded are dropped")
                if ascii_ is False and wf.info.get("errors") in (None, "strict"):
                    return bad("ASCII escaping is off and encoding %s cannot represent every character of an ID (lone surrogates, or all but the local ones): saving fails half way" % (we or "of the locale"))
        w.m = w2m
        after = w.observe(live, bounds=False)
        for a in live:     # the self-constraint of an ID is bookkeeping, not an added constraint
            before.pop(("added", a, a), None), after.pop(("added", a, a), None)
        for o in (before, after):
            for k in ("groups",):
                o.pop(k)
        d = diff(before, after)
        if d:
            lossy = [x for x in repr(after).split("'") if any(x.startswith(l + "(") for l in LOSSY)]
            if "changed-id" in repr(after) and not lossy:
                part.und("IDs pass through an uninterpreted transformation")
                return
            bad("after reloading, %s" % d)
    drive(check, p, cases, body)


# ---------------------------------------------------------------------- C30
def conflict_graphs(thorough):
    """edge lists over 0..n-1: every graph on up to five nodes, known hard ones above"""
    import itertools as I
    out = []
    for n in range(1, 6):
        pairs = list(I.combinations(range(n), 2))
        seen = set()
        for m in range(1 << len(pairs)):
            es = [e for i, e in enumerate(pairs) if m >> i & 1]
            key = min(tuple(sorted(tuple(sorted((q[a], q[b]))) for a, b in es)) for q in I.permutations(range(n))) if n < 5 else None
            if n == 5:
                deg = sorted(sum(x in e for e in es) for x in range(5))
                tri = sum(1 for t in I.combinations(range(5), 3) if all(tuple(p) in es for p in I.combinations(t, 2)))
                nb = tuple(sorted(tuple(sorted(sum(y in e for e in es) for y in range(5) if tuple(sorted((x, y))) in es)) for x in range(5)))
                key = (tuple(deg), tri, nb)
            if key not in seen:
                seen.add(key)
                out.append((n, es))
    cyc = lambda n, o=0: [tuple(sorted((o + i, o + (i + 1) % n))) for i in range(n)]
    out.append((6, list(I.combinations(range(6), 2))))
    out.append((7, list(I.combinations(range(7), 2))))
    out.append((7, cyc(7)))
    out.append((6, cyc(5) + [(i, 5) for i in range(5)]))                        # odd wheel: 4
    out.append((6, cyc(6)))
    out.append((6, [(i, 3 + j) for i in range(3) for j in range(3) if i != j]))   # crown: greedy may need 3
    out.append((8, [(i, 4 + j) for i in range(4) for j in range(4) if i != j]))
    out.append((6, [(0, 1), (0, 2), (1, 2), (3, 4), (3, 5), (4, 5), (0, 3), (1, 4), (2, 5)]))
    out.append((7, [(a, b) for a, b in I.combinations(range(7), 2) if a % 3 != b % 3]))
    out.append((8, [(a, b) for a, b in I.combinations(range(8), 2) if a // 2 != b // 2]))
    out.append((9, list(I.combinations(range(5), 2)) + [(5, 6), (7, 8)]))
    # parts of different sizes: dense and small, sparse and large, in either place; hubs
    k = lambda n, o=0: list(I.combinations(range(o, o + n), 2))
    out.append((10, k(4) + cyc(6, 4)))
    out.append((10, cyc(6) + k(4, 6)))
    out.append((7, k(3) + cyc(4, 3)))
    out.append((8, k(3) + cyc(5, 3)))
    out.append((9, [(0, i) for i in range(1, 6)] + k(3, 6)))
    out.append((8, [(0, i) for i in range(1, 8)] + [(1, 2)]))
    out.append((10, k(4) + k(5, 4) + [(0, 4), (1, 4), (3, 9)]))
    out.append((9, k(3) + k(3, 3) + k(3, 6) + [(2, 3), (5, 6)]))
    if thorough:
        pet = cyc(5) + [(i, i + 5) for i in range(5)] + [(5, 7), (6, 8), (7, 9), (5, 8), (6, 9)]
        out.append((10, pet))
        gr = cyc(5) + [(5 + i, (i + 1) % 5) for i in range(5)] + [(5 + i, (i + 4) % 5) for i in range(5)] + [(5 + i, 10) for i in range(5)]
        out.append((11, [tuple(sorted(e)) for e in gr]))                          # Groetzsch: 4 without a triangle
        out.append((10, list(I.combinations(range(10), 2))))
        out.append((9, cyc(9)))
    return out


def c30_cases(thorough):
    import itertools as I
    cases = []
    for gi, (n, es) in enumerate(conflict_graphs(thorough)):
        shapes = [[1] * n, [2 if i == gi % n else 1 for i in range(n)]]
        if n <= 5:
            shapes.append([2 if (i + gi) % 2 else 1 for i in range(n)])
        for si, sizes in enumerate(shapes):
            blocks, pos = [], 0
            for z in sizes:
                blocks.append(list(range(pos, pos + z)))
                pos += z
            ranks = scrambled(pos, gi + si)
            uni = uni_plain(pos, ranks)
            must = [("add", b[0], x, ML) for b in blocks for x in b[1:]]
            cannot = [("add", blocks[a][-1], blocks[b][0], CL) if (a + b + gi) % 2 else ("add", blocks[b][0], blocks[a][-1], CL) for a, b in es]
            init = scrambled(pos, gi * 7 + si * 3 + 1)
            cases.append((uni, init, tuple(must + cannot)))
            if si:
                cases.append((uni, init, tuple(cannot + must)))
            if si == 0 and 2 <= n <= 5:
                # an ID that came and left, a constraint that was deleted
                cases.append((uni_plain(pos + 1, scrambled(pos + 1, gi)), init + [pos], tuple([("add", pos, x, CL) for x in range(pos)] + cannot + [("delid", pos)])))
                free = [e for e in I.combinations(range(n), 2) if e not in es]
                if free:
                    cases.append((uni, init, tuple(cannot + [("add",) + free[0] + (CL,), ("del",) + free[0]])))
    return cases


def scrambled(n, k):
    out, rest = [], list(range(n))
    while rest:
        out.append(rest.pop((k * 5 + 2) % len(rest)))
        k += 1
    return out


def c30(check):
    from .manager import best_colouring
    p = project_of(check)
    th = check.tier == "thorough"
    check.rule = ("case = abstract manager state (every conflict graph of up to five groups, chosen ones up to nine, reachable states of three and four IDs) x behaviour of the colouring (fewest colours, most colours of any greedy order, given order, reverse order, only one of the colourings optimal); "
                  "rule: 2 <= estimate, chromatic number of the conflict graph of the groups <= estimate <= max(2, 1 + largest degree), equality with max(2, chromatic number) when the colouring is optimal")
    check.assumptions = COMMON_ASSUMPTIONS[:2] + ["networkx.greedy_color returns a proper first-fit colouring of the graph it is given, in an order of its choice (four orders analysed)"]
    graphs = c30_cases(th)
    cases = graphs + std_cases(check, p, th, dels=True, ids=True, n4=200)
    cases = dedupe(cases)
    note_cases(check, cases)
    cases = [c + (mode,) for c in cases for mode in ("best", "worst", "first", "reverse")]
    cases += [c + (mode,) for c in dedupe(graphs) for mode in (1, 2, 3, 5)]

    def body(part, w, case):
        spec = Spec(case[1])
        w.it.colouring = case[3]
        for i, op in enumerate(case[2]):
            if i == len(case[2]) - 1:
                warm(w, spec)
            ok = spec.apply(op)
            r = w.do(op)
            if not ok or r[0] != "ok":
                return
        if not spec.ids:
            return
        cl, g = spec.closure(), spec.groups()
        blocks = sorted({tuple(sorted(x)) for x in g.values()})
        adj = {b: [c for c in blocks if c != b and cl[b[0], c[0]] == CL] for b in blocks}
        chi = 1 + max(best_colouring(adj).values())
        top = max(2, 1 + max(len(v) for v in adj.values()))
        part.count("estimates_compared")
        w.it.colourings, w.it.coloured = 0, set()
        o, v = w.query("get_min_and_max_number_of_clusters")
        found = isinstance(case[3], int) and w.it.colourings >= case[3] and len(w.it.coloured) == 1      # several colourings of one graph
        rule, msg = "minimum cluster estimate bounded by the conflict graph", None
        if o != "ok":
            msg = "raises %s" % v
        elif not isinstance(v, tuple) or len(v) != 2 or isinstance(v[0], T):
            raise Unsupported("estimate %r" % (v,))
        elif not isinstance(v[0], (int, float)) or isinstance(v[0], bool):
            msg = "estimates %r" % (v[0],)
        elif v[0] < 2:
            msg = "estimates %r, less than 2" % (v[0],)
        elif v[0] < chi:
            msg = "estimates %r clusters, but the CANNOT_LINK constraints need %d" % (v[0], chi)
        elif (case[3] == "best" or isinstance(case[3], int) and found) and v[0] != max(2, chi):
            msg = "estimates %r clusters with an optimal colouring, %d are enough" % (v[0], max(2, chi))
        elif v[0] > top:
            msg = "estimates %r clusters, no greedy colouring needs more than %d" % (v[0], top)
        if msg:
            if understood(w):
                part.violation(rule, w.loc("get_min_and_max_number_of_clusters"), "%s%s: %s" % (show(case[:3]), where(w), msg), show(case[:3]))
            else:
                part.und("depends on an uninterpreted condition")
    drive(check, p, cases, body)
