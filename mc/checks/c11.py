"""Plans: instantiation and check against a domain and a problem."""

import itertools

from mc import absyn, env, fam, sread
from mc.checks.c10 import expect_action, norm_action
from mc.checks.common import difference, warm
from mc.run import Violation

REQ = "(:requirements :adl :numeric-fluents)"
DOMAINS = [
    "(define (domain d) %s (:types t1 t2) (:constants k - t1 m) (:predicates (p ?x) (q ?x ?y) (r)) (:functions (f ?x)) "
    "(:action go :parameters (?x - t1 ?y) :precondition (and (q ?x ?y) (not (q ?y ?x)) (forall (?x) (p ?x))) "
    ":effect (and (p ?x) (when (q ?y ?x) (not (p ?y))) (increase (f ?y) 1))) "
    "(:action noop :parameters () :precondition (r)) "
    "(:action one :parameters (?y - t1) :effect (p ?y)) "
    "(:action three :parameters (?y ?x ?z) :precondition (q ?y ?z) :effect (q ?x ?x)))" % REQ,
    "(define (domain d) (:predicates (p ?x)) (:action go :parameters (?y ?x) :precondition (p ?y) :effect (p ?x)) "
    "(:action one :parameters (?x) :precondition (p ?x)))",
    "(define (domain d) (:constants a b))",
]
PROBLEMS = [
    "(define (problem q) (:domain d) (:objects %s) (:init) (:goal (and)))" % o
    for o in ("a b", "a - t1 b c - t2", "", "k", "a", "A b B - t1")
]
NAMES = ["go", "noop", "one", "three", "Go", "stop", "on", "ones", "ONE"]
OBJS = ["a", "b", "k", "z", "A", "K", "ab"]


def steps():
    for n in NAMES:
        for k in range(4):
            for args in itertools.product(OBJS if k < 3 else OBJS[:3], repeat=k):
                yield (n, args)


def plans(maxlen, thin):
    ss = list(steps())
    yield ()
    for s in ss:
        yield (s,)
    good = [s for s in ss if s[0] in ("go", "noop", "one", "three") and len(s[1]) == {"go": 2, "noop": 0, "one": 1, "three": 3}[s[0]]]
    sel = good[::3] + [("stop", ()), ("noop", ("a",)), ("one", ()), ("go", ("a", "z")), ("one", ("z",))]
    for k in range(2, maxlen + 1):
        few = sel if k == 2 else sel[:: thin * (k - 2)]
        yield from itertools.product(few, repeat=k)


def worlds():
    """Pairs of parsed domains and problems with their abstract syntax."""
    out = []
    for d in DOMAINS:
        dv, da = sread.read("domain", d)
        for p in PROBLEMS:
            pv, pa = sread.read("problem", p)
            out.append((d, da, p, pa))
    return out


_cache = {}


def world(i, fresh):
    if i not in _cache or fresh:
        d, da, p, pa = worlds()[i]
        _cache[i] = (env.parse("domain", d), da, env.parse("problem", p), pa)
    return _cache[i]


def attempt(fn):
    try:
        return ("ok", fn())
    except Exception as e:
        return ("exc", e)


def instances(plan, plan_ast, domain, da, obs):
    """Instantiate and compare with the model."""
    actions = {a[0]: a for a in da[8]}
    fits = all(n in actions and len(args) == len(actions[n][1]) for n, args in plan_ast)
    how, got = attempt(lambda: plan.instantiate(domain))
    obs.step()
    obs.outcome("instantiable" if fits else "not instantiable")
    if fits:
        if how == "exc":
            raise Violation("instantiation of %s fails: %s" % (plan, env.brief(got)))
        want = [
            norm_action(expect_action(actions[n], tuple(("c", x, None) for x in args))) for n, args in plan_ast
        ]
        have = [norm_action(absyn.dump(a)) for a in got]
        if have != want:
            raise Violation("instances of the plan %s\n%s" % (plan, difference(tuple(have), tuple(want))))
    elif how == "ok":
        raise Violation("plan instantiated although it does not fit the domain: %s" % plan)
    return fits


def verdict(plan, plan_ast, domain, da, problem, pa, obs):
    """Check and compare with the model."""
    actions = {a[0]: a for a in da[8]}
    fits = all(n in actions and len(args) == len(actions[n][1]) for n, args in plan_ast)
    objects = {c for c, _ in da[4]} | {o for o, _ in pa[4]}
    ok = fits and all(x in objects for _, args in plan_ast for x in args)
    how, e = attempt(lambda: plan.check(domain, problem))
    obs.step()
    obs.outcome("valid" if ok else "invalid")
    if ok and how == "exc":
        raise Violation("valid plan rejected: %s\n%s" % (env.brief(e), plan))
    if not ok and how == "ok":
        raise Violation("invalid plan accepted:\n%s\ndomain %s problem %s" % (plan, domain, problem))


def make(plan_ast, built, obs):
    if built:
        return absyn.build_plan(("plan", plan_ast))
    return env.parse("plan", "\n".join("(%s)" % " ".join((n,) + args) for n, args in plan_ast), obs.fresh)


def decide(case, obs):
    plan_ast, i, built = case
    domain, da, problem, pa = world(i, obs.fresh)
    plan = make(plan_ast, built, obs)
    obs.state((plan_ast, i))
    instances(plan, plan_ast, domain, da, obs)
    verdict(plan, plan_ast, domain, da, problem, pa, obs)
    if absyn.dump_plan(plan) != ("plan", plan_ast):
        raise Violation("the plan changed: %s" % plan)


HISTORY_PLANS = [
    (("one", ("a",)),), (("one", ("b",)),), (("go", ("a", "k")), ("one", ("b",))), (("noop", ()),), (("noop", ()), ("noop", ())), (),
    (("go", ("a", "b")), ("go", ("b", "a"))), (("one", ("k",)),), (("stop", ()),), (("go", ("a", "b")), ("go", ("a",))),
    (("three", ("k", "a", "b")), ("one", ("A",))),
]


def histories(case, obs):
    """The same objects, used again and again: one object per plan, one per domain and problem."""
    ops = case
    plans, domains, problems = {}, {}, {}
    for op, pi, di, qi in ops:
        ast = HISTORY_PLANS[pi]
        plan = plans.setdefault(pi, make(ast, True, obs))
        d, p = DOMAINS[di], PROBLEMS[qi]
        if di not in domains:
            domains[di] = (env.parse("domain", d, obs.fresh), sread.read("domain", d)[1])
        if qi not in problems:
            problems[qi] = (env.parse("problem", p, obs.fresh), sread.read("problem", p)[1])
        if op == "instantiate":
            instances(plan, ast, *domains[di], obs)
        else:
            verdict(plan, ast, *domains[di], *problems[qi], obs)
        obs.state((op, pi, di, qi))
    for pi, plan in plans.items():
        if absyn.dump_plan(plan) != ("plan", HISTORY_PLANS[pi]):
            raise Violation("the plan changed: %s" % plan)


def history_cases(level):
    np, nd, nq = range(len(HISTORY_PLANS)), range(len(DOMAINS)), range(len(PROBLEMS))
    # one plan against all sequences of worlds
    ops = [("instantiate", d, 0) for d in nd] + [("check", d, q) for d in nd for q in nq]
    for p in np:
        for seq in itertools.product(ops, repeat=2):
            yield tuple((o, p, d, q) for o, d, q in seq)
    few = [("instantiate", 0, 0), ("instantiate", 1, 0), ("check", 0, 0), ("check", 0, 1), ("check", 1, 0), ("check", 0, 2)]
    for p in np:
        for seq in itertools.product(few if level == 1 else ops, repeat=3):
            yield tuple((o, p, d, q) for o, d, q in seq)
    # several plans against the same world
    for w in [(0, 0), (0, 3), (1, 0)]:
        one = [(o, p) + w for o in ("instantiate", "check") for p in np]
        yield from itertools.product(one, repeat=2)
        if level > 1:
            yield from itertools.product(one, repeat=3)


def long_plans(case, obs):
    """One bad step at every place of a long plan."""
    n, bad, which = case
    good = [("go", ("a", "k")), ("noop", ()), ("one", ("b",)), ("three", ("k", "a", "b"))]
    plan = [good[i % 4] for i in range(n)]
    if bad is not None:
        plan[bad] = [("stop", ()), ("noop", ("a",)), ("one", ()), ("go", ("a", "z")), ("three", ("z", "a", "a")), ("go", ("a", "b", "k")), ("go", ("A", "b")), ("One", ("a",)), ("three", ("a", "b", "B"))][which]
    decide((tuple(plan), 0, True), obs)


def main(check):
    warm("domain", "problem", "plan")
    w = range(len(worlds()))
    lv = check.level
    ps = list(plans(3, 6 if lv == 1 else 3))
    check.run("built-plans", decide, ((p, i, True) for p in ps for i in w if len(p) < 3 or i < 7), chunk=500)
    check.run("parsed-plans", decide, ((p, i, False) for p in plans(2, 1) for i in w), chunk=500)
    check.run("long-plans", long_plans, (
        (n, b, k) for n in range(1, 33 if lv == 1 else 65) for b in [None] + list(range(n)) for k in range(9 if b is not None else 1)
    ), chunk=100)
    check.run("histories", histories, history_cases(lv), chunk=100)
    check.notes["explanation"] = (
        "all plans of at most three steps over the listed steps (every action name, arity and object, "
        "including unknown ones), parsed and built, against all pairs of domains and problems; "
        "all sequences of two or three instantiations and checks of the same plan, domain and problem objects; the instances are compared with substitution on the abstract syntax, the verdict of the check "
        "with names, arities and objects"
    )
