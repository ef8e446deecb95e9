"""Constructs are allowed exactly under the requirements that enable them."""

import itertools

from mc import absyn, env, sread
from mc.checks.c06 import domain, problem
from mc.checks.common import warm
from mc.run import Violation

REQS = sorted(sread.REQS)
FEATURES = {
    "plain": "(:predicates (p)) (:action go :parameters (?x ?y) :precondition (and (p) (not (p))) :effect (and (p) (not (p))))",
    "typed-constant": "(:types t) (:constants a - t)",
    "object-constant": "(:constants a - object)",
    "subtypes": "(:types s - t)",
    "object-subtypes": "(:types s - object)",
    "plain-types": "(:types s t)",
    "typed-predicate": "(:types t) (:predicates (p ?x - t))",
    "typed-parameter": "(:types t) (:action go :parameters (?x ?y - t))",
    "either": "(:types s t) (:action go :parameters (?x - (either s t)))",
    "or": "(:predicates (p)) (:action go :parameters () :precondition (or (p) (not (p))))",
    "nested-or": "(:predicates (p)) (:action go :parameters () :precondition (and (p) (not (or (p) (p)))))",
    "or-in-when": "(:predicates (p)) (:action go :parameters () :effect (when (or (p)) (p)))",
    "imply": "(:predicates (p)) (:action go :parameters () :precondition (imply (p) (p)))",
    "forall": "(:predicates (p ?x)) (:action go :parameters () :precondition (forall (?x) (p ?x)))",
    "exists": "(:predicates (p ?x)) (:action go :parameters () :precondition (exists (?x) (p ?x)))",
    "both": "(:predicates (p ?x ?y)) (:action go :parameters () :precondition (exists (?x) (not (forall (?y) (p ?x ?y)))))",
    "exists-in-when": "(:predicates (p ?x)) (:action go :parameters () :effect (when (exists (?x) (p ?x)) (and)))",
    "typed-forall": "(:types t) (:predicates (p ?x)) (:action go :parameters () :precondition (forall (?x - t) (p ?x)))",
    "equality": "(:constants a) (:action go :parameters (?x ?y) :precondition (= ?x ?y))",
    "constant-equality": "(:constants a b) (:action go :parameters () :precondition (not (= a b)))",
    "oneof": "(:predicates (p)) (:action go :parameters () :effect (oneof (p) (not (p))))",
    "nested-oneof": "(:predicates (p)) (:action go :parameters () :effect (and (p) (forall (?x) (oneof (p) (and)))))",
    "when": "(:predicates (p)) (:action go :parameters () :effect (when (p) (not (p))))",
    "forall-effect": "(:predicates (p ?x)) (:action go :parameters () :effect (forall (?x) (p ?x)))",
    "typed-forall-effect": "(:types t) (:predicates (p ?x)) (:action go :parameters () :effect (forall (?x - t) (p ?x)))",
    "function": "(:functions (f ?x))",
    "number-function": "(:functions (f) - number)",
    "total-cost": "(:functions (total-cost) - number)",
    "both-functions": "(:functions (total-cost) (f ?x) - number)",
    "both-functions-2": "(:functions (f ?x) (g) (total-cost))",
    "costs": "(:functions (total-cost)) (:action go :parameters () :effect (increase (total-cost) 1))",
    "numeric": "(:functions (f)) (:action go :parameters () :precondition (> (f) 1) :effect (assign (f) 2))",
    "derived": "(:predicates (p) (q)) (:derived (p) (q))",
    "derived-or": "(:predicates (p) (q)) (:derived (p) (or (q) (q)))",
    "derived-exists": "(:predicates (p ?x)) (:derived (p ?x) (exists (?y) (p ?y)))",
    "derived-equality": "(:predicates (p ?x ?y)) (:derived (p ?x ?y) (= ?x ?y))",
    "typed-derived": "(:types t) (:predicates (p ?x)) (:derived (p ?x - t) (p ?x))",
}
GOALS = {
    "plain": "(and (p) (not (q)))", "or": "(or (p) (q))", "imply": "(not (imply (p) (q)))", "forall": "(forall (?x) (p ?x))",
    "exists": "(and (exists (?x) (p ?x)))", "equality": "(= a b)", "compare": "(> (f) 1)",
    "nested": "(exists (?x) (and (p ?x) (not (= ?x a))))",
}


def subsets(k):
    """All subsets of at most k requirements and their complements."""
    for n in range(k + 1):
        for c in itertools.combinations(REQS, n):
            yield c
            yield tuple(r for r in REQS if r not in c)


def section(reqs):
    return "(:requirements %s)" % " ".join(":" + r for r in reqs) if reqs else ""


def texts(sets):
    for reqs in sets:
        for k, f in FEATURES.items():
            yield "(define (domain d) %s %s)" % (section(reqs), f)


def goals(sets):
    for reqs in sets:
        for k, g in GOALS.items():
            yield "(define (problem q) (:domain d) %s (:objects a b) (:init) (:goal %s))" % (section(reqs), g)


API = {
    "types": (dict(types=(("s", "t"),)), "typing"),
    "object": (dict(types=(("s", "object"),)), "typing"),
    "flat": (dict(types=(("s", None), ("t", None))), None),
    "constant": (dict(types=(("t", None),), consts=frozenset({("a", "t")})), "typing"),
    "parameter": (dict(types=(("t", None),), actions=frozenset({("go", (("v", "x", ("t",)),), None, None)})), "typing"),
    "function": (dict(funcs=frozenset({(("f", ()), None)})), "numeric-fluents"),
    "functions": (dict(funcs=frozenset({(("f", ()), "number"), (("g", (("v", "x", ()),)), None)})), "numeric-fluents"),
    "cost": (dict(funcs=frozenset({(("total-cost", ()), None)})), "action-costs"),
    "costs": (dict(funcs=frozenset({(("total-cost", ()), "number"), (("f", ()), None)})), ("action-costs", "numeric-fluents")),
}


def api(case, obs):
    from mc.checks.c12 import dom

    mask = case
    reqs = frozenset(r for i, r in enumerate(REQS) if mask >> i & 1)
    ext = sread.closure(reqs)
    L = absyn.lib()
    for label, (parts, needs) in API.items():
        needs = {needs} if isinstance(needs, str) else set(needs or ())
        ok = needs <= ext
        obs.outcome(ok)
        kw = dict(parts)
        kw["types"] = frozenset(kw.get("types", ()))
        ast = dom(reqs=reqs, **kw)
        obs.step()
        try:
            d = absyn.build_domain(ast)
        except Exception as e:
            if ok:
                raise Violation("%s with requirements %s rejected: %s" % (label, sorted(reqs), env.brief(e)))
            continue
        if not ok:
            raise Violation("%s with requirements %s accepted" % (label, sorted(reqs)))
        if {r.value for r in d.requirements} != reqs:
            raise Violation("requirements %s kept as %s" % (sorted(reqs), d.requirements))
    obs.state(mask)


def orders():
    """The order and repetition of the requirements do not matter."""
    for n in (2, 3):
        for c in itertools.permutations([":adl", ":fluents", ":typing", ":quantified-preconditions", ":action-costs", ":equality"], n):
            for f in ("both", "typed-predicate", "function", "total-cost", "equality", "or"):
                yield "(define (domain d) (:requirements %s) %s)" % (" ".join(c), FEATURES[f])
    for c in itertools.product([":adl", ":strips", ":fluents"], repeat=4):
        for f in ("or", "function"):
            yield "(define (domain d) (:requirements %s) %s)" % (" ".join(c), FEATURES[f])


def pairs():
    """Two features at a time under the requirements that matter."""
    rel = ["typing", "disjunctive-preconditions", "universal-preconditions", "existential-preconditions", "equality",
           "non-deterministic", "numeric-fluents", "action-costs"]
    acts = {k: v for k, v in FEATURES.items() if v.startswith("(:predicates (p)) (:action") or v.startswith("(:predicates (p ?x)) (:action")}
    bodies = sorted({v[v.index("(:action"):] for v in acts.values()})
    for n in range(4):
        for reqs in itertools.combinations(rel, n):
            for a, b in itertools.combinations(bodies, 2):
                yield "(define (domain d) %s (:predicates (p) (q)) %s %s)" % (
                    section(reqs), a.replace("(p ?x)", "(p)"), b.replace("go", "go2").replace("(p ?x)", "(p)"))


def main(check):
    warm("domain", "problem")
    lv = check.level
    check.run("domains", domain, texts(subsets(3 if lv == 1 else 4)), chunk=400)
    if lv > 1:
        check.run("all-subsets", domain, texts(tuple(r for i, r in enumerate(REQS) if m >> i & 1) for m in range(1 << 16)), chunk=1000)
    check.run("problems", problem, goals(subsets(3 if lv == 1 else 5)), chunk=400)
    check.run("orders", domain, orders(), chunk=100)
    check.run("pairs", domain, pairs(), chunk=200)
    check.run("constructors", api, range(1 << 16), chunk=500)
    check.notes["explanation"] = (
        "every gated construct under all sets of at most three requirements and their complements (all "
        "65536 sets through the constructors; thorough: also as text); acceptance is compared with the "
        "closure of the requirements"
    )
