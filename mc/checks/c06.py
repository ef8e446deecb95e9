"""Exactly the language is accepted."""

import itertools

from mc import absyn, env, fam, mutate, sread
from mc.checks.common import TAKE, same, warm
from mc.run import Violation


def decide(kind, text, obs):
    verdict, ast = sread.read(kind, text)
    obs.outcome(verdict)
    if verdict == "skip":
        return
    how, x = env.outcome(kind, text, obs.fresh)
    obs.step()
    if verdict == "bad":
        obs.state((kind, "bad", ast, text if len(text) < 12 else None))
        if how == "obj":
            raise Violation("malformed %s accepted (%s):\n%s\nread as\n%s" % (kind, ast, text, x))
        return
    obs.state(absyn.norm(ast))
    if how == "exc":
        if verdict == "ok":
            raise Violation("well-formed %s rejected: %s\n%s" % (kind, env.brief(x), text))
        return
    same(absyn.dump_any(kind, x), ast, "parsed %s (left) differs from its text (right)" % kind, text)


def domain(text, obs):
    decide("domain", text, obs)


def problem(text, obs):
    decide("problem", text, obs)


def plan(text, obs):
    decide("plan", text, obs)


def token_plans(n):
    for k in range(n + 1):
        for combo in itertools.product(["(", ")", "a", "b-1", "-", "?", "and", "7"], repeat=k):
            yield " ".join(combo)


def token_domains(n, alphabet, template):
    for k in range(n + 1):
        for combo in itertools.product(alphabet, repeat=k):
            yield template % " ".join(combo)


REQ = "(define (domain d) (:requirements :adl :fluents :action-costs :non-deterministic) (:predicates (p) (q ?x)) (:functions (f)) %s"
GD = REQ % "(:action a :parameters (?x) :precondition %s))"
EFF = REQ % "(:action a :parameters (?x) :effect %s))"
EXP = REQ % "(:action a :parameters (?x) :effect (assign (f) %s)))"
SECTIONS = [
    "(:requirements :adl :numeric-fluents)", "(:types t)", "(:constants a)", "(:predicates (p ?x))", "(:functions (f))",
    "(:action x :parameters ())", "(:derived (p ?x) (and))",
]
PSECTIONS = [
    "(:domain d)", "(:requirements :adl)", "(:objects a)", "(:init)", "(:goal (and))", "(:metric minimize 1)",
]


def sections():
    """All sequences of at most five sections."""
    for k in range(6):
        for c in itertools.product(SECTIONS, repeat=k):
            yield "(define (domain d) %s)" % " ".join(c)


def psections():
    for k in range(7):
        for c in itertools.product(PSECTIONS, repeat=k):
            yield "(define (problem d) %s)" % " ".join(c)


def bodies():
    parts = [":parameters", "()", "(?x)", ":precondition", ":effect", "(p)", "(and (p))", "(not (p))"]
    for k in range(6):
        for c in itertools.product(parts, repeat=k):
            yield REQ % "(:action a %s))" % " ".join(c)


def main(check):
    warm("domain", "problem", "plan")
    deep = check.level > 1
    check.run("domain-edits", domain, mutate.mutants("domain"), chunk=200)
    check.run("problem-edits", problem, mutate.mutants("problem"), chunk=200)
    check.run("plan-edits", plan, mutate.mutants("plan", 3 if deep else 2), chunk=400)
    check.run("domain-sections", domain, sections(), chunk=400)
    check.run("problem-sections", problem, psections(), chunk=400)
    check.run("action-bodies", domain, bodies(), chunk=400)
    check.run("plan-tokens", plan, token_plans(7 if deep else 6), chunk=1000)
    n = 1 if deep else 0
    gd = ["(", ")", "(p)", "and", "not", "or", "imply", "=", "?x", ">", "1", "f"]
    check.run("condition-tokens", domain, token_domains(5 + n, gd, GD), chunk=1000)
    ef = ["(", ")", "(p)", "and", "not", "when", "oneof", "(and)", "assign", "f", "1"]
    check.run("effect-tokens", domain, token_domains(5 + n, ef, EFF), chunk=1000)
    ex = ["(", ")", "+", "-", "*", "/", "1", "f"]
    check.run("expression-tokens", domain, token_domains(6 + n, ex, EXP), chunk=1000)
    for name, texts in fam.domain_texts(0 if not deep else 1):
        check.run("domain-" + name, domain, texts, chunk=20)
    for name, texts in fam.problem_texts(0 if not deep else 1):
        check.run("problem-" + name, problem, texts, chunk=20)
    if deep:
        check.run("problem-double-edits", problem, mutate.mutants("problem", 2), chunk=400)
    check.notes["explanation"] = (
        "every text of the listed finite families (all single token edits of base texts that cover the "
        "language, all short token sequences in the position of a condition, effect, expression and "
        "plan, all short sequences of sections) is classified by an independent reference reader; "
        "malformed texts have to be rejected and well-formed texts accepted with the content they have"
    )
