"""Typed lists: every type applies to exactly the items before it that have none yet."""

import itertools

from mc import fam
from mc.checks.c06 import domain, problem
from mc.checks.common import warm

NAMES = ["a", "b", "c", "-", "t1", "object", "(either t1 t2)"]
TYPES = ["a", "b", "c", "-", "object", "t1"]
VARS = ["?x", "?y", "?z", "-", "t1", "t2", "object", "(either t1 t2)"]

D = "(define (domain d) (:requirements :adl :numeric-fluents) (:types t1 t2 - t0 t3) "
POSITIONS = {
    "types": "(define (domain d) (:requirements :typing) (:types %s))",
    "types-untyped": "(define (domain d) (:types %s))",
    "constants": D + "(:constants %s))",
    "predicates": D + "(:predicates (p %s)))",
    "functions": D + "(:functions (f %s)))",
    "parameters": D + "(:predicates (p ?x ?y)) (:action a :parameters (%s) :precondition (p ?x ?y)))",
    "forall": D + "(:predicates (p ?x ?y)) (:action a :parameters (?x ?z - t3) :precondition (forall (%s) (p ?x ?z))))",
    "effect": D + "(:predicates (p ?x ?y)) (:action a :parameters (?x ?z - t3) :effect (forall (%s) (p ?x ?z))))",
    "derived": D + "(:predicates (p ?x ?y - t0) (q ?x)) (:derived (p %s) (q ?x)))",
}
OBJECTS = "(define (problem q) (:domain d) (:objects %s) (:init (p a)) (:goal (p b)))"
PGOAL = "(define (problem q) (:domain d) (:init) (:goal (exists (%s) (p ?x ?y))))"


def lists(alphabet, n, template, start=0):
    for k in range(start, n + 1):
        for c in itertools.product(alphabet, repeat=k):
            yield template % " ".join(c)


def long_lists(items, tags, template, mark):
    """All typed lists of distinct items with a tag or none after each."""
    for k in items:
        for s in fam.typed_lists(k, tags, mark=mark):
            yield template % s


def main(check):
    warm("domain", "problem")
    n = 6 if check.level > 1 else 5
    for pos, template in POSITIONS.items():
        if pos in ("types", "types-untyped"):
            check.run(pos, domain, lists(TYPES, n + (pos == "types"), template), chunk=400)
        elif pos == "constants":
            check.run(pos, domain, lists(NAMES, n, template), chunk=400)
        else:
            check.run(pos, domain, lists(VARS, n, template), chunk=400)
    check.run("objects", problem, lists(NAMES, n, OBJECTS), chunk=400)
    check.run("goal", problem, lists(VARS, n - 1, PGOAL), chunk=400)
    sizes = range(5, 8 if check.level == 1 else 9)
    check.run("long-constants", domain, long_lists(sizes, ["", "- t1", "- t3"], POSITIONS["constants"], ""), chunk=100)
    check.run("long-objects", problem, long_lists(sizes, ["", "- t1", "- t3"], OBJECTS, ""), chunk=100)
    check.run("long-types", domain, long_lists(sizes, ["", "- t1", "- object"], POSITIONS["types"], ""), chunk=100)
    check.run("long-parameters", domain, long_lists(sizes, ["", "- t1", "- (either t1 t3)"], POSITIONS["parameters"], "?"), chunk=100)
    check.run("long-predicates", domain, long_lists(sizes, ["", "- t1", "- t3"], POSITIONS["predicates"], "?"), chunk=100)
    check.run("either", domain, either(), chunk=100)
    groups = 3 if check.level == 1 else 4
    for pos, template in POSITIONS.items():
        if pos in ("types", "types-untyped", "constants"):
            check.run("repeats-" + pos, domain, repeats(NTYPES, "", groups, template), chunk=100)
        else:
            check.run("repeats-" + pos, domain, repeats(VTYPES, "?", groups, template), chunk=100)
    check.run("repeats-objects", problem, repeats(NTYPES, "", groups, OBJECTS), chunk=100)
    check.run("repeats-goal", problem, repeats(VTYPES, "?", groups, PGOAL), chunk=100)
    check.notes["explanation"] = (
        "all sequences of list tokens up to the bound are placed in every position where the language "
        "has a typed list; the reference reader says which are lists and which type every item has"
    )


NTYPES = ["", "- t1", "- t2", "- t3", "- object"]
VTYPES = ["", "- t1", "- t2", "- t3", "- object", "- (either t1 t2)", "- (either t2 t1)", "- (either t1 t3)", "- (either t1 t1)"]


def repeats(types, mark, groups, template):
    """All lists of up to the given number of groups of one item each, where the items repeat."""
    for k in range(1, groups + 1):
        for items in itertools.product("ab" if not mark else "xy", repeat=k):
            if k > 2 and len(set(items)) == k:
                continue
            for tags in itertools.product(types if k < 4 else types[::2], repeat=k):
                yield template % " ".join(mark + i + " " + t for i, t in zip(items, tags))


def either():
    """All either types over five names, after one or two variables."""
    names = ["t1", "t2", "t3", "t0", "object", "zz"]
    for k in range(0, 5):
        for c in itertools.product(names, repeat=k):
            tag = "(either %s)" % " ".join(c)
            yield POSITIONS["predicates"] % ("?x ?y - %s ?z" % tag)
            yield POSITIONS["parameters"] % ("?x - %s ?y" % tag)
