"""Every occurrence of a variable has the types of its binder, every constant its declared type."""

import itertools

from mc import fam
from mc.checks.c06 import domain, problem
from mc.checks.common import warm

HEAD = (
    "(define (domain d) (:requirements :adl :numeric-fluents) (:types t1 t2 - t0 t3) (:constants a - t1 b x - t3) "
    "(:predicates (p0) (p1 ?x) (p2 ?u ?v) (p3 ?u ?v ?w)) (:functions (f ?x) (g)) %s)"
)
TYPES = ["", "- t1", "- (either t1 t2)"]
BODIES = ["(p2 ?x ?y)", "(= ?x ?y)", "(> (f ?x) (+ (f ?y) 1))", "(and (p1 ?x) (not (p3 ?y x ?x)))"]
EBODIES = ["(p2 ?x ?y)", "(assign (f ?x) (- (f ?y) 1))", "(and (p1 ?x) (when (p1 ?y) (not (p2 ?y ?x))))"]
BINDERS = ["?x %s" % t for t in TYPES] + ["?y %s" % t for t in TYPES[:2]] + ["?x - t3 ?y", "?z - t1", ""]


def nest(op, binders, body):
    for i, b in reversed(list(enumerate(binders))):
        body = "(%s (%s) %s)" % (op[i % len(op)], b, body)
    return body


def params():
    for tx, ty in itertools.product(TYPES, repeat=2):
        yield "?x %s ?y %s" % (tx, ty)
    yield "?y - t1 ?x"
    yield "?x - t1"
    yield "?y - t2"
    yield ""


def nested(depth):
    for k in range(depth + 1):
        for bs in itertools.product(BINDERS, repeat=k):
            for ops in (("forall", "exists"), ("exists", "forall")):
                for body in BODIES:
                    yield nest(ops, bs, body)
            for body in EBODIES:
                yield "E" + nest(("forall",), bs, body)


def domains(depth, wrap):
    def structs():
        for ps in params():
            for f in nested(depth):
                if f[0] == "E":
                    yield "(:action aN :parameters (%s) :effect %s)" % (ps, f[1:])
                else:
                    yield "(:action aN :parameters (%s) :precondition %s)" % (ps, f)
                    if wrap:
                        yield "(:action aN :parameters (%s) :effect (forall (?x - t2) (when %s (and (p1 ?x) (p1 ?y)))))" % (ps, f)
    for part in fam.chunks(structs(), 16):
        yield HEAD % " ".join(s.replace("aN", "a%d" % i) for i, s in enumerate(part))


def sides(depth):
    """A quantified variable next to occurrences of the variable outside of the quantifier."""
    for k in range(1, depth + 1):
        for bs in itertools.product(BINDERS[:5], repeat=k):
            for outer in itertools.product(["(p2 ?x ?y)", "(p1 ?y)", None], repeat=2):
                if outer == (None, None):
                    continue
                inner = nest(("exists", "forall"), bs, "(p2 ?y ?x)")
                yield "(and %s)" % " ".join(o for o in (outer[0], inner, outer[1]) if o)
                yield "(imply %s %s)" % (inner, outer[0] or outer[1])
                yield "(or %s %s)" % (inner, nest(("forall",), bs[::-1], "(= ?x ?y)"))


def side_domains(depth):
    def structs():
        for ps in ("?x ?y", "?x - t1 ?y - t2", "?y - (either t1 t3) ?x"):
            for f in sides(depth):
                yield "(:action aN :parameters (%s) :precondition %s)" % (ps, f)
    for part in fam.chunks(structs(), 16):
        yield HEAD % " ".join(s.replace("aN", "a%d" % i) for i, s in enumerate(part))


def sequences(n):
    """Sequences of actions and derived predicates: nothing of one is visible in another."""
    menu = [
        "(:action N :parameters (?x - t1 ?y - t2) :precondition (p2 ?x ?y) :effect (p1 ?y))",
        "(:action N :parameters (?y ?x - t3) :precondition (p2 ?x ?y))",
        "(:action N :parameters (?x) :precondition (exists (?y - t1) (p2 ?x ?y)) :effect (p1 ?x))",
        "(:action N :parameters () :precondition (forall (?x - t1 ?y) (p2 ?x ?y)) :effect (forall (?y - t2) (p1 ?y)))",
        "(:action N :parameters (?y - t1) :effect (and (forall (?x) (p2 ?y ?x)) (p1 ?y)))",
        "(:action N :parameters (?z - t1 ?x ?y))",
        "(:derived (p2 ?x ?y) (and (p1 ?x) (p1 ?y)))",
        "(:derived (p2 ?y - t1 ?x) (p2 ?x ?y))",
        "(:derived (p1 ?x - t2) (exists (?y) (p2 ?x ?y)))",
        "(:derived (p1 ?y) (forall (?x - t3) (p2 ?y ?x)))",
    ]
    for k in range(1, n + 1):
        for c in itertools.product(menu, repeat=k):
            yield HEAD % " ".join(s.replace(" N ", " n%d " % i) for i, s in enumerate(c))


def derived_heads():
    """Head types against declared types, under all hierarchies of at most three types."""
    tags = ["", "- t0", "- t1", "- t2", "- (either t0 t1)", "- (either t1 t2)", "- object"]
    for n in (2, 3):
        for h in fam.forests(n, extra=("t9",)):
            types = fam.types_section(h)
            for decl, head in itertools.product([t for t in tags if n == 3 or "t2" not in t], repeat=2):
                if n == 3 and ("either" in decl and "either" in head or hash_skip(h)):
                    continue
                yield (
                    "(define (domain d) (:requirements :typing :derived-predicates) (:types %s) (:predicates (p ?a %s) (q ?b ?c)) "
                    "(:derived (p ?v %s) (q ?v ?v)))" % (types, decl, head)
                )


def hash_skip(h):
    """Hierarchies in which two of three types have the parent object or none are left to n = 2."""
    return sum(1 for _, p in h if p in (None, "object")) >= 2


def derived_many():
    """Heads with several variables, constants and shadowing in the condition."""
    decls = ["?a ?b", "?a - t1 ?b", "?a ?b - t0", "?a - t0 ?b - (either t1 t3)"]
    heads = ["?x ?y", "?x - t1 ?y", "?y ?x", "?x - t1 ?y - t1", "?y - t2 ?x - t3", "?a ?b", "?x - t0 ?y - (either t1 t3)"]
    conds = [
        "(r ?x ?y)", "(and (r ?x ?y) (not (r ?y ?x)))", "(exists (?x) (r ?x ?y))", "(forall (?x - t1 ?y - t2) (r ?x ?y))",
        "(or (= ?x ?y) (exists (?x - t2) (and (r ?x ?y) (forall (?y) (r ?x ?y)))))", "(imply (r ?x a) (> (f ?x) (f ?y)))",
        "(r ?a ?b)", "(exists (?y - t3) (imply (r ?y ?x) (exists (?x - t0) (r ?x ?y))))",
    ]
    for d, h, c in itertools.product(decls, heads, conds):
        yield (
            "(define (domain d) (:requirements :adl :numeric-fluents) (:types t1 t2 - t0 t3) (:constants a - t1) "
            "(:predicates (p %s) (r ?u ?v)) (:functions (f ?x)) (:derived (p %s) %s) (:derived (r ?x ?y) (p ?x ?y)))" % (d, h, c)
        )


def chains():
    """Heads at any distance below the declared type, in hierarchies with other branches."""
    for n in range(1, 25):
        ts = " ".join("c%d - c%d" % (i, i + 1) for i in range(n)) + " s - c0 z - c%d w" % n
        for i, j in {(0, n), (n, 0), (0, n // 2), (n // 2, n), (n // 2, 0), (n, n)}:
            for head in ("c%d" % i, "s", "z", "w", "(either s c%d)" % i, "(either z c%d)" % i):
                yield (
                    "(define (domain d) (:requirements :typing :derived-predicates) (:types %s) (:predicates (p ?a - c%d) (q ?b)) "
                    "(:derived (p ?v - %s) (q ?v)))" % (ts, j, head)
                )


def constants():
    cs = ["", "a", "a - t1", "a - t0 b - t3", "b a - t3", "a b - t1 c", "a - object b - t1"]
    fs = ["(p2 a ?x)", "(p2 a a)", "(= ?x a)", "(= a b)", "(> (f a) (f ?x))", "(exists (?x - t2) (p2 a ?x))", "(forall (?a - t3) (p2 a ?a))"]
    es = ["(p1 a)", "(not (p2 a b))", "(assign (f a) (f b))", "(forall (?a - t1) (when (p1 a) (p1 ?a)))"]
    for c, f, e in itertools.product(cs, fs, es):
        yield (
            "(define (domain d) (:requirements :adl :numeric-fluents) (:types t1 t2 - t0 t3) (:constants %s) "
            "(:predicates (p1 ?x) (p2 ?u ?v)) (:functions (f ?x)) (:action go :parameters (?x - t1 ?a) :precondition %s :effect %s) "
            "(:derived (p1 ?x) (p2 ?x a)))" % (c, f, e)
        )


def goals(depth):
    for k in range(1, depth + 1):
        for bs in itertools.product(BINDERS, repeat=k):
            for body in BODIES:
                yield fam.problem_of("(forall (?y - t2 ?x) %s)" % nest(("exists", "forall"), bs, body), objects="a x - t1 b")


def main(check):
    warm("domain", "problem")
    lv = check.level
    check.run("nested", domain, domains(2 if lv == 1 else 3, True), chunk=10)
    if lv == 1:
        check.run("nested-3", domain, (d for d in domains_3()), chunk=10)
    check.run("sides", domain, side_domains(2), chunk=10)
    check.run("sequences", domain, sequences(3 if lv == 1 else 4), chunk=50)
    check.run("derived-heads", domain, derived_heads(), chunk=200)
    check.run("derived-conditions", domain, derived_many(), chunk=50)
    check.run("derived-chains", domain, chains(), chunk=50)
    check.run("constants", domain, constants(), chunk=50)
    check.run("goals", problem, goals(2 if lv == 1 else 3), chunk=100)
    check.notes["explanation"] = (
        "all nestings of at most three binders over two variables with different types, in conditions, "
        "effects, derived predicates and goals, all short sequences of actions and derived predicates, and "
        "all heads of derived predicates under all hierarchies of at most three types; the reference reader "
        "says which types every occurrence has"
    )


def domains_3():
    """Three nested binders, one body."""
    def structs():
        for ps in ("?x ?y", "?x - t1 ?y - t2"):
            for bs in itertools.product(BINDERS[:6], repeat=3):
                yield "(:action aN :parameters (%s) :precondition %s)" % (ps, nest(("forall", "exists"), bs, "(p2 ?x ?y)"))
                yield "(:action aN :parameters (%s) :effect %s)" % (ps, nest(("forall",), bs, "(p2 ?x ?y)"))
    for part in fam.chunks(structs(), 16):
        yield HEAD % " ".join(s.replace("aN", "a%d" % i) for i, s in enumerate(part))
