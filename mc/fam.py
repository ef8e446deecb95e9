"""Exhaustive enumerations of texts: every family is a finite set, enumerated completely within the
bound its parameters state."""

import itertools
import re
import string

ALLREQ = (
    ":strips :typing :adl :equality :negative-preconditions :disjunctive-preconditions "
    ":quantified-preconditions :conditional-effects :derived-predicates :numeric-fluents "
    ":action-costs :non-deterministic"
)
HEAD = (
    "(define (domain d) (:requirements %s) (:types t1 t2 - t0 t3) "
    "(:constants a - t1 b) "
    "(:predicates (p0) (p1 ?x) (p2 ?x - t0 ?y) (p3 ?x ?y ?z)) "
    "(:functions (f0) (f1 ?x) - number (total-cost))" % ALLREQ
)
PARAMS = "?x - t1 ?y"


def domain_of(structs):
    return "%s %s)" % (HEAD, " ".join(structs))


def action(i, pre=None, eff=None, params=PARAMS):
    return "(:action a%s :parameters (%s)%s%s)" % (
        i, params,
        "" if pre is None else " :precondition " + pre,
        "" if eff is None else " :effect " + eff,
    )


def problem_of(goal="(and)", init="", objects="a b", metric=None, reqs=None):
    return "(define (problem q) (:domain d)%s (:objects %s) (:init %s) (:goal %s)%s)" % (
        "" if reqs is None else " (:requirements %s)" % reqs,
        objects, init, goal, "" if metric is None else " (:metric %s)" % metric,
    )


def chunks(it, n):
    it = iter(it)
    while True:
        part = list(itertools.islice(it, n))
        if not part:
            return
        yield part


# ------------------------------------------------------------------------------ formulas

LEAVES = [
    "(p1 ?x)", "(p0)", "(p2 ?x a)", "(p2 a ?y)", "(p3 ?x ?y b)", "(= ?x ?y)", "(= ?y a)", "(= a b)",
    "(> (f1 ?x) 1)", "(= (f0) 2)", "(<= f0 (+ 1 (f1 a)))", "(and)", "(or)",
]
QVARS = ["?z", "?x", "?z - t1", "?x - t3 ?z", "?z - (either t1 t3)", "", "?y ?x - t1", "?z ?w"]
QLEAVES = ["(p1 ?z)", "(p2 ?z ?x)", "(= ?z ?x)", "(p3 ?x ?y ?z)", "(>= (f1 ?z) (f1 ?x))"]


def formulas(depth, reps_=90):
    """All formulas of the given depth over the alphabet above; beyond depth 1 the subformulas are
    the given number of representatives of the formulas of the depth below."""
    if depth == 0:
        yield from LEAVES
        return
    if depth == 1:
        subs, few = LEAVES, LEAVES[:5]
        bodies = LEAVES[:6] + QLEAVES
    else:
        reps = list(formulas(depth - 1))
        step = max(1, len(reps) // reps_)
        subs = LEAVES[:3] + reps[::step]
        few = subs[:: max(1, len(subs) // 6)]
        bodies = QLEAVES[:2] + subs
    for s in subs:
        yield "(not %s)" % s
    for op in ("and", "or", "imply"):
        for s, t in itertools.product(subs, repeat=2):
            yield "(%s %s %s)" % (op, s, t)
    for op in ("and", "or"):
        for s in subs:
            yield "(%s %s)" % (op, s)
        for s in itertools.product(few, repeat=3):
            yield "(%s %s)" % (op, " ".join(s))
    for q in ("forall", "exists"):
        for vs in QVARS:
            for s in bodies:
                yield "(%s (%s) %s)" % (q, vs, s)


ELEAVES = ["1", "(f1 ?x)", "(f0)", "0", "f0", "0.5", "(f1 a)", "2.0"]


def expressions(depth):
    if depth == 0:
        yield from ELEAVES
        return
    subs = ELEAVES
    if depth > 1:
        reps = list(expressions(depth - 1))
        subs = ELEAVES[:2] + reps[:: max(1, len(reps) // 24)]
    for s in subs:
        yield "(- %s)" % s
    for op in "+*-/":
        for s, t in itertools.product(subs, repeat=2):
            yield "(%s %s %s)" % (op, s, t)
    for op in "+*":
        for s in itertools.product(subs[:4], repeat=3):
            yield "(%s %s)" % (op, " ".join(s))
        yield "(%s %s)" % (op, " ".join(subs[:4]))


def ground_expressions(depth):
    for e in expressions(depth):
        yield e.replace("?x", "a")


CMP = [">", "<", ">=", "<=", "="]


def comparisons(depth):
    for e in expressions(depth):
        for op in CMP:
            yield "(%s %s 3)" % (op, e)
            yield "(%s (f1 ?y) %s)" % (op, e)


PEFF = [
    "(p1 ?x)", "(not (p0))", "(p2 a ?y)", "(not (p3 ?x ?y a))", "(assign (f1 ?x) 2)",
    "(increase (total-cost) (f0))", "(decrease f0 (+ 1 (f1 ?y)))", "(scale-up (f0) 1.5)",
    "(scale-down (f1 a) (- (f0) 1))",
]


def effects(depth):
    if depth == 0:
        yield from PEFF
        return
    if depth == 1:
        ceff = PEFF
        qbody = PEFF + ["(p1 ?z)", "(and (p1 ?z) (not (p2 ?z ?x)))", "(when (p1 ?z) (p0))"]
    else:
        reps = list(effects(1))
        ceff = PEFF[:3] + [e for e in reps[::11] if not e.startswith("(and")]
        qbody = ceff + [e for e in reps[::9] if e.startswith("(and")]
    yield "(and)"
    for s in ceff:
        yield "(and %s)" % s
    for s, t in itertools.product(ceff, repeat=2):
        yield "(and %s %s)" % (s, t)
        yield "(oneof %s %s)" % (s, t)
    for s in qbody:
        yield "(oneof %s)" % s
        yield "(oneof (and) %s (and %s (p0)))" % (s, PEFF[0])
        for vs in QVARS:
            yield "(forall (%s) %s)" % (vs, s)
    conds = LEAVES + ["(not (p0))", "(and (p1 ?x) (not (p0)))", "(or (p1 ?x) (p0))",
                      "(forall (?z) (p1 ?z))", "(exists (?x - t3) (p1 ?x))"]
    ceffs = PEFF + ["(and)", "(and (p0))", "(and (p0) (not (p1 ?x)) (assign (f0) 1))"]
    for c, e in itertools.product(conds, ceffs):
        yield "(when %s %s)" % (c, e)


# ------------------------------------------------------------------------------ typed lists

TAGS = ["", "- t1", "- t3", "- (either t1 t3)", "- object"]
NTAGS = ["", "- t1", "- t3", "- object"]


def typed_lists(n, tags, names="xyzuvwabcdefghij", mark="?"):
    """All typed lists of n distinct items: after each item one of the given types or none."""
    for combo in itertools.product(tags, repeat=n):
        yield " ".join(
            "%s%s %s" % (mark, names[i], t) if t else "%s%s" % (mark, names[i])
            for i, t in enumerate(combo)
        )


def token_lists(n, alphabet):
    for combo in itertools.product(alphabet, repeat=n):
        yield " ".join(combo)


# ------------------------------------------------------------------------------ type hierarchies


def forests(n, extra=("u",)):
    """All maps from n types to a parent among themselves, extra undeclared names, object, none."""
    names = ["t%d" % i for i in range(n)]
    for parents in itertools.product([None, "object"] + names + list(extra), repeat=n):
        yield tuple(zip(names, parents))


def types_section(pairs):
    """A types section that declares the pairs one by one; untyped names come last."""
    typed = ["%s - %s" % (t, p) for t, p in pairs if p is not None]
    return " ".join(typed + [t for t, p in pairs if p is None])


# ------------------------------------------------------------------------------ names and numbers


def good_names(wide=False):
    letters = string.ascii_letters
    out = list(letters)
    tail = string.ascii_letters + string.digits + "-_"
    out += ["a" + c for c in tail] + ["Z" + c + "0" for c in tail]
    for kw in ("and", "or", "not", "define", "object", "domain", "problem", "forall", "when",
               "either", "total-cost", "scale-up", "number", "imply", "oneof", "assign", "exists",
               "increase", "minimize", "maximize"):
        out += [kw + "x", kw + "-", kw + "_1", "x" + kw, kw.upper(), kw.capitalize(), kw + "-" + kw]
    out += ["number", "a" * 64, "a--b__c", "A-1-2", "effect", "action", "typing", "init", "e10", "nan", "inf",
            "None", "true", "t", "Object", "x-", "x_", "a9"]
    if wide:
        out += [x + y + z for x in "aZn" for y in tail for z in tail]
    return list(dict.fromkeys(out))


def numerals(wide=False):
    out = [str(i) for i in range(0, 21)]
    out += ["00", "007", "0.0", "0.5", "1.0", "0.10", "1.50", "00.5", "10.25", "100", "1000000", "123456789",
            "1234567890123456789", "100000000000000000000", "0.1", "0.2", "0.3", "0.01", "0.001", "0.0001",
            "0.00001", "0.000001", "0.0000001", "0.00000012", "3.14159", "2.718281828459045", "0.333333333333",
            "99999999.99999999", "1e".replace("e", "2"), "10000000000000000.0", "123456789012345680000.0",
            "1" + "0" * 22 + ".0", "1" + "0" * 25, "0." + "0" * 20 + "1", "5.0000", "12345.678"]
    if wide:
        out += ["%d.%0*d" % (i, w, f) for i in (0, 1, 7, 10, 99) for w in (1, 2, 3) for f in range(0, 10 ** w, 3 ** (w - 1))]
        out += ["1" + "0" * k + ".5" for k in range(1, 16)] + ["0." + "0" * k + "25" for k in range(1, 30)]
    return list(dict.fromkeys(out))


def numeric_domains(nums):
    """Every numeral in every numeric position of a domain."""
    for n in nums:
        yield domain_of([action(0, "(> (f0) %s)" % n, "(and (assign (f0) %s) (increase (total-cost) %s))" % (n, n)),
                         action(1, "(= %s (+ %s (* 2 %s)))" % (n, n, n), "(scale-up (f0) (- %s))" % n)])


def numeric_problems(nums):
    for n in nums:
        yield problem_of("(< (f0) %s)" % n, "(= (f0) %s) (= (f1 a) %s) (p0)" % (n, n), metric="minimize (+ %s (f0))" % n)
        yield problem_of("(p0)", "(= f0 %s)" % n, metric="maximize %s" % n)


def name_domains(names):
    """Every name in every position of a domain where a name is expected."""
    for n in names:
        yield (
            "(define (domain {n}) (:requirements :adl :numeric-fluents) (:types {n} - q0 q1 - {n}) "
            "(:constants {n} - {n} k9) (:predicates ({n} ?{n} - {n} ?y9 - q0) (p9)) "
            "(:functions ({n} ?{n} - {n}) - number) "
            "(:action {n} :parameters (?{n} - {n} ?y9) :precondition (and ({n} ?{n} {n}) "
            "(exists (?z9 - {n}) ({n} ?z9 ?{n})) (> ({n} {n}) 1)) "
            ":effect (and (not ({n} {n} ?{n})) (forall (?{n} - {n}) ({n} ?{n} k9)) (assign ({n} ?{n}) 1))) "
            "(:derived ({n} ?{n} ?y9) (and (p9) ({n} ?y9 ?{n}))))".format(n=n)
        )


def name_problems(names):
    for n in names:
        yield (
            "(define (problem {n}) (:domain {n}) (:objects {n} - {n} k9 - q0 o9) "
            "(:init ({n} {n} k9) (not ({n})) (= ({n} {n} o9) 3) (= {n} 4)) "
            "(:goal (and ({n} {n}) (= {n} k9) (forall (?{n} - {n}) ({n} ?{n} {n})) (> ({n} {n}) 2))) "
            "(:metric minimize (+ ({n} {n}) {n})))".format(n=n)
        )


def name_plans(names):
    for n in names:
        yield "({n} {n} k9 {n})\n({n})".format(n=n)


# ------------------------------------------------------------------------------ deviations

SLOTS = [
    ("reqs", [ALLREQ, "", ":adl", ":typing", ":strips :typing :equality", ":adl :fluents :action-costs",
              ":adl :numeric-fluents", ":quantified-preconditions :typing", ":typing :action-costs :numeric-fluents",
              ":object-fluents :typing", ":typing :typing"]),
    ("types", ["t1 t2 - t0 t3", None, "", "t1", "t1 t2 t3", "t1 t2 t3 - object", "t1 - t3", "t1 - t2 t2 - t3 t3 - t0",
               "t0 t1 t2 t3 t4 t5 - object", "t1 - t0 t2 - t0 t3 - t1"]),
    ("constants", ["a - t1 b", None, "", "a b", "a b - t1", "a - t1 b - t3 c - t0", "b a", "a - object b - t3",
                   "a b c d e f g - t1"]),
    ("predicates", ["(p0) (p1 ?x) (p2 ?x - t0 ?y)", None, "(p1 ?x)", "(p0)", "(p1 ?x - t1) (p0)",
                    "(p2 ?x ?y - t1) (p1 ?x - (either t1 t3)) (p0)", "(p2 ?x ?x) (p0)", "(p1 ?x - object)",
                    "(p0) (p1 ?a) (p2 ?a ?b) (p3 ?a ?b ?c) (p4 ?a ?b ?c ?d)", "(p2 ?y - t1 ?x)", "(p1 ?x) (p0) (p1 ?x)"]),
    ("functions", [None, "(f0) - number", "(f0)", "(total-cost) - number", "(total-cost)", "(f1 ?x - t1)",
                   "(f1 ?x - (either t1 t3)) (f0) - number (f2 ?x ?y)", "(f0) (f1 ?x) (f2 ?x ?y - t0) - number",
                   "(f0) - number (total-cost) - number", "(f2 ?x - t1 ?y - t3) (f1 ?y)"]),
    ("params", ["?x - t1 ?y", "", "?x", "?x ?y", "?x ?y - t1", "?x - (either t1 t3) ?y - object", "?x - t1 ?y - t3",
                "?y ?x - t1", "?x ?y ?z ?w - t1"]),
    ("pre", ["(p1 ?x)", None, "()", "(and)", "(not (p1 ?x))", "(and (p1 ?x) (p0))", "(or (p0) (p1 ?x))",
             "(imply (p1 ?x) (p0))", "(exists (?z - t1) (p2 ?z ?x))", "(forall (?z) (p1 ?z))", "(= ?x ?y)", "(= ?x a)",
             "(> (f0) 1)", "(p1 a)", "(and (p1 ?x) (and (p0) (p1 ?x)) (not (p0)))", "(forall (?x - t3) (p1 ?x))",
             "(= (f1 ?x) (+ 1 (f0)))"]),
    ("eff", ["(not (p1 ?x))", None, "()", "(and)", "(p1 ?x)", "(and (p0) (not (p1 ?x)))", "(when (p0) (p1 ?x))",
             "(forall (?z - t1) (p1 ?z))", "(forall (?z) (when (p1 ?z) (and (p0) (not (p1 ?z)))))",
             "(oneof (p0) (not (p0)))", "(oneof (and (p0) (p1 ?x)) (and))", "(increase (total-cost) 5)",
             "(assign (f1 ?x) (- (f0) 1))", "(and (when (and) (and)) (oneof (p0)))", "(p1 a)"]),
    ("second", [None, "(:action a1 :parameters ())", "(:action a1 :parameters (?x) :effect (p1 ?x))",
                "(:action act :parameters (?x - t1 ?y))", "(:derived (p0) (exists (?x) (p1 ?x)))",
                "(:derived (p1 ?x) (or (p0) (p2 ?x ?x)))", "(:derived (p1 ?x - t1) (p0))",
                "(:derived (p2 ?x ?y) (and (p1 ?y) (p1 ?x)))", "(:derived (p2 ?y - t1 ?x) (not (= ?x ?y)))"]),
    ("third", [None, "(:derived (p1 ?y) (forall (?z - t1) (p2 ?z ?y)))", "(:derived (p0) (p0))",
               "(:action b1 :parameters (?y ?x) :precondition (p2 ?y ?x) :effect (and (p2 ?x ?y)))"]),
]


def domain_from(choice):
    g = choice
    out = ["(define (domain d)"]
    if g["reqs"]:
        out.append("(:requirements %s)" % g["reqs"])
    for k in ("types", "constants", "predicates", "functions"):
        if g[k] is not None:
            out.append("(:%s %s)" % (k, g[k]))
    if g["second"] and g["second"].startswith("(:derived (p0)"):
        out.append(g["second"])
    out.append(action("ct", g["pre"], g["eff"], g["params"]).replace("aact", "act").replace("(:action act", "(:action act0"))
    if g["second"] and not g["second"].startswith("(:derived (p0)"):
        out.append(g["second"])
    if g["third"]:
        out.append(g["third"])
    return "\n".join(out) + ")"


def deviations(slots, k):
    """All choices that differ from the default (first) choice in at most k slots."""
    base = {s: menu[0] for s, menu in slots}
    for n in range(k + 1):
        for which in itertools.combinations(range(len(slots)), n):
            for alts in itertools.product(*(slots[w][1][1:] for w in which)):
                g = dict(base)
                for w, alt in zip(which, alts):
                    g[slots[w][0]] = alt
                yield g


def domain_deviations(k):
    for g in deviations(SLOTS, k):
        yield domain_from(g)


PSLOTS = [
    ("reqs", [None, ":strips", ":adl", ":adl :typing :numeric-fluents", ":equality", ":typing", ":disjunctive-preconditions",
              ":universal-preconditions", ":quantified-preconditions :equality"]),
    ("objects", ["a b - t1 c", None, "", "a", "a b", "a - t1 b - t2", "b a - t1", "c - object a b", "a b c d e f g h - t1 i j"]),
    ("init", ["(p1 a)", "", "(p1 a) (p1 b)", "(not (p1 a))", "(= (f0) 1)", "(= f0 1.5)", "(= (f1 a) 0)", "(p0) (p0)",
              "(p1 b) (not (p1 a)) (= (f1 a) 3) (= (f1 b) 3) (p3 a a b)", "(p2 a c) (p2 c a)", "(p1 z)"]),
    ("goal", ["(p1 a)", "(and)", "(and (p1 a) (p0))", "(not (p1 a))", "(or (p1 a) (p0))", "(imply (p0) (p1 a))", "(p0)",
              "(forall (?x - t1) (p1 ?x))", "(exists (?x) (and (p1 ?x) (not (= ?x a))))", "(= a b)", "(>= (f1 a) 2)",
              "(= (f0) (f1 a))", "(or)", "(and (p0) (and (p1 a) (p1 b)) (p0))", "(forall (?x - (either t1 t2) ?y) (p2 ?x ?y))",
              "(exists () (p0))"]),
    ("metric", [None, "minimize (total-cost)", "maximize f0", "minimize (+ (f0) 1)", "minimize (- (f1 a) (* 2 (f0)))",
                "maximize 0", "minimize (/ (f0) 2.5)", "minimize (- 3)", "minimize (+ f0 f0 (f1 b))"]),
]


def problem_deviations(k):
    for g in deviations(PSLOTS, k):
        out = ["(define (problem q) (:domain d)"]
        if g["reqs"]:
            out.append("(:requirements %s)" % g["reqs"])
        if g["objects"] is not None:
            out.append("(:objects %s)" % g["objects"])
        out.append("(:init %s)" % g["init"])
        out.append("(:goal %s)" % g["goal"])
        if g["metric"]:
            out.append("(:metric %s)" % g["metric"])
        yield "\n".join(out) + ")"


def plans(n, wide=False):
    """All plans of at most n steps over a small alphabet of steps."""
    steps = ["(go a b)", "(go b a)", "(noop)", "(set-x a)", "(go a a c)"] + (["(noop a)", "(Go A b)"] if wide else [])
    for k in range(n + 1):
        for combo in itertools.product(steps, repeat=k):
            yield "\n".join(combo)


# ------------------------------------------------------------------------------ sizes


def sizes(limit):
    """Domains where one dimension at a time takes every size up to the limit."""
    for n in range(1, limit + 1):
        xs = ["x%d" % i for i in range(n)]
        qs = " ".join("?" + x for x in xs)
        tq = " ".join("?%s - t%d" % (x, i % 3) for i, x in enumerate(xs))
        req = "(:requirements %s)" % ALLREQ
        yield "(define (domain d) %s (:types %s))" % (req, " ".join(xs))
        yield "(define (domain d) %s (:types %s - t0))" % (req, " ".join(xs))
        yield "(define (domain d) %s (:types %s))" % (req, " ".join("%s - %s" % (a, b) for a, b in zip(xs, xs[1:] + ["root"])))
        yield "(define (domain d) %s (:types t0 t1 t2) (:constants %s))" % (req, " ".join(xs))
        yield "(define (domain d) %s (:types t0 t1 t2) (:constants %s))" % (req, " ".join("%s - t%d" % (x, i % 3) for i, x in enumerate(xs)))
        yield "(define (domain d) %s (:types t0 t1 t2) (:predicates (p %s)) (:functions (f %s)))" % (req, qs, tq)
        yield "(define (domain d) %s (:types t0 t1 t2) (:predicates (p %s)) (:functions (f %s)))" % (req, tq, qs)
        yield "(define (domain d) %s (:types %s) (:predicates (p ?x - (either %s)) (p0)) (:action go :parameters (?y - (either %s)) :precondition (exists (?z - (either %s)) (p ?z))))" % (
            req, " ".join(xs), " ".join(xs), " ".join(xs), " ".join(reversed(xs)))
        yield "(define (domain d) %s (:predicates %s) (:functions %s))" % (
            req, " ".join("(%s ?%s)" % (x, x) for x in xs), " ".join("(%s ?%s)" % (x, x) for x in xs))
        yield "(define (domain d) %s (:types t0 t1 t2) (:predicates (p %s)) (:action go :parameters (%s) :precondition (p %s) :effect (not (p %s))))" % (
            req, qs, tq, qs, " ".join("?" + x for x in reversed(xs)))
        yield "(define (domain d) %s (:predicates (p)) %s)" % (req, " ".join("(:action %s :parameters () :effect (p))" % x for x in xs))
        yield "(define (domain d) %s (:predicates (p) %s) %s)" % (
            req, " ".join("(%s)" % x for x in xs), " ".join("(:derived (%s) (p))" % x for x in xs))
        yield "(define (domain d) %s (:predicates %s) (:action go :parameters () :precondition (and %s) :effect (and %s)) (:action go2 :parameters () :precondition (or %s) :effect (oneof %s)))" % (
            (req, " ".join("(%s)" % x for x in xs)) + (" ".join("(%s)" % x for x in xs),) * 4)
        f = "(p)"
        g = "(p)"
        e = "(f)"
        for i in range(n):
            f = ("(not %s)", "(and (q) %s)", "(or %s (q))", "(imply (q) %s)", "(forall (?x%d - t) %%s)" % i, "(exists (?x%d) %%s)" % i)[i % 6] % f
            g = ("(forall (?x%d) %%s)" % i, "(oneof %s (p))", "(and %s (q))")[i % 3] % g if not (i % 3 == 1 and False) else g
            e = ("(+ %s 1)", "(- %s)", "(* 2 %s)", "(- 3 %s)", "(/ %s 4)")[i % 5] % e
        yield "(define (domain d) %s (:types t) (:predicates (p) (q)) (:functions (f)) (:action go :parameters () :precondition %s) (:action go2 :parameters () :precondition (> %s 1) :effect (assign (f) %s)))" % (req, f, e, e)
        # nested effects: and is only allowed at the top of an effect
        h = "(when (q) (p))"
        for i in range(n):
            h = ("(forall (?x%d - t) %%s)" % i, "(oneof %s (p))")[i % 2] % h
        yield "(define (domain d) %s (:types t) (:predicates (p) (q)) (:action go :parameters () :effect (and %s (q))))" % (req, h)
        yield "(define (domain d) %s (:functions (f)) (:action go :parameters () :precondition (> (+ %s) (* %s))))" % (
            req, " ".join(str(i) for i in range(n + 1)), " ".join("(f)" for _ in range(n + 1)))


def problem_sizes(limit):
    for n in range(1, limit + 1):
        xs = ["x%d" % i for i in range(n)]
        yield problem_of(objects=" ".join(xs))
        yield problem_of(objects=" ".join("%s - t%d" % (x, i % 3) for i, x in enumerate(xs)))
        yield problem_of(objects=" ".join(xs), init=" ".join("(p %s)" % x for x in xs))
        yield problem_of(objects=" ".join(xs), init="(p %s) (= (f %s) %d)" % (" ".join(xs), " ".join(reversed(xs)), n))
        yield problem_of(objects=" ".join(xs), init=" ".join("(= (f %s) %d) (not (q %s))" % (x, i, x) for i, x in enumerate(xs)))
        yield problem_of("(and %s)" % " ".join("(p %s)" % x for x in xs))
        yield problem_of("(or %s)" % " ".join("(not (p %s))" % x for x in xs), metric="minimize (+ 1 %s)" % " ".join("(f %s)" % x for x in xs))
        f = "(p)"
        for i in range(n):
            f = ("(not %s)", "(and (q) %s)", "(or %s (q))", "(imply (q) %s)", "(forall (?x%d - t) %%s)" % i, "(exists (?x%d) %%s)" % i)[i % 6] % f
        yield problem_of(f)
        e = "(f)"
        for i in range(n):
            e = ("(+ %s 1)", "(- %s)", "(* 2 %s)", "(- 3 %s)", "(/ %s 4)")[i % 5] % e
        yield problem_of(metric="maximize %s" % e)


def plan_sizes(limit):
    for n in range(1, limit + 1):
        yield "\n".join("(go x%d)" % i for i in range(n))
        yield "(go %s)" % " ".join("x%d" % (i % 7) for i in range(n))


# ------------------------------------------------------------------------------ names that are alike

ROLES = [
    "a b c d e f g h i j".split(),
    ["t%d" % i for i in range(8)],
    ["p%d" % i for i in range(9)],
    ["f%d" % i for i in range(9)] + ["g", "h"],
    ["?" + v for v in "xyzwuvabcd"],
    ["a%d" % i for i in range(12)] + ["go", "noop", "set-x", "Go"],
]


def cased(word, n):
    """The n-th way of writing the word with small and capital letters."""
    return "".join(ch.upper() if n >> i & 1 else ch for i, ch in enumerate(word))


PREFIXES = ["n", "n-", "n_", "nn", "n-n", "n1", "n-1", "n--", "n_-", "n-n-", "nn-n", "n10", "nn1", "n-_", "n-1-", "n-10"]
RENAMINGS = [
    # within a role the names differ in nothing but capitals
    {x: cased(("obje", "type", "pred", "func", "?vari", "acti")[r], 2 * n if r == 4 else n)
     for r, role in enumerate(ROLES) for n, x in enumerate(role)},
    # within a role the names are prefixes of each other
    {x: ("?" if x[0] == "?" else "") + PREFIXES[n] for role in ROLES for n, x in enumerate(role)},
    # all roles use the same names
    {x: ("?" if x[0] == "?" else "") + "n%d" % n for role in ROLES for n, x in enumerate(role)},
]
TOKEN = re.compile(r"(?<![:\w-])\??[A-Za-z][\w-]*")


def alike(texts):
    """The texts with names that are alike."""
    for text in texts:
        for names in RENAMINGS:
            yield TOKEN.sub(lambda m: names.get(m.group(0), m.group(0)), text)


def declarations(n):
    """All sequences of at most n declarations over few names, so that names are repeated and
    overloaded, and all combinations with derived predicates of the same names."""
    lists = ["", " ?x", " ?y", " ?x - t1", " ?x ?y", " ?x - t1 ?y", " ?x ?y - t1"]
    req = "(:requirements :adl :derived-predicates :numeric-fluents) (:types t1 t2)"
    atoms = ["(%s%s)" % (p, ps) for p in ("p", "q") for ps in lists]
    for k in range(n + 1):
        for c in itertools.product(atoms, repeat=k):
            text = " ".join(c)
            yield "(define (domain d) %s (:predicates %s) (:functions %s))" % (req, text, text)
    for k in range(3):
        for c in itertools.product(atoms, repeat=k):
            for h in ("(p)", "(p ?x)", "(p ?x ?y)", "(q ?y)", "(q ?y ?x)"):
                for e in (("(p ?y)", "(p ?x ?x)", "(q)", "(p)") if k < 2 else ("(p ?y)",)):
                    free = "(exists (?x ?y) (p ?x ?y))"
                    yield "(define (domain d) %s (:predicates %s) (:derived %s %s) (:derived %s %s))" % (
                        req, " ".join(c), h, free, e, free)


def alike_domains(level):
    yield from alike(domain_deviations(1))
    yield from alike(
        domain_of([action(i, f) for i, f in enumerate(part)])
        for part in chunks(itertools.chain(formulas(0), formulas(1), comparisons(0), comparisons(1)), 12))
    yield from alike(
        domain_of([action(i, None, f) for i, f in enumerate(part)])
        for part in chunks(itertools.chain(effects(0), effects(1)), 12))
    yield from alike(typed_list_domains(3))
    yield from alike(sizes(8))
    yield from alike(
        "(define (domain d) (:requirements :typing) (:types %s))" % types_section(f)
        for n in range(1, 4 if level < 2 else 5) for f in forests(n))
    if level > 1:
        yield from alike(domain_deviations(2))


def alike_problems(level):
    yield from alike(problem_deviations(2))
    yield from alike(problem_of(ground(f)) for f in itertools.chain(formulas(0), formulas(1)))
    yield from alike(
        problem_of(objects=o, init="(p1 a)") for k in range(5) for o in typed_lists(k, NTAGS, mark=""))
    if level > 1:
        yield from alike(problem_deviations(3))


# ------------------------------------------------------------------------------ whole texts


def domain_texts(level=1):
    """Named families of domain texts; level 0: small, 1: quick, 2: thorough."""
    fs = itertools.chain(formulas(0), formulas(1), formulas(2, (40, 90, 220)[level]))
    if level:
        fs = itertools.chain(fs, formulas(3, (0, 90, 150)[level]))
    yield "formulas", (
        domain_of([action(i, f) for i, f in enumerate(part)]) for part in chunks(fs, 12)
    )
    fs = itertools.chain(formulas(0), formulas(1), formulas(2) if level > 1 else ())
    yield "derived-conditions", (
        domain_of("(:derived (p2 ?x ?y) %s)" % f for f in part) for part in chunks(fs, 12)
    )
    es = itertools.chain(comparisons(0), comparisons(1), comparisons(2) if level else ())
    yield "expressions", (
        domain_of([action(i, e) for i, e in enumerate(part)]) for part in chunks(es, 12)
    )
    fx = itertools.chain(effects(0), effects(1), effects(2))
    yield "effects", (
        domain_of([action(i, None, e) for i, e in enumerate(part)]) for part in chunks(fx, 12)
    )
    yield "names", name_domains(good_names(level > 1))
    yield "numerals", numeric_domains(numerals(level > 0))
    yield "sizes", sizes((16, 33, 80)[level])
    yield "typed-lists", typed_list_domains((4, 4, 6)[level])
    yield "hierarchies", (
        "(define (domain d) (:requirements :typing) (:types %s))" % types_section(f)
        for n in range(1, (4, 5, 6)[level]) for f in forests(n)
    )
    yield "deviations", domain_deviations(3 if level > 1 else 2)
    yield "declarations", declarations((2, 3, 4)[level])
    yield "alike", alike_domains(level)


def typed_list_domains(n):
    reqs = "(:requirements :adl :numeric-fluents) (:types t1 t2 - t0 t3)"
    for k in range(n + 1):
        for part in chunks(typed_lists(k, TAGS), 8):
            yield "(define (domain d) %s (:predicates %s (q)) (:functions (f) %s) %s)" % (
                reqs,
                " ".join("(p%d %s)" % (i, vs) for i, vs in enumerate(part)),
                " ".join("(f%d %s)" % (i, vs) for i, vs in enumerate(part)),
                " ".join(
                    "(:action a%d :parameters (%s) :precondition (p%d%s) :effect (and (forall (%s) (p%d%s)) (when (exists (%s) (p%d%s)) (q))))"
                    % (i, vs, i, occ(k), vs, i, occ(k), vs, i, occ(k))
                    for i, vs in enumerate(part)
                ),
            )
        for part in chunks(typed_lists(k, NTAGS, mark=""), 1):
            yield "(define (domain d) %s (:constants %s))" % (reqs, part[0])


def occ(k, names="xyzuvwabcdefghij"):
    return "".join(" ?" + names[i] for i in range(k))


def problem_texts(level=1):
    fs = itertools.chain(formulas(0), formulas(1), formulas(2, (20, 90, 200)[level]))
    yield "goals", (problem_of(ground(f)) for f in fs)
    es = itertools.chain(ground_expressions(0), ground_expressions(1), ground_expressions(2))
    yield "metrics", (problem_of(metric="minimize " + e) for e in es)
    yield "names", name_problems(good_names(level > 1))
    yield "numerals", numeric_problems(numerals(level > 0))
    yield "sizes", problem_sizes((16, 33, 80)[level])
    yield "objects", (
        problem_of(objects=o, init="(p a)")
        for k in range((5, 6, 8)[level]) for o in typed_lists(k, NTAGS, mark="")
    )
    yield "deviations", problem_deviations((2, 2, 4)[level])
    atoms = ["(p a)", "(p b)", "(not (p a))", "(q a b)", "(r)", "(= (f) 1)", "(= (f) 2)", "(= f 1)", "(= (g a) 1.5)", "(not (r))"]
    yield "inits", (
        problem_of(init=" ".join(c))
        for k in range((4, 4, 6)[level]) for c in itertools.product(atoms, repeat=k)
    )
    yield "alike", alike_problems(level)


def ground(f):
    """Bind the free variables of an enumerated formula."""
    return "(exists (?x ?y) %s)" % f


def plan_texts(level=1):
    yield "steps", plans((4, 5, 7)[level], wide=False)
    yield "alphabet", plans((3, 4, 6)[level], wide=True)
    yield "names", name_plans(good_names(level > 0))
    yield "alike", alike(plans((3, 4, 5)[level], wide=True))
    yield "sizes", plan_sizes((60, 120, 300)[level])
