"""Base texts that cover the language, and all single edits of their tokens."""

import itertools

from mc.sread import tokens

DOMAINS = [
    "(define (domain d))",
    "(define (domain d) (:requirements :strips :typing) (:types t1 t2 - t0 t3) (:constants a - t1 b) "
    "(:predicates (p0) (p1 ?x) (p2 ?x - t1 ?y - (either t1 t3) ?z)))",
    "(define (domain d) (:requirements :numeric-fluents :action-costs :typing) (:types t1) "
    "(:functions (f0) (f1 ?x - t1) - number (total-cost) - number (f2 ?x ?y)))",
    "(define (domain d) (:requirements :strips) (:predicates (p ?x) (q)) "
    "(:action go :parameters (?x ?y) :precondition (and (p ?x) (not (p ?y))) :effect (and (p ?y) (not (p ?x)))))",
    "(define (domain d) (:requirements :adl) (:types t) (:constants a) (:predicates (p ?x) (q)) "
    "(:action go :parameters (?x - t) :precondition (or (q) (imply (p a) (exists (?z - t) (= ?z ?x)))) "
    ":effect (forall (?z) (when (p ?z) (and (not (p ?z)))))))",
    "(define (domain d) (:requirements :non-deterministic :quantified-preconditions :equality) (:predicates (q)) "
    "(:action go :parameters () :effect (oneof (q) (and)) ) (:action no :parameters (?x) :precondition (forall (?y ?z) (= ?x ?y))))",
    "(define (domain d) (:requirements :fluents) (:functions (f) (g ?x)) "
    "(:action go :parameters (?x) :precondition (and (> (f) 1) (= 2.5 (+ f (* 2 (g ?x) 3)))) "
    ":effect (and (assign f (- (g ?x) 1)) (increase (g ?x) (/ 4 (- 2))))))",
    "(define (domain d) (:requirements :derived-predicates :typing) (:types s - t u) (:predicates (p ?x - t) (q ?x ?y)) "
    "(:derived (p ?x - s) (q ?x ?x)) (:derived (q ?x ?y) (and (p ?x))) (:action e :parameters () :precondition () :effect ()))",
]
PROBLEMS = [
    "(define (problem p) (:domain d) (:init) (:goal (and)))",
    "(define (problem p) (:domain d) (:requirements :strips :typing) (:objects a b - t c) (:init (p a b) (not (q c)) (r)) (:goal (p a b)))",
    "(define (problem p) (:domain d) (:objects) (:init (= (f) 1) (= (g a b) 2.5) (= h 0) (p)) (:goal (not (p))) (:metric minimize (+ (f) (* 2 g))))",
    "(define (problem p) (:domain d) (:requirements :adl :numeric-fluents) (:init) (:goal (or (= a b) (forall (?x - t) (imply (p ?x) (> (f ?x) 1)))))"
    " (:metric maximize total-cost))",
]
PLANS = ["(a b c)\n(d)", "(go x1 x2 x1)"]

ALPHA = {
    "domain": [
        "(", ")", "-", "?", "=", ">", ">=", "+", "*", "/", "a", "x", "t", "p", "q", "f", "object", "number", "either",
        "and", "or", "not", "imply", "forall", "exists", "when", "oneof", "assign", "increase", "scale-up", "total-cost",
        "define", "domain", "1", "2.5", ":requirements", ":strips", ":adl", ":typing", ":foo", ":types", ":constants",
        ":predicates", ":functions", ":action", ":parameters", ":precondition", ":effect", ":derived", ":init",
        "()", "(and)", "(p)", "#", ".", "_a", "&", "\\", "<", "<=", "decrease", "scale-down",
    ],
    "problem": [
        "(", ")", "-", "?", "=", ">", "<=", "+", "*", "/", "a", "x", "t", "p", "object", "either", "and", "or", "not",
        "imply", "forall", "exists", "when", "oneof", "assign", "minimize", "maximize", "total-cost", "define", "problem",
        "domain", "1", "2.5", ":requirements", ":strips", ":adl", ":foo", ":objects", ":init", ":goal", ":metric",
        ":domain", ":types", "()", "(and)", "(p)", "(= f 3)", "#", ".", "_a", "$", "<", ">=",
    ],
    "plan": [
        "(", ")", "-", "?", "=", "a", "b", "1", "object", "and", "not", ":a", "#", ".", "_a", "()", "(a)", "1.5", "+",
        "define", ";", "either", "problem", "total-cost", "number", ">=", "?x", "a-1",
    ],
}
BASES = {"domain": DOMAINS, "problem": PROBLEMS, "plan": PLANS}


def respelled(t):
    """Tokens that look alike: another case, a character less or more."""
    # (whether a keyword directly followed by letters is one token or two is left open)
    longer = () if t.startswith(":") else (t + "1", t + "-", t + t, t + "s")
    return [x for x in (t.upper(), t.capitalize(), t[:-1], t[1:]) + longer if x != t and x and t not in "()"]


def edits(kind, toks):
    """All texts one token edit away: deletion, replacement, insertion, swap, duplication, prefix."""
    n = len(toks)
    for i in range(n):
        yield toks[:i] + toks[i + 1:]
        yield toks[:i]
        if i + 1 < n:
            yield toks[:i] + [toks[i + 1], toks[i]] + toks[i + 2:]
        for t in respelled(toks[i]):
            yield toks[:i] + [t] + toks[i + 1:]
    for i in range(n + 1):
        for t in ALPHA[kind]:
            yield toks[:i] + [t] + toks[i:]
            if i < n and toks[i] != t:
                yield toks[:i] + [t] + toks[i + 1:]


def groups(text):
    """Spans of the balanced parenthesised groups of a text's tokens."""
    toks = tokens(text)
    stack, out = [], []
    for i, t in enumerate(toks):
        if t == "(":
            stack.append(i)
        elif t == ")":
            out.append((stack.pop(), i + 1))
    return toks, out


def group_edits(text):
    """Delete, duplicate, move and exchange whole parenthesised groups."""
    toks, gs = groups(text)
    for a, b in gs:
        yield toks[:a] + toks[b:]
        yield toks[:a] + toks[a:b] + toks[a:b] + toks[b:]
        yield toks[:a] + ["("] + toks[a:b] + [")"] + toks[b:]
        yield toks[:a] + toks[a + 1:b - 1] + toks[b:]
    for (a, b), (c, d) in itertools.combinations(sorted(gs), 2):
        if b <= c:
            yield toks[:a] + toks[c:d] + toks[b:c] + toks[a:b] + toks[d:]
            yield toks[:a] + toks[c:d] + toks[b:]
            yield toks[:c] + toks[a:b] + toks[d:]


def mutants(kind, depth=1):
    seen = set()
    for base in BASES[kind]:
        level = [tokens(base)]
        for _ in range(depth):
            nxt = []
            for toks in level:
                for e in itertools.chain(edits(kind, toks), group_edits(base) if _ == 0 else ()):
                    s = " ".join(e)
                    if s not in seen:
                        seen.add(s)
                        yield s
                        nxt.append(e)
            level = nxt
