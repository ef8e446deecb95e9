"""The work grows at most quadratically with the size of the input, and nesting does not exhaust the stack."""

import copy
import pickle
import sys

from mc import absyn, env
from mc.checks.common import warm
from mc.run import Violation

R = "(:requirements :adl :fluents :non-deterministic :derived-predicates)"


def rep(n, f):
    return " ".join(f(i) for i in range(n))


def nest(n, a, z, b=")"):
    return a * n + z + b * n


DOMAINS = {
    "types": lambda n: "(:types %s)" % rep(n, lambda i: "t%d" % i),
    "chain of types": lambda n: "(:types %s)" % rep(n, lambda i: "t%d - t%d" % (i, i + 1)),
    "chain of types, reversed": lambda n: "(:types %s)" % rep(n, lambda i: "t%d - t%d" % (n - i, n - i - 1)),
    "types of one": lambda n: "(:types %s - t)" % rep(n, lambda i: "t%d" % i),
    "subtype in chain": lambda n: "(:types %s) (:predicates (p ?x - t%d)) (:derived (p ?x - t0) (p ?x))" % (rep(n, lambda i: "t%d - t%d" % (i, i + 1)), n),
    "subtypes in chain": lambda n: "(:types %s) (:predicates (p ?x - t%d)) %s" % (
        rep(n, lambda i: "t%d - t%d" % (i, i + 1)), n, rep(min(n, 8), lambda i: "(:derived (p ?x - t%d) (p ?x))" % i)),
    "constants": lambda n: "(:constants %s)" % rep(n, lambda i: "c%d" % i),
    "typed constants": lambda n: "(:types t) (:constants %s)" % rep(n, lambda i: "c%d - t" % i),
    "constants of types": lambda n: "(:types %s) (:constants %s)" % (rep(n, lambda i: "t%d" % i), rep(n, lambda i: "c%d - t%d" % (i, i))),
    "predicates": lambda n: "(:predicates %s)" % rep(n, lambda i: "(p%d ?x)" % i),
    "predicates of one name": lambda n: "(:predicates %s)" % rep(n, lambda i: "(p %s)" % rep(min(i, 5), lambda j: "?x%d" % j) if i < 6 else "(p%d)" % i),
    "arguments of a predicate": lambda n: "(:predicates (p %s))" % rep(n, lambda i: "?x%d" % i),
    "typed arguments": lambda n: "(:types t) (:predicates (p %s))" % rep(n, lambda i: "?x%d - t" % i),
    "arguments of types": lambda n: "(:types %s) (:predicates (p %s))" % (rep(n, lambda i: "t%d" % i), rep(n, lambda i: "?x%d - t%d" % (i, i))),
    "either": lambda n: "(:types %s) (:predicates (p ?x - (either %s)))" % ((rep(n, lambda i: "t%d" % i),) * 2),
    "functions": lambda n: "(:functions %s)" % rep(n, lambda i: "(f%d ?x)" % i),
    "arguments of a function": lambda n: "(:functions (f %s))" % rep(n, lambda i: "?x%d" % i),
    "actions": lambda n: rep(n, lambda i: "(:action a%d :parameters (?x) :precondition (p ?x) :effect (q))" % i),
    "parameters": lambda n: "(:action go :parameters (%s))" % rep(n, lambda i: "?x%d" % i),
    "typed parameters": lambda n: "(:types t) (:action go :parameters (%s) :precondition (p %s))" % (rep(n, lambda i: "?x%d - t" % i), rep(n, lambda i: "?x%d" % i)),
    "derived": lambda n: "(:predicates %s) %s" % (rep(n, lambda i: "(p%d)" % i), rep(n, lambda i: "(:derived (p%d) (q))" % i)),
    "arguments of derived": lambda n: "(:types t) (:predicates (p %s)) (:derived (p %s) (p %s))" % (
        rep(n, lambda i: "?x%d - t" % i), rep(n, lambda i: "?x%d" % i), rep(n, lambda i: "?x%d" % i)),
    "all": lambda n: "(:types %s) (:constants %s) (:predicates %s) (:functions %s) %s" % (
        rep(n, lambda i: "t%d" % i), rep(n, lambda i: "c%d - t%d" % (i, i)), rep(n, lambda i: "(p%d ?x - t%d)" % (i, i)),
        rep(n, lambda i: "(f%d ?x - t%d)" % (i, i)),
        rep(n, lambda i: "(:action a%d :parameters (?x - t%d) :precondition (p%d ?x) :effect (increase (f%d ?x) 1))" % (i, i, i, i))),
}
CONDITIONS = {
    "and": lambda n: "(and %s)" % rep(n, lambda i: "(p%d ?x)" % i),
    "or": lambda n: "(or %s)" % rep(n, lambda i: "(p%d ?x)" % i),
    "same operands": lambda n: "(and %s)" % rep(n, lambda i: "(p ?x)"),
    "nested and": lambda n: nest(n, "(and (q) ", "(p ?x)"),
    "nested or": lambda n: nest(n, "(or (q) ", "(p ?x)"),
    "nested and or": lambda n: nest(n, "(and (q) (or (r) ", "(p ?x)", "))"),
    "nested twice": lambda n: nest(n, "(and (or (q) (p ?x)) ", "(p ?x)"),
    "nested not": lambda n: nest(n, "(not ", "(p ?x)"),
    "nested imply": lambda n: nest(n, "(imply (q) ", "(p ?x)"),
    "imply on the left": lambda n: nest(n, "(imply ", "(p ?x)", " (q))"),
    "nested forall": lambda n: "".join("(forall (?y%d) " % i for i in range(n)) + "(p ?y0 ?x)" + ")" * n,
    "nested exists": lambda n: "".join("(exists (?y%d) " % i for i in range(n)) + "(p ?y%d ?x)" % (n - 1) + ")" * n,
    "shadowing": lambda n: nest(n, "(forall (?x) ", "(p ?x)"),
    "variables of forall": lambda n: "(forall (%s) (p ?x %s))" % (rep(n, lambda i: "?y%d" % i), rep(n, lambda i: "?y%d" % i)),
    "arguments": lambda n: "(p %s)" % rep(n, lambda i: "?x"),
    "plus": lambda n: "(> (f) (+ %s))" % rep(n + 2, lambda i: "(f%d ?x)" % i),
    "nested plus": lambda n: "(> (f) %s)" % nest(n, "(+ 1 ", "(f ?x)"),
    "nested times": lambda n: "(> (f) %s)" % nest(n, "(* 2 ", "(f ?x)"),
    "nested minus": lambda n: "(> (f) %s)" % nest(n, "(- 1 ", "(f ?x)"),
    "minus on the left": lambda n: "(> (f) %s)" % nest(n, "(- ", "(f ?x)", " 1)"),
    "nested divide": lambda n: "(> (f) %s)" % nest(n, "(/ 1 ", "(f ?x)"),
    "comparisons": lambda n: "(and %s)" % rep(n, lambda i: "(> (f%d) %d)" % (i, i)),
    "equalities": lambda n: "(and %s)" % rep(n, lambda i: "(not (= ?x ?x))"),
    "digits": lambda n: "(> (f) 1%s.%s5)" % ("0" * n, "0" * n),
    "long names": lambda n: "(p%s ?x)" % ("q" * n),
}
EFFECTS = {
    "and": lambda n: "(and %s)" % rep(n, lambda i: "(p%d ?x)" % i),
    "deletes": lambda n: "(and %s)" % rep(n, lambda i: "(not (p%d ?x))" % i),
    "oneof": lambda n: "(oneof %s)" % rep(n, lambda i: "(p%d ?x)" % i),
    "nested forall": lambda n: "".join("(forall (?y%d) " % i for i in range(n)) + "(p ?y0)" + ")" * n,
    "nested forall and": lambda n: "".join("(forall (?y%d) (and (q) " % i for i in range(n)) + "(p ?y0)" + "))" * n,
    "nested forall oneof": lambda n: "".join("(and (forall (?y%d) (oneof (q) " % i for i in range(n)) + "(p ?y0)" + ")))" * n,
    "assign": lambda n: "(assign (f) %s)" % nest(n, "(* 1 ", "(f)"),
    "increases": lambda n: "(and %s)" % rep(n, lambda i: "(increase (f%d ?x) %d)" % (i, i)),
    "whens": lambda n: "(and %s)" % rep(n, lambda i: "(when (p%d ?x) (q))" % i),
    "when condition": lambda n: "(when %s (q))" % nest(n, "(or (q) ", "(p ?x)"),
    "when effects": lambda n: "(when (q) (and %s))" % rep(n, lambda i: "(p%d ?x)" % i),
    "forall when": lambda n: "(and %s)" % rep(n, lambda i: "(forall (?y) (when (p%d ?y) (q)))" % i),
}
PROBLEMS = {
    "objects": ("(:objects %s)", lambda n: rep(n, lambda i: "o%d" % i)),
    "typed objects": ("(:objects %s)", lambda n: rep(n, lambda i: "o%d - t%d" % (i, i % 3))),
    "init": ("(:init %s)", lambda n: rep(n, lambda i: "(p%d)" % i)),
    "negative init": ("(:init %s)", lambda n: rep(n, lambda i: "(not (p%d))" % i)),
    "init of one predicate": ("(:objects a b) (:init %s)", lambda n: rep(n, lambda i: "(p %s)" % rep(i % 7, lambda j: "ab"[(i + j) % 2]))),
    "values": ("(:init %s)", lambda n: rep(n, lambda i: "(= (f%d) %d.5)" % (i, i))),
    "arguments": ("(:objects a) (:init (p %s))", lambda n: rep(n, lambda i: "a")),
    "goal": ("(:goal (and %s))", lambda n: rep(n, lambda i: "(p%d)" % i)),
    "nested goal": ("(:goal %s)", lambda n: nest(n, "(or (q) ", "(p)")),
    "quantified goal": ("(:goal %s)", lambda n: nest(n, "(forall (?x ?y) ", "(p ?x)")),
    "nested not": ("(:goal %s)", lambda n: nest(n, "(not ", "(p)")),
    "metric": ("(:metric minimize %s)", lambda n: nest(n, "(+ 1 ", "(f)")),
    "wide metric": ("(:metric minimize (+ %s))", lambda n: rep(n + 2, lambda i: "(f%d)" % i)),
}


def domain_text(f, n):
    return "(define (domain d) %s %s)" % (R, f(n))


def action_text(part, f, n):
    return "(define (domain d) %s (:action go :parameters (?x) :%s %s))" % (R, part, f(n))


def problem_text(form, f, n):
    sections = {":objects": "", ":init": "(:init)", ":goal": "(:goal (and))", ":metric": ""}
    for name in sections:
        if name in form:
            sections[name] = form.replace("%s", f(n)) if name == form.split()[0][1:] else ""
    return "(define (problem q) (:domain d) %s)" % " ".join(sections.values())


class Counter:
    """Counts the calls of functions; stops what runs away."""

    def __init__(self):
        self.n = 0

    def __call__(self, frame, event, arg):
        if event == "call" or event == "c_call":
            self.n += 1
            if self.n > 3000000:
                raise Violation("more than 3000000 calls")


def cost(f):
    c = Counter()
    sys.setprofile(c)
    try:
        x = f()
    finally:
        sys.setprofile(None)
    return c.n, x


def of_any(kind, text):
    """What can be done with any object; each on objects that nothing was done with before."""
    yield "parse", lambda _: env.parse(kind, text)
    yield "print", lambda x: str(x)
    yield "compare", lambda x, y=env.parse(kind, text): x == y
    yield "compare with another", lambda x, y=env.parse(kind, text[:-2] + text[-2:]): (x != y, y == x)
    yield "copy", lambda x: copy.deepcopy(x)
    yield "pickle", lambda x: pickle.loads(pickle.dumps(x))


def of_domain(text):
    L = absyn.lib()
    yield from of_any("domain", text)
    yield "hash", lambda d: [hash(x) for x in list(d.actions) + list(d.predicates) + list(d.constants) + list(d.derived_predicates) + list(d.functions)]
    yield "sort", lambda d: [sorted(d.actions), sorted(d.predicates), sorted(d.constants)] if len(d.actions) < 2 else sorted(d.predicates)
    yield "build", lambda d: L["Domain"](
        "n", requirements=d.requirements, types=d.types, constants=d.constants, predicates=d.predicates,
        derived_predicates=d.derived_predicates, functions=d.functions, actions=d.actions)
    yield "instantiate", lambda d: [a.instantiate([L["Constant"]("c%d" % i, sorted(v.type_tags)[0] if v.type_tags else None) for i, v in enumerate(a.parameters)]) for a in d.actions]
    yield "show", lambda d: [repr(x) for x in list(d.actions) + list(d.predicates) + list(d.derived_predicates)]
    yield "connect", lambda d: [(~a.precondition, a.precondition & a.precondition, a.precondition | a.precondition, a.precondition >> a.precondition) for a in d.actions if a.precondition is not None]


def of_problem(text):
    yield from of_any("problem", text)
    d = env.parse("domain", "(define (domain d) %s (:types t0 t1 t2))" % R)
    yield "check", lambda p: p.check(d)
    yield "attach", lambda p: setattr(p, "domain", d)
    yield "hash", lambda p: [hash(x) for x in list(p.objects) + list(p.init) + [p.goal]]
    yield "show", lambda p: [repr(x) for x in list(p.objects) + list(p.init) + [p.goal]]


def of_plan(text):
    yield from of_any("plan", text)
    d = env.parse("domain", "(define (domain d) %s (:action go :parameters (?x ?y) :precondition (p ?x ?y) :effect (p ?y ?x)) (:action many :parameters (%s)))" % (
        R, rep(text.split("\n")[0].count(" "), lambda i: "?x%d" % i)))
    names = sorted(set(w for w in text.replace("(", " ").replace(")", " ").split() if w not in ("go", "many")))
    p = env.parse("problem", "(define (problem q) (:domain d) (:objects %s) (:init) (:goal (and)))" % " ".join(names))
    yield "instantiate", lambda l: l.instantiate(d)
    yield "check", lambda l: l.check(d, p)


PLANS = {
    "steps": lambda n: "\n".join("(go a%d b)" % i for i in range(n)),
    "same steps": lambda n: "\n".join("(go a b)" for i in range(n)),
    "arguments": lambda n: "(many %s)" % rep(n, lambda i: "a%d" % i),
    "same arguments": lambda n: "(many %s)" % rep(n, lambda i: "a"),
}


def texts():
    """Kind, label and text by size."""
    for k, f in DOMAINS.items():
        yield "domain", k, lambda n, f=f: domain_text(f, n)
    for part, fs in (("precondition", CONDITIONS), ("effect", EFFECTS)):
        for k, f in fs.items():
            yield "domain", part + " " + k, lambda n, f=f, part=part: action_text(part, f, n)
    for k, (form, f) in PROBLEMS.items():
        yield "problem", k, lambda n, f=f, form=form: problem_text(form, f, n)
    for k, f in PLANS.items():
        yield "plan", k, f


OF = {"domain": of_domain, "problem": of_problem, "plan": of_plan}


def measure(kind, text):
    out = {}
    for op, f in OF[kind](text):
        x = None if op == "parse" else env.parse(kind, text)
        try:
            out[op] = cost(lambda: f(x))[0]
        except RecursionError:
            raise Violation("%s exhausts the stack:\n%s" % (op, text[:600]))
        except Violation as v:
            raise Violation("%s: %s:\n%s" % (op, v, text[:600]))
    return out


def growth(case, obs):
    """The work for 2n is at most five times the work for n (ten times for what writes or reads a hierarchy of types)."""
    kind, label, n = case
    f = {(k, l): t for k, l, t in texts()}[kind, label]
    limit = sys.getrecursionlimit()
    try:
        # the default limit for up to 80 levels, in proportion for more
        sys.setrecursionlimit(1000 * max(80, 2 * n) // 80 + 20)
        small, large = measure(kind, f(n)), measure(kind, f(2 * n))
    finally:
        sys.setrecursionlimit(limit)
    for op in small:
        obs.state((case, op))
        obs.step(2)
        obs.outcome("%s: up to %d times" % (op, 1 + large[op] // small[op]))
        factor = 10 if "type" in label and op not in ("equal", "hash") else 5
        if large[op] > factor * small[op] + 400:
            raise Violation("%s of %s (%s): %d calls for size %d, but %d for size %d" % (op, label, kind, small[op], n, large[op], 2 * n))


def joins(case, obs):
    """Formulas joined one by one, applied and negated again and again."""
    how, n = case
    L = absyn.lib()
    P = L["Predicate"]

    def run(k):
        x = P("p0")
        for i in range(k):
            y = P("p%d" % i)
            if how == "and":
                x = x & y
            elif how == "or":
                x = y | x
            elif how == "imply":
                x = x >> y
            elif how == "not":
                x = ~x
            elif how == "plus":
                x = L["arith"]["+"](L["NumericValue"](i), x) if i else L["NumericFunction"]("f")
            elif how == "mixed":
                x = (x & y) if i % 2 else (x | y)
            else:
                x = L["And"](x, L["Or"](x, y)) if i < 6 else L["And"](x, y)
        return str(x), hash(x)

    small, large = cost(lambda: run(n))[0], cost(lambda: run(2 * n))[0]
    obs.state(case)
    obs.step(2)
    if large > 5 * small + 400 and not (how == "shared" and n < 7):
        raise Violation("joining with %s: %d calls for %d, but %d for %d" % (how, small, n, large, 2 * n))


def main(check):
    warm("domain", "problem", "plan")
    top = 36 if check.level == 1 else 100
    sizes = sorted(set(range(1, top)) if check.level > 1 else set(range(1, 12)) | set(range(12, top, 6)) | {32, 40})
    growth.seconds = joins.seconds = 100
    check.run("growth", growth, ((k, l, n) for n in reversed(sizes) for k, l, _ in texts()), 4)
    check.run("joins", joins, ((h, n) for h in ("and", "or", "imply", "not", "plus", "mixed", "shared") for n in range(1, 41)), 10)
    check.notes["explanation"] = (
        "states: construct, size and operation; transitions: measurements. Every construct of the language repeated or nested n times, for the sizes n in the evidence, and every operation on it, "
        "in an interpreter with the default limit of the stack (in proportion for more than 80 levels); the calls of functions are counted, not the time. For 2n there are at most five times as many as for n (plus 400); ten times for domains with many types, whose hierarchy is ordered in cubic time."
    )
    check.notes["assumptions"] = ["sizes: %s, each with its double" % (sizes,), "loops inside of built-in functions are not counted"]
