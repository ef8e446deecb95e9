"""Using objects does not change them, and objects do not share the caller's collections."""

import copy
import itertools

from mc import absyn, env, pool
from mc.checks.common import warm
from mc.run import Violation

DOMAIN = (
    "(define (domain d) (:requirements :adl :numeric-fluents :derived-predicates :non-deterministic) (:types t1 t2 - t0) (:constants k - t1) "
    "(:predicates (p ?x - t0) (q) (r ?x ?y)) (:functions (f ?x - t0) (g) - number) (:derived (r ?x ?y) (exists (?z - t0) (p ?z))) "
    "(:action go :parameters (?x - t1 ?y) :precondition (and (p ?x) (forall (?y - t2) (or (p ?y) (not (= ?y ?x)))) (imply (q) (> (f ?x) 1))) "
    ":effect (and (not (p ?x)) (oneof (q) (r ?x ?y)) (forall (?z ?y - t1) (when (p ?z) (and (r ?z ?x) (increase (f ?z) 1)))))) "
    "(:action stop :parameters ()))"
)
OTHER = "(define (domain e) (:requirements :typing) (:types t1) (:predicates (p ?x)) (:action go :parameters (?x) :effect (p ?x)))"
TWIN = DOMAIN.replace("(:action stop :parameters ())", "(:action stop :parameters (?z))")
PROBLEM = (
    "(define (problem q) (:domain d) (:requirements :adl :numeric-fluents) (:objects a - t1 b - t2 c) (:init (p a) (not (q)) (= (f a) 2)) "
    "(:goal (and (q) (exists (?x - t1) (or (p ?x) (r ?x b))))) (:metric minimize (+ (f a) 1)))"
)
PLAN = "(go a b)\n(stop)\n(go k c)"


class World:
    """Objects that have to do with each other."""

    def __init__(self, fresh=False):
        L = absyn.lib()
        self.domain = env.parse("domain", DOMAIN)
        self.other = env.parse("domain", OTHER)
        self.twin = env.parse("domain", TWIN)
        self.problem = env.parse("problem", PROBLEM)
        self.plan = env.parse("plan", PLAN)
        self.actions = sorted(self.domain.actions, key=lambda a: a.name)
        self.go = self.actions[0]
        self.derived = sorted(self.domain.derived_predicates, key=str)[0]
        self.formulas = [
            self.go.precondition, self.go.effect, self.problem.goal, self.derived.condition,
            absyn.build(("forall", (pool.v("x", "t1"),), ("or", (pool.PX, ("not", pool.PY))))), absyn.build(pool.PX),
        ]
        self.a, self.b = L["Constant"]("a", "t1"), L["Constant"]("b")
        self.x, self.y = L["Variable"]("x", {"t1"}), L["Variable"]("y")
        self.mapping = {self.x: self.a, self.y: self.b}
        self.arguments = [self.a, self.b]
        self.attached = None

    def things(self):
        out = {
            "domain": ("domain", self.domain), "other domain": ("domain", self.other), "twin domain": ("domain", self.twin),
            "problem": ("problem", self.problem), "plan": ("plan", self.plan),
        }
        return out

    def snapshot(self):
        s = {}
        for k, (kind, x) in self.things().items():
            s[k] = (absyn.dump_raw(kind, x), str(x))
        for i, f in enumerate(self.formulas):
            s["formula %d" % i] = (absyn.dump(f), str(f))
        s["action"] = (absyn.dump(self.go), str(self.go))
        s["derived predicate"] = (absyn.dump(self.derived), str(self.derived))
        s["terms"] = tuple(map(absyn.dump_term, (self.a, self.b, self.x, self.y)))
        s["mapping"] = tuple(sorted((absyn.dump_term(k), absyn.dump_term(v)) for k, v in self.mapping.items()))
        s["arguments"] = tuple(map(absyn.dump_term, self.arguments))
        s["has domain"] = self.attached
        return s


def quietly(f):
    try:
        return f()
    except Exception:  # noqa
        return None


def hashes(w):
    for x in w.formulas + [w.go, w.derived, w.a, w.x] + sorted(w.domain.predicates) + sorted(w.problem.init, key=str):
        hash(x)


def connect(w):
    g = w.formulas
    for x in g:
        for y in g[:3]:
            quietly(lambda: ~x)
            quietly(lambda: x & y)
            quietly(lambda: x | y)
            quietly(lambda: x >> y)


def nest(w):
    L = absyn.lib()
    for x in w.formulas:
        for k in ("And", "Or", "OneOf"):
            n = quietly(lambda: L[k](x, x, *w.formulas))
            quietly(lambda: str(n))
        quietly(lambda: L["ForallCondition"](x, {w.x, w.y}))
        quietly(lambda: L["When"](x, x))
        quietly(lambda: L["Forall"](x, [w.x]))


def build_again(w):
    L = absyn.lib()
    d = w.domain
    n = L["Domain"](
        "n", requirements=d.requirements, types=d.types, constants=d.constants, predicates=d.predicates,
        derived_predicates=d.derived_predicates, functions=d.functions, actions=d.actions,
    )
    str(n)


def build_wrong(w):
    L = absyn.lib()
    d = w.domain
    quietly(lambda: L["Domain"]("n", types=d.types, constants=d.constants, actions=d.actions))
    quietly(lambda: L["Domain"]("n", requirements=d.requirements, types={"t0": "t1", "t1": "t0"}, actions=d.actions))
    quietly(lambda: L["Domain"]("and", requirements=d.requirements, types=d.types))


def problem_of(w, domain):
    L = absyn.lib()
    p = w.problem
    return L["Problem"](
        "n", domain=domain, objects=p.objects, init=p.init, goal=p.goal, metric=p.metric,
    )


def attach_another(w):
    n = quietly(lambda: problem_of(w, w.domain))
    quietly(lambda: problem_of(w, w.other))
    quietly(lambda: str(n))
    if n is not None:
        quietly(lambda: setattr(n, "domain", w.other))
        quietly(lambda: setattr(n, "domain", w.domain))


def attach_wrong(w):
    """A domain the problem does not fit: nothing may change."""
    bad = env.parse("domain", OTHER)
    try:
        w.problem.domain = bad
    except Exception:  # noqa
        return
    raise Violation("a problem is attached to a domain that it does not fit")


def travel(w):
    for x in (w.domain, w.problem, w.plan, w.go, w.derived, w.a, w.x) + tuple(w.formulas):
        y, z = copy.copy(x), copy.deepcopy(x)
        str(y), str(z), x == y, x == z  # noqa: B018


OPS = {
    "print": lambda w: [str(x) for x in (w.domain, w.problem, w.plan, w.other, w.go, w.derived)] + [repr(x) for x in w.formulas],
    "format": lambda w: formats(w),
    "hash": hashes,
    "compare": lambda w: [w.domain == w.twin, w.twin == w.domain, w.problem == w.plan, w.formulas[0] == w.formulas[1], sorted(w.domain.predicates), w.domain != w.other],
    "check problem": lambda w: (w.problem.check(w.domain), quietly(lambda: w.problem.check(w.other)), w.problem.check(w.twin)),
    "check plan": lambda w: (w.plan.check(w.domain, w.problem), quietly(lambda: w.plan.check(w.other, w.problem)), quietly(lambda: w.plan.check(w.twin, w.problem))),
    "instantiate plan": lambda w: (w.plan.instantiate(w.domain), quietly(lambda: w.plan.instantiate(w.other)), quietly(lambda: w.plan.instantiate(w.twin))),
    "instantiate action": lambda w: (w.go.instantiate(w.arguments), quietly(lambda: w.go.instantiate(w.arguments * 2))),
    "instantiate formula": lambda w: [quietly(lambda: f.instantiate(w.mapping)) for f in w.formulas + [w.derived, w.problem.metric]],
    "connect": connect,
    "nest": nest,
    "build again": build_again,
    "build wrong": build_wrong,
    "attach another": attach_another,
    "attach wrong": attach_wrong,
    "copy": travel,
    "parse": lambda w: (env.parse("domain", TWIN), env.parse("problem", PROBLEM), env.parse("plan", "(go b a)"), quietly(lambda: env.parse("domain", DOMAIN[:-30]))),
    "retype": lambda w: (w.x.with_type_tags({"t2"}), w.y.with_type_tags(["t1", "t2"]), quietly(lambda: w.x.with_type_tags(["and"]))),
    "replace terms": lambda w: [p(*([w.a] * p.arity)) for p in w.domain.predicates] + [quietly(lambda: f(*([w.a] * f.arity))) for f in w.domain.functions],
    "list": lambda w: (list(w.domain.actions), list(w.problem.init), set(w.domain.predicates) | set(), dict(w.domain.types), dict(w.domain.functions), list(w.plan.actions)),
}


def formats(w):
    from pddl import formatter

    return formatter.domain_to_string(w.domain), formatter.problem_to_string(w.problem), formatter.plan_to_string(w.plan)


_before = {}


def sequence(case, obs):
    """A sequence of uses."""
    attached, ops = case
    w = World()
    if attached:
        w.problem.domain = w.domain
        w.attached = True
    if attached not in _before:
        _before[attached] = w.snapshot()
    want = _before[attached]
    for i, op in enumerate(ops):
        OPS[op](w)
        obs.step()
        got = w.snapshot()
        for k in want:
            if got[k] != want[k]:
                raise Violation("%s changes the %s: now\n%s\nbefore\n%s" % (" then ".join(ops[: i + 1]), k, got[k], want[k]))
        if attached and w.problem.domain is not w.domain:
            raise Violation("%s replaces the domain of the problem" % " then ".join(ops[: i + 1]))
    obs.state(case)


# ------------------------------------------------------------------------------ the caller's collections


def collections():
    """name -> (makes the arguments, makes the object from them, reads the object)"""
    L = absyn.lib()
    V, C, P, R, F = L["Variable"], L["Constant"], L["Predicate"], L["Requirements"], L["NumericFunction"]
    reqs = [R.TYPING, R.STRIPS, R.NUMERIC_FLUENTS]
    act = lambda n: L["Action"](n, [V("x")], P("p", V("x")), P("q"))  # noqa: E731
    out = {}

    def add(name, value, make, read, extra):
        out[name] = (value, make, read, extra)

    def dom(**kw):
        def read(d):
            return (absyn.dump_domain(d), str(d))
        return lambda c: L["Domain"]("d", **{**dict(requirements=set(reqs), types={"t1": None, "t2": "t1"}), **{k: c for k in kw}}), read

    def prob(k):
        def read(p):
            return (absyn.dump_problem(p), str(p))
        return lambda c: L["Problem"]("q", domain_name="d", **{k: c}), read

    for name, value, extra in [
        ("requirements", lambda: [R.TYPING, R.STRIPS], R.EQUALITY), ("constants", lambda: [C("a", "t1"), C("b")], C("c")),
        ("predicates", lambda: [P("p", V("x")), P("q")], P("s")), ("actions", lambda: [act("go"), act("stop")], act("wait")),
        ("derived_predicates", lambda: [L["DerivedPredicate"](P("p", V("x")), P("q"))], L["DerivedPredicate"](P("q"), P("s"))),
    ]:
        make, read = dom(**{name: None})
        add("domain " + name, value, make, read, extra)
    make, read = dom(types=None)
    add("domain types", lambda: {"t1": None, "t2": "t1"}, make, read, ("t5", None))
    make, read = dom(functions=None)
    add("domain functions", lambda: {F("f", V("x")): None, F("g"): "number"}, make, read, (F("h"), None))
    for name, value, extra in [
        ("requirements", lambda: [R.TYPING, R.STRIPS], R.EQUALITY), ("objects", lambda: [C("a", "t1"), C("b")], C("c")),
        ("init", lambda: [P("p", C("a")), P("q")], P("s")),
    ]:
        make, read = prob(name)
        add("problem " + name, value, make, read, extra)
    plan = lambda p: (absyn.dump_plan(p), str(p))  # noqa: E731
    add("plan actions", lambda: [("go", [C("a"), C("b")]), ("stop", [])], lambda c: L["Plan"](c), plan, ("go", [C("b")]))
    add("plan parameters", lambda: [C("a"), C("b")], lambda c: L["Plan"]([("go", c), ("go", c)]), plan, C("c"))
    one = lambda x: (absyn.dump(x), str(x))  # noqa: E731
    term = lambda x: (absyn.dump_term(x), str(x), hash(x))  # noqa: E731
    add("variable types", lambda: ["t1", "t2"], lambda c: V("x", c), term, "t3")
    add("replaced types", lambda: ["t1", "t2"], lambda c: V("x").with_type_tags(c), term, "t3")
    add("action parameters", lambda: [V("x"), V("y", {"t1"})], lambda c: L["Action"]("go", c, P("p"), P("q")), one, V("z"))
    for q in ("ForallCondition", "ExistsCondition", "Forall"):
        add("variables of " + q, lambda: [V("x"), V("y", {"t1"})], lambda c, q=q: L[q](P("p", V("x")), c), one, V("z"))
    for o in ("And", "Or", "OneOf"):
        add("operands of " + o, lambda: [P("p"), P("q"), P("r")], lambda c, o=o: L[o](*c), one, P("s"))
    for o in "+*-/":
        add("operands of " + o, lambda: [F("f"), L["NumericValue"](1)], lambda c, o=o: L["arith"][o](*c), one, F("g"))
    add("terms of a predicate", lambda: [V("x"), C("a")], lambda c: P("p", *c), one, C("b"))
    add("terms of a function", lambda: [V("x"), C("a")], lambda c: F("f", *c), one, C("b"))
    add("terms replaced", lambda: [C("b"), C("a")], lambda c: P("p", V("x"), V("y"))(*c), one, C("d"))
    add("arguments", lambda: [C("a"), C("b")], lambda c: L["Action"]("go", [V("x"), V("y")], P("p", V("x")), P("q", V("y"))).instantiate(c), one, C("d"))
    add("mapping", lambda: {V("x"): C("a"), V("y"): C("b")},
        lambda c: L["And"](P("p", V("x")), L["ForallCondition"](P("q", V("x"), V("y")), {V("y")})).instantiate(c), one, (V("z"), C("d")))
    return out


def shapes(c):
    """The same collection as a list, a set, a dictionary and other types."""
    if isinstance(c, dict):
        from collections import OrderedDict

        return {"dict": c, "ordered dict": OrderedDict(c)}
    out = {"list": list(c), "tuple": tuple(c)}
    try:
        out["set"] = set(c)
        out["frozenset"] = frozenset(c)
    except TypeError:
        pass
    return out


def changes(c, extra):
    """Every way in which the caller may change a collection afterwards."""
    if isinstance(c, dict):
        first = next(iter(c))
        return {
            "clear": lambda: c.clear(), "add": lambda: c.__setitem__(*extra), "delete": lambda: c.pop(first),
            "replace": lambda: c.__setitem__(first, extra[1] if extra[1] is not None else "t1"), "popitem": lambda: c.popitem(),
        }
    if isinstance(c, list):
        out = {
            "clear": lambda: c.clear(), "append": lambda: c.append(extra), "pop": lambda: c.pop(), "replace": lambda: c.__setitem__(0, extra),
            "reverse": lambda: c.reverse(), "insert": lambda: c.insert(0, extra),
        }
        if c and isinstance(c[0], tuple) and isinstance(c[0][1], list):
            out.update({
                "clear inner": lambda: c[0][1].clear(), "append inner": lambda: c[0][1].append(extra[1][0]),
                "reverse inner": lambda: c[0][1].reverse(),
            })
        return out
    if isinstance(c, set):
        return {"clear": lambda: c.clear(), "add": lambda: c.add(extra), "pop": lambda: c.pop()}
    return {"nothing": lambda: None}


ORDERED = ("plan", "action parameters", "operands", "terms", "arguments")


def caller(case, obs):
    """Build from a collection, change the collection, look at the object; use it before or not."""
    name, shape, used, which = case
    value, make, read, extra = collections()[name]
    c = shapes(value())[shape]
    reference = shapes(value())[shape]
    x = make(c)
    if not (c == reference and list(map(str, c)) == list(map(str, reference)) or isinstance(c, (set, frozenset)) and c == reference):
        raise Violation("making an object from %s (%s) changes the collection: %r" % (name, shape, c))
    want = read(make(shapes(value())[shape]))
    if used:
        read(x)
        str(x)
    y = make(c)
    for how in which:
        try:
            changes(c, extra)[how]()
        except (IndexError, KeyError, StopIteration):
            pass
        obs.step()
    for z in (x, y):
        if read(z) != want:
            raise Violation("after %s of the caller's %s (%s) the object is\n%s\ninstead of\n%s" % ("+".join(which), shape, name, read(z), want))
    obs.state(case)


def caller_cases(level):
    for name, (value, make, read, extra) in collections().items():
        for shape, c in shapes(value()).items():
            if shape in ("set", "frozenset") and name.startswith(ORDERED):
                continue
            ways = list(changes(c, extra))
            for used in (0, 1):
                for k in range(1, 4 if level > 1 else 3):
                    for which in itertools.product(ways, repeat=k):
                        yield (name, shape, used, which)


def main(check):
    level = check.level
    warm("domain", "problem", "plan")
    names = list(OPS)
    check.run(
        "sequences", sequence,
        ((t, ops) for t in (0, 1) for k in range(1, 4) for ops in itertools.product(names, repeat=k) if k < 3 or level > 1 or not t), 20,
    )
    check.run("callers", caller, caller_cases(level), 50)
    check.notes["explanation"] = (
        "states: sequences; transitions: operations. All sequences of up to three uses (of two for attached problems in "
        "the quick tier) of a domain, problem, plan and their parts, after each of which everything is as before; every collection "
        "given to a constructor or method, as list, tuple, set, dictionary, is changed by its owner in every way."
    )
