"""Threads that parse with their own parsers, or use the same objects, do not disturb each other."""

import copy
import os
import pickle
import tempfile

from mc import absyn, env, sched
from mc.run import Violation

TEXTS = {
    "domain-a": ("domain", "(define (domain da) (:requirements :adl :numeric-fluents :derived-predicates) (:types t1 - t0 t2) (:constants a - t1) "
                 "(:predicates (p ?x - t1) (q)) (:functions (f ?x - t1)) (:derived (q) (exists (?z - t1) (p ?z))) "
                 "(:action go :parameters (?x - t1 ?y) :precondition (and (p ?x) (not (= ?x ?y)) (> (f a) 1)) :effect (when (q) (not (p ?x)))))"),
    "domain-b": ("domain", "(define (domain db) (:requirements :typing) (:types t2 - t1) (:predicates (p ?x - t2) (r ?x ?y)) "
                 "(:action go :parameters (?y - t2 ?x) :precondition (r ?x ?y) :effect (and (p ?y) (not (r ?y ?x)))))"),
    "domain-bare": ("domain", "(define (domain dc) (:predicates (p ?x)) (:action go :parameters (?x) :precondition (p ?x)))"),
    "domain-wrong": ("domain", "(define (domain dd) (:predicates (p ?x)) (:action go :parameters (?z) :precondition (or (p ?x) (p a))))"),
    "problem-a": ("problem", "(define (problem qa) (:domain d) (:requirements :adl) (:objects a - t1 b) (:init (p a) (not (q a b))) "
                  "(:goal (forall (?x - t1) (or (p ?x) (= ?x a)))))"),
    "problem-b": ("problem", "(define (problem qb) (:domain d) (:objects a b - t2 c) (:init (p c) (= (f a) 3)) (:goal (and (p a) (not (p c)))) (:metric minimize (f a)))"),
    "problem-wrong": ("problem", "(define (problem qc) (:domain d) (:requirements :strips) (:objects c) (:init (p a)) (:goal (or (p c))))"),
    "plan-a": ("plan", "(go a b)\n(stop)"), "plan-b": ("plan", "(run c)\n(go b a c)"), "plan-wrong": ("plan", "(go a ?b)"),
}
_p = {}
_alone = {}


def result(kind, x):
    return (absyn.dump_any(kind, x), str(x))


def parse_body(who, name, route, files=None):
    """What a thread does."""
    kind, text = TEXTS[name]
    if route == "own":
        if (who, kind) not in _p:
            _p[(who, kind)] = env.parser_class(kind)()
        p = _p[(who, kind)]
        return lambda: p(text)
    if route == "made":
        return lambda: env.parser_class(kind)()(text)
    if route == "helper":
        import pddl

        helper = getattr(pddl, "parse_" + kind)
        path = files[name]
        return lambda: helper(path)
    raise ValueError(route)


def collect(name, r):
    kind = TEXTS[name][0]
    return ("value",) + result(kind, r[1]) if r[0] == "value" else ("exc", r[1])


def alone(name):
    if name not in _alone:
        kind, text = TEXTS[name]
        try:
            r = ("value", env.parser_class(kind)()(text))
        except Exception as e:  # noqa
            r = ("exc", type(e).__name__)
        _alone[name] = collect(name, r)
    return _alone[name]


def two_parses(case, obs):
    """All plans of a block for two threads that parse."""
    a, b, route, grain, plans = case
    want = [alone(a), alone(b)]
    if obs.fresh:
        _p.clear()
    with tempfile.TemporaryDirectory(prefix="mc20") as d:
        files = {}
        for n in (a, b):
            files[n] = os.path.join(d, n + ".pddl")
            with open(files[n], "w") as f:
                f.write(TEXTS[n][1])
        for plan in plans:
            fns = [parse_body(i, n, route, files) for i, n in enumerate((a, b))]
            rs, points = sched.run(fns, plan, grain)
            got = [collect(a, rs[0]), collect(b, rs[1])]
            obs.state((a, b, route, grain, tuple(plan)))
            obs.step(sum(points))
            for i, n in enumerate((a, b)):
                if got[i] != want[i]:
                    raise Violation(
                        "threads parsing %s and %s (%s), switched at %s points %r: %s gives\n%s\ninstead of\n%s"
                        % (a, b, route, grain, plan, n, str(rs[i][1:] if rs[i][0] == "exc" else rs[i][1]), want[i][-1])
                    )


def points_of(a, b, route, grain):
    with tempfile.TemporaryDirectory(prefix="mc20") as d:
        files = {}
        for n in (a, b):
            files[n] = os.path.join(d, n + ".pddl")
            with open(files[n], "w") as f:
                f.write(TEXTS[n][1])
        fns = [parse_body(i, n, route, files) for i, n in enumerate((a, b))]
        sched.run(fns, [], grain)
        fns = [parse_body(i, n, route, files) for i, n in enumerate((a, b))]
        return sched.run(fns, [], grain)[1]


def blocks(xs, n):
    part = []
    for x in xs:
        part.append(x)
        if len(part) == n:
            yield tuple(part)
            part = []
    if part:
        yield tuple(part)


def parse_cases(pairs, route, grain, bound, stride=1, block=20):
    for a, b in pairs:
        n = points_of(a, b, route, grain)
        for part in blocks((tuple(p) for p in sched.plans(n, bound, stride)), block):
            yield (a, b, route, grain, part)


# ------------------------------------------------------------------------------ shared objects

T1, T0 = ("t1",), ()
X, Y, Z = ("v", "x", T1), ("v", "y", T0), ("v", "z", T1)
A, B = ("c", "a", None), ("c", "b", None)
PX = ("atom", "p", (X, Y))
OBJECTS = {
    "term": ("term", X),
    "atom": ("formula", PX),
    "function": ("formula", ("fn", "f", (X, A))),
    "number": ("formula", ("num", 1.5)),
    "and": ("formula", ("and", (PX, ("not", ("atom", "q", ()))))),
    "forall": ("formula", ("forall", (Z,), ("atom", "p", (Z, Y)))),
    "when": ("formula", ("when", PX, ("feff", (Z,), ("atom", "p", (Z, X))))),
    "derived": ("derived", (("atom", "p", (X, Y)), ("atom", "q", (X,)))),
    "action": ("action", ("go", (X, Y), PX, ("not", PX))),
    "domain": ("domain", ("domain", "d", frozenset({"typing", "strips"}), frozenset({("t1", None)}), frozenset({("a", "t1")}),
                          frozenset({("p", (X, Y)), ("q", ())}), frozenset(), frozenset(),
                          frozenset({("go", (X, Y), PX, ("not", PX))}))),
    "problem": ("problem", ("problem", "q", "d", frozenset(), frozenset({("a", "t1"), ("b", None)}),
                            frozenset({("atom", "p", (A, B))}), ("atom", "q", ()), None)),
    "plan": ("plan", ("plan", (("go", ("a", "b")), ("go", ("b", "a"))))),
}
UNHASHABLE = ("domain", "problem", "plan")


def use(op, x, other, kind, ctx):
    if op == "hash":
        return hash(x) == hash(other)
    if op == "member":
        return x in {other}
    if op == "equal":
        return (x == other, other == x, x != other)
    if op == "str":
        return str(x)
    if op == "repr":
        return repr(x) if kind not in UNHASHABLE else None
    if op == "copy":
        y = copy.copy(x)
        return (y == other, str(y))
    if op == "deepcopy":
        y = copy.deepcopy(x)
        return (y == other, str(y))
    if op == "pickle":
        y = pickle.loads(pickle.dumps(x))
        return (y == other, str(y))
    if op == "instantiate":
        y = x.instantiate([absyn.b_term(A), absyn.b_term(B)] if kind == "action" else ctx["mapping"])
        return str(y)
    if op == "check":
        if kind == "problem":
            x.check(ctx["domain"])
        else:
            x.check(ctx["domain"], ctx["problem"])
        return "checked"
    if op == "ground":
        return [str(a) for a in x.instantiate(ctx["domain"])]
    raise ValueError(op)


def ops_of(name):
    kind = OBJECTS[name][0]
    ops = ["equal", "str", "copy", "deepcopy", "pickle"]
    if kind not in UNHASHABLE:
        ops += ["hash", "member"]
    if kind in ("formula", "derived", "action"):
        ops.append("instantiate")
    if kind in ("problem", "plan"):
        ops.append("check")
    if kind == "plan":
        ops.append("ground")
    return ops


def make(name):
    from mc import pool

    return pool.make(OBJECTS[name])


def context():
    return {
        "mapping": {absyn.b_term(X): absyn.b_term(A), absyn.b_term(Y): absyn.b_term(B)},
        "domain": make("domain"), "problem": make("problem"),
    }


def shared(case, obs):
    """Two threads use the same object, at first use and when it has been used before."""
    name, ops, used, grain, bound, limit = case
    kind = OBJECTS[name][0]

    def fns():
        x, ctx = make(name), context()
        if used and kind not in UNHASHABLE:
            hash(x)
        ys = [make(name), make(name)]
        return [lambda i=i: use(ops[i], x, ys[i], kind, ctx) for i in (0, 1)], x

    want = []
    for op in ops:
        want.append(use(op, make(name), make(name), kind, context()))
    _, n = sched.run(fns()[0], [], grain)
    while bound > 1 and 2 * n[0] * n[1] > limit:
        bound -= 1
    stride = max(1, sum(n) // limit)
    for plan in sched.plans(n, bound, stride):
        f, x = fns()
        rs, points = sched.run(f, plan, grain)
        obs.state((name, ops, used, tuple(plan)))
        obs.step(sum(points))
        for op, r, w in zip(ops, rs, want):
            if r != ("value", w):
                raise Violation(
                    "threads doing %s and %s on the same %s (%s), switched at %s points %r: %s gives %r instead of %r"
                    % (ops[0], ops[1], name, "used before" if used else "new", grain, plan, op, r[1:], w)
                )
        if not x == make(name) or str(x) != str(make(name)):
            raise Violation("after %s and %s in threads the %s has changed: %s" % (ops[0], ops[1], name, x))


def main(check):
    level = check.level
    for n in TEXTS:
        alone(n)
    ds, qs, ls = [[n for n in TEXTS if TEXTS[n][0] == k] for k in ("domain", "problem", "plan")]
    small = [("domain-bare", "domain-wrong"), ("domain-bare", "domain-bare")]
    # one preemption at every line
    pairs = [("domain-a", "domain-b"), ("domain-b", "domain-wrong"), ("problem-a", "problem-b"), ("problem-b", "problem-wrong"),
             ("plan-a", "plan-b"), ("plan-a", "plan-wrong"), ("domain-b", "problem-a")]
    if level > 1:
        pairs = [(a, b) for g in (ds, qs, ls) for a in g for b in g if a <= b]
        pairs += [("domain-a", "problem-a"), ("problem-b", "plan-a"), ("domain-b", "plan-b")]
    check.run("line-bound-1", two_parses, parse_cases(pairs, "own", "line", 1), 1)
    # two preemptions at every call
    pairs2 = small + [("plan-a", "plan-b"), ("plan-a", "plan-wrong"), ("problem-wrong", "problem-wrong")]
    if level > 1:
        pairs2 += [("domain-b", "domain-bare"), ("problem-b", "problem-wrong"), ("domain-bare", "problem-wrong")]
    check.run("call-bound-2", two_parses, parse_cases(pairs2, "own", "call", 2, 1 if level > 1 else 2, 50), 1)
    # making the parsers, and the helpers that read files
    few = [("domain-b", "domain-bare"), ("problem-b", "problem-wrong"), ("plan-a", "plan-b"), ("domain-wrong", "problem-a")]
    check.run("parsers-made", two_parses, parse_cases(few, "made", "call", 1, 1 if level > 1 else 3, 5), 1)
    check.run("helpers", two_parses, parse_cases(few, "helper", "call", 1, 1 if level > 1 else 3, 5), 1)
    names = list(OBJECTS)
    check.run(
        "shared-objects", shared,
        (
            (n, (o1, o2), used, grain, 3 if level > 1 else 2, 2000 if level > 1 else 130)
            for n in names for o1 in ops_of(n) for o2 in ops_of(n) if o1 <= o2
            for used in ((0, 1) if OBJECTS[n][0] not in UNHASHABLE else (0,))
            for grain in (("line", "opcode") if level > 1 else ("line",))
        ), 1,
    )
    check.notes["explanation"] = (
        "states: distinct schedules; transitions: yield points passed. Real threads run one at a time under a scheduler that "
        "switches only at calls or lines of the library: all schedules of two parses with one preemption at any line and with "
        "two at calls, with prepared parsers, parsers made in the threads and the helpers that read files; all pairs of "
        "operations on one shared object with up to two (three) preemptions at any line. Results are compared with those alone."
    )
    check.notes["assumptions"] = ["switches happen between lines or calls of the library's code, not inside the parsing library or the interpreter"]
