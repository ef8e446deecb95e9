"""What an operation gives depends on its arguments, not on what was done before in the process."""

import copy
import itertools
import os
import pickle
import shutil
import signal
import sys
import tempfile

from mc import absyn, env, mutate, pool
from mc.checks import c12
from mc.checks.common import warm
from mc.run import Obs, Violation, canon

# ---------------------------------------------------------------------------- the operations
# Every operation makes its own arguments, calls the library and describes what it gave.

OPS = {}
GROUP = {}
SCRATCH = [None]


def op(name, f):
    assert name not in OPS, name
    OPS[name] = f
    GROUP[name] = sys._getframe(1).f_code.co_name


def about(x):
    """What can be observed of a result."""
    L = absyn.lib()
    if isinstance(x, (bool, int, float, str, type(None))):
        return (type(x).__name__, repr(x))
    if isinstance(x, (list, tuple)):
        return tuple(about(y) for y in x)
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted(repr(about(y)) for y in x))
    if isinstance(x, dict):
        return ("dict",) + tuple(sorted(repr((about(k), about(v))) for k, v in x.items()))
    for kind, c in (("domain", "Domain"), ("problem", "Problem"), ("plan", "Plan")):
        if isinstance(x, L[c]):
            return (kind, canon(absyn.dump_raw(kind, x)), str(x))
    if isinstance(x, (L["Constant"], L["Variable"])):
        return ("term", canon(absyn.dump_term(x)), str(x), repr(x))
    try:
        return (type(x).__name__, canon(absyn.dump(x)), str(x))
    except absyn.Unreadable:
        return (type(x).__name__, str(x))


def run(name):
    """The operation and what it gave."""
    try:
        return repr(about(OPS[name]()))
    except RecursionError:
        raise
    except Exception as e:
        return "raises " + type(e).__name__


ADL = "(:requirements :adl :fluents :action-costs :non-deterministic :derived-predicates)"
DOMAINS = [
    "(define (domain d) %s (:types t1 t2 - t0) (:constants k - t1) (:predicates (p ?x - t1) (q)) (:functions (f ?x - t1) - number) "
    "(:action go :parameters (?x - t1) :precondition (p ?x) :effect (and (q) (increase (f ?x) 1))))" % ADL,
    "(define (domain d) %s (:types t1 t2) (:constants k - t2) (:predicates (p ?x - t2) (q)) (:functions (f ?x - t2) - number) "
    "(:action go :parameters (?x - t2) :precondition (p ?x) :effect (and (q) (increase (f ?x) 1.0))))" % ADL,
    "(define (domain d) %s (:constants k) (:predicates (p ?x) (q)) (:functions (f ?x)) "
    "(:action go :parameters (?x) :precondition (p ?x) :effect (and (q) (increase (f ?x) 2))))" % ADL,
    "(define (domain d) (:constants k) (:predicates (p ?x) (q)) (:action go :parameters (?x) :precondition (p ?x) :effect (not (p ?x))))",
    "(define (domain d) (:requirements :strips) (:predicates (p ?x) (q)) (:action go :parameters (?x) :precondition (p k) :effect (q)))",
    "(define (domain d) (:requirements :typing) (:types t1 t2) (:predicates (p ?x - (either t1 t2)) (q)) (:action go :parameters (?x - (either t2 t1)) :precondition () :effect (p ?x)))",
    "(define (domain d) %s (:types t1 - t2 t2 - t1))" % ADL, "(define (domain d) %s (:types t1 - t2 t2 - t3))" % ADL,
    "(define (domain d) %s (:predicates (p ?x)) (:derived (p ?x) (exists (?y) (p ?y))))" % ADL,
    "(define (domain d) %s (:predicates (p ?x)) (:derived (p ?y) (exists (?y) (p ?y))))" % ADL,
    "(define (domain d) %s (:functions (total-cost) - number) (:action go :parameters () :effect (increase (total-cost) 1)))" % ADL,
    "(define (domain d) (:predicates (p)) (:functions (total-cost)))",
    "(define (domain e) %s (:action go :parameters (?x ?y) :precondition (forall (?x) (p ?x)) :effect (oneof (p ?x) (p ?y))))" % ADL,
    "(define (domain e) %s (:action go :parameters (?x ?y) :precondition (forall (?y) (p ?x)) :effect (oneof (p ?y) (p ?x))))" % ADL,
    "(define (domain e) %s (:action go :parameters (?x ?x)))" % ADL, "(define (domain e) (:predicates (p) (p ?x)))",
    "(define (domain e) %s (:predicates (and)))" % ADL, "(define (domain d) %s (:types t1) (:predicates (q ?x - t0)))" % ADL,
    "(DEFINE (DOMAIN D) (:PREDICATES (P ?X)))", "(define (domain d) (:predicates (p ?x))", "(define (domain d)) ; p", "", "(", ")",
]
PROBLEMS = [
    "(define (problem q) (:domain d) (:objects a b - t1 c - t2) (:init (p a) (= (f a) 1)) (:goal (p b)) (:metric minimize (f a)))",
    "(define (problem q) (:domain d) (:objects a b - t2 c - t1) (:init (p a) (= (f a) 1.0)) (:goal (p c)) (:metric maximize (f a)))",
    "(define (problem q) (:domain d) (:objects a b c) (:init (p a) (not (p b)) (= (f a) 1.00)) (:goal (not (p b))))",
    "(define (problem q) (:domain e) (:requirements :adl) (:objects a b c) (:init (p a)) (:goal (forall (?x) (p ?x))))",
    "(define (problem q) (:domain d) (:requirements :strips) (:objects a) (:init) (:goal (and)))",
    "(define (problem q) (:domain d) (:objects a) (:init (p b)) (:goal (p b)))", "(define (problem q) (:domain d) (:objects a a) (:init) (:goal (and)))",
    "(define (problem q) (:domain d) (:objects a - t1 b - (either t1 t2)) (:init (p a)) (:goal (p a)))", "(define (problem d) (:domain q) (:init) (:goal (and)))",
    "(define (problem q) (:domain d) (:objects a) (:init (p a)) (:goal (p a)) (:metric minimize (total-cost)))", "(define (problem q) (:domain d))", "", "(",
]
PLANS = ["(go a)\n(go b)", "(go b)\n(go a)", "(go a b)", "(go)", "(stop a)", "(go c)", "", "(go k)", "(go ?x)", "(GO A)"]
GOOD_D, GOOD_P = (0, 1, 2, 3), (0, 1, 2, 4)


def text_ops():
    for kind, texts in (("domain", DOMAINS), ("problem", PROBLEMS), ("plan", PLANS)):
        for i, t in enumerate(texts):
            op("parse %s %d" % (kind, i), lambda kind=kind, t=t: env.parse(kind, t))
        op("parse %s with a new parser" % kind, lambda kind=kind, t=texts[0]: env.parse(kind, t, True))
    for kind in ("domain", "problem", "plan"):
        for i, t in enumerate(itertools.islice(mutate.mutants(kind, 1), 3, None, {"domain": 1500, "problem": 900, "plan": 60}[kind])):
            op("parse mutated %s %d" % (kind, i), lambda kind=kind, t=t: env.parse(kind, t))


def scratch():
    if SCRATCH[0] is None:
        raise RuntimeError("no scratch directory")
    return SCRATCH[0]


def write(name, text):
    """A file whose contents change while its name, its size and its times stay."""
    path = os.path.join(scratch(), name)
    with open(path, "w") as f:
        f.write(text + " " * (1000 - len(text)))
    os.utime(path, (1, 1))
    return path


def read(kind, text):
    import pddl

    return getattr(pddl, "parse_" + kind)(write(kind + ".pddl", text))


def command(*parts):
    from click.testing import CliRunner
    from pddl.__main__ import cli

    names = [write("%s.pddl" % kind, t) for kind, t in parts]
    r = CliRunner().invoke(cli, names)
    return (r.exit_code, r.output.replace(scratch(), "DIR"), type(r.exception).__name__)


def file_ops():
    for kind, texts, which in (("domain", DOMAINS, (0, 1, 3, 6)), ("problem", PROBLEMS, (0, 1, 2)), ("plan", PLANS, (0, 1, 6))):
        for i in which:
            op("read %s %d" % (kind, i), lambda kind=kind, t=texts[i]: read(kind, t))
    for d, p, l in ((0, 0, None), (0, 0, 0), (0, 2, 5), (2, 0, 0), (2, 2, 0), (6, 2, None)):
        parts = [("domain", DOMAINS[d]), ("problem", PROBLEMS[p])] + ([] if l is None else [("plan", PLANS[l])])
        op("command %d %d %s" % (d, p, l), lambda parts=parts: command(*parts))


def name_ops():
    from pddl import custom_types as T

    for f in ("parse_name", "parse_type", "parse_function"):
        for s in ("a", "A", "and", "object", "number", "total-cost", "1a", "domain"):
            op("%s %s" % (f, s), lambda f=f, s=s: getattr(T, f)(s))
    op("name of a name", lambda: T.name(T.name("a")))
    for xs in (("a", "b"), ("b", "a", "a"), ("and",)):
        op("to_names %s" % (xs,), lambda xs=xs: T.to_names(xs))
        op("to_type %s" % (xs,), lambda xs=xs: T.to_type(xs))
    for m in ({"a": "b"}, {"a": None}, {"a": "object"}, {"number": None}):
        op("to_types %s" % m, lambda m=m: T.to_types(m))


def helper_ops():
    from pddl.helpers import base as H
    from pddl.logic import helpers as G
    from pddl.requirements import Requirements as R, _extend_domain_requirements

    for g in ({"a": {"b"}, "b": {"a"}}, {"a": {"b"}, "b": {"c"}, "c": None}, {"a": {"a"}}, {"a": {"b", "c"}, "b": {"c"}, "c": set()}):
        op("find_cycle %s" % sorted(g.items(), key=str), lambda g=g: (lambda r: None if r is None else sorted(r))(H.find_cycle(dict(g))))
    for xs in (None, (), ("a",), ("a", "a"), ("b", "a")):
        op("check_no_duplicates %s" % (xs,), lambda xs=xs: H.check_no_duplicates(xs))
        op("ensure_set %s" % (xs,), lambda xs=xs: H.ensure_set(None if xs is None else set(xs)))
        op("ensure_sequence %s" % (xs,), lambda xs=xs: H.ensure_sequence(None if xs is None else list(xs)))
    for s, t in (("x", None), ("x y", ["t1"]), ("x y", ["t2"]), ("y x", None), ("x x", ["t1", "t2"])):
        op("variables %s %s" % (s, t), lambda s=s, t=t: G.variables(s, t))
        op("constants %s %s" % (s, t), lambda s=s, t=t: G.constants(s, t and t[0]))
    for rs in ("strips", "adl", "fluents", "typing", "quantified-preconditions"):
        op("extend %s" % rs, lambda rs=rs: sorted(map(str, _extend_domain_requirements({R(rs)}))))
    op("requirements", lambda: [sorted(map(str, f())) for f in (R.adl_requirements, R.fluents_requirements, R.quantified_precondition_requirements)])
    op("requirements changed", lambda: [sorted(map(str, change(f()))) for f in (R.adl_requirements, R.fluents_requirements, R.quantified_precondition_requirements)])


def change(s):
    """What the caller does with a collection it got."""
    s.clear()
    return s


def value_ops():
    """Objects that are alike: the same names with other types, numbers of other types."""
    L = absyn.lib()
    terms = [pool.v("x"), pool.v("x", "t1"), pool.v("x", "t2"), pool.v("x", "t1", "t2"), pool.c("x"), pool.c("a"), pool.c("a", "t1"), pool.c("a", "t2"), pool.c("A"), pool.v("a")]
    for t in terms:
        op("term %r" % (t,), lambda t=t: absyn.b_term(t))
        op("predicate %r" % (t,), lambda t=t: L["Predicate"]("p", absyn.b_term(t)))
        op("function %r" % (t,), lambda t=t: L["NumericFunction"]("p", absyn.b_term(t)))
        if t[0] == "v":
            op("quantified %r" % (t,), lambda t=t: L["ForallCondition"](L["Predicate"]("p", absyn.b_term(t)), [absyn.b_term(t)]))
            op("instantiated %r" % (t,), lambda t=t: L["Action"]("go", [absyn.b_term(t)], L["Predicate"]("p", absyn.b_term(t))).instantiate([L["Constant"]("a", "t1")]))
            op("instantiated otherwise %r" % (t,), lambda t=t: L["Action"]("go", [absyn.b_term(t)], L["Predicate"]("p", absyn.b_term(t))).instantiate([L["Constant"]("a")]))
    for n in (0, 1, 1.0, True, 0.0, -0.0, 2, 1e22, 10 ** 22, 0.1, -1):
        op("number %r" % (n,), lambda n=n: L["NumericValue"](n))
        op("sum %r" % (n,), lambda n=n: L["arith"]["+"](L["NumericValue"](n), L["NumericValue"](1)))
        op("assignment %r" % (n,), lambda n=n: L["asg"]["assign"](L["NumericFunction"]("f"), L["NumericValue"](n)))
    px, qa = ("atom", "p", (pool.v("x"),)), ("atom", "q", ())
    fs = [px, ("not", px), qa, ("and", (px, qa)), ("and", (qa, px)), ("or", (px, qa)), ("and", ()), ("or", ()), ("oneof", (px, qa)), ("imply", px, qa), ("=", pool.v("x"), pool.c("a"))]
    for f in fs:
        op("formula %r" % (f,), lambda f=f: absyn.build(f))
        op("negated %r" % (f,), lambda f=f: ~absyn.build(f))
        op("hash %r" % (f,), lambda f=f: hash(absyn.build(f)) == hash(absyn.build(f)))
        op("copies %r" % (f,), lambda f=f: [copy.copy(absyn.build(f)), copy.deepcopy(absyn.build(f)), pickle.loads(pickle.dumps(absyn.build(f)))])
    for f, g in itertools.product(fs[:5], repeat=2):
        op("joined %r %r" % (f, g), lambda f=f, g=g: [absyn.build(f) & absyn.build(g), absyn.build(f) | absyn.build(g), absyn.build(f) >> absyn.build(g)])
        op("compared %r %r" % (f, g), lambda f=f, g=g: [absyn.build(f) == absyn.build(g), absyn.build(f) < absyn.build(g) if f[0] == g[0] == "atom" else None])
    op("wrong name", lambda: L["Predicate"]("1"))
    op("wrong types", lambda: L["Predicate"]("p", L["Variable"]("x", {"t1"}), L["Variable"]("x", {"t2"})))
    op("right types", lambda: L["Predicate"]("p", L["Variable"]("x", {"t1"}), L["Variable"]("x", {"t1"})))
    op("called", lambda: L["Predicate"]("p", L["Variable"]("x"))(L["Constant"]("a", "t1")))
    op("called otherwise", lambda: L["Predicate"]("p", L["Variable"]("x"))(L["Constant"]("a", "t2")))
    op("called wrongly", lambda: L["Predicate"]("p", L["Variable"]("x"))())


def domain_ops():
    L = absyn.lib()
    types = {"none": (), "t1": (("t1", None),), "t2": (("t2", None),), "t1 t2": (("t1", None), ("t2", None)), "t1-t2": (("t1", "t2"),), "cycle": (("t1", "t2"), ("t2", "t1"))}
    labels = ["predicate", "function", "parameter", "precondition-forall", "effect-when", "derived-head"]
    for (tn, ts), tags, rs in itertools.product(types.items(), ((), ("t1",), ("t2",)), (("typing",), ())):
        op("domain %s %s %s constant" % (tn, tags, rs), lambda ts=ts, tags=tags, rs=rs: make_domain(ts, rs, "const:constant", tags))
        if len(tags) == 1 and (rs or tn == "t1"):
            for l in labels:
                op("domain %s %s %s %s" % (tn, tags, rs, l), lambda ts=ts, tags=tags, rs=rs, l=l: make_domain(ts, rs, l, tags))
    for fn, rt, rs in itertools.product(("f", "total-cost"), (None, "number", "t1"), (("numeric-fluents",), ("action-costs",), ())):
        op("functions %s %s %s" % (fn, rt, rs), lambda fn=fn, rt=rt, rs=rs: L["Domain"]("d", requirements=[L["Requirements"](r) for r in rs], functions={L["NumericFunction"](fn): rt}))
    x, y = L["Variable"]("x"), L["Variable"]("y")
    op("derived x", lambda: L["DerivedPredicate"](L["Predicate"]("p", L["Variable"]("x")), L["Predicate"]("q")))
    op("derived a", lambda: L["DerivedPredicate"](L["Predicate"]("p", L["Constant"]("a")), L["Predicate"]("q")))
    op("action", lambda: L["Action"]("go", [L["Variable"]("x")]))
    op("other action", lambda: L["Action"]("go", [L["Variable"]("y")], L["Predicate"]("p", L["Variable"]("y"))))
    op("no action", lambda: L["Action"]("and", []))
    for m in ("f", "g", 1, 1.0):
        for o in ("minimize", "maximize", "nothing"):
            op("metric %r %s" % (m, o), lambda m=m, o=o: L["Metric"](L["NumericFunction"](m) if isinstance(m, str) else L["NumericValue"](m), o))


def make_domain(types, reqs, label, tags):
    if label.startswith("const:"):
        parts = dict(dict(c12.const_positions(("c", "k", tags[0] if tags else None)))[label[6:]])
    else:
        parts = dict(dict(c12.positions(("v", "y", tags)))[label])
    parts.pop("fluents", None)
    return absyn.build_domain(c12.dom(reqs=frozenset(reqs + ("numeric-fluents",)), types=frozenset(types), **parts))


def parsed(kind, i):
    return env.parse(kind, {"domain": DOMAINS, "problem": PROBLEMS, "plan": PLANS}[kind][i])


def checked(p, d):
    p.check(d)
    return "fits"


def attached(p, d):
    p.domain = d
    return [p, p.domain, p.domain_name]


def valid(l, d, p):
    l.check(d, p)
    return "valid"


def whole_ops():
    for d, p in itertools.product(GOOD_D, GOOD_P):
        op("check %d %d" % (p, d), lambda d=d, p=p: checked(parsed("problem", p), parsed("domain", d)))
        op("attach %d %d" % (p, d), lambda d=d, p=p: attached(parsed("problem", p), parsed("domain", d)))
    for d, l in itertools.product(GOOD_D, range(6)):
        op("instantiate %d %d" % (l, d), lambda d=d, l=l: parsed("plan", l).instantiate(parsed("domain", d)))
    for d, p, l in itertools.product(GOOD_D[:3], GOOD_P[:3], (0, 2, 4, 5, 7)):
        op("validate %d %d %d" % (l, d, p), lambda d=d, l=l, p=p: valid(parsed("plan", l), parsed("domain", d), parsed("problem", p)))
    for kind, n in (("domain", 4), ("problem", 3), ("plan", 3)):
        for i, j in itertools.product(range(n), repeat=2):
            op("equal %s %d %d" % (kind, i, j), lambda kind=kind, i=i, j=j: parsed(kind, i) == parsed(kind, j))
        for i in range(n):
            op("copies %s %d" % (kind, i), lambda kind=kind, i=i: [copy.copy(parsed(kind, i)), copy.deepcopy(parsed(kind, i)), pickle.loads(pickle.dumps(parsed(kind, i)))])
            op("reparsed %s %d" % (kind, i), lambda kind=kind, i=i: env.parse(kind, str(parsed(kind, i))))
    op("garbage", lambda: __import__("gc").collect() < 0)


# --------------------------------------------------------------------------------- the exploration

NAMES = []
PEERS = {}
ALONE = {}  # what every operation gives as the first one of a process


def setup():
    warm("domain", "problem", "plan")
    import pddl.__main__  # noqa: F401
    import click.testing  # noqa: F401

    SCRATCH[0] = tempfile.mkdtemp(prefix="c26-")
    OPS.clear()
    GROUP.clear()
    PEERS.clear()
    for f in (text_ops, file_ops, name_ops, helper_ops, value_ops, domain_ops, whole_ops):
        f()
    NAMES[:] = list(OPS)
    for n in NAMES:
        PEERS.setdefault(GROUP[n], []).append(n)
    for n in NAMES:
        ALONE[n] = in_child(lambda n=n: run(n))


def own_scratch():
    """Processes that run at the same time have files of their own."""
    path = os.path.join(SCRATCH[0], str(os.getpid()))
    os.makedirs(path, exist_ok=True)
    return path


def in_child(f):
    """What f gives in a process of its own; ('', ...) if that failed."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(280)
            os.close(r)
            with os.fdopen(w, "w", errors="backslashreplace") as out:
                out.write("+" + f())
            os._exit(0)
        except BaseException as e:  # noqa
            sys.stderr.write("%s: %s\n" % (type(e).__name__, e))
        finally:
            os._exit(1)
    os.close(w)
    with os.fdopen(r, errors="backslashreplace") as inp:
        got = inp.read()
    os.waitpid(pid, 0)
    return got[1:] if got[:1] == "+" else "no answer " + got


def with_files(f):
    old, SCRATCH[0] = SCRATCH[0], own_scratch()
    try:
        return f()
    finally:
        shutil.rmtree(SCRATCH[0], ignore_errors=True)
        SCRATCH[0] = old


def expect(name, got, history):
    if got != ALONE[name]:
        raise Violation("after\n  %s\nthe operation %r gives\n%s\nbut alone in a process it gives\n%s" % ("\n  ".join(history[-6:]), name, got[:1500], ALONE[name][:1500]))


def chain(history):
    """Run one after the other; '' or what is wrong."""
    for i, n in enumerate(history):
        try:
            expect(n, run(n), ["(%d operations)" % i] + list(history[:i]))
        except Violation as v:
            return str(v)
    return ""


def after(first, seconds):
    """In this process, first; then, from the state that this leaves, every one of seconds, and first again."""
    wrong = chain([first])
    if wrong:
        return wrong
    for n in seconds:
        pid = os.fork()
        if pid == 0:
            os._exit(1 if chain([n, first]) else 0)
        if os.waitpid(pid, 0)[1]:
            wrong = in_child(lambda: chain([n, first]))
            return (wrong or "no answer").replace("after\n", "after %r and\n" % first)
    return ""


def pairs(first, obs):
    """All pairs with the first operation given."""
    first, seconds = first
    wrong = with_files(lambda: in_child(lambda: after(first, seconds)))
    obs.state(("after", first))
    obs.step(1 + 2 * len(seconds))
    obs.traces += len(seconds)
    if wrong:
        raise Violation(wrong)


def long(case, obs):
    """All operations in one process, in the given order."""
    how, k = case
    n = len(NAMES)
    if how == "forward":
        order = NAMES[k:] + NAMES[:k]
    elif how == "backward":
        order = (NAMES[k:] + NAMES[:k])[::-1]
    elif how == "stride":
        order = [NAMES[i * k % len(NAMES)] for i in range(len(NAMES))]
    elif how == "twice":
        order = [x for x in NAMES[k:] + NAMES[:k] for _ in range(2)]
    elif how == "repeat":
        order = [NAMES[k]] * 40
    else:  # two operations in turn
        order = [NAMES[k % n], NAMES[(k + k // n) % n]] * 40
    wrong = with_files(lambda: in_child(lambda: chain(order)))
    obs.state(case)
    obs.step(len(order))
    if wrong:
        raise Violation(wrong)


def triples(case, obs):
    """All triples of a class of operations that begin with the given two."""
    few, a, b = case
    wrong = with_files(lambda: in_child(lambda: chain([a]) or after(b, few)))
    obs.state((a, b))
    obs.step(2 + 2 * len(few))
    if wrong:
        raise Violation(wrong)


def pair_cases(level):
    """Quick: with the operations of the same group and a share of the other ones."""
    for i, a in enumerate(NAMES):
        yield (a, [b for j, b in enumerate(NAMES) if level > 1 or GROUP[a] == GROUP[b] and len(PEERS[GROUP[a]]) < 130 or (i + j) % (6 if GROUP[a] == GROUP[b] else 30) == 0])


def coprimes(n, step):
    import math

    return [k for k in range(2, n, step) if math.gcd(k, n) == 1]


def main(check):
    setup()
    try:
        pairs.seconds = long.seconds = triples.seconds = 300
        pairs.drop = long.drop = triples.drop = False  # every history has a process of its own
        n = len(NAMES)
        broken = sorted(x for x in NAMES if ALONE[x].startswith("no answer"))
        check.notes["assumptions"] = ["operations without an answer: %s" % broken]
        check.run("pairs", pairs, pair_cases(check.level), chunk=1)
        step = 4 if check.level > 1 else 60
        check.run("repetitions", long, (("repeat", i) for i in range(n)), chunk=4)
        check.run("long", long, ((h, k) for h in ("forward", "backward", "twice") for k in range(0, n, step)), chunk=1)
        check.run("strides", long, (("stride", k) for k in coprimes(n, step)), chunk=1)
        for k in range(3 if check.level > 1 else 1):
            few = NAMES[k::n // (90 if check.level > 1 else 15)]
            check.run("triples", triples, ((few, a, b) for a in few for b in few), chunk=1)
    finally:
        shutil.rmtree(SCRATCH[0], ignore_errors=True)
    check.notes["explanation"] = (
        "states: histories; transitions: operations. %d operations of every part of the library, most of them in versions that differ in little "
        "(the same names with other types, equal numbers of different types, files of the same name, size and time): each gives the same "
        "after every single other one, again after that, after all the others in many orders, and 40 times in a row, as it gives "
        "as the first one in a process that has only imported the library; every history begins in such a process." % n
    )
