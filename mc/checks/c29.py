"""An operation that is interrupted leaves nothing behind: it has happened or it has not."""

import copy
import decimal
import gc
import itertools
import logging
import os
import pickle
import random
import re
import signal
import sys
import warnings

from mc import absyn, env, interrupt, mutate, pool
from mc.checks import c26
from mc.checks.c26 import about
from mc.checks.common import warm
from mc.run import Violation

# ------------------------------------------------------------------------------------- operations
# name -> (make, act, look): make gives the objects, act is the operation, look describes all of them
# (and the parsers used); `changes` says whether the operation may change what look describes.

OPS = {}
FAMILY = {}


def op(family, name, make, act, look, changes=False):
    name = "%s: %s" % (family, name)
    assert name not in OPS, name
    OPS[name] = (make, act, look, changes)
    FAMILY.setdefault(family, []).append(name)


def outcome(f):
    try:
        return about(f())
    except Exception as e:
        return ("raises", type(e).__name__)


BAD = {
    "domain": ["(define (domain d) (:predicates (p ?x)) (:action a :parameters (?x) :precondition (p ?y)))", "(define (domain d) (:requirements :typing) (:types a - b b - a))", "(define (domain d) (:predicates (p))"],
    "problem": ["(define (problem p) (:domain d) (:objects a a) (:init) (:goal (and)))", "(define (problem p) (:domain d) (:init (p)) (:goal (and"],
    "plan": ["(go a", "(go ?x)"],
}
PROBES = {
    "domain": [mutate.DOMAINS[i] for i in (4, 7)] + BAD["domain"][:1],
    "problem": [mutate.PROBLEMS[i] for i in (1, 3)] + BAD["problem"][:1],
    "plan": ["(go a b)\n(stop)", ""],
}
TEXTS = {"domain": mutate.DOMAINS + c26.DOMAINS[:2] + BAD["domain"], "problem": mutate.PROBLEMS + c26.PROBLEMS[:1] + BAD["problem"], "plan": mutate.PLANS + c26.PLANS[:1] + BAD["plan"]}


def parser_ops():
    """The text of which the reading is interrupted, and the one that the parser reads next."""
    for kind in ("domain", "problem", "plan"):
        for (i, t), (j, u) in itertools.product(enumerate(TEXTS[kind]), enumerate(PROBES[kind])):
            op("read", "%s %d, then %d" % (kind, i, j), tuple, lambda c, kind=kind, t=t: env.parse(kind, t), lambda c, kind=kind, u=u: outcome(lambda: env.parse(kind, u)))
        op("build", "%s parser" % kind, tuple, lambda c, kind=kind: env.parse(kind, TEXTS[kind][0], True), lambda c: None)


def values(level):
    """One entry of every shape of the pool."""
    seen = {}
    for e in pool.unique(0):
        def shape(a):
            if isinstance(a, tuple) and a and isinstance(a[0], str):
                return (a[0] if a[0] not in ("v", "c") else "t",) + tuple(shape(x) for x in a[1:] if isinstance(x, tuple))
            return tuple(map(shape, a)) if isinstance(a, tuple) else None

        seen.setdefault((e[0], shape(e[1])), e)
    es = list(seen.values())
    return es if level > 1 else es[:: max(1, len(es) // 110)]


def describe(c):
    return tuple(repr(about(x)) for x in c) + (len({hash(x) for x in c}), len(set(c)), all(x == c[0] for x in c))


def unary(x):
    """The operations on one value."""
    yield "hash", lambda c: hash(c[0])== hash(c[1])
    yield "equal", lambda c: c[0] == c[1]
    yield "str", lambda c: str(c[0])
    yield "repr", lambda c: repr(c[0])
    yield "copy", lambda c: copy.copy(c[0])
    yield "deepcopy", lambda c: copy.deepcopy(c[0])
    yield "pickle", lambda c: pickle.loads(pickle.dumps(c[0]))
    yield "set", lambda c: len({c[0], c[1]})
    yield "hash of a copy", lambda c: hash(copy.copy(c[0])) == hash(pickle.loads(pickle.dumps(c[1])))
    if hasattr(x, "__lt__") and type(x).__lt__ is not object.__lt__:
        yield "less", lambda c: c[0] < c[1]
    if hasattr(x, "__invert__"):
        yield "invert", lambda c: ~c[0]
        yield "and", lambda c: c[0] & c[1]
        yield "or", lambda c: c[0] | c[1]
        yield "imply", lambda c: c[0] >> c[1]


def value_ops(level):
    for e in values(level):
        x = pool.make(e)
        for label, f in unary(x):
            op("value", "%s of %r" % (label, e), lambda e=e: [pool.make(e), pool.make(e)], f, describe)
        op("value", "making %r" % (e,), tuple, lambda c, e=e: pool.make(e), lambda c: None)


ARGS = [("c", "a", "t1"), ("c", "k", None), ("c", "a", None)]


def whole_ops():
    def one(kind, i):
        return lambda: [c26.parsed(kind, i), c26.parsed(kind, i)]

    def look(c):
        return tuple(repr(about(x)) for x in c)

    for kind, n in (("domain", 4), ("problem", 3), ("plan", 3)):
        for i in range(n):
            for label, f in (
                ("str", lambda c: str(c[0])), ("repr", lambda c: repr(c[0])), ("equal", lambda c: c[0] == c[1]), ("copy", lambda c: copy.copy(c[0])),
                ("deepcopy", lambda c: copy.deepcopy(c[0])), ("pickle", lambda c: pickle.loads(pickle.dumps(c[0]))),
            ):
                op("whole", "%s of %s %d" % (label, kind, i), one(kind, i), f, look)
            ast = absyn.dump_any(kind, c26.parsed(kind, i))
            op("whole", "making %s %d" % (kind, i), tuple, lambda c, kind=kind, ast=ast: absyn.build_any(kind, ast), lambda c: None)
    for i in range(4):
        op("whole", "formatted domain %d" % i, one("domain", i), lambda c: formatter().domain_to_string(c[0]), look)
    for i in range(3):
        op("whole", "formatted problem %d" % i, one("problem", i), lambda c: formatter().problem_to_string(c[0]), look)
    for d, l in itertools.product(range(3), range(4)):
        op("whole", "instantiate %d %d" % (d, l), lambda d=d, l=l: [c26.parsed("plan", l), c26.parsed("domain", d)], lambda c: c[0].instantiate(c[1]), look)
    for d, p, l in itertools.product(range(3), range(3), (0, 4, 5)):
        op("whole", "validate %d %d %d" % (d, p, l), lambda d=d, p=p, l=l: [c26.parsed("plan", l), c26.parsed("domain", d), c26.parsed("problem", p)], lambda c: c[0].check(c[1], c[2]), look)
    L = absyn.lib()
    for i in range(3):
        for args in itertools.product(ARGS, repeat=1):
            op(
                "whole", "instantiate action %d %r" % (i, args), lambda i=i, args=args: [list(c26.parsed("domain", i).actions)[0]] + [absyn.b_term(t) for t in args],
                lambda c: c[0].instantiate(c[1:]), look,
            )
    assert L


def formatter():
    import pddl.formatter as f

    return f


def problem_ops():
    """Checks and attachments of a problem that has a domain or not: it ends with the old one or the new one."""
    def state(c):
        p = c[0]
        return (
            repr(about(p)), outcome(lambda: p.domain), outcome(lambda: p.domain_name), outcome(lambda: p.requirements),
            tuple(repr(about(d)) for d in c[1:]),
        )

    def attach(c):
        c[0].domain = c[-1]

    ds = (0, 1, 2, 3, 5)
    for p in (0, 1, 2, 4):
        for d in ds:
            op("problem", "check %d %d" % (p, d), lambda d=d, p=p: [c26.parsed("problem", p), c26.parsed("domain", d)], lambda c: c[0].check(c[1]), state)
            op("problem", "attach %d %d" % (p, d), lambda d=d, p=p: [c26.parsed("problem", p), c26.parsed("domain", d)], attach, state, True)
        for first, d in itertools.product(ds[:4], ds):
            def make(p=p, first=first, d=d):
                c = [c26.parsed("problem", p), c26.parsed("domain", first), c26.parsed("domain", d)]
                try:
                    c[0].domain = c[1]
                except Exception:
                    pass
                return c

            op("problem", "attach %d %d %d" % (p, first, d), make, attach, state, True)


SLOW = ["read domain 1", "read problem 1", "read plan 1", "command 0 0 0", "read domain 6", "command 0 2 5", "command 0 0 None"]


class Failed(Exception):
    pass


def command(n):
    def act(c):
        r = c26.OPS[n]()
        if r[0] != 0:
            raise Failed()
        return r

    return act


def other_ops(level):
    """Operations of C26 (their arguments are made by the operation itself): they give the same afterwards."""
    step = 2 if level > 1 else 12
    for g in sorted(set(c26.GROUP.values())):
        names = [n for n in c26.NAMES if c26.GROUP[n] == g and not n.startswith("parse ") and not n.startswith("garbage")]
        if g == "file_ops":  # every one builds parsers, which is slow
            for n in names:
                if n in SLOW[: len(SLOW) if level > 1 else 4]:
                    op("files", n, tuple, command(n) if n.startswith("command") else lambda c, n=n: c26.OPS[n](), lambda c: None)
            continue
        for n in names[::step]:
            op("other", n, tuple, lambda c, n=n: c26.OPS[n](), lambda c: None)


def setup(level=2):
    warm("domain", "problem", "plan")
    import pddl.__main__  # noqa: F401
    import click.testing  # noqa: F401
    import tempfile

    if not c26.OPS:
        for f in (c26.text_ops, c26.file_ops, c26.name_ops, c26.helper_ops, c26.value_ops, c26.domain_ops, c26.whole_ops):
            f()
        c26.NAMES[:] = list(c26.OPS)
    if c26.SCRATCH[0] is None:
        c26.SCRATCH[0] = tempfile.mkdtemp(prefix="c29-")
    OPS.clear()
    FAMILY.clear()
    parser_ops()
    value_ops(level)
    whole_ops()
    problem_ops()
    other_ops(level)


# ----------------------------------------------------------------------------------- exploration

PLAIN = {}


def described(got):
    return got if got[0] == "raises" else ("value", re.sub(" at 0x[0-9a-f]+", "", repr(about(got[1]))))


def plain(name):
    """What the operation does if nothing happens: before, result, after, result if done again; the number of points."""
    if name not in PLAIN:
        make, act, look, _ = OPS[name]
        for _ in range(2):  # the first time, lazy things are done
            c = make()
            before = look(c)
            c = make()
            r, n = interrupt.run(lambda: act(c))
            after = look(c)
            again = interrupt.run(lambda: act(c))[0]
        PLAIN[name] = (before, described(r), after, described(again), n)
    return PLAIN[name]


def verify(name, c, got, where):
    """The objects are as before or after; the operation may be done now."""
    make, act, look, changes = OPS[name]
    before, r, after, again, _ = PLAIN[name]
    if got[0] == "value" and described(got) != r:
        raise Violation("%s\n%s: it ends, but gives\n%r\ninstead of\n%r" % (name, where, described(got), r))
    seen = look(c)
    if seen == before and not (got[0] == "value" and changes):
        expected = r
    elif seen == after and changes:
        expected = again
    else:
        raise Violation("%s\n%s: it left\n%r\nwhich is neither what was there before\n%r\nnor what is there afterwards\n%r" % (name, where, seen, before, after))
    then = described(interrupt.run(lambda: act(c))[0])
    if then != expected:
        raise Violation("%s\n%s; the operation then gives\n%r\ninstead of\n%r" % (name, where, then, expected))
    if changes and look(c) != after:
        raise Violation("%s\n%s; the operation then leaves\n%r\ninstead of\n%r" % (name, where, look(c), after))


def settings():
    """What the whole interpreter uses, and an operation may change only while it works."""
    d = decimal.getcontext()
    return {
        "recursion limit": sys.getrecursionlimit(), "traceback limit": getattr(sys, "tracebacklimit", None), "directory": os.getcwd(),
        "decimal": (d.prec, d.rounding, d.Emin, d.Emax, d.capitals), "collector": gc.isenabled(), "output": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(warnings.showwarning)), "warnings": len(warnings.filters),
        "signals": (repr(signal.getsignal(signal.SIGINT)), repr(signal.getsignal(signal.SIGTERM))), "logging": (logging.root.level, logging.root.manager.disable),
        "switch interval": sys.getswitchinterval(), "path": tuple(sys.path), "environment": len(os.environ), "int digits": sys.get_int_max_str_digits(),
        "random": random.getstate()[1][-1],
    }


def same_settings(before, name, where):
    now = settings()
    if now != before:
        raise Violation("%s\n%s: it left settings of the interpreter changed: %s" % (
            name, where, ", ".join("%s: %r -> %r" % (k, before[k], now[k]) for k in now if now[k] != before[k])))


def interrupted(case, obs):
    """One operation, interrupted at the points given."""
    limit = sys.getrecursionlimit()
    try:
        sys.setrecursionlimit(1000)  # as an interpreter has it
        c26.with_files(lambda: interruptions(case, obs))
    finally:
        sys.setrecursionlimit(limit)


def interruptions(case, obs):
    name, kind, start, stop, stride = case
    make, act, look, _ = OPS[name]
    n = plain(name)[4]
    for k in range(start, min(stop, n) + 1, stride):
        c = make()
        was = settings()
        got, _ = interrupt.run(lambda: act(c), k, kind)
        same_settings(was, name, "%s at point %d of %d" % (kind, k, n))
        obs.state((name, kind, k, got[0]))
        obs.step(3)
        obs.traces += 1
        verify(name, c, got, "%s at point %d of %d" % (kind, k, n))


def shallow(case, obs):
    """One operation with every number of frames that it may open, until it is enough."""
    (name,) = case
    c26.with_files(lambda: rooms(name, obs))


def rooms(name, obs):
    make, act, look, _ = OPS[name]
    r = plain(name)[1]
    for room in range(3, 400):
        c = make()
        was = settings()
        got = interrupt.shallow(lambda: act(c), room)
        same_settings(was, name, "a stack of %d frames" % room)
        obs.state((name, room, got[0]))
        obs.step(3)
        obs.traces += 1
        verify(name, c, got, "a stack of %d frames" % room)
        if described(got) == r and (got[0] == "value" or room > 200):
            break


def cases(names, kinds, size, stride):
    for name in names:
        n = c26.with_files(lambda: plain(name))[4]
        for kind in kinds if not name.startswith("read") or name.endswith(" 0") else kinds[:1]:
            for k in range(1, n + 1, size):
                yield (name, kind, k, k + size - 1, stride)


def main(check):
    import shutil

    setup(check.level)
    try:
        interrupted.seconds = shallow.seconds = 200
        kinds = list(interrupt.KINDS) if check.level > 1 else ["KeyboardInterrupt", "TimeOut"]
        for family in sorted(FAMILY):
            slow = family in ("build", "files")
            stride = 1 if not slow else 3 if check.level > 1 else 11 if family == "files" else 1
            check.run("interrupted " + family, interrupted, cases(FAMILY[family], kinds[:1] if slow else kinds, 60, stride), chunk=1 if slow else 4)
            if family != "files":
                check.run("stack " + family, shallow, ((n,) for n in FAMILY[family]), chunk=1)
    finally:
        shutil.rmtree(c26.SCRATCH[0], ignore_errors=True)
        c26.SCRATCH[0] = None
    gc.collect()
    check.notes["explanation"] = (
        "states: operations with the point at which they are interrupted; transitions: operations. %d operations of every part of the library are "
        "interrupted by an exception at every point at which the interpreter lets a handler of a signal run in the code of the library (a function "
        "is entered, a C function has returned, a loop goes round), and are run with every size of the stack up to the one that they need; "
        "afterwards the objects, the parser and the module are as before or as after the operation, and the operation gives what it should." % len(OPS)
    )
