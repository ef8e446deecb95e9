"""Equality is structural, hashes agree with it, copies and pickles preserve it."""

import copy
import itertools
import os
import pickle
import random
import subprocess
import sys

from mc import absyn, env, fam, pool, sread
from mc.run import Violation

_made = {}
DOCS = ("domain", "problem", "plan", "attached")


def parts(level):
    """The pool: entries, keys, two independently built objects per entry."""
    if level not in _made:
        es = list(pool.unique(level))
        a = [pool.make(e) for e in es]
        ks = [pool.key(e, x) for e, x in zip(es, a)]
        # the second copies are built in the opposite order, from text that is not shared
        b = [pool.make(eval(repr(e))) for e in reversed(es)][::-1]
        _made[level] = (es, ks, a, b)
    return _made[level]


def docs(level):
    """The same for domains, problems and plans."""
    tag = ("docs", level)
    if tag not in _made:
        es, seen = [], set()
        for kind, texts in (
            ("domain", fam.domain_deviations(1)),
            ("domain", itertools.islice(fam.domain_deviations(2), 96, None, 17 if level == 1 else 3)),
            ("problem", fam.problem_deviations(1)),
            ("problem", itertools.islice(fam.problem_deviations(2), 50, None, 9 if level == 1 else 3)),
            ("plan", fam.plans(2, False)),
        ):
            for t in texts:
                verdict, ast = sread.read(kind, t)
                if verdict != "ok":
                    continue
                ast = absyn.norm(ast)
                if (kind, ast) not in seen:
                    seen.add((kind, ast))
                    es.append((kind, ast))
        some = [e[1] for e in es if e[0] == "domain"][:60]
        for i, d in enumerate(some):
            for q in [e[1] for e in es if e[0] == "problem"][:3]:
                q = q[:3] + (frozenset(),) + q[4:5] + (frozenset(), ("and", ()), None)
                es.append(("attached", (d, q)))
        es = [e for e in es if possible(e)]
        a = [pool.make(e) for e in es]
        b = [pool.make(e) for e in reversed(es)][::-1]
        ks = [pool.key(e, x) for e, x in zip(es, a)]
        _made[tag] = (es, ks, a, b)
    return _made[tag]


def possible(e):
    """A problem can be attached to a domain only if it fits."""
    if e[0] == "attached":
        try:
            pool.make(e)
        except Exception:  # noqa
            return False
    return True


def differ(what, x, y):
    raise Violation("%s:\n%r\n%r\nprinted:\n%s\n%s" % (what, x, y, x, y))


FOREIGN = (None, 0, 1.5, True, "", "p", (), [], {}, object, frozenset())


def row(case, obs):
    """One object against all."""
    which, level, i = case
    es, ks, a, b = parts(level) if which == "parts" else docs(level)
    hashable = es[i][0] not in DOCS
    x = a[i]
    obs.state(ks[i])
    if not (x == x) or x != x:
        differ("an object differs from itself", x, x)
    for f in FOREIGN + (str(x),):
        if x == f or f == x or not (x != f):
            differ("equal to an object of another kind", x, f)
    h = hash(x) if hashable else None
    for j, y in enumerate(b):
        want = ks[i] == ks[j]
        if want and es[i] != es[j] and es[i][0] in ("domain", "problem", "attached"):
            continue  # differ by the types of constants only: open
        if (x == y) is not want:
            differ("equality is %s instead of %s" % (x == y, want), x, y)
        if (x != y) is want:
            differ("inequality is %s" % want, x, y)
        if (y == x) is not want:
            differ("equality is not symmetric", x, y)
        if want and hashable and hash(y) != h:
            differ("equal objects with different hashes", x, y)
        if hashable and es[i][0] == es[j][0] and len({x, y}) != (1 if want else 2):
            differ("a set holds %d of" % len({x, y}), x, y)
    obs.step(len(b))
    if hashable and (hash(x) != h or hash(a[i]) != h):
        differ("the hash changes", x, x)


# ------------------------------------------------------------------------------ copies

OPS = ("hash", "str", "repr", "set", "copy", "deepcopy", "pickle")


def copies(x, protocols):
    yield "copy", copy.copy(x)
    yield "deepcopy", copy.deepcopy(x)
    for p in protocols:
        yield "pickle protocol %d" % p, pickle.loads(pickle.dumps(x, p))


def same_thing(x, y, how, hashable, text):
    if not (x == y and y == x) or x != y:
        differ("%s is not equal to its original" % how, x, y)
    if type(x) is not type(y) or str(y) != text or repr(y) != repr(x):
        if type(x) is not type(y) or str(y) != text:
            differ("%s prints differently" % how, x, y)
    if hashable and (hash(x) != hash(y) or x not in {y} or y not in {x} or {x: 1}.get(y) != 1):
        differ("%s is not found in a set of its original" % how, x, y)


def copied(case, obs):
    """Copies and pickles of one object, before and after its hash is used."""
    which, level, i = case
    es, ks, a, b = parts(level) if which == "parts" else docs(level)
    hashable = es[i][0] not in DOCS
    for first in (False, True):
        x = pool.make(es[i])
        if first and hashable:
            hash(x)
        text = str(x)
        for how, y in copies(x, range(pickle.HIGHEST_PROTOCOL + 1)):
            same_thing(x, y, how, hashable, text)
            if pool.raw(es[i], y) != pool.raw(es[i], b[i]):
                differ("%s has other components" % how, x, y)
            same_thing(b[i], y, how, hashable, text)
            obs.step()
        same_thing(b[i], x, "an object that has been copied", hashable, text)
    obs.state((ks[i], "copied"))


def apply(op, x, hashable):
    if op == "hash":
        if hashable:
            hash(x)
    elif op == "str":
        str(x)
    elif op == "repr":
        repr(x)
    elif op == "set":
        if hashable:
            x in {x}  # noqa: B015
    elif op == "copy":
        return copy.copy(x)
    elif op == "deepcopy":
        return copy.deepcopy(x)
    elif op == "pickle":
        return pickle.loads(pickle.dumps(x))
    return x


def history(case, obs):
    """A sequence of operations; afterwards every object that was made still is the same."""
    which, level, i, ops = case
    es, ks, a, b = parts(level) if which == "parts" else docs(level)
    hashable = es[i][0] not in DOCS
    x = pool.make(es[i])
    text = str(b[i])
    made = [x]
    for op in ops:
        x = apply(op, x, hashable)
        made.append(x)
        obs.step()
    for y in made:
        same_thing(b[i], y, "after %s an object" % "+".join(ops), hashable, text)
    obs.state((i, ops))


# ------------------------------------------------------------------------------ other interpreters

CODE = """
import sys
sys.path.insert(0, %r)
from mc.checks import c16
c16.process(*sys.argv[1:])
"""


def run_python(seed, args):
    e = dict(os.environ, PYTHONHASHSEED=str(seed), PDDL_REPO=env.REPO)
    p = subprocess.run(
        [sys.executable, "-c", CODE % env.VERIF] + [str(x) for x in args], env=e, capture_output=True,
        timeout=300,
    )
    if p.returncode:
        raise RuntimeError("process ended with %s: %s" % (p.returncode, p.stderr.decode()[-2000:]))
    return p.stdout.decode()


def everything(level):
    """Entries and objects of both pools; the large pool of parts is thinned."""
    for which in ("parts", "docs"):
        es, ks, a, b = parts(level) if which == "parts" else docs(level)
        for e, x in zip(es, a):
            yield e, x


def process(what, *args):
    """The body of another interpreter."""
    sys.setrecursionlimit(5000)
    if what == "write":
        level, path, protocol, hashed = int(args[0]), args[1], int(args[2]), int(args[3])
        with open(path, "wb") as f:
            for e, x in everything(level):
                if hashed and e[0] not in DOCS:
                    hash(x)
                pickle.dump((x, str(x)), f, protocol)
    elif what == "read":
        level, path, again, protocol = int(args[0]), args[1], args[2], int(args[3])
        out = open(again, "wb") if again != "-" else None
        with open(path, "rb") as f:
            for e, fresh in everything(level):
                hashable = e[0] not in DOCS
                x, text = pickle.load(f)
                if again == "-" and hashable:
                    hash(fresh)
                try:
                    same_thing(fresh, x, "an object pickled in another interpreter", hashable, text)
                    same_thing(fresh, x, "an object pickled in another interpreter", hashable, str(fresh))
                    if pool.raw(e, x) != pool.raw(e, fresh):
                        differ("pickling in another interpreter changes components", x, fresh)
                except Violation as v:
                    print("VIOLATES", e, v)
                    return
                if out:
                    pickle.dump((x, text), out, protocol)
        if out:
            out.close()
    print("FINE")


def interpreters(case, obs):
    """write with one hash seed, read and write with another, read with a third"""
    import tempfile

    level, seeds, protocol, hashed = case
    with tempfile.TemporaryDirectory(prefix="mc16") as d:
        one, two = os.path.join(d, "1"), os.path.join(d, "2")
        for args in (
            ("write", level, one, protocol, hashed), ("read", level, one, two, protocol),
            ("read", level, two, "-", protocol),
        ):
            out = run_python(seeds[0], args)
            seeds = seeds[1:]
            if not out.startswith("FINE"):
                raise Violation("interpreters with hash seeds %r: %s" % (case[1], out[:1500]))
            obs.step()
        for n in (one, two):
            with open(n, "rb") as f:
                for e, fresh in everything(level):
                    x, text = pickle.load(f)
                    same_thing(
                        fresh, x, "an object pickled in another interpreter",
                        e[0] not in DOCS, text,
                    )
    obs.state(case)


def main(check):
    level = check.level
    es = parts(level)[0]
    ds = docs(level)[0]
    check.run("pairs-of-parts", row, (("parts", level, i) for i in range(len(es))), 20)
    check.run("pairs-of-documents", row, (("docs", level, i) for i in range(len(ds))), 5)
    check.run("copies-of-parts", copied, (("parts", level, i) for i in range(len(es))), 50)
    check.run("copies-of-documents", copied, (("docs", level, i) for i in range(len(ds))), 10)
    picked = range(0, len(es), 60 if level > 1 else 40)
    n = 4 if level > 1 else 3
    check.run(
        "histories-of-parts", history,
        (("parts", level, i, ops) for i in picked for k in range(1, n + 1) for ops in itertools.product(OPS, repeat=k)), 200,
    )
    check.run(
        "histories-of-documents", history,
        (("docs", level, i, ops) for i in range(0, len(ds), max(1, len(ds) // 25)) for ops in itertools.product(OPS, repeat=2)), 50,
    )
    chains = list(itertools.product((0, 1, 2), repeat=3)) if level > 1 else [(0, 1, 2), (1, 1, 0), (2, 0, 0)]
    protocols = range(6) if level > 1 else (2, 5)
    check.run(
        "interpreters", interpreters,
        ((level if h == 0 and p == 5 else 1, s, p, h) for s in chains for p in protocols for h in (0, 1)), 1,
    )
    check.notes["explanation"] = (
        "states: distinct objects and histories; transitions: pairs compared, copies made and steps of histories. "
        "Every ordered pair of a pool of enumerated terms, atoms, formulas, expressions, effects, actions, derived "
        "predicates and metrics, and of domains, problems and plans that differ in one section, is compared by == != "
        "and hash with the equality of their abstract syntax; every object is copied and pickled with every protocol, "
        "before and after its hash is cached; all sequences of hash/str/repr/set/copy/deepcopy/pickle; pickles travel "
        "through chains of interpreters with different hash seeds."
    )
