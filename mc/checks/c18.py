"""Printed texts depend on the content only."""

import hashlib
import itertools
import json
import math
import os
import re
import subprocess
import sys

from mc import absyn, env, fam, setorder, sread
from mc.checks.common import warm
from mc.run import Violation

R = ":adl :typing :equality :numeric-fluents :action-costs :derived-predicates :non-deterministic"
# sections whose elements tie under many a sorting key: by case, by length, by a common name, by value
TIES = {
    "requirements": [":adl", ":strips", ":typing", ":equality", ":numeric-fluents", ":fluents"],
    "constants": ["a", "A", "a1 - t1", "A1 - t1", "a10 - t1", "b - t2", "a-b", "a_b", "aa - T1"],
    "predicates": ["(p)", "(P)", "(p ?x)", "(p ?y)", "(p ?x - t1)", "(p ?X)", "(p ?x ?y)", "(p ?y ?x)", "(q)", "(p ?x - t2)", "(pq)"],
    "either": ["(p ?x - (either %s))", "(q ?x ?y - (either %s))", "(r ?x - (either %s) ?y)"],
    "functions": ["(f)", "(F)", "(f ?x)", "(f ?y)", "(f ?x - t1)", "(f ?x ?y)", "(g)", "(g ?x - t2)"],
    "derived": [
        "(:derived (p) (q))", "(:derived (p) (pq))", "(:derived (p) (not (q)))", "(:derived (q) (p))", "(:derived (P) (q))",
        "(:derived (d ?x) (q))", "(:derived (d ?y) (q))", "(:derived (d ?x - t1) (q))", "(:derived (d ?x) (p))",
    ],
    "actions": [
        "(:action go :parameters ())", "(:action Go :parameters ())", "(:action go :parameters (?x))",
        "(:action go :parameters (?y))", "(:action go :parameters (?x - t1))", "(:action go :parameters () :effect (p))",
        "(:action go :parameters () :precondition (p))", "(:action go :parameters () :precondition (p) :effect (q))",
        "(:action goo :parameters ())",
    ],
    "types": ["t1 - t0", "t2 - t0", "t3", "T1 - t3", "s - t1", "S", "t10 - t3"],
    "vars": ["?x", "?X", "?y - t1", "?Y - t1", "?z - (either t1 t2)", "?w", "?v - t2", "?x1 - t1", "?x10"],
    "objects": ["a", "A", "b - t1", "B - t1", "a1 - t2", "a10 - t2", "c", "aa"],
    "init": [
        "(p)", "(P)", "(not (p))", "(p a)", "(p b)", "(not (p a))", "(p a b)", "(p b a)", "(= (f) 1)", "(= (f) 2)", "(= (f a) 1)", "(q)",
    ],
}
DEFAULT = "t1 t2 t3 T1 t4"


def document(slot, items):
    """A text with the items in the slot."""
    s = " ".join(items)
    if slot in ("objects", "init"):
        return "problem", "(define (problem q) (:domain d) %s (:init %s) (:goal (and)))" % (
            "(:objects %s)" % s if slot == "objects" else "", s if slot == "init" else "")
    if slot == "goal-vars":
        return "problem", (
            "(define (problem q) (:domain d) (:requirements :adl) (:init) (:goal (forall (%s) (exists (%s) (p)))))" % (s, s))
    d = {"requirements": R, "types": DEFAULT}
    rest = ""
    if slot in ("requirements", "types"):
        d[slot] = s
    elif slot in ("constants", "predicates", "functions"):
        rest = "(:%s %s)" % (slot, s)
    elif slot == "number-functions":
        rest = "(:functions %s - number)" % " - number ".join(items)
    elif slot == "either":
        rest = "(:predicates %s) (:action a :parameters (?x - (either %s)))" % (" ".join(p % s for p in TIES["either"]), s)
    elif slot == "actions":
        rest = s
    elif slot == "derived":
        heads = sorted({re.match(r"\(:derived (\([^()]*\))", h).group(1) for h in items})
        heads = sorted({re.sub(r"\?.*", "?v)", h) for h in heads})
        rest = "(:predicates %s)" % " ".join(heads) + s
    elif slot == "vars":
        rest = "(:predicates (p)) (:action a :parameters () :precondition (forall (%s) (p)) :effect (forall (%s) (p)))" % (s, s)
        rest += "(:derived (p) (exists (%s) (p)))" % s
    if slot == "requirements":
        d["types"] = ""
    return "domain", "(define (domain d) (:requirements %s) %s %s)" % (
        d["requirements"], "(:types %s)" % d["types"] if d["types"] else "", rest)


def menu(slot):
    return {
        "number-functions": TIES["functions"], "goal-vars": TIES["vars"], "either": ["t1", "t2", "t3", "T1", "t4"],
    }.get(slot, TIES.get(slot))


SLOTS = [k for k in TIES] + ["number-functions", "goal-vars"]


def text_of(kind, text, obs):
    how, x = env.outcome(kind, text, obs.fresh)
    if how == "exc":
        raise Violation("rejected: %s\n%s" % (env.brief(x), text))
    return x


def written(case, obs):
    """All orders in which the elements of a section are written, and all orders in which the sets are iterated."""
    slot, idx = case
    items = [menu(slot)[i] for i in idx]
    if slot == "types":
        # only the pairs whose supertypes do not matter to one another
        pass
    texts = set()
    n = math.factorial(len(items))
    for rank, p in enumerate(itertools.permutations(items)):
        if slot in ("vars", "goal-vars", "types", "objects", "constants"):
            # an item without type is written last: before a typed one it would be typed
            p = sorted(p, key=lambda i: " - " not in i)
        kind, text = document(slot, p)
        x = text_of(kind, text, obs)
        first = str(x)
        texts.add(first)
        with setorder.controlled(rank):
            y = text_of(kind, text, obs)
            texts |= {str(y), str(y)}
        obs.step(3)
        if len(texts) > 1:
            break
    obs.state((slot, idx))
    if len(texts) > 1:
        raise Violation("texts of the same %s:\n%s" % (kind, "\n".join(sorted(texts)[:3])))
    assert n


def subsets(level):
    for slot in SLOTS:
        n = len(menu(slot))
        for k in (2, 3, 4) if level > 1 else (2, 3):
            for c in itertools.combinations(range(n), k):
                if level == 1 and k == 3 and sum(c) % 3 and n > 7:
                    continue
                yield (slot, c)


# ------------------------------------------------------------------------------ iteration orders


def iterated(case, obs):
    """One text under all iteration orders of the sets of the library, up to the given rank."""
    kind, text, ranks = case
    x = text_of(kind, text, obs)
    want = str(x)
    obs.state(want)
    if str(x) != want:
        raise Violation("printing twice differs:\n%s" % want)
    for r in range(ranks):
        with setorder.controlled(r):
            # the parser and its classes are shared: only the sets differ
            y = text_of(kind, text, obs)
            got, again = str(y), str(y)
        obs.step()
        if got != want or again != want:
            raise Violation("the text depends on the order of a set:\n%s\n---\n%s" % (want, got if got != want else again))
        if not x == y:
            raise Violation("the object depends on the order of a set:\n%s" % want)
        if str(x) != want:
            raise Violation("printing again differs:\n%s" % want)


# ------------------------------------------------------------------------------ API, insertion orders


def inserted(case, obs):
    """Objects built from lists and dictionaries in every order."""
    kind, ast, slot, k = case
    texts, first = set(), None
    part = ast[slot]
    for p in itertools.permutations(sorted(part, key=repr)):
        def order(xs, p=p):
            return list(p) if xs == part else sorted(xs, key=repr)

        x = (absyn.build_domain if kind == "domain" else absyn.build_problem)(ast, order)
        texts.add(str(x))
        if first is None:
            first = x
        if not x == first:
            raise Violation("the order of the collection makes a difference:\n%s\n%s" % (first, x))
        obs.step()
        if len(texts) > 1:
            raise Violation("the text depends on the order of the collection:\n%s" % "\n---\n".join(sorted(texts)))
    obs.state((kind, slot, part))


def insertions(level):
    for kind, texts in (("domain", fam.domain_deviations(1)), ("problem", fam.problem_deviations(1))):
        seen = set()
        for t in itertools.chain(texts, many(kind)):
            verdict, ast = sread.read(kind, t)
            if verdict not in ("ok", "maybe") or ast is None:
                continue
            ast = absyn.norm(ast)
            for slot in range(len(ast)):
                if isinstance(ast[slot], frozenset) and 1 < len(ast[slot]) <= (6 if level > 1 else 5):
                    if (slot, ast[slot]) not in seen:
                        seen.add((slot, ast[slot]))
                        yield (kind, ast, slot, len(ast[slot]))


def many(kind):
    for slot in SLOTS:
        items = menu(slot)
        for i in range(0, len(items) - 3):
            p = sorted(items[i : i + 4], key=lambda i: " - " not in i)
            k, t = document(slot, p)
            if k == kind:
                yield t


# ------------------------------------------------------------------------------ names


def renamed(case, obs):
    """Names chosen such that real sets of the elements are iterated in every order; after renaming
    the texts are the same."""
    slot, k = case
    letters = "abcdef"[:k]
    seen, want = set(), None
    made = 0
    for m in range(2000):
        ns = [m * (i + 5) % 97 + 10 for i in range(k)]
        names = ["%s%d" % (x, n) for x, n in zip(letters, ns)]
        form = {
            "constants": "%s", "objects": "%s", "predicates": "(%s ?x)", "init": "(%s)", "vars": "?%s", "goal-vars": "?%s",
            "functions": "(%s)", "actions": "(:action %s :parameters ())", "derived": "(:derived (%s) (and))", "types": "%s - object",
            "either": "%s",
        }[slot]
        kind, text = document(slot, [form % n for n in names])
        if slot == "either":
            text = text.replace("(:types " + DEFAULT + ")", "(:types %s)" % " ".join(names))
        x = text_of(kind, text, obs)
        o = witness(slot, x)
        got = re.sub(r"\b([a-f])\d+\b", r"\1", str(x))
        if want is None:
            want = got
        obs.step()
        made += 1
        if got != want:
            raise Violation("the text depends on the names more than by renaming:\n%s\n---\n%s" % (want, str(x)))
        if o is not None and o not in seen:
            seen.add(o)
            obs.state((slot, k, o))
        if len(seen) == math.factorial(k):
            break
    obs.outcome("%s: %d of %d orders of %d" % (slot, len(seen), math.factorial(k), k))


def witness(slot, x):
    """The order in which a set of the object is iterated."""
    try:
        s = {
            "constants": lambda: x.constants, "objects": lambda: x.objects, "predicates": lambda: x.predicates,
            "init": lambda: x.init, "actions": lambda: x.actions, "functions": lambda: x.functions, "types": lambda: x.types,
            "derived": lambda: [d.predicate for d in x.derived_predicates],
            "vars": lambda: next(iter(x.actions)).precondition.variables, "goal-vars": lambda: x.goal.variables,
            "either": lambda: next(iter(next(iter(x.actions)).parameters)).type_tags,
        }[slot]()
        return tuple(str(getattr(e, "name", e))[0] for e in s)
    except Exception:  # noqa
        return None


# ------------------------------------------------------------------------------ interpreters


def corpus(level):
    for d in fam.domain_deviations(1):
        yield "domain", d
    for q in fam.problem_deviations(1):
        yield "problem", q
    for slot in SLOTS:
        items = menu(slot)
        for i in range(len(items)):
            for n in (2, 4, len(items)):
                p = sorted((items[i:] + items[:i])[:n], key=lambda i: " - " not in i)
                yield document(slot, p)
    if level > 1:
        for d in itertools.islice(fam.domain_deviations(2), 96, None, 7):
            yield "domain", d
        for q in itertools.islice(fam.problem_deviations(2), 50, None, 3):
            yield "problem", q


def digests(level):
    out = []
    for kind, t in corpus(level):
        if sread.read(kind, t)[0] != "ok":
            continue
        how, x = env.outcome(kind, t)
        out.append((kind, t, hashlib.sha1(str(x).encode()).hexdigest(), str(x)))
    return out


CODE = """
import sys, json
sys.path.insert(0, %r)
sys.setrecursionlimit(5000)
from mc.checks import c18
json.dump(c18.digests(int(sys.argv[1])), sys.stdout)
"""


_mine = {}


def interpreter(case, obs):
    level, seed = case
    e = dict(os.environ, PYTHONHASHSEED=str(seed), PDDL_REPO=env.REPO)
    p = subprocess.run([sys.executable, "-c", CODE % env.VERIF, str(level)], env=e, capture_output=True, timeout=300)
    if p.returncode:
        raise RuntimeError("interpreter ended with %d: %s" % (p.returncode, p.stderr.decode()[-500:]))
    if level not in _mine:
        _mine[level] = digests(level)
    other = json.loads(p.stdout)
    if len(other) != len(_mine[level]):
        raise RuntimeError("interpreters disagree on the corpus")
    for (k, t, h, s), (_, _, h2, s2) in zip(_mine[level], other):
        obs.step()
        if h != h2:
            raise Violation("with hash seed %s the text is\n%s\ninstead of\n%s" % (seed, s2, s))
        obs.state((h, seed))


def main(check):
    level = check.level
    warm("domain", "problem", "plan")
    ranks = 120 if level > 1 else 24
    check.run(
        "iteration-orders", iterated,
        ((k, t, ranks) for k, t in corpus(level) if sread.read(k, t)[0] == "ok"), 2,
    )
    check.run("written-orders", written, subsets(level), 10)
    check.run("insertion-orders", inserted, insertions(level), 4)
    ks = (2, 3, 4, 5) if level > 1 else (2, 3, 4)
    named = [s for s in SLOTS if s not in ("requirements", "number-functions")]
    check.run("witness-names", renamed, ((s, k) for s in named for k in ks), 1)
    _mine[level] = digests(level)
    check.run("interpreters", interpreter, ((level, s) for s in range(64 if level > 1 else 16)), 1)
    check.notes["explanation"] = (
        "states: distinct texts, sections, iteration orders and seeds; transitions: objects printed and compared. Sets made "
        "by the library are given every iteration order (all n! for sets up to 4, 5 in the thorough tier, elements); "
        "sections are written and built in every order; names are chosen such that real sets are iterated in every order; "
        "a corpus is printed by interpreters with different hash seeds."
    )
