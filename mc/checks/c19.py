"""Parsing depends on the text only: not on what the parser has parsed before; and it leaves the
interpreter as it was."""

import hashlib
import itertools
import json
import os
import pickle
import signal
import subprocess
import sys

from mc import absyn, env
from mc.run import Violation

R = "(:requirements :adl :numeric-fluents :derived-predicates :action-costs :non-deterministic)"

# every text either leaves something behind in a careless parser (declarations, requirements, types,
# variables in scope, an error in the middle) or would come out differently if something was there
DOMAINS = {
    "rich": "(define (domain d1) %s (:types t1 t2 - t0) (:constants a - t1 b - t2) (:predicates (p) (q ?x - t1) (r ?x ?y)) "
            "(:functions (f ?x - t0) (total-cost) - number) (:derived (p) (exists (?z - t1) (q ?z))) "
            "(:action go :parameters (?x - t1 ?y) :precondition (and (q ?x) (or (r ?x ?y) (not (= ?x a)))) "
            ":effect (and (not (q ?x)) (forall (?z - t0) (when (r ?z ?z) (r ?z ?x))) (increase (total-cost) 1))))" % R,
    "bare": "(define (domain d2) (:predicates (q ?x)) (:action go :parameters (?x) :precondition (q ?x) :effect (q ?x)))",
    "bare-either": "(define (domain d2) (:requirements :typing) (:action go :parameters (?x - (either u v)) :effect (r ?x ?x)))",
    "needs-or": "(define (domain d3) (:action go :parameters () :precondition (or (p) (p))))",
    "needs-typing": "(define (domain d4) (:predicates (q ?x - t1)))",
    "needs-equality": "(define (domain d5) (:action go :parameters (?x) :precondition (= ?x ?x)))",
    "needs-constant": "(define (domain d6) (:requirements :typing) (:types t1) (:action go :parameters () :precondition (and (r a b) (q a))))",
    "needs-predicate": "(define (domain d7) (:requirements :derived-predicates) (:derived (p) (q)))",
    "needs-arity": "(define (domain d7) (:requirements :derived-predicates) (:predicates (q ?x ?y)) (:derived (q ?x ?y) (p)))",
    "needs-variable": "(define (domain d8) (:predicates (r ?x ?y)) (:action a :parameters (?x)) (:action b :parameters (?y) :precondition (r ?x ?y)))",
    "untyped-variable": "(define (domain d8) (:requirements :typing :adl) (:types t9) (:predicates (r ?x ?y)) "
                        "(:action go :parameters (?x ?y - t9 ?z) :precondition (exists (?z) (r ?z ?x)) :effect (r ?x ?z)))",
    "functions": "(define (domain d9) (:requirements :fluents :typing) (:types t2) (:functions (f) (g ?y - t2)))",
    "number": "(define (domain d9) (:requirements :action-costs) (:functions (total-cost) - number) (:action go :parameters () :effect (increase (total-cost) 2)))",
    "empty": "(define (domain d0))",
    "broken-action": "(define (domain d1) %s (:types t1) (:constants a - t1) (:predicates (q ?x - t1)) "
                     "(:action go :parameters (?x - t1 ?z - t1) :precondition (and (q ?x) (exists (?y - t1) (and (q ?y)" % R,
    "broken-derived": "(define (domain d1) %s (:types t1 t2 - t1) (:predicates (q ?x - t1)) (:derived (q ?x - t2) (and (q ?x)) (:action" % R,
    "broken-types": "(define (domain d1) %s (:types t1 - t2 t2 - t1) (:predicates (q ?x - t1)))" % R,
    "broken-variables": "(define (domain d1) %s (:predicates (q ?x)) (:action go :parameters (?x) :precondition (q ?y)))" % R,
    "not-a-domain": "(define (problem q) (:domain d) (:init) (:goal (and)))",
    "nothing": "",
}
PROBLEMS = {
    "rich": "(define (problem q1) (:domain d1) (:requirements :adl :numeric-fluents) (:objects a - t1 b c - t2) "
            "(:init (p) (q a) (not (r a b)) (= (f a) 2) (= (total-cost) 0)) (:goal (forall (?x - t1) (or (q ?x) (= ?x a)))) (:metric minimize (total-cost)))",
    "bare": "(define (problem q2) (:domain d2) (:init) (:goal (and)))",
    "objects": "(define (problem q2) (:domain d2) (:objects a b) (:init (q a)) (:goal (q b)))",
    "other-types": "(define (problem q2) (:domain d2) (:requirements :typing) (:objects a - t2 c - t9) (:init (r a c)) (:goal (r c a)))",
    "needs-object": "(define (problem q3) (:domain d3) (:init (q a)) (:goal (q a)))",
    "goal-object": "(define (problem q3) (:domain d3) (:objects b) (:init (q b)) (:goal (r a c)))",
    "needs-requirement": "(define (problem q4) (:domain d4) (:requirements :strips) (:init) (:goal (or (p) (q))))",
    "quantified": "(define (problem q5) (:domain d5) (:requirements :strips :equality) (:objects a) (:init) (:goal (= a a)))",
    "exists": "(define (problem q5) (:domain d5) (:requirements :strips) (:objects a) (:init) (:goal (exists (?x) (q ?x))))",
    "variable": "(define (problem q6) (:domain d5) (:requirements :adl) (:objects a) (:init) (:goal (and (exists (?x - t3) (q ?x)) (exists (?x) (q ?x)))))",
    "broken-init": "(define (problem q1) (:domain d1) (:requirements :adl) (:objects a - t1 b - t2) (:init (q a) (r a",
    "broken-goal": "(define (problem q1) (:domain d1) (:requirements :adl) (:objects a - t1 b - t2) (:init (q a)) (:goal (exists (?x - t1) (or (q ?x)",
    "broken-object": "(define (problem q1) (:domain d1) (:requirements :adl) (:objects a - t1 b - t2) (:init (q z)) (:goal (and)))",
    "not-a-problem": "(define (domain d0))",
    "nothing": "",
}
PLANS = {
    "two": "(go a b)\n(stop)", "same": "(go a b)\n(go a b)", "other": "(go b)", "empty": "", "unlisted": "(stop)",
    "broken": "(go a b)\n(stop", "broken-name": "(go a ?x)", "comment": "; only a comment\n(run c)", "domain": "(define (domain d0))",
}
TEXTS = {"domain": DOMAINS, "problem": PROBLEMS, "plan": PLANS}
_alone = {}


def observe(p, kind, text):
    try:
        x = p(text)
    except Exception as e:  # noqa
        return ("exc", type(e).__name__), None
    return ("ok", absyn.dump_raw(kind, x), str(x)), x


def alone(kind, name):
    """What the text gives in a process that has parsed nothing else."""
    if not _alone:
        prepare()
    return _alone[(kind, name)]


def prepare():
    """One forked process for each text: nothing can be left from other texts."""
    for kind in TEXTS:
        for name in TEXTS[kind]:
            r, w = os.pipe()
            pid = os.fork()
            if not pid:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(300)
                try:
                    o = observe(env.parser_class(kind)(), kind, TEXTS[kind][name])[0]
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(o, f)
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            _alone[(kind, name)] = pickle.loads(data)


def show(o):
    return "%s %s" % (o[0], o[-1])


def sequence(case, obs):
    """A sequence of (parser, text): the parsers are new, and several may be of the same kind."""
    parsers, made = {}, []
    for i, (who, kind, name) in enumerate(case):
        if who not in parsers:
            parsers[who] = env.parser_class(kind)()
        want = alone(kind, name)
        got, x = observe(parsers[who], kind, TEXTS[kind][name])
        obs.step()
        if got != alone(kind, name):
            raise Violation(
                "after %s the text %s gives\n%s\ninstead of\n%s\ntext:\n%s"
                % ([c for c in case[:i]], name, show(got), show(alone(kind, name)), TEXTS[kind][name])
            )
        if x is not None:
            made.append((kind, name, x))
        for k, n, y in made:
            if ("ok", absyn.dump_raw(k, y), str(y)) != alone(k, n):
                raise Violation("parsing %s changes what was parsed from %s: now\n%s" % (name, n, y))
        obs.outcome(got[0])
    obs.state(case)
    obs.state(tuple(c[1:] for c in case[-2:]))


# ------------------------------------------------------------------------------ used results


def properties(x):
    """The public attributes of an object that are not methods."""
    for n in sorted(dir(type(x))):
        if not n.startswith("_") and isinstance(getattr(type(x), n), property):
            try:
                yield n, getattr(x, n)
            except Exception:  # noqa
                pass


def spoil(x, depth=4):
    """Change in place every collection the object gives away: what the caller does to his own object
    must not reach later results of the parser."""
    if depth == 0:
        return
    if isinstance(x, list):
        for y in list(x):
            spoil(y, depth - 1)
        x.append(x[0] if x else None)
        x.reverse()
    elif isinstance(x, dict):
        for k, y in list(x.items()):
            spoil(k, depth - 1)
            spoil(y, depth - 1)
        x.clear()
    elif isinstance(x, set):
        for y in list(x):
            spoil(y, depth - 1)
        x.clear()
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            spoil(y, depth - 1)
    elif type(x).__module__.partition(".")[0] == "pddl":
        for _, y in properties(x):
            spoil(y, depth - 1)


def attach(x):
    """Attach domains to a problem: it may take them or not."""
    if type(x).__name__ == "Problem":
        for d in (DOMAINS["rich"], DOMAINS["bare"], DOMAINS["empty"]):
            try:
                x.domain = env.parser_class("domain")()(d)
            except Exception:  # noqa
                pass
    if type(x).__name__ == "Domain":
        from pddl.core import Problem

        for kw in ({"domain": x}, {"domain": x, "objects": x.constants}):
            try:
                Problem("n", **kw)
            except Exception:  # noqa
                pass
    if type(x).__name__ == "Plan":
        for d in (DOMAINS["rich"], DOMAINS["bare"]):
            try:
                x.instantiate(env.parser_class("domain")()(d))
            except Exception:  # noqa
                pass


def read_all(x):
    str(x), repr(x), x == x
    for _, y in properties(x):
        try:
            hash(y)
        except TypeError:
            str(y)


def assign(x):
    """Set every attribute that can be set."""
    for n, y in list(properties(x)):
        for value in (None, "zzz"):
            try:
                setattr(x, n, value)
            except Exception:  # noqa
                pass


USES = {"spoil": spoil, "attach": attach, "read": read_all, "assign": assign}


def used(case, obs):
    """What is done with a result of the parser does not reach its later results."""
    kind, first, uses, then = case
    parser = env.parser_class(kind)()
    for name in (first, then, first):
        got, x = observe(parser, kind, TEXTS[kind][name])
        obs.step()
        if got != alone(kind, name):
            raise Violation(
                "after %s on what was parsed before, the text %s gives\n%s\ninstead of\n%s\ntext:\n%s"
                % (uses, name, show(got), show(alone(kind, name)), TEXTS[kind][name])
            )
        if x is not None:
            for u in uses:
                try:
                    USES[u](x)
                except Exception:  # noqa: what has been spoiled need not work
                    obs.outcome("spoiled")
    obs.state(case)


def long_sequence(case, obs):
    """New parsers, one of each kind, for a long sequence of texts that contains all short ones."""
    parsers = {}
    for i, (kind, name) in enumerate(case):
        want = alone(kind, name)
        if kind not in parsers:
            parsers[kind] = env.parser_class(kind)()
        got, x = observe(parsers[kind], kind, TEXTS[kind][name])
        obs.step()
        if got != want:
            raise Violation(
                "after %s the text %s gives\n%s\ninstead of\n%s\ntext:\n%s"
                % (case[max(0, i - 6): i], name, show(got), show(want), TEXTS[kind][name])
            )
        obs.state(case[max(0, i - 2): i + 1])


def de_bruijn(k, n):
    """Cyclic sequence over range(k) with every word of length n exactly once."""
    a, out = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1: p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return out + out[: n - 1]


def pieces(xs, size, overlap):
    for i in range(0, max(1, len(xs) - overlap), size):
        yield xs[i: i + size + overlap]


# ------------------------------------------------------------------------------ the interpreter

CODE = """
import sys
sys.path.insert(0, %r)
from mc.checks import c19
c19.process(*sys.argv[1:])
"""


def settings():
    """Everything in the interpreter that a library has no business to change."""
    import builtins
    import decimal
    import gc
    import locale
    import logging
    import random
    import signal
    import threading
    import warnings

    c = decimal.getcontext()
    out = {
        "traceback limit": getattr(sys, "tracebacklimit", "unset"),
        "recursion limit": sys.getrecursionlimit(),
        "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin), id(sys.__stdout__), id(sys.__stderr__)),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(threading.excepthook)),
        "tracing": (sys.gettrace(), sys.getprofile()),
        "path": tuple(sys.path),
        "argv": tuple(sys.argv),
        "environment": tuple(sorted(os.environ.items())),
        "directory": os.getcwd(),
        "umask": os.umask(0),
        "decimal": (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, str(c.traps)),
        "warnings": tuple(map(repr, warnings.filters)),
        "showwarning": id(warnings.showwarning),
        "locale": locale.setlocale(locale.LC_ALL),
        "random": hashlib.sha1(repr(random.getstate()).encode()).hexdigest(),
        "signals": tuple((s, repr(signal.getsignal(s))) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE)),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.disabled, logging.root.manager.disable),
        "collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "switch interval": sys.getswitchinterval(),
        "int digits": sys.get_int_max_str_digits(),
        "threads": threading.active_count(),
        "builtins": tuple(sorted(vars(builtins))),
        "builtin functions": tuple(id(vars(builtins)[n]) for n in sorted(vars(builtins)) if n != "_"),
        "files": tuple(sorted(os.listdir("."))),
        "default encoding": sys.getfilesystemencoding(),
    }
    os.umask(out["umask"])
    return out


def changed(a, b):
    return ["%s: %r -> %r" % (k, a[k], b[k]) for k in a if a[k] != b[k]]


def process(seq, want_limit):
    """The body of another interpreter: settings before and after importing and each parse."""
    import logging  # noqa
    import locale  # noqa
    import random  # noqa

    out = sys.stdout
    if want_limit != "-":
        sys.tracebacklimit = int(want_limit)
    before = settings()
    bad = []

    def now(what):
        after = settings()
        for c in changed(before, after):
            bad.append("%s changes %s" % (what, c))

    import pddl  # noqa

    now("importing")
    for kind in ("domain", "problem", "plan"):
        env.parser_class(kind)
        now("importing the %s parser" % kind)
    import pddl.core  # noqa
    import pddl.formatter  # noqa
    import pddl.logic.effects  # noqa

    now("importing the library")
    parsers = {}
    n = 0
    for kind, name in json.loads(seq):
        if kind not in parsers:
            parsers[kind] = env.parser_class(kind)()
            now("making a %s parser" % kind)
        r, x = observe(parsers[kind], kind, TEXTS[kind][name])
        now("parsing %s %s (%s)" % (kind, name, r[0]))
        n += 1
        if bad:
            break
    out.write("\nRESULT " + json.dumps([n, bad]))


def interpreter(case, obs):
    import tempfile

    seq, limit = case
    with tempfile.TemporaryDirectory(prefix="mc19") as d:
        p = subprocess.run(
            [sys.executable, "-B", "-c", CODE % env.VERIF, json.dumps(seq), str(limit)],
            env=dict(os.environ, PDDL_REPO=env.REPO), capture_output=True, timeout=300, cwd=d,
        )
    if p.returncode:
        raise RuntimeError("interpreter ended with %d: %s" % (p.returncode, p.stderr.decode()[-500:]))
    said, _, result = p.stdout.decode().rpartition("\nRESULT ")
    n, bad = json.loads(result)
    obs.step(n)
    obs.state(case)
    if bad:
        raise Violation("; ".join(bad[:4]))
    if said or p.stderr:
        raise Violation("parsing writes to the terminal: %r %r" % (said[:300], p.stderr.decode()[:300]))


def process_sequences(level):
    every = [(k, n) for k in TEXTS for n in TEXTS[k]]
    for limit in ("-", 0, 7, 1000):
        yield (every, limit)
        yield (every[::-1], limit)
    for i in range(len(every)):
        yield (every[i:] + every[:i], "-")


def main(check):
    level = check.level
    prepare()
    # every pair, every triple of texts on one parser; every piece starts with a new parser
    for k in TEXTS:
        names = list(TEXTS[k])
        check.run("pairs-" + k, sequence, ((("A", k, a), ("A", k, b)) for a in names for b in names), 10)
        words = [(k, names[i]) for i in de_bruijn(len(names), 4 if level > 1 else 3)]
        check.run("triples-" + k, long_sequence, (tuple(w) for w in pieces(words, 60, 3 if level > 1 else 2)), 1)
        check.run("long-" + k, long_sequence, [tuple(words[:1000 * level])], 1)
        few = names if level > 1 else names[::2]
        check.run(
            "two-parsers-" + k, sequence,
            ((("A", k, a), ("B", k, b), ("A", k, c)) for a in few for b in few for c in (few if level > 1 else few[::2])), 10,
        )
        orders = [p for n in (1, 2) for p in itertools.permutations(USES, n)]
        check.run("used-" + k, used, (
            (k, a, us, b) for a in names for us in orders for b in (names if level > 1 else [a] + names[:2])), 10)
    step = 1 if level > 1 else 2
    mixed = [(k, n) for k in TEXTS for n in list(TEXTS[k])[::step]]
    words = [mixed[i] for i in de_bruijn(len(mixed), 3)]
    check.run("mixed", long_sequence, (tuple(w) for w in pieces(words, 90, 2)), 1)
    check.run("interpreter", interpreter, process_sequences(level), 1)
    check.notes["explanation"] = (
        "states: sequences of texts and their last texts; transitions: texts parsed. All pairs of texts on a new parser; all "
        "triples on one parser (de Bruijn sequences in pieces); two parsers of a kind in turn; all triples over the three "
        "kinds of parsers. What was parsed is used, changed in place and attached between parses. Every text must give what a parser that has parsed nothing gives, and objects made before must "
        "not change. In other interpreters the settings are compared before and after importing and every parse."
    )
