"""The command line tool and the file helpers do what the library does, and say so by their exit status."""

import itertools
import os
import pathlib
import subprocess
import sys
import tempfile

from mc import absyn, env
from mc.checks.common import warm
from mc.run import Violation

ADL = "(:requirements :adl :numeric-fluents :derived-predicates)"
DOMAINS = {
    "good": "(define (domain d) (:requirements :strips :typing) (:types t1 - t0 t2) (:constants k - t1) (:predicates (p ?x - t0) (q)) "
            "(:action go :parameters (?x - t1 ?y) :precondition (p ?x) :effect (and (q) (not (p ?x)))) (:action stop :parameters ()))",
    "rich": "(define (domain d) %s (:types t1 - t0) (:predicates (p ?x - t0) (q)) (:functions (f ?x) - number) (:derived (q) (exists (?z - t0) (p ?z)))\n"
            " ; comment\n (:action go :parameters (?x - t1) :precondition (or (p ?x) (q)) :effect (when (q) (increase (f ?x) 1.50))))\n" % ADL,
    "bare": "(define (domain d))",
    "other-name": "(define (domain e) (:requirements :strips :typing) (:types t1 t2) (:predicates (p ?x)))",
    "wrong-syntax": "(define (domain d) (:predicates (p ?x))",
    "wrong-requirement": "(define (domain d) (:action go :parameters () :precondition (or (p) (q))))",
    "wrong-type": "(define (domain d) (:requirements :typing) (:types t1) (:constants k - t7))",
    "problem": "(define (problem q) (:domain d) (:init) (:goal (and)))",
    "nothing": "",
    "windows": "(define (domain d)\r\n  (:predicates (p ?x))\r\n ; comment (\r\n  (:action go :parameters (?x) :precondition (p ?x)))\r\n",
}
PROBLEMS = {
    "good": "(define (problem q) (:domain d) (:objects a - t1 b - t2 c) (:init (p a) (not (q))) (:goal (and (q) (p a))))",
    "with-requirements": "(define (problem q) (:domain d) (:requirements :strips) (:objects a) (:init) (:goal (q)))",
    "untyped": "(define (problem q) (:domain d) (:objects a b) (:init (p a)) (:goal (p b)))",
    "other-domain": "(define (problem q) (:domain e) (:objects a b) (:init (p a)) (:goal (p b)))",
    "more-requirements": "(define (problem q) (:domain d) (:requirements :adl) (:init) (:goal (or (p) (q))))",
    "other-type": "(define (problem q) (:domain d) (:objects a - t9) (:init (p a)) (:goal (and)))",
    "wrong-syntax": "(define (problem q) (:domain d) (:objects a b) (:init (p a)) (:goal (p b)",
    "domain": "(define (domain d))",
    "metric": "(define (problem q) (:domain d) (:objects a) (:init (= (f a) 1)) (:goal (and)) (:metric minimize (+ (f a) 0.25)))",
    "nothing": "",
}
PLANS = {
    "good": "(go a b)\n(stop)\n", "one": "(go a)", "empty": "", "constants": "(go k a)", "unknown-action": "(run a)",
    "wrong-arity": "(go a b)\n(go)", "unknown-object": "(go a z)", "wrong-syntax": "(go a b", "comment": "; a plan\n(stop) ; done\n", "domain": "(define (domain d))",
}
FLAGS = ((), ("-q",), ("--quiet",))


def attempt(f, *args):
    try:
        return f(*args)
    except Exception as e:  # noqa
        return Failed(e)


class Failed:
    def __init__(self, e):
        self.e = e


def expected(texts, quiet):
    """Exit status is zero, and what is printed, by the library itself."""
    out = []
    objs = []
    for kind, text in zip(("domain", "problem", "plan"), texts):
        x = attempt(env.parser(kind), text.replace("\r\n", "\n"))
        if isinstance(x, Failed):
            return False, out
        if kind == "problem":
            if isinstance(attempt(x.check, objs[0]), Failed):
                return False, out
        if kind == "plan":
            if isinstance(attempt(x.check, objs[0], objs[1]), Failed):
                return False, out
        objs.append(x)
        out.append(str(x))
    return True, out


def write(d, name, text):
    path = os.path.join(d, name)
    with open(path, "w", newline="") as f:
        f.write(text)
    return path


def arguments(files, flag, where):
    """The flag before, between or after the files."""
    files = list(files)
    return files[:where] + list(flag) + files[where:]


def decide(args, code, out, ok, printed, quiet, what):
    if (code == 0) != ok:
        raise Violation("%s: exit status %s although the input is %s" % (what, code, "valid" if ok else "invalid"))
    want = "" if quiet else "".join(t + "\n" for t in printed)
    if ok and out != want:
        raise Violation("%s: prints\n%s\ninstead of\n%s" % (what, out, want))
    if quiet and out:
        raise Violation("%s: prints %r although it is told to be quiet" % (what, out))
    if not ok and not (out == want or want.startswith(out)):
        raise Violation("%s: prints\n%s\nwhich is not part of\n%s" % (what, out, want))


def texts_of(case):
    return [m[n] for m, n in zip((DOMAINS, PROBLEMS, PLANS), case)]


def inside(case, obs):
    """The tool in this process, for a combination of files."""
    from click.testing import CliRunner

    import pddl.__main__ as main

    names, flag, where = case
    texts = texts_of(names)
    ok, printed = expected(texts, bool(flag))
    with tempfile.TemporaryDirectory(prefix="mc22") as d:
        files = [write(d, "%d-%s.pddl" % (i, n), t) for i, (n, t) in enumerate(zip(names, texts))]
        before = sorted(os.listdir(d))
        out = sys.stdout
        r = CliRunner().invoke(main.cli, arguments(files, flag, where))
        if sys.stdout is not out:
            sys.stdout = out
        text = getattr(r, "stdout", r.output)
        decide(None, r.exit_code, text, ok, printed, bool(flag), "%r %r" % (names, flag))
        if sorted(os.listdir(d)) != before:
            raise Violation("files have appeared: %r" % (sorted(os.listdir(d)),))
        for f, t in zip(files, texts):
            with open(f, newline="") as g:
                if g.read() != t:
                    raise Violation("the file %s has been changed" % f)
    obs.step(len(names))
    obs.state(case)
    obs.outcome("%d files, %s" % (len(names), "valid" if ok else "invalid"))


def combinations():
    for k in (1, 2, 3):
        for names in itertools.product(*(DOMAINS, PROBLEMS, PLANS)[:k]):
            for i, flag in enumerate(FLAGS):
                if i == 2 and not set(names) <= {"good", "untyped", "wrong-syntax", "nothing"}:
                    continue
                for where in {0, k} if i == 1 else {k} if i else {0}:
                    yield (names, flag, where)


def process(args, cwd, stdin=None, seed=0):
    """seed: of the hashes, or a flag of the interpreter"""
    flags = [seed] if isinstance(seed, str) else []
    e = dict(os.environ, PYTHONPATH=env.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="1" if flags else str(seed))
    e.pop("COLUMNS", None)
    return subprocess.run([sys.executable] + flags + ["-m", "pddl"] + args, cwd=cwd, env=e, capture_output=True, timeout=120, input=stdin or b"")


def outside(case, obs):
    """The tool as a process of its own, with relative paths."""
    names, flag, where, seed = case
    texts = texts_of(names)
    ok, printed = expected(texts, bool(flag))
    with tempfile.TemporaryDirectory(prefix="mc22") as d:
        files = ["%d-%s.pddl" % (i, n) for i, n in enumerate(names)]
        for f, t in zip(files, texts):
            write(d, f, t)
        p = process(arguments(files, flag, where), d, seed=seed)
        decide(None, p.returncode, p.stdout.decode(), ok, printed, bool(flag), "process %r %r" % (names, flag))
        if ok and p.stderr:
            raise Violation("valid input, but it complains: %s" % p.stderr.decode()[:500])
        if not ok and not p.stderr:
            raise Violation("invalid input, but it does not complain")
        if sorted(os.listdir(d)) != sorted(files):
            raise Violation("files have appeared: %r" % (sorted(os.listdir(d)),))
    obs.step(len(names))
    obs.state(case)


def usage(case, obs):
    """Arguments that are not files of the right kind."""
    what, args, ok, shown = case
    with tempfile.TemporaryDirectory(prefix="mc22") as d:
        for n, t in (("d", DOMAINS["good"]), ("q", PROBLEMS["good"]), ("p", PLANS["good"])):
            write(d, n, t)
        os.mkdir(os.path.join(d, "dir"))
        p = process(list(args), d)
        if (p.returncode == 0) != ok:
            raise Violation("%s %r: exit status %d" % (what, args, p.returncode))
        if not ok and (p.stdout or not p.stderr):
            raise Violation("%s %r: prints %r, complains %r" % (what, args, p.stdout[:200], p.stderr[:200]))
        if ok and shown and not p.stdout:
            raise Violation("%s %r: prints nothing" % (what, args))
    obs.step()
    obs.state(case)


USAGES = [
    ("no arguments", (), False, False), ("only a flag", ("-q",), False, False), ("unknown flag", ("--loud", "d"), False, False),
    ("missing domain", ("nodomain",), False, False), ("missing problem", ("d", "noproblem"), False, False),
    ("missing plan", ("d", "q", "noplan"), False, False), ("directory", ("dir",), False, False), ("directory", ("d", "dir"), False, False),
    ("directory", ("d", "q", "dir"), False, False), ("too many", ("d", "q", "p", "p"), False, False), ("help", ("--help",), True, True),
    ("help", ("--help", "d"), True, True), ("files", ("./d", "./q", "./p"), True, True), ("separator", ("--", "d", "q"), True, True),
    ("order", ("-q", "d", "q", "p"), True, False), ("order", ("d", "-q", "q", "p"), True, False), ("order", ("d", "q", "--quiet", "p"), True, False),
    ("missing quiet", ("-q", "nodomain"), False, False),
]


def again(case, obs):
    """What the tool prints for a file is a file for which it prints the same."""
    kind, name = case
    text = (DOMAINS if kind == "domain" else PROBLEMS)[name]
    with tempfile.TemporaryDirectory(prefix="mc22") as d:
        dom = write(d, "d", text if kind == "domain" else DOMAINS["good"])
        first = process([dom], d)
        if first.returncode:
            return
        if kind == "problem":
            q = write(d, "q", text)
            head = first.stdout
            first = process([dom, q], d)
            if first.returncode:
                return
            write(d, "q", first.stdout[len(head):].decode())
            second = process([dom, q], d)
        else:
            write(d, "d", first.stdout.decode())
            second = process([dom], d)
        if second.returncode or second.stdout != first.stdout:
            raise Violation("printed:\n%s\nagain:\n%s%s" % (first.stdout.decode(), second.stdout.decode(), second.stderr.decode()[-300:]))
    obs.step(2)
    obs.state(case)


def helpers(case, obs):
    """parse_domain, parse_problem and parse_plan on files."""
    import pddl

    kind, name, form = case
    text = {"domain": DOMAINS, "problem": PROBLEMS, "plan": PLANS}[kind][name]
    helper = getattr(pddl, "parse_" + kind)
    want = attempt(env.parser(kind), text.replace("\r\n", "\n"))
    with tempfile.TemporaryDirectory(prefix="mc22") as d:
        path = write(d, "file", text)
        got = attempt(helper, path if form == "str" else pathlib.Path(path))
        missing = attempt(helper, os.path.join(d, "missing"))
        fds = len(os.listdir("/proc/self/fd"))
        for _ in range(3):
            attempt(helper, path)
        if len(os.listdir("/proc/self/fd")) > fds:
            raise Violation("the helper leaves files open")
    if not isinstance(missing, Failed) or not isinstance(missing.e, OSError):
        raise Violation("a missing file gives %r" % (getattr(missing, "e", missing),))
    if isinstance(want, Failed) != isinstance(got, Failed):
        raise Violation("the helper gives %r, the parser %r" % (getattr(got, "e", got), getattr(want, "e", want)))
    if isinstance(want, Failed):
        if type(want.e) is not type(got.e):
            raise Violation("the helper raises %r, the parser %r" % (got.e, want.e))
    elif absyn.dump_any(kind, got) != absyn.dump_any(kind, want) or not got == want or str(got) != str(want):
        raise Violation("the helper gives\n%s\nthe parser\n%s" % (got, want))
    obs.step(2)
    obs.state(case)


def main(check):
    level = check.level
    warm("domain", "problem", "plan")
    every = [c for c in combinations()]
    two = [c for c in every if len(c[0]) < 3]
    three = [c for c in every if len(c[0]) == 3]
    if level == 1:
        # of three files, those where the first two are not both wrong
        three = [c for c in three if c[0][0] in ("good", "rich", "windows") or c[0][1:] in (("good", "good"), ("untyped", "one"))]
        three = [c for c in three if c[0][1] in ("good", "untyped", "other-domain", "other-type", "wrong-syntax", "metric")]
    check.run("combinations", inside, two + three, 5)
    some = [c for c in every if c[1] != ("--quiet",)]
    some = some[:: 3 if level > 1 else 23] + [c for c in every if len(c[0]) == 1]
    check.run("processes", outside, ((n, f, w, s) for i, (n, f, w) in enumerate(some) for s in ((0, 1, 2, "-O", "-OO") if level > 1 else (("-O", 0, 1, "-OO", 2)[i % 5],))), 1)
    check.run("usage", usage, USAGES, 1)
    check.run("printed-again", again, [("domain", n) for n in DOMAINS] + [("problem", n) for n in PROBLEMS], 1)
    check.run(
        "helpers", helpers,
        [(k, n, f) for k, m in (("domain", DOMAINS), ("problem", PROBLEMS), ("plan", PLANS)) for n in m for f in ("str", "path")], 2,
    )
    check.notes["explanation"] = (
        "states: combinations of files and flags; transitions: files processed. All combinations of valid and invalid domain, "
        "problem and plan files with and without the flag, in process; a subset, all kinds of wrong usage and printing again "
        "in processes of their own; status and output are compared with those of the parsers and checks."
    )
