"""White space, comments and line ends do not matter."""

import itertools
import os
import shutil
import tempfile

from mc import absyn, env, mutate, sread
from mc.checks.common import same, warm
from mc.run import Violation

SEPS = [
    "", "\n", "\t", "\r\n", "\r", "\f", "\v", "   ", "\n\n\n", ";\n", "; a comment\n", ";; (and ) \" ' ?x :types\n",
    " ;\u00e9\u4e2d\u2028\n", "\n;x\n;y\n\n", ";a\r\n", "\t \n", ";(define (domain z))\n", ";" + "-" * 300 + "\n",
    ";x\r", "; (and\r;\r", " " * 1000, ";;;;\n", "; \\\n", "; |# #| /* */ //\n", ";a\rb\n", "; x\r(go a)\r\n", ";\r\r)\n",
    ";a\fb\vc\td\n", "; \x1c(\x1d(\x1e\x85)\n",
]
KINDS = ("domain", "problem", "plan")


def gaps(kind, level):
    """(kind, base index, {gap: separator}) : gap i is before token i; n is the end of the text."""
    for b, base in enumerate(mutate.BASES[kind]):
        n = len(sread.tokens(base))
        for s in range(len(SEPS)):
            for i in range(n + 1):
                yield (kind, b, ((i, s),))
            yield (kind, b, tuple((i, s) for i in range(n + 1)))
            yield (kind, b, tuple((i, s) for i in range(0, n + 1, 2)))
        for s, t in itertools.product(range(len(SEPS)), repeat=2):
            yield (kind, b, tuple((i, s if i % 2 else t) for i in range(n + 1)))
            if n < 60 or level > 1:
                for i in range(n):
                    yield (kind, b, ((i, s), (i + 1, t)))
        for s in range(len(SEPS)):
            yield (kind, b, ((n, s), (0, s)))
            # a comment at the very end, without a line end
            yield (kind, b, ((n, s), ("end", "; no line end (and")))
            yield (kind, b, ((n, s), ("end", ";")))


def text_of(case):
    kind, b, changes = case
    toks = sread.tokens(mutate.BASES[kind][b])
    seps = [" "] * (len(toks) + 1)
    seps[0] = ""
    end = ""
    for i, s in changes:
        if i == "end":
            end = s
        else:
            seps[i] = SEPS[s]
    return "".join(s + t for s, t in zip(seps, toks)) + seps[-1] + end, toks


_expected = {}


def expected(kind, b, obs):
    key = (kind, b, env.REPO)
    if key not in _expected or obs.fresh:
        text = " ".join(sread.tokens(mutate.BASES[kind][b]))
        x = env.parse(kind, text, obs.fresh)
        _expected[key] = (absyn.norm(absyn.dump_any(kind, x)), str(x))
        verdict, ast = sread.read(kind, text)
        if verdict != "ok":
            raise RuntimeError("base text %r is not well formed" % text)
        same(absyn.dump_any(kind, x), ast, "parsed (left) differs from its text (right)", text)
    return _expected[key]


def layout(case, obs):
    kind, b, _ = case
    text, toks = text_of(case)
    try:
        unchanged = sread.tokens(text) == toks
    except sread.Bad:
        unchanged = False
    obs.outcome(unchanged)
    if not unchanged:
        return
    want, printed = expected(kind, b, obs)
    obs.state((kind, b, text))
    how, x = env.outcome(kind, text, obs.fresh)
    obs.step()
    if how == "exc":
        raise Violation("rejected with another layout: %s\n%r" % (env.brief(x), text))
    same(absyn.dump_any(kind, x), want, "read differently with another layout", repr(text))
    if str(x) != printed:
        raise Violation("prints differently with another layout:\n%s\n%r" % (x, text))


def upper(case, obs):
    """Names keep their case, and names that differ in case are different."""
    kind, text = case
    verdict, ast = sread.read(kind, text)
    if verdict != "ok":
        return
    obs.state(ast)
    how, x = env.outcome(kind, text, obs.fresh)
    obs.step()
    if how == "exc":
        raise Violation("rejected: %s\n%s" % (env.brief(x), text))
    same(absyn.dump_any(kind, x), ast, "case of names changed", text)


def cases_of_case():
    for kind in KINDS:
        for base in mutate.BASES[kind]:
            toks = sread.tokens(base)
            names = sorted({t for t in toks if sread.is_name(t) and t not in sread.KEYWORDS and t != "number"})
            for k in (1, 2):
                for c in itertools.combinations(names, k):
                    yield (kind, " ".join(t.upper() if t in c else t for t in toks))
            yield (kind, " ".join(t.upper() if t in names else t for t in toks))


def files(case, obs):
    """The functions that read files read what is in the file."""
    import pddl

    kind, b, changes = case
    text, toks = text_of(case)
    try:
        # a line of a file may end with any of the three line ends
        if sread.tokens(text.replace("\r\n", "\n").replace("\r", "\n")) != toks:
            return
    except sread.Bad:
        return
    want, printed = expected(kind, b, obs)
    d = tempfile.mkdtemp(prefix="mc-c08-")
    try:
        path = os.path.join(d, "f.pddl")
        with open(path, "wb") as f:
            f.write(text.encode())
        fn = {"domain": pddl.parse_domain, "problem": pddl.parse_problem, "plan": pddl.parse_plan}[kind]
        try:
            x = fn(path)
        except Exception as e:
            raise Violation("file rejected: %s\n%r" % (env.brief(e), text))
        obs.step()
        obs.state((kind, b, text, "file"))
        same(absyn.dump_any(kind, x), want, "read differently from a file", repr(text))
    finally:
        shutil.rmtree(d)


def file_cases():
    for kind in KINDS:
        for b, base in enumerate(mutate.BASES[kind]):
            n = len(sread.tokens(base))
            for s, sep in enumerate(SEPS):
                if not sep.isascii():  # the encoding of files is left to the locale
                    continue
                yield (kind, b, tuple((i, s) for i in range(1, n)))
                if b < 2:
                    yield (kind, b, ((0, s),))
                    yield (kind, b, ((n, s),))
                    yield (kind, b, ((0, s), (1, s), (n - 1, s), (n, s)))
                    yield (kind, b, ((0, s), (n, s), ("end", ";")))
            yield (kind, b, ((n, 0), ("end", "; no line end")))


def main(check):
    warm(*KINDS)
    for kind in KINDS:
        check.run("layout-" + kind, layout, gaps(kind, check.level), chunk=100)
    check.run("case", upper, cases_of_case(), chunk=50)
    check.run("files", files, file_cases(), chunk=5)
    check.notes["explanation"] = (
        "for every base text: every gap between two tokens takes every separator (white space of all "
        "kinds, line ends of all kinds, comments with all kinds of content, none), one gap, two adjacent "
        "gaps or all gaps at a time; wherever the tokens stay the same, the content has to"
    )
