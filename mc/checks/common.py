"""Shared parts of the checks on the parsers and printers."""

from mc import absyn, env, sread
from mc.run import Violation

TAKE = ("ok", "maybe")


def must_parse(kind, text, obs, what="text"):
    """The object of a text the language allows; None if the text is of the kind left open."""
    verdict, ast = sread.read(kind, text)
    obs.outcome(verdict)
    if verdict not in TAKE:
        return None, None, verdict
    how, x = env.outcome(kind, text, obs.fresh)
    obs.step()
    if how == "exc":
        if verdict == "ok":
            raise Violation("well-formed %s rejected: %s\n%s" % (what, env.brief(x), text))
        return None, None, verdict
    return x, ast, verdict


def same(a, b, what, text):
    a, b = absyn.norm(a), absyn.norm(b)
    if a != b:
        raise Violation("%s\n%s\n%s" % (what, difference(a, b), text))


def difference(a, b, path=""):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a and a[0] in (
        "domain", "problem", "plan"
    ):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return difference(x, y, "%s/%d" % (path, i))
    if isinstance(a, frozenset) and isinstance(b, frozenset):
        return "%s: only left %r, only right %r" % (
            path, sorted(a - b, key=repr)[:3], sorted(b - a, key=repr)[:3]
        )
    return "%s: %r vs %r" % (path, a, b)


def reparse(kind, text, obs, source):
    how, x = env.outcome(kind, text, obs.fresh)
    obs.step()
    if how == "exc":
        raise Violation(
            "printed %s rejected: %s\nprinted:\n%s\nfrom:\n%s" % (kind, env.brief(x), text, source)
        )
    return x


def TO_STRING(kind):
    from pddl import formatter

    return getattr(formatter, kind + "_to_string")


def round_trip(kind, obj, obs, source, strict, stable=True):
    """print, parse, compare, print: returns the printed text."""
    dumped = absyn.dump_any(kind, obj)
    obs.state(dumped)
    text = str(obj)
    if TO_STRING(kind)(obj) != text:
        raise Violation("%s_to_string does not give the text of the %s\n%s" % (kind, kind, source))
    again = reparse(kind, text, obs, source)
    verdict, ast = sread.read(kind, text)
    if verdict == "bad":
        raise Violation("the text of the %s is not PDDL: %s\n%s\nfrom:\n%s" % (kind, ast, text, source))
    if verdict in TAKE:
        same(ast, dumped, "the text of the %s does not say what it contains (right): printed\n%s\n" % (kind, text), source)
    same(absyn.dump_any(kind, again), dumped, "printing and parsing changes the %s: printed\n%s\n" % (kind, text), source)
    if strict and not (again == obj and obj == again):
        raise Violation(
            "the %s differs from the one parsed from its text\nprinted:\n%s\nfrom:\n%s"
            % (kind, text, source)
        )
    text2 = str(again)
    if stable and text2 != text:
        raise Violation(
            "printing is not stable\nfirst:\n%s\nsecond:\n%s\nfrom:\n%s" % (text, text2, source)
        )
    obs.step(2)
    return text, again


def warm(*kinds):
    for k in kinds:
        env.parser(k)
