"""Environment of the checks: the library under test and its parsers."""

import os
import sys

REPO = os.environ.get("PDDL_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)

_parsers = {}


def parser_class(kind):
    if kind == "domain":
        from pddl.parser.domain import DomainParser as P
    elif kind == "problem":
        from pddl.parser.problem import ProblemParser as P
    else:
        from pddl.parser.plan import PlanParser as P
    return P


def parser(kind, fresh=False):
    """A parser of the given kind; building one is slow, so that it is reused unless fresh."""
    if fresh:
        return parser_class(kind)()
    p = _parsers.get(kind)
    if p is None:
        p = _parsers[kind] = parser_class(kind)()
    return p


def drop_parsers():
    _parsers.clear()


def parse(kind, text, fresh=False):
    return parser(kind, fresh)(text)


def outcome(kind, text, fresh=False):
    """("obj", object) or ("exc", exception)"""
    try:
        return ("obj", parse(kind, text, fresh))
    except Exception as e:  # noqa
        return ("exc", e)


def brief(e):
    return "%s: %s" % (type(e).__name__, str(e).replace("\n", " ")[:200])
