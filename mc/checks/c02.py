"""Problems survive printing and parsing."""

from mc import absyn, fam
from mc.checks.common import must_parse, reparse, round_trip, same, warm
from mc.run import Violation


def case(text, obs):
    p, ast, _ = must_parse("problem", text, obs)
    if p is None:
        return
    exact = "object" not in text
    printed, _ = round_trip("problem", p, obs, text, exact)
    built = absyn.build_problem(ast)
    p2, _ = round_trip("problem", built, obs, "(built through the API)\n" + text, False)
    if exact and absyn.strip_ctypes(absyn.norm(ast)) == absyn.norm(ast) and p2 != printed:
        raise Violation("the built problem prints\n%s\nthe parsed one\n%s" % (p2, printed))


DOMAIN = (
    "(define (domain d) (:requirements :typing :adl :numeric-fluents) (:types t1 t2 - t0 t3) "
    "(:constants k - t1) (:predicates (p0) (p1 ?x) (p2 ?x ?y)) (:functions (f0) (f1 ?x)))"
)


def attached(text, obs):
    """A problem with a domain attached prints a text with the same content."""
    p, ast, _ = must_parse("problem", text, obs)
    if p is None or ast[3]:
        return
    d = must_parse("domain", DOMAIN, obs)[0]
    try:
        built = absyn.build_problem(ast, domain=d)
    except Exception:  # what is not consistent with the domain is the subject of another property
        obs.outcome("inconsistent with the domain")
        return
    obs.state(absyn.dump_problem(built))
    again = reparse("problem", str(built), obs, text)
    same(absyn.dump_problem(again), absyn.dump_problem(built), "attached problem changed", text)
    if str(again) != str(built):
        raise Violation("printing is not stable:\n%s\n%s" % (built, again))


def main(check):
    warm("problem", "domain")
    for name, texts in fam.problem_texts(check.level):
        check.run(name, case, texts, chunk=20)
    for name, texts in fam.problem_texts(min(check.level, 1)):
        check.run("attached-" + name, attached, texts, chunk=20)
    check.notes["explanation"] = (
        "every problem of the listed finite families, parsed from text, built through the public "
        "constructors and attached to a domain, is printed, the text is parsed, and the two problems "
        "are compared by abstract syntax and by the library's equality; the second text has to equal "
        "the first"
    )
