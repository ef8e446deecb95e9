"""Plans survive printing and parsing."""

from mc import absyn, fam
from mc.checks.common import must_parse, round_trip, warm
from mc.run import Violation


def case(text, obs):
    p, ast, _ = must_parse("plan", text, obs)
    if p is None:
        return
    printed, again = round_trip("plan", p, obs, text, True)
    built = absyn.build_plan(ast)
    if not (built == p and p == built):
        raise Violation("the plan built from the steps of the text differs:\n%s" % text)
    if str(built) != printed:
        raise Violation("the built plan prints\n%s\nthe parsed one\n%s" % (built, printed))
    round_trip("plan", built, obs, text, True)
    if not again.actions == p.actions:
        raise Violation("steps differ: %r %r" % (again.actions, p.actions))


def main(check):
    warm("plan")
    for name, texts in fam.plan_texts(check.level):
        check.run(name, case, texts, chunk=50)
    check.notes["explanation"] = (
        "every plan of the listed finite families, parsed from text and built through the public "
        "constructors, is printed, the text is parsed, and the plans are compared step by step"
    )
