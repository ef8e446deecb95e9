"""The problem and plan parsers read every well-formed text as the reference reader does."""

from mc import fam
from mc.checks.c04 import faithful
from mc.checks.common import warm


def case(text, obs):
    faithful("problem", text, obs)


def plan_case(text, obs):
    faithful("plan", text, obs)


def main(check):
    warm("problem", "plan")
    for name, texts in fam.problem_texts(check.level):
        check.run("problem-" + name, case, texts, chunk=20)
    for name, texts in fam.plan_texts(check.level):
        check.run("plan-" + name, plan_case, texts, chunk=50)
    check.notes["explanation"] = (
        "every text of the listed finite families of problem and plan texts is parsed by the "
        "implementation and read by an independent reference reader; both abstract syntaxes have to "
        "be equal up to associativity and idempotence of and/or"
    )
