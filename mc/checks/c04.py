"""The domain parser reads every well-formed text as the reference reader does."""

from mc import absyn, fam
from mc.checks.common import must_parse, same, warm

KIND = "domain"


def faithful(kind, text, obs):
    x, ast, _ = must_parse(kind, text, obs)
    if x is None:
        return
    obs.state(absyn.norm(ast))
    same(absyn.dump_any(kind, x), ast, "parsed %s (left) differs from its text (right)" % kind, text)


def case(text, obs):
    faithful("domain", text, obs)


def main(check):
    warm("domain")
    for name, texts in fam.domain_texts(check.level):
        check.run(name, case, texts, chunk=20)
    check.notes["explanation"] = (
        "every text of the listed finite families of domain texts is parsed by the implementation and "
        "read by an independent reference reader; both abstract syntaxes have to be equal up to "
        "associativity and idempotence of and/or"
    )
