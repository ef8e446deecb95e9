"""Domains survive printing and parsing."""

import itertools

from mc import absyn, fam, sread
from mc.checks.common import must_parse, round_trip, warm
from mc.run import Violation


def strict(ast):
    """Whether the printed domain has to be equal to the domain by the library's own equality, too:
    supertypes that are not declared are declared by the printed text, and the type 'object' stands
    for no type."""
    types = dict(ast[3])
    return all(p is None or p in types for p in types.values())


def case(text, obs):
    d, ast, _ = must_parse("domain", text, obs)
    if d is None:
        return
    exact = strict(ast) and "object" not in text
    printed, again = round_trip("domain", d, obs, text, exact)
    built = absyn.build_domain(ast)
    if "object" not in text:
        p2, again2 = round_trip("domain", built, obs, "(built through the API)\n" + text, exact)
        if p2 != printed:
            raise Violation("the built domain prints\n%s\nthe parsed one\n%s" % (p2, printed))
        if not (built == d and d == built):
            raise Violation("the domain built from the content of the text differs:\n%s" % text)
    else:
        round_trip("domain", built, obs, "(built through the API)\n" + text, False)


def built_types(pairs, obs):
    """A domain built with any table of types: the type object may be written or not, supertypes
    need not be declared."""
    L = absyn.lib()
    names = [t for t, _ in pairs] + [p for _, p in pairs if p not in (None, "object")]
    names = sorted(set(names))
    try:
        d = L["Domain"](
            "d", requirements=[L["Requirements"].TYPING], types=dict(pairs),
            constants=[L["Constant"]("k%d" % i, t) for i, t in enumerate(names)],
            predicates=[L["Predicate"]("p", L["Variable"]("x", set(names[:1])))],
        )
    except Exception:  # cycles; what else is refused is the subject of another property
        obs.outcome("refused")
        return
    source = "types %r" % (dict(pairs),)
    stable = "object" not in dict(pairs).values()
    _, again = round_trip("domain", d, obs, source, False, stable)
    round_trip("domain", again, obs, source, True)


def main(check):
    warm("domain")
    check.run(
        "built-types", built_types,
        (f for n in range(1, 5 if check.level == 1 else 6) for f in fam.forests(n)), chunk=100,
    )
    check.run("built-types-order", built_types, (
        p for f in fam.forests(3) for p in itertools.permutations(f)), chunk=100)
    for name, texts in fam.domain_texts(check.level):
        check.run(name, case, texts, chunk=20)
    check.notes["explanation"] = (
        "every domain of the listed finite families, both parsed from text and built through the "
        "public constructors, is printed, the text is parsed, and the two domains are compared by "
        "abstract syntax and by the library's equality; the second text has to equal the first"
    )
