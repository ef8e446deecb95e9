"""What is refused is refused with an error about it: its kind, its place, what it names."""

import itertools
import re

from lark.exceptions import ParseError, UnexpectedCharacters, UnexpectedInput, UnexpectedToken

from mc import absyn, env, fam, mutate, sread
from mc.checks import c06, c11, c12, c13, c14, c21
from mc.checks.common import warm
from mc.run import Violation


def refusal(kind, text, obs):
    """The error, or None; its kind is one of those that concern the text."""
    from pddl.exceptions import PDDLError

    how, e = env.outcome(kind, text, obs.fresh)
    obs.step()
    if how == "obj":
        obs.outcome("accepted")
        return None
    obs.outcome(type(e).__name__)
    if not isinstance(e, (UnexpectedInput, ParseError, PDDLError)):
        raise Violation("the %s\n%s\nis refused with an internal error: %s" % (kind, text, env.brief(e)))
    return e


def domain(text, obs):
    obs.state(("domain", str(type(refusal("domain", text, obs))), text))


def problem(text, obs):
    obs.state(("problem", str(type(refusal("problem", text, obs))), text))


def plan(text, obs):
    obs.state(("plan", str(type(refusal("plan", text, obs))), text))


# --------------------------------------------------------------------------------------------- places

SEPARATORS = [" ", "\n", "\n\n  ", " ; a comment ( b\n", "\t", "  \n\t"]
ILLEGAL = ["%", "#", "!", "@", "'", '"', "[", "]", "{", "}", "|", "~", "^", "`", "\\", "\u00e9", "\u200b", "\x00", "1x%", "$"]


def layout(toks, sep):
    """The text, and where each token begins; it also begins and ends with the separator if it is not a mere space."""
    lead = "" if sep == " " else sep
    out, at, n = [lead], [], len(lead)
    for i, t in enumerate(toks):
        at.append(n)
        out.append(t)
        n += len(t)
        if i + 1 < len(toks):
            out.append(sep)
            n += len(sep)
    return "".join(out) + lead, at + [n + len(lead)]


def place(e):
    """Offset of a syntax error; None for the end of the text."""
    if isinstance(e, UnexpectedToken) and e.token.type == "$END":
        return None
    return e.pos_in_stream


def located(text, e):
    """Offset, line, column and token agree."""
    p = place(e)
    if p is None:
        return
    if not 0 <= p < len(text):
        raise Violation("error outside the text: offset %r of\n%s" % (p, text))
    line, column = text.count("\n", 0, p) + 1, p - (text.rfind("\n", 0, p) + 1) + 1
    if (e.line, e.column) != (line, column):
        raise Violation("error at offset %d, which is line %d, column %d, is reported for line %s, column %s of\n%s" % (p, line, column, e.line, e.column, text))
    if isinstance(e, UnexpectedToken) and text[p:p + len(e.token)] != e.token:
        raise Violation("error at %r reported for %r:\n%s" % (text[p:p + 20], str(e.token), text))


def refused_at(kind, toks, sep, i, obs, exact):
    """A text that begins well up to token i is not wrong before it; with exact, it is wrong there."""
    text, at = layout(toks, sep)
    e = refusal(kind, text, obs)
    obs.state((kind, tuple(toks)))
    if e is None:
        if exact:
            raise Violation("malformed %s accepted:\n%s" % (kind, text))
        return
    if not isinstance(e, UnexpectedInput):
        if exact:
            raise Violation("syntax error reported as %s:\n%s" % (env.brief(e), text))
        return
    located(text, e)
    p, want = place(e), at[i]
    end = len(text)
    if i >= len(toks):
        if p is not None:
            raise Violation("the text ends too early, but the error is reported at offset %d, %r:\n%s" % (p, text[p:p + 20], text))
    elif (end if p is None else p) < want or exact and p != want:
        raise Violation("the text is wrong at offset %d, %r, not at %s, %r:\n%s" % (want, text[want:want + 20], p, text[end if p is None else p:][:20], text))


def edited(case, obs):
    kind, base, i = case
    toks = sread.tokens(base)
    n = len(toks)
    for j, sep in enumerate(SEPARATORS):
        if i < n:
            refused_at(kind, toks[:i] + toks[i + 1:], sep, i, obs, False)
            if kind != "plan":
                refused_at(kind, toks[:i], sep, i, obs, True)
        for bad in ILLEGAL:
            if j < 2 or bad in ILLEGAL[:2]:
                if not re.match(r"[A-Za-z0-9$\\]", bad):
                    refused_at(kind, toks[:i] + [bad] + toks[i:], sep, i, obs, True)
                    refused_at(kind, toks[:i] + [bad] + toks[i + 1:], sep, i, obs, True)
                else:
                    refused_at(kind, toks[:i] + [bad] + toks[i:], sep, i, obs, False)
        if j < 2:
            for t in mutate.ALPHA[kind]:
                if t[0] != ";":
                    refused_at(kind, toks[:i] + sread.tokens(t) + toks[i:] if t not in ILLEGAL and t not in "#.&\\$_a" else toks[:i] + [t] + toks[i:], sep, i, obs, False)
                    refused_at(kind, toks[:i] + [t] + toks[i + 1:], sep, i, obs, False)
        if i == n and kind != "plan":
            for t in ("(", ")", "a", "1", "-", "define", ":types", "(a)", "?"):
                refused_at(kind, toks + sread.tokens(t) if t != "(a)" else toks + ["(", "a", ")"], sep, n, obs, True)


def edited_cases():
    for kind, bases in mutate.BASES.items():
        for base in bases:
            for i in range(len(sread.tokens(base)) + 1):
                yield (kind, base, i)


# --------------------------------------------------------------------------------------- requirements

def missing(case, obs):
    """A requirement that is reported missing is missing, and once it is declared no longer reported."""
    from pddl.exceptions import PDDLMissingRequirementError

    kind, form, reqs = case
    seen = []
    reqs = list(reqs)
    for _ in range(20):
        text = form.replace("@", c13.section(reqs))
        e = refusal(kind, text, obs)
        obs.state((form, tuple(reqs)))
        if not isinstance(e, PDDLMissingRequirementError):
            return
        r = str(e.requirement.value)
        if r in sread.closure(reqs):
            raise Violation("requirement %s is reported missing:\n%s" % (r, text))
        if r not in str(e):
            raise Violation("the message %r does not mention the requirement %s" % (str(e), r))
        seen.append(r)
        reqs.append(r)
    raise Violation("requirements are reported missing again and again: %s\n%s" % (seen, form))


def missing_cases(level):
    for reqs in c13.subsets(2 if level == 1 else 3):
        for f in c13.FEATURES.values():
            yield ("domain", "(define (domain d) @ %s)" % f, reqs)
        if reqs:  # without any, those of the domain count
            for g in c13.GOALS.values():
                yield ("problem", "(define (problem q) (:domain d) @ (:objects a b) (:init) (:goal %s))" % g, reqs)


# ---------------------------------------------------------------------------------------------- names

CULPRITS = [  # forms with one thing wrong, which goes by the name %s
    ("domain", "(define (domain d) (:requirements :adl :derived-predicates :fluents) (:types t1) (:constants %s - t1 %s))"),
    ("domain", "(define (domain d) (:requirements :adl) (:types %s b %s))"),
    ("domain", "(define (domain d) (:requirements :adl) (:types b - %s %s - %s))"),
    ("domain", "(define (domain d) (:constants a b %s c %s))"),
    ("domain", "(define (domain d) (:predicates (p ?x)) (:action go :parameters () :precondition (p %s)))"),
    ("domain", "(define (domain d) (:constants k) (:predicates (p ?x ?y)) (:action go :parameters (?x) :precondition (and (p k k) (not (p ?x %s)))))"),
    ("domain", "(define (domain d) (:constants k) (:predicates (p ?x ?y)) (:action go :parameters () :effect (and (p k k) (not (p %s k)))))"),
    ("domain", "(define (domain d) (:requirements :equality) (:constants k) (:action go :parameters () :precondition (= k %s)))"),
    ("domain", "(define (domain d) (:requirements :equality) (:constants k) (:action go :parameters () :precondition (= %s k)))"),
    ("domain", "(define (domain d) (:requirements :derived-predicates) (:predicates (p)) (:derived (%s) (p)))"),
    ("domain", "(define (domain d) (:requirements :derived-predicates) (:predicates (p) (%s ?x)) (:derived (%s) (p)))"),
    ("domain", "(define (domain d) (:requirements :derived-predicates) (:predicates (p) (%s)) (:derived (%s ?x) (p)))"),
    ("domain", "(define (domain d) (:requirements :fluents) (:functions (%s ?x) (%s ?x)))"),
    ("domain", "(define (domain d) (:requirements :fluents) (:functions (h) (%s) (g) (%s) - number))"),
    ("domain", "(define (domain d) (:requirements :adl) (:types t1 t2) (:predicates (p ?%s - t1 ?%s - t2)))"),
    ("domain", "(define (domain d) (:requirements :adl) (:types t1 t2) (:action go :parameters (?x ?y - t1 ?%s - t1 ?%s - t2)))"),
    ("problem", "(define (problem q) (:domain d) (:objects a %s b %s) (:init) (:goal (and)))"),
    ("problem", "(define (problem q) (:domain d) (:objects a %s - t1 b %s - t2) (:init) (:goal (and)))"),
]
CULPRIT_NAMES = ["zz", "Zz-9", "q_q", "x" * 40, "nobody", "objec", "andd"]
SLOTS = [  # places of a domain where a type can be used
    "(:constants a - %s)", "(:predicates (p ?x - %s))", "(:functions (f ?x - %s))", "(:action go :parameters (?x - %s))",
    "(:action go :parameters (?y ?x - (either t1 %s)))", "(:action go :parameters () :precondition (forall (?x - %s) (p)))",
    "(:action go :parameters () :precondition (exists (?x - (either %s t2)) (p)))", "(:action go :parameters () :effect (forall (?x - %s) (p)))",
    "(:action go :parameters () :effect (when (forall (?x - %s) (p)) (p)))",
]


def culprit(case, obs):
    """The message names what is wrong."""
    kind, text, word = case
    e = refusal(kind, text, obs)
    obs.state((kind, text))
    if e is None:
        raise Violation("%s accepted with %r:\n%s" % (kind, word, text))
    if not re.search(r"(?<![\w-])%s(?![\w-])" % re.escape(word), str(e)):
        raise Violation("the message does not name %r: %s\n%s" % (word, env.brief(e), text))


def culprit_cases():
    from pddl.exceptions import PDDLMissingRequirementError

    for kind, form in CULPRITS:
        for w in CULPRIT_NAMES:
            yield (kind, form.replace("%s", w), w)
    for slot in SLOTS:
        for w in CULPRIT_NAMES:
            for types in ("(:types t1 t2)", "(:types t1 t2 - t0)", "(:types zzz t1 t2)"):
                if "(p)" in slot:
                    slot = slot if "(:predicates (p))" in slot else "(:predicates (p)) " + slot
                yield ("domain", "(define (domain d) (:requirements :adl :fluents) %s %s)" % (types, slot.replace("%s", w)), w)
    for w in sorted(c21.RESERVED):
        for kind, forms in (("domain", c21.D), ("problem", c21.Q)):
            for form in forms.values():
                text = form.replace("%s", w)
                verdict, _ = sread.read(kind, text)
                if verdict == "bad":
                    how, e = env.outcome(kind, text)
                    if how == "exc" and not isinstance(e, (UnexpectedInput, PDDLMissingRequirementError)) and not text.startswith("(define (domain d) (:requirements :typing) (:types t9)") or how == "obj":
                        yield (kind, text, w)


# -------------------------------------------------------------------------------------- through methods

def attempt(f):
    try:
        f()
    except Exception as e:  # noqa
        return e


def is_kind(e, kinds, what):
    if e is not None and not isinstance(e, kinds):
        raise Violation("%s is refused with an internal error: %s" % (what, env.brief(e)))


def plans(case, obs):
    """Checks raise validation errors that mention a step of the plan; instantiation raises value errors."""
    from pddl.exceptions import PDDLValidationError

    plan_ast, i = case
    d, da, p, pa = c11.world(i, obs.fresh)
    x = absyn.build_plan(("plan", plan_ast))
    e = attempt(lambda: x.check(d, p))
    obs.step(2)
    obs.state(case)
    obs.outcome(type(e).__name__)
    is_kind(e, PDDLValidationError, "the plan %s" % x)
    actions = {a[0]: a for a in da[8]}
    objects = {c for c, _ in da[4]} | {o for o, _ in pa[4]}
    if e is not None:
        wrong = [
            (n, args) for n, args in plan_ast
            if n not in actions or len(args) != len(actions[n][1]) or any(a not in objects for a in args)
        ]
        if wrong and " ".join(re.findall(r"[\w-]+", "%s %s" % (wrong[0][0], " ".join(wrong[0][1])))) not in " ".join(re.findall(r"[\w-]+", str(e))):
            raise Violation("the first wrong step %s is not mentioned: %s\n%s" % (wrong[0], env.brief(e), x))
    e = attempt(lambda: x.instantiate(d))
    is_kind(e, ValueError, "instantiation of the plan %s" % x)


def squash(s):
    return " ".join(re.findall(r"[\w-]+", s))


def long_step(case, obs):
    """A plan of any length with one wrong step of any number of arguments."""
    from pddl.exceptions import PDDLValidationError

    n, m, i, how, j = case
    L = absyn.lib()
    d = env.parse("domain", "(define (domain d) (:constants c) (:action other :parameters ()) (:action go :parameters (%s)))" % " ".join("?v%d" % k for k in range(n)))
    p = env.parse("problem", "(define (problem q) (:domain d) (:objects %s) (:init) (:goal (and)))" % " ".join("o%d" % k for k in range(n)))
    right = ("go", ["o%d" % k for k in range(n)])
    wrong = ("go", list(right[1]))
    if how == "unknown":
        wrong[1][j] = "x%d" % j
    elif how == "more":
        wrong[1].insert(j, "c")
    elif how == "less":
        del wrong[1][j]
    else:
        wrong = (("gone", "g", "other-go", "Go")[j], wrong[1])
    steps = [right] * m
    steps[i] = wrong
    x = L["Plan"]([(a, [L["Constant"](o) for o in os]) for a, os in steps])
    e = attempt(lambda: x.check(d, p))
    obs.step()
    obs.state(case)
    if e is None:
        raise Violation("no error for the step %s of\n%s" % (wrong, x))
    is_kind(e, PDDLValidationError, "the plan %s" % x)
    if squash("%s %s" % (wrong[0], " ".join(wrong[1]))) not in squash(str(e)):
        raise Violation("the wrong step %s is not mentioned: %s\n%s" % (wrong, env.brief(e), x))


def long_steps():
    for n in range(9):
        for m, i in [(m, i) for m in (1, 2, 3, 12) for i in range(m)]:
            for how, js in (("unknown", range(n)), ("more", range(n + 1)), ("less", range(n)), ("name", range(4))):
                for j in js:
                    yield (n, m, i, how, j)


def domains(case, obs):
    """Types, requirements and names that do not fit are validation errors that name them."""
    from pddl.exceptions import PDDLValidationError

    label, tags, types, reqs = case
    term = ("v", "y", tags)
    if label.startswith("const:"):
        parts = dict(dict(c12.const_positions(("c", "k", tags[0] if tags else None)))[label[6:]])
    else:
        parts = dict(dict(c12.positions(term))[label])
    parts.pop("fluents", None)
    ast = c12.dom(reqs=frozenset(reqs + ("numeric-fluents",)), types=frozenset(types), **parts)
    e = attempt(lambda: absyn.build_domain(ast))
    obs.step()
    obs.state(case)
    obs.outcome(type(e).__name__)
    is_kind(e, PDDLValidationError, "a use of the types %s (%s)" % (tags, label))
    if e is not None:
        known = {t for t, _ in types} | {q for _, q in types if q} | {"object"}
        if set(tags) - known and c12.TYPING & set(reqs) and not any(t in str(e) for t in set(tags) - known):
            raise Violation("the message does not name %s: %s" % (sorted(set(tags) - known), env.brief(e)))


def domain_cases():
    return (c for c in c12.usages() if c[3] in (("typing",), ()))


def problems(case, obs):
    """Problems that do not fit a domain."""
    from pddl.exceptions import PDDLValidationError

    i, j, name = case
    L = absyn.lib()
    kw = c14.args(c14.CONTENTS[i], name=name)
    e = attempt(lambda: L["Problem"]("q", **kw))
    is_kind(e, (PDDLValidationError, ValueError), "the problem %r" % (c14.CONTENTS[i],))
    obs.step()
    obs.state(case)
    if e is not None:
        return
    p, d = L["Problem"]("q", **kw), c14.mk_domain(j)
    for f in (lambda: p.check(d), lambda: setattr(p, "domain", d)):
        e = attempt(f)
        obs.step()
        obs.outcome(type(e).__name__)
        is_kind(e, (PDDLValidationError, AssertionError), "the problem %s with the domain %s" % (p, d))


def main(check):
    warm("domain", "problem", "plan")
    level = check.level
    check.run("edited", edited, edited_cases(), 4)
    check.run("requirements", missing, missing_cases(level), 100)
    check.run("culprits", culprit, culprit_cases(), 20)
    check.run("plans", plans, ((pl, i) for pl in c11.plans(2 if level == 1 else 3, level == 1) for i in range(len(c11.worlds()))), 200)
    check.run("long-steps", long_step, long_steps(), 100)
    check.run("domains", domains, domain_cases(), 200)
    check.run("problems", problems, ((i, j, n) for i in range(len(c14.CONTENTS)) for j in range(len(c14.DOMAINS)) for n in ("d", "e")), 20)
    k = 3 if level == 1 else 1
    check.run("mutated-domains", domain, itertools.islice(mutate.mutants("domain"), 0, None, k), 300)
    check.run("mutated-problems", problem, itertools.islice(mutate.mutants("problem"), 0, None, k), 300)
    check.run("mutated-plans", plan, mutate.mutants("plan", 1), 300)
    check.run("declarations", domain, fam.declarations(3), 300)
    check.run("alike-domains", domain, fam.alike_domains(1), 100)
    check.run("alike-problems", problem, fam.alike_problems(1), 100)
    check.run("type-uses", domain, c12.usage_texts(), 100)
    check.run("hierarchies", domain, c12.hierarchy_texts(1), 100)
    check.run("names", domain, (f.replace("%s", w) for w in c21.neighbours(c21.RESERVED) for f in itertools.islice(c21.D.values(), 0, None, 1)), 300)
    check.run("names-in-problems", problem, (f.replace("%s", w) for w in c21.neighbours(c21.RESERVED) for f in c21.Q.values()), 300)
    n = 3 if level == 1 else 4
    for label, form, alphabet in (
        ("effects", c06.EFF, ["(", ")", "and", "when", "p", "?x", "=", "1", "f", "assign", "()", "(p)"]),
        ("conditions", c06.GD, ["(", ")", "and", "forall", "p", "?x", "=", "1", "f", ">", "()", "(p)"]),
        ("expressions", c06.EXP, ["(", ")", "+", "-", "f", "?x", "1", "2.5", "(f)", "total-cost"]),
    ):
        check.run(label, domain, c06.token_domains(n, alphabet, form), 300)
    for sec in ("(:constants %s)", "(:predicates (p %s))", "(:functions (f %s))", "(:functions %s)", "(:types %s)", "(:action go :parameters (%s))"):
        form = "(define (domain d) (:requirements :adl :fluents) (:types t1 t2) %s)" % sec
        if "(:types %s" in sec:
            form = form.replace("(:types t1 t2) ", "")
        check.run("typed-lists", domain, c06.token_domains(n + 1, ["a", "?x", "(f)", "t1", "-", "(either t1 t2)", "object", "number"], form), 300)
    check.notes["explanation"] = (
        "states: distinct texts and arguments; transitions: attempts. Kinds of errors on all families of malformed texts; places of syntax errors: every token gap of "
        "the base texts x illegal characters, cuts, insertions, replacements, deletions x layouts; requirements reported missing are declared until none is; "
        "errors with one culprit name it; checks, constructors and instantiation raise their kinds."
    )
