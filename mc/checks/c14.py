"""Problems stay consistent with their domain."""

import itertools

from mc import absyn, env, sread
from mc.checks.c12 import dom
from mc.run import Violation

TYPED = frozenset({("t1", "t0"), ("t2", None)})
# name, requirements, types
DOMAINS = [
    ("d", ("typing",), TYPED), ("D", ("typing",), TYPED), ("e", ("typing",), TYPED), ("d", (), frozenset()),
    ("d", ("strips", "typing"), frozenset({("t2", None)})), ("d", ("adl", "strips"), TYPED), ("d", ("strips",), frozenset({("t1", None), ("t2", None)})),
]
NAMES = ["d", "e", "D"]
REQS = [None, ("typing",), (), ("strips",), ("strips", "typing"), ("equality", "typing")]
A, B = ("c", "a", None), ("c", "b", None)


def p(*ts):
    return ("atom", "p", ts)


# (objects, init, goal, types used)
CONTENTS = [
    ((), (), None, ()),
    ((("a", None), ("b", None)), (p(A), ("not", p(B))), p(A), ()),
    ((("a", "t1"), ("b", None)), (p(A),), p(A), ("t1",)),
    ((("a", "t0"),), (), ("not", p(A)), ("t0",)),
    ((("a", "t2"), ("b", "t1")), (("cmp", "=", ("fn", "f", (A,)), ("num", 1)),), ("and", ()), ("t1", "t2")),
    ((("a", "zz"),), (), None, ("zz",)),
    ((("b", "t2"), ("a", "zz")), (), None, ("t2", "zz")),
    ((("a", None),), (p(("c", "a", "t1")),), None, ("t1",)),
    ((("a", None),), (("not", p(("c", "a", "zz"))), p(B)), None, ("zz",)),
    ((("a", None),), (("cmp", "=", ("fn", "f", (("c", "a", "zz"),)), ("num", 1)),), None, ("zz",)),
    ((), (), ("forall", (("v", "x", ("t1",)),), p(("v", "x", ("t1",)))), ("t1",)),
    ((), (), ("not", ("exists", (("v", "x", ("t2", "zz")),), p())), ("t2", "zz")),
    ((), (), ("or", (p(A), ("imply", p(B), p(("c", "a", "zz"))))), ("zz",)),
    ((), (), ("and", (p(A), ("cmp", ">", ("fn", "f", (("c", "a", "t2"),)), ("num", 1)))), ("t2",)),
    ((), (), ("=", ("c", "a", "t2"), B), ("t2",)),
    ((), (), ("exists", (("v", "x", ("object",)),), p()), ("object",)),
    ((("a", "object"), ("b", "t1")), (), None, ("object", "t1")),
]
NOT_LITERALS = [
    ("and", ()), ("or", ()), ("and", (p(A), p(B))), ("or", (p(A), p(B))), ("imply", p(A), p(B)), ("not", ("and", (p(A), p(B)))),
    ("not", ("not", p(A))), ("forall", (("v", "x", ()),), p(("v", "x", ()))), ("exists", (("v", "x", ()),), p()),
    ("oneof", (p(A), p(B))), ("when", p(A), p(B)), ("feff", (("v", "x", ()),), p()), ("not", ("or", ())),
    ("not", ("not", ("not", p(A)))), ("not", ("imply", p(A), p(A))),
]
LITERALS = [p(A), ("not", p(A)), p(), ("=", A, B), ("not", ("=", A, B)), ("cmp", "=", ("fn", "f", ()), ("num", 2))]


def mk_domain(i):
    n, reqs, types = DOMAINS[i]
    return absyn.build_domain(dom(name=n, reqs=frozenset(reqs), types=types))


def types_ok(content, i):
    n, reqs, types = DOMAINS[i]
    used = content[3]
    known = {t for t, _ in types} | {q for _, q in types if q} | {"object"}
    return set(used) <= known and (not used or "typing" in sread.closure(reqs))


def reqs_ok(reqs, i):
    """The requirements have to be declared; it does not help that others imply them."""
    return reqs is None or set(reqs) <= set(DOMAINS[i][1])


def args(content, name=None, reqs=None, domain=None):
    L = absyn.lib()
    objects, init, goal, _ = content
    kw = dict(
        objects=[L["Constant"](c, t) for c, t in objects], init=[absyn.build(x) for x in init],
        goal=None if goal is None else absyn.build(goal),
    )
    if name is not None:
        kw["domain_name"] = name
    if reqs is not None:
        kw["requirements"] = [L["Requirements"](r) for r in reqs]
    if domain is not None:
        kw["domain"] = domain
    return kw


def attempt(fn):
    try:
        return True, fn()
    except Exception as e:
        return False, e


def judge(want, got, what):
    ok, x = got
    if want is None or ok == want:
        return
    raise Violation("%s: %s" % (what, "accepted but inconsistent" if ok else "rejected: %s" % env.brief(x)))


def both(*xs):
    if False in xs:
        return False
    return None if None in xs else True


def snapshot(q, has_domain):
    return (
        absyn.dump_problem(q), str(q), q.domain_name, frozenset(r.value for r in q.requirements),
        attempt(lambda: q.domain)[0],
    )


def construct(case, obs):
    ci, name, reqs, di = case
    L = absyn.lib()
    content = CONTENTS[ci]
    d = None if di is None else mk_domain(di)
    want = True
    if d is None:
        want = name is not None
    else:
        if name is not None and name != DOMAINS[di][0]:
            want = False
        if reqs is not None:
            want = both(want, set(reqs) == set(DOMAINS[di][1]))
        want = both(want, types_ok(content, di))
    got = attempt(lambda: L["Problem"]("q", **args(content, name, reqs, d)))
    obs.step()
    obs.state(case)
    obs.outcome(want)
    judge(want, got, "Problem(%r) with domain %r, name %r, requirements %r" % (content, None if di is None else DOMAINS[di], name, reqs))
    if not got[0]:
        return
    q = got[1]
    if d is not None:
        if q.domain is not d or q.domain_name != d.name or set(q.requirements) != set(d.requirements):
            raise Violation("the problem does not take name and requirements of its domain: %r" % (case,))
    else:
        if q.domain_name != name or {r.value for r in q.requirements} != set(reqs or ()):
            raise Violation("the problem does not keep name and requirements: %r" % (case,))
        if attempt(lambda: q.domain)[0]:
            raise Violation("a problem without a domain gives one")
    if {(str(c.name), c.type_tag) for c in q.objects} != set(content[0]):
        raise Violation("objects %r kept as %r" % (content[0], q.objects))
    if frozenset(map(absyn.dump, q.init)) != frozenset(content[1]):
        raise Violation("initial state %r kept as %r" % (content[1], q.init))
    if absyn.norm(absyn.dump(q.goal)) != absyn.norm(absyn.dump(absyn.build(content[2] or ("and", ())))):
        raise Violation("goal %r kept as %s" % (content[2], q.goal))


def construct_cases():
    for ci in range(len(CONTENTS)):
        for name in [None] + NAMES:
            for reqs in REQS:
                for di in [None] + list(range(len(DOMAINS))):
                    yield (ci, name, reqs, di)


def histories(case, obs):
    """Sequences of checks and attachments on one problem that starts without a domain."""
    ci, name, reqs, ops = case
    L = absyn.lib()
    content = CONTENTS[ci]
    q = L["Problem"]("q", **args(content, name, reqs))
    at = None  # the attached domain
    objs = {}
    for op, di in ops:
        d = objs.setdefault(di, mk_domain(di))
        before = snapshot(q, at is not None)
        if op == "check":
            cur = name if at is None else DOMAINS[at][0]
            want = both(cur.lower() == DOMAINS[di][0].lower(), reqs_ok(reqs, di), types_ok(content, di))
            got = attempt(lambda: q.check(d))
        else:
            want = both(reqs_ok(reqs, di), types_ok(content, di))

            def setd():
                q.domain = d

            got = attempt(setd)
        obs.step()
        judge(want, got, "%s with domain %r after %r of problem %r requirements %r" % (op, DOMAINS[di], ops, content, reqs))
        if op == "set" and got[0]:
            at = di
            if q.domain is not d or q.domain_name != d.name or set(q.requirements) != set(d.requirements):
                raise Violation("the problem does not take name and requirements of its domain: %r" % (case,))
            fresh = L["Problem"]("q", **args(content, None, None, d))
            if str(q) != str(fresh) or not q == fresh or absyn.dump_problem(q) != absyn.dump_problem(fresh):
                raise Violation("the problem differs from one that is made with its domain: %r\n%s\n%s" % (case, q, fresh))
        elif snapshot(q, at is not None) != before:
            raise Violation("%s that %s changes the problem: %r" % (op, "succeeds" if got[0] else "fails", case))
        elif at is not None and q.domain is not objs[at]:
            raise Violation("%s replaces the attached domain: %r" % (op, case))
        obs.state((ci, name, reqs, at, op, di))


def history_cases(level):
    ops = [(o, i) for o in ("set", "check") for i in range(len(DOMAINS))]
    for ci in range(len(CONTENTS)):
        for name in NAMES[:2]:
            for reqs in REQS:
                for n in (1, 2):
                    for seq in itertools.product(ops, repeat=n):
                        yield (ci, name, reqs, seq)
    contents = range(len(CONTENTS)) if level > 1 else (1, 2, 5, 10)
    for ci in contents:
        for reqs in (None, ("typing",)):
            for seq in itertools.product(ops, repeat=3):
                yield (ci, "d", reqs, seq)


def literals(case, obs):
    fs, with_domain = case
    L = absyn.lib()
    want = all(f in LITERALS for f in fs)
    kw = dict(domain=mk_domain(0)) if with_domain else dict(domain_name="d")
    got = attempt(lambda: L["Problem"]("q", init=[absyn.build(f) for f in fs], **kw))
    obs.step()
    obs.state(case)
    judge(want, got, "initial state %r" % (fs,))


def literal_cases():
    for w in (False, True):
        for n in (1, 2, 3):
            menu = LITERALS + NOT_LITERALS if n < 3 else LITERALS[:3] + NOT_LITERALS[::3]
            for fs in itertools.product(menu, repeat=n):
                yield (fs, w)


def main(check):
    absyn.lib()
    check.run("constructor", construct, construct_cases(), chunk=100)
    check.run("literals", literals, literal_cases(), chunk=200)
    check.run("histories", histories, history_cases(check.level), chunk=500)
    check.notes["explanation"] = (
        "all combinations of domains, names, requirements and contents through the constructor, and all "
        "sequences of at most three checks and attachments on a problem; acceptance is compared with the "
        "rules, and a failed operation has to leave the problem as it was"
    )
    check.notes["assumptions"] = [
        "whether requirements that a domain has only by implication may be declared in a problem, and "
        "whether a domain name in another case fits the constructor, is left open"
    ]
