"""Instantiation replaces exactly the occurrences of the parameters that are not bound inside."""

import itertools

from mc import absyn, env, fam, sread
from mc.checks.common import difference, must_parse, warm
from mc.run import Violation

DOMAIN = fam.domain_of


def subst(a, m):
    """Substitution of the free occurrences of variables, by name; m: name -> term."""
    k = a[0]
    if k == "v":
        return m.get(a[1], a)
    if k == "c" or k == "num":
        return a
    if k in ("atom", "fn"):
        return (k, a[1], tuple(subst(t, m) for t in a[2]))
    if k in ("and", "or", "oneof", "+", "*", "-", "/"):
        return (k, tuple(subst(x, m) for x in a[1]))
    if k == "not":
        return (k, subst(a[1], m))
    if k in ("imply", "when", "="):
        return (k, subst(a[1], m), subst(a[2], m))
    if k in ("forall", "exists", "feff"):
        inner = {n: t for n, t in m.items() if n not in {v[1] for v in a[1]}}
        return (k, a[1], subst(a[2], inner))
    if k in ("cmp", "asg"):
        return (k, a[1], subst(a[2], m), subst(a[3], m))
    raise ValueError(a)


def expect_action(ast, args):
    n, ps, pre, eff = ast
    m = {p[1]: c for p, c in zip(ps, args)}
    return (
        n, tuple(args), None if pre is None else subst(pre, m), None if eff is None else subst(eff, m)
    )


def norm_action(a):
    n, ps, pre, eff = a
    return (n, ps, absyn.norm(pre), absyn.norm(eff))


ARGS = [
    (("c", "a", "t1"), ("c", "k", None)), (("c", "k", None), ("c", "a", "t1")), (("c", "a", "t1"), ("c", "a", "t1")),
    (("c", "k", None), ("c", "k", None)), (("c", "b", None), ("c", "x", "t3")), (("c", "y", None), ("c", "x", None)),
]


def check_action(action, ast, args, obs, source):
    before = absyn.dump(action)
    try:
        inst = action.instantiate([absyn.b_term(c) for c in args])
    except Exception as e:
        raise Violation("instantiation with %r fails: %s\n%s" % (args, env.brief(e), source))
    obs.step()
    want, got = norm_action(expect_action(ast, args)), norm_action(absyn.dump(inst))
    obs.state(want)
    if got != want:
        raise Violation("instantiation with %r gives (left) instead of (right)\n%s\n%s" % (args, difference(got, want), source))
    if absyn.dump(action) != before:
        raise Violation("instantiation changes the action\n%s" % source)
    return inst


def case(text, obs):
    """All actions of a parsed domain, with all tuples of arguments."""
    d, ast, _ = must_parse("domain", text, obs)
    if d is None:
        return
    asts = {a[0]: a for a in ast[8]}
    for action in d.actions:
        a = asts[str(action.name)]
        n = len(a[1])
        if n == 2:
            some = ARGS
        else:
            some = [tuple(ARGS[i % len(ARGS)][(i + j) % 2] for j in range(n)) for i in range(2)]
        for args in some:
            check_action(action, a, args, obs, text)
        for bad in range(n + 3):
            if bad != n:
                try:
                    action.instantiate([absyn.b_term(("c", "a", None))] * bad)
                except Exception:
                    continue
                raise Violation("%d arguments accepted by an action with %d parameters" % (bad, n))


def formula_case(a, obs):
    """A formula under all partial ground mappings, at once and one variable after the other."""
    f = absyn.build(a)
    x, y = ("v", "x", ("t1",)), ("v", "y", ())
    for cx, cy in itertools.product([None, "a", "k"], repeat=2):
        m = {}
        if cx:
            m[x] = ("c", cx, None)
        if cy:
            m[y] = ("c", cy, None)
        want = absyn.norm(subst(a, {v[1]: c for v, c in m.items()}))
        try:
            got = f.instantiate({absyn.b_term(v): absyn.b_term(c) for v, c in m.items()})
        except Exception as e:
            raise Violation("instantiation of %s with %r fails: %s" % (f, m, env.brief(e)))
        obs.step()
        obs.state(want)
        if absyn.norm(absyn.dump(got)) != want:
            raise Violation("%s with %r gives %s" % (f, m, got))
        if len(m) == 2:
            for order in (list(m), list(m)[::-1]):
                g = f
                for v in order:
                    g = g.instantiate({absyn.b_term(v): absyn.b_term(m[v])})
                obs.step()
                if absyn.norm(absyn.dump(g)) != want:
                    raise Violation("%s with %r one after the other gives %s" % (f, m, g))
    if absyn.norm(absyn.dump(f)) != absyn.norm(a):
        raise Violation("the formula changed: %s" % f)


def parsed(kind, texts):
    """Abstract syntax of enumerated formulas or effects, read by the reference reader."""
    for part in fam.chunks(texts, 12):
        acts = [fam.action(i, f if kind == 2 else None, f if kind == 3 else None) for i, f in enumerate(part)]
        verdict, ast = sread.read("domain", fam.domain_of(acts))
        if verdict in ("ok", "maybe"):
            for a in sorted(ast[8], key=repr):
                yield a[kind]


def no_ctypes(asts):
    for a in asts:
        yield absyn.strip_ctypes(a)


def permutations(case, obs):
    """Actions with many parameters, arguments in all orders."""
    n, perm, typed = case
    ps = tuple(("v", "p%d" % i, ("t%d" % (i % 3),) if typed else ()) for i in range(n))
    pre = ("and", (("atom", "p", ps), ("atom", "q", ps[::-1]), ("forall", ps[:1], ("atom", "p", ps)),
                   ("cmp", ">", ("fn", "f", ps), ("num", 1))))
    eff = ("and", (("not", ("atom", "p", ps)), ("when", ("atom", "q", ps[1:]), ("atom", "r", ps[:1])),
                   ("feff", ps[-1:], ("atom", "p", ps)), ("asg", "increase", ("fn", "f", ps[::-1]), ("num", 2))))
    a = ("go", ps, pre, eff)
    args = tuple(("c", "c%d" % i, None) for i in perm)
    inst = check_action(absyn.b_action(a), a, args, obs, repr(case))
    if tuple(str(t) for t in inst.parameters) != tuple("c%d" % i for i in perm):
        raise Violation("parameters of the instance are %r" % (inst.parameters,))


def perms(level):
    for n in range(1, 6 if level == 1 else 7):
        for perm in itertools.permutations(range(n)):
            yield (n, perm, True)
            yield (n, perm, False)
        for same in itertools.product(range(min(n, 3)), repeat=min(n, 4)):
            yield (len(same), same, True)
    for n in range(6, 41):
        yield (n, tuple(range(n)), True)
        yield (n, tuple(reversed(range(n))), True)
        yield (n, tuple((i * 7) % n for i in range(n)), False)


def wholes(n):
    """The shapes of an action: with and without precondition and effect."""
    pres = [None, "()", "(p1 ?x)", "(and (p1 ?x) (p2 ?y ?x))", "(forall (?x) (p2 ?x ?y))"]
    effs = [None, "()", "(p1 ?x)", "(and (p1 ?y) (not (p2 ?y ?x)))", "(forall (?y) (when (p1 ?y) (p2 ?x ?y)))"]
    params = ["?x ?y", "?x - t1 ?y", "?y ?x", "?x ?y - (either t1 t3)", "?y - t1 ?x - t3", "?z ?x ?y", "?x - t1"]
    for pre, eff, ps in itertools.product(pres, effs, params):
        yield fam.domain_of([fam.action(0, pre, eff, ps), fam.action(1, eff if eff != "()" and eff and "when" not in eff else None, None, ps)])


def derived(text, obs):
    d, ast, _ = must_parse("domain", text, obs)
    if d is None:
        return
    for dp in d.derived_predicates:
        h, f = absyn.dump(dp)
        m = {v[1]: c for v, c in zip(h[2], ARGS[0])}
        got = dp.instantiate({absyn.b_term(v): absyn.b_term(m[v[1]]) for v in h[2]})
        obs.step()
        want = (subst(h, m), absyn.norm(subst(f, m)))
        gh, gf = absyn.dump(got)
        if (gh, absyn.norm(gf)) != want:
            raise Violation("instance of %s is %s" % (dp, got))
        obs.state(want)


def repeated(case, obs):
    """Parameters that repeat a name: the number of arguments still is the number of parameters."""
    names, typed = case
    ps = tuple(("v", x, ("t1",) if typed else ()) for x in names)
    n = len(ps)
    a = ("go", ps, ("atom", "p", ps), ("and", (("atom", "q", ps[::-1]), ("not", ("atom", "p", ps)))))
    action = absyn.b_action(a)
    obs.state(a)
    for k in range(n + 3):
        if k != n:
            try:
                action.instantiate([absyn.b_term(("c", "a", None))] * k)
            except Exception:
                obs.step()
                continue
            raise Violation("%d arguments accepted by an action with %d parameters" % (k, n))
    check_action(action, a, tuple(("c", "k" + x, None) for x in names), obs, repr(case))


def name_lists(n):
    for k in range(n + 1):
        for names in itertools.product("xyz", repeat=k):
            yield (names, False)
            yield (names, True)


HARGS = [("c", "a", None), ("c", "a", "t1"), ("c", "a", "t2"), ("c", "b", "t1"), ("c", "A", "t1")]
HISTORY_DOMAIN = fam.domain_of([
    "(:action two :parameters (?x - t1 ?y) :precondition (and (p2 ?x ?y) (exists (?z) (p2 ?z ?y))) "
    ":effect (and (not (p1 ?x)) (when (p1 ?y) (p2 ?y ?x)) (increase (f1 ?x) 2)))",
    "(:action one :parameters (?x) :precondition (not (p1 ?x)) :effect (p1 ?x))",
    "(:action none :parameters () :precondition (p0))",
])


def histories(case, obs):
    """The same actions instantiated again and again, with constants that differ only in their type:
    every instance is the one of its own arguments, and the earlier ones stay as they were."""
    d, ast, _ = must_parse("domain", HISTORY_DOMAIN, obs)
    asts = {a[0]: a for a in ast[8]}
    actions = {str(a.name): a for a in d.actions}
    made = []
    for name, args in case:
        inst = check_action(actions[name], asts[name], args, obs, repr(case))
        made.append((inst, absyn.dump(inst)))
        for old, dumped in made:
            if absyn.dump(old) != dumped:
                raise Violation("a later instantiation changes an earlier instance\n%r" % (case,))
        if any(old is inst for old, _ in made[:-1]):
            obs.outcome("shared instance")


def history_cases(n):
    steps = [("one", (c,)) for c in HARGS] + [("none", ())]
    steps += [("two", p) for p in itertools.product(HARGS[:4], repeat=2)
              if p[0] == p[1] or p[0][1] != p[1][1] or None in (p[0][2], p[1][2])]
    for k in range(1, n):
        yield from itertools.product(steps, repeat=k)
    yield from itertools.product(steps[:10], repeat=n)


def main(check):
    warm("domain")
    check.run("histories", histories, history_cases(3 if check.level == 1 else 4), chunk=50)
    check.run("repeated-parameters", repeated, name_lists(4 if check.level == 1 else 6), chunk=50)
    lv = check.level
    fs = itertools.chain(fam.formulas(0), fam.formulas(1), fam.formulas(2, (40, 60, 150)[lv]))
    check.run("preconditions", case, (DOMAIN([fam.action(i, f) for i, f in enumerate(p)]) for p in fam.chunks(fs, 12)), chunk=10)
    fx = itertools.chain(fam.effects(0), fam.effects(1), fam.effects(2))
    check.run("effects", case, (DOMAIN([fam.action(i, None, f) for i, f in enumerate(p)]) for p in fam.chunks(fx, 12)), chunk=10)
    es = itertools.chain(fam.comparisons(0), fam.comparisons(1))
    check.run("expressions", case, (DOMAIN([fam.action(i, f) for i, f in enumerate(p)]) for p in fam.chunks(es, 12)), chunk=10)
    check.run("actions", case, wholes(0), chunk=10)
    check.run("typed-parameters", case, fam.typed_list_domains(4 if lv == 1 else 5), chunk=5)
    fs = itertools.chain(fam.formulas(0), fam.formulas(1), fam.formulas(2, (40, 60, 150)[lv]))
    check.run("formulas", formula_case, no_ctypes(parsed(2, fs)), chunk=100)
    fx = itertools.chain(fam.effects(0), fam.effects(1), fam.effects(2))
    check.run("effect-terms", formula_case, no_ctypes(parsed(3, fx)), chunk=100)
    check.run("permutations", permutations, perms(lv), chunk=20)
    fs = itertools.chain(fam.formulas(0), fam.formulas(1))
    check.run("derived", derived, (DOMAIN("(:derived (p2 ?x ?y) %s)" % f for f in p) for p in fam.chunks(fs, 12)), chunk=10)
    check.notes["explanation"] = (
        "every action, formula, effect and derived predicate of the listed finite families is "
        "instantiated with every listed tuple of constants; the result is compared with capture-free "
        "substitution on the abstract syntax, and the original has to stay as it was"
    )
