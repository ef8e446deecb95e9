"""Type hierarchies and the types used in a domain are validated."""

import itertools

from mc import absyn, env, fam, sread
from mc.checks.c06 import domain as text_case
from mc.checks.common import warm
from mc.run import Violation

TYPING = {"typing", "adl"}


def cyclic(m):
    for t in m:
        seen = set()
        while t is not None and t != "object":
            if t in seen:
                return True
            seen.add(t)
            t = m.get(t)
    return False


def hierarchy(case, obs):
    """Domain(types=...) is accepted exactly if the hierarchy is legal."""
    pairs, reqs = case
    L = absyn.lib()
    m = dict(pairs)
    ok = not cyclic(m) and m.get("object") is None
    if any(p is not None for p in m.values()):
        ok = ok and bool(TYPING & set(reqs))
    obs.state((tuple(sorted(pairs, key=repr)), reqs))
    obs.outcome(ok)
    try:
        d = L["Domain"]("d", requirements={L["Requirements"](r) for r in reqs}, types=dict(pairs))
    except Exception as e:
        obs.step()
        if ok:
            raise Violation("legal hierarchy %r with requirements %r rejected: %s" % (m, reqs, env.brief(e)))
        return
    obs.step()
    if not ok:
        raise Violation("illegal hierarchy %r with requirements %r accepted" % (m, reqs))
    want = frozenset((t, None if p == "object" else p) for t, p in m.items())
    if absyn.dump_types(d.types) != want:
        raise Violation("hierarchy %r kept as %r" % (m, d.types))


def maps(level):
    reqsets = [("typing",), ("adl",), (), ("strips", "equality"), ("strips", "typing")]
    for n in range(1, 5 if level == 1 else 6):
        for f in fam.forests(n):
            yield (f, ("typing",))
            if n < 4:
                for r in reqsets[1:]:
                    yield (f, r)
                for perm in itertools.permutations(f):
                    yield (perm, ("typing",))
            else:
                yield (f[::-1], ("adl",))
    for f in fam.forests(2):
        for p in (None, "t0", "t1", "object", "u"):
            if p is not None:
                yield (f + (("object", p),), ("typing",))
                yield ((("object", p),) + f, ("typing",))
    for n in range(1, 41):
        chain = tuple(("t%d" % i, "t%d" % (i + 1)) for i in range(n))
        yield (chain, ("typing",))
        yield (chain[::-1], ("typing",))
        for back in {0, n // 2, n - 1, n}:
            rho = chain + (("t%d" % n, "t%d" % back),)
            yield (rho, ("typing",))
            yield (rho[::-1], ("adl",))
            yield (rho[n // 2:] + rho[:n // 2], ("typing",))
        yield (chain + (("t%d" % n, None),), ())
        yield (chain + (("t%d" % n, "object"),), ("typing",))
        yield (tuple((t, None) for t, _ in chain), ())
        yield (tuple((t, None) for t, _ in chain) + (("u", "object"),), ())
        yield (tuple((t, "root") for t, _ in chain), ("typing",))


def hierarchy_texts(level):
    for reqs in (":typing", ":adl", ":strips", None):
        for n in range(1, 4 if level == 1 else 5):
            for f in fam.forests(n):
                yield "(define (domain d) %s (:types %s))" % (
                    "(:requirements %s)" % reqs if reqs else "", fam.types_section(f)
                )


# positions where a type can be used: abstract syntax of a domain from a variable or constant

X = ("v", "x", ())


def dom(**kw):
    a = dict(
        name="d", reqs=frozenset(), types=frozenset(), consts=frozenset(), preds=frozenset(),
        funcs=frozenset(), derived=frozenset(), actions=frozenset(),
    )
    a.update(kw)
    return ("domain",) + tuple(a.values())


def act(pre=None, eff=None, ps=()):
    return dict(actions=frozenset({("go", ps, pre, eff)}))


def positions(v):
    """(label, parts of a domain) with the variable v in every position."""
    p, q = ("atom", "p", (v,)), ("atom", "r", ())
    fn = ("fn", "f", (v,))
    one = ("num", 1)
    yield "predicate", dict(preds=frozenset({("p", (v,))}))
    yield "predicate-second", dict(preds=frozenset({("p", (X, ("v", "w", ()), v)), ("s", ())}))
    yield "function", dict(funcs=frozenset({(("f", (v,)), None)}), fluents=True)
    yield "function-second", dict(funcs=frozenset({(("f", (X, v)), "number"), (("g", ()), None)}), fluents=True)
    yield "parameter", act(ps=(v,))
    yield "parameter-third", act(ps=(X, ("v", "w", ()), v))
    formulas = {
        "atom": p, "equality-left": ("=", v, X), "equality-right": ("=", X, v), "not": ("not", p),
        "and": ("and", (q, p)), "or": ("or", (q, p)), "imply-left": ("imply", p, q), "imply-right": ("imply", q, p),
        "forall": ("forall", (v,), q), "exists": ("exists", (v,), q), "forall-two": ("forall", (X, v), q),
        "forall-body": ("forall", (X,), p), "exists-body": ("exists", (X,), p), "compare-left": ("cmp", ">", fn, one),
        "compare-right": ("cmp", "=", one, fn), "expression": ("cmp", "<", ("+", (one, ("-", (fn,)))), one),
        "divide": ("cmp", "<=", ("/", (one, ("*", (one, fn)))), one),
        "deep": ("not", ("and", (q, ("or", (q, ("exists", (X,), ("not", ("forall", (v,), q)))))))),
    }
    for k, f in formulas.items():
        yield "precondition-" + k, act(pre=f)
        yield "condition-" + k, act(eff=("when", f, q))
        yield "derived-" + k, dict(derived=frozenset({(("atom", "r", ()), f)}), preds=frozenset({("r", ())}))
    effects = {
        "add": p, "delete": ("not", p), "and": ("and", (q, p)), "oneof": ("oneof", (q, p)), "forall": ("feff", (v,), q),
        "forall-two": ("feff", (X, v), q), "forall-body": ("feff", (X,), p), "when": ("when", q, p),
        "when-and": ("when", q, ("and", (q, ("not", p)))), "assign-left": ("asg", "assign", fn, one),
        "assign-right": ("asg", "increase", ("fn", "g", ()), fn), "scale": ("asg", "scale-up", fn, fn),
        "decrease": ("asg", "decrease", fn, one), "scale-down": ("asg", "scale-down", ("fn", "g", ()), ("-", (one, fn))),
        "deep": ("and", (("feff", (X,), ("oneof", (q, ("when", q, p)))), q)),
        "forall-oneof": ("feff", (X,), ("and", (("oneof", (("feff", (v,), q), q)), q))),
    }
    for k, e in effects.items():
        yield "effect-" + k, act(eff=e)
    yield "derived-head", dict(derived=frozenset({(p, q)}), preds=frozenset({("p", (X,))}))
    yield "derived-head-second", dict(derived=frozenset({(("atom", "p", (X, v)), q)}), preds=frozenset({("p", (X, X))}))


def const_positions(c):
    yield "constant", dict(consts=frozenset({c[1:]}))
    yield "constant-many", dict(consts=frozenset({c[1:], ("other", None), ("b", None)}))
    v = c
    for label, parts in positions(v):
        if label.startswith(("precondition-", "condition-", "derived-", "effect-")) and not any(
            x in label for x in ("forall", "exists", "head", "deep")
        ):
            yield label, parts


# every path from the root of a formula, an expression or an effect to a term

R = ("atom", "r", ())
ONE = ("num", 1)
Z = ("v", "z", ())


def among(x, fill, n=4):
    """x at every place of a list of at most n items."""
    for k in range(1, n + 1):
        for i in range(k):
            yield tuple(x if j == i else fill for j in range(k))


def term_leaves(v):
    for ts in among(v, X):
        yield "F", ("atom", "p", ts)
        yield "N", ("fn", "f", ts)
    yield "F", ("=", v, X)
    yield "F", ("=", X, v)


def contexts(kind, x, v, n=4):
    """All ways to put x (F: formula, N: expression) directly into a formula (F) or expression (N)."""
    if kind == "F":
        yield "F", ("not", x)
        for xs in among(x, R, n):
            yield "F", ("and", xs)
            yield "F", ("or", xs)
        yield "F", ("imply", x, R)
        yield "F", ("imply", R, x)
        for q in ("forall", "exists"):
            yield "F", (q, (Z,), x)
            yield "F", (q, (), x)
    else:
        for xs in among(x, ONE, n):
            if len(xs) > 1:
                yield "N", ("+", xs)
                yield "N", ("*", xs)
            if len(xs) == 2:
                yield "N", ("-", xs)
                yield "N", ("/", xs)
        yield "N", ("-", (x,))
        for op in ("=", "<", "<=", ">", ">="):
            yield "F", ("cmp", op, x, ONE)
            yield "F", ("cmp", op, ONE, x)


def binder_leaves(v):
    for q in ("forall", "exists"):
        for vs in among(v, Z):
            yield "F", (q, vs, R)


def effect_leaves(kind, x, v):
    """All ways to put x directly into an effect."""
    if kind == "N":
        for op in ("assign", "increase", "decrease", "scale-up", "scale-down"):
            if x[0] == "fn":
                yield ("asg", op, x, ONE)
            yield ("asg", op, ("fn", "g", ()), x)
    else:
        yield ("when", x, R)
        if x[0] == "atom":
            yield x
            yield ("not", x)


def effect_contexts(x, v, n=4):
    for xs in among(x, R, n):
        yield ("and", xs)
        yield ("oneof", xs)
    yield ("feff", (Z,), x)
    yield ("feff", (), x)
    yield ("when", R, x)


def paths(v, depth):
    """(kind, term) with v somewhere, at most the given number of steps below the root."""
    level = [p for p in term_leaves(v)] + ([p for p in binder_leaves(v)] if v[0] == "v" else [])
    for d in range(depth + 1):
        yield from level
        small = [p for i, p in enumerate(level) if d == 0 or i % 7 == 0]
        level = [q for k, x in small for q in contexts(k, x, v, 4 if d == 0 else 3)]


def effect_paths(v, depth):
    level = [e for k, x in paths(v, 1) for e in effect_leaves(k, x, v)]
    if v[0] == "v":
        level += [("feff", vs, R) for vs in among(v, Z)]
    for d in range(depth + 1):
        yield from level
        small = [e for i, e in enumerate(level) if d == 0 or i % 7 == 0]
        level = [q for e in small[:: 3 if d == 0 else 1] for q in effect_contexts(e, v, 4 if d == 0 else 3)]


def deep(case, obs):
    """A term with good or bad types in one place: is it accepted?"""
    kind, f, tags, reqs, where = case
    ok = set(tags) <= {"t0", "t1", "t2", "t3", "object"} and (not tags or bool(TYPING & set(reqs)))
    obs.state(case)
    obs.outcome(ok)
    L = absyn.lib()
    try:
        if where == "domain":
            parts = act(eff=f) if kind == "E" else act(pre=f)
            x = absyn.build_domain(dom(reqs=frozenset(reqs), types=frozenset(TYPES if reqs else ()), **parts))
        elif where == "derived":
            parts = dict(derived=frozenset({(R, f)}), preds=frozenset({("r", ())}))
            x = absyn.build_domain(dom(reqs=frozenset(reqs), types=frozenset(TYPES if reqs else ()), **parts))
        else:
            d = absyn.build_domain(dom(reqs=frozenset(reqs), types=frozenset(TYPES if reqs else ())))
            kw = {}
            if where.endswith("goal"):
                kw["goal"] = absyn.build(f)
            elif where.endswith("init"):
                kw["init"] = [absyn.build(R), absyn.build(f)]
            elif where.endswith("objects"):
                kw["objects"] = [absyn.b_term(c) for c in f]
            else:
                kw["metric"] = L["Metric"](absyn.build(f))
            if where.startswith("set-"):
                x = L["Problem"]("q", domain_name="d", **kw)
                x.domain = d
            elif where.startswith("check-"):
                x = L["Problem"]("q", domain_name="d", **kw)
                x.check(d)
            else:
                x = L["Problem"]("q", domain=d, **kw)
    except Exception as e:
        obs.step()
        if ok:
            raise Violation("legal use of types %r in %r (%s) rejected: %s" % (tags, f, where, env.brief(e)))
        return
    obs.step()
    if not ok:
        raise Violation("illegal use of types %r in %r (%s) with requirements %r accepted\n%s" % (tags, f, where, reqs, x))


def deep_cases(depth):
    for tags, reqs in ((("t1",), ("typing",)), (("zz",), ("typing",)), (("t1", "zz"), ("adl",)), (("t2",), ())):
        v = ("v", "y", tags)
        c = ("c", "k", tags[0])
        full = tags == ("zz",)
        for term in (v, c) if len(tags) == 1 else (v,):
            for kind, f in paths(term, depth if full else 1):
                if kind == "N":
                    continue
                yield (kind, f, tags, reqs, "domain")
                yield (kind, f, tags, reqs, "derived")
                yield (kind, f, tags, reqs, "goal")
                if full:
                    yield (kind, f, tags, reqs, "set-goal")
                    yield (kind, f, tags, reqs, "check-goal")
            for e in effect_paths(term, depth if full else 1):
                yield ("E", e, tags, reqs, "domain")
        for how in ("", "set-", "check-"):
            for kind, f in paths(c, 0) if len(tags) == 1 else ():
                if f[0] == "atom":
                    yield (kind, f, tags, reqs, how + "init")
                    yield (kind, ("not", f), tags, reqs, how + "init")
                if kind == "N":
                    yield ("F", ("cmp", "=", f, ONE), tags, reqs, how + "init")
            for kind, f in paths(c, 2 if full else 1) if len(tags) == 1 else ():
                if kind == "N":
                    yield (kind, f, tags, reqs, how + "metric")
            for k in range(1, 5):
                for i in range(k):
                    yield ("O", tuple(("c", "k%d" % j, tags[-1] if i == j else None) for j in range(k)), tags[-1:], reqs, how + "objects")


TYPES = (("t1", "t0"), ("t2", None), ("t3", "object"))
TAGSETS = [
    (), ("t1",), ("t0",), ("t2",), ("zz",), ("object",), ("t1", "t2"), ("t1", "zz"), ("t0", "object"), ("T1",), ("t",),
    ("t1", "t2", "t3"), ("a", "t1", "t2"), ("t1", "t2", "z"),
]


def usage(case, obs):
    label, tags, types, reqs = case
    L = absyn.lib()
    term = ("v", "y", tags)
    if label.startswith("const:"):
        term = ("c", "k", tags[0] if tags else None)
        parts = dict(const_positions(term))[label[6:]]
    else:
        parts = dict(positions(term))[label]
    parts = dict(parts)
    rs = set(reqs)
    if parts.pop("fluents", None):
        rs.add("numeric-fluents")
    declared = {t for t, _ in types} | {p for _, p in types if p} | {"object"}
    ok = set(tags) <= declared
    if tags or any(p for _, p in types):
        ok = ok and bool(TYPING & rs)
    ast = dom(reqs=frozenset(rs), types=frozenset(types), **parts)
    obs.state((label, tags, types, reqs))
    obs.outcome(ok)
    try:
        d = absyn.build_domain(ast)
    except Exception as e:
        obs.step()
        if ok:
            raise Violation("legal use of types %r (%s) rejected: %s" % (tags, label, env.brief(e)))
        return
    obs.step()
    if not ok:
        raise Violation("illegal use of types %r (%s) with types %r and requirements %r accepted\n%s" % (tags, label, types, reqs, d))


def usages():
    labels = [l for l, _ in positions(X)]
    clabels = ["const:" + l for l, _ in const_positions(("c", "k", None))]
    for types in (TYPES, (("t1", None), ("t2", None)), ()):
        for reqs in (("typing",), ("adl",), (), ("strips",)):
            for tags in TAGSETS:
                for l in labels:
                    yield (l, tags, types, reqs)
                if len(tags) < 2:
                    for l in clabels:
                        yield (l, tags, types, reqs)


TEXTS = {
    "constants": "(:constants k9 - %s)", "constants2": "(:constants a - t1 k9 - %s b)",
    "predicates": "(:predicates (p ?x - %s))", "predicates2": "(:predicates (p ?x - t1 ?y ?z - %s ?w) (q))",
    "functions": "(:functions (f ?x - %s))", "functions2": "(:functions (f ?x - t1 ?y - %s) - number (g))",
    "parameters": "(:action go :parameters (?x - %s))", "parameters2": "(:action go :parameters (?x - t1 ?y - %s ?z))",
    "forall": "(:predicates (r)) (:action go :parameters () :precondition (forall (?x - %s) (r)))",
    "exists": "(:predicates (r)) (:action go :parameters () :precondition (not (and (r) (exists (?y ?x - %s) (r)))))",
    "effect": "(:predicates (r)) (:action go :parameters () :effect (forall (?x - %s) (r)))",
    "effect2": "(:predicates (r)) (:action go :parameters () :effect (and (r) (forall (?y ?x - %s) (when (r) (not (r))))))",
    "when": "(:predicates (r)) (:action go :parameters () :effect (when (exists (?x - %s) (r)) (r)))",
    "derived": "(:predicates (r)) (:derived (r) (exists (?x - %s) (r)))",
    "head": "(:predicates (r ?x)) (:derived (r ?x - %s) (r ?x))",
}


def usage_texts():
    tags = ["t1", "t0", "t2", "zz", "object", "(either t1 t2)", "(either t1 zz)", "(either zz)", "(either object t1)", "T1", "t", "t1-", "(either t1 t2 t3)"]
    for types in ("(:types t1 - t0 t2 t3 - object)", "(:types t1 t2)", ""):
        for reqs in (":typing :disjunctive-preconditions :quantified-preconditions :numeric-fluents", ":adl :numeric-fluents", ":strips :quantified-preconditions :numeric-fluents"):
            for k, t in TEXTS.items():
                for tag in tags:
                    yield "(define (domain d) (:requirements %s) %s %s)" % (reqs, types, t % tag)


def main(check):
    warm("domain")
    check.run("hierarchies", hierarchy, maps(check.level), chunk=500)
    check.run("hierarchy-texts", text_case, hierarchy_texts(check.level), chunk=100)
    check.run("deep", deep, deep_cases(2 if check.level == 1 else 3), chunk=200)
    check.run("usages", usage, usages(), chunk=200)
    check.run("usage-texts", text_case, usage_texts(), chunk=50)
    check.notes["explanation"] = (
        "all maps from at most four (thorough: five) types to parents, in several orders and under "
        "several requirements, and all uses of declared, undeclared and built-in types in every "
        "position of a domain, through the constructors and as text; acceptance is compared with the "
        "rules"
    )
