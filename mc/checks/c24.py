"""Objects that are built in Python hold exactly what they are given."""

import collections
import itertools

from mc import absyn, env
from mc.run import Violation

NAMES = ["a", "B", "a-1", "x_y"]
BAD = ["", "1a", "a b", "?a", "-a", "define", "and", "a.b", "é", "a\n"]


def kinds(xs, ordered=False):
    """The same elements in every kind of collection that a caller may use."""
    out = [("list", list(xs)), ("tuple", tuple(xs)), ("deque", collections.deque(xs))]
    if not ordered:
        out += [
            ("set", set(xs)), ("frozenset", frozenset(xs)), ("keys", dict.fromkeys(xs).keys()),
            ("dict", dict.fromkeys(xs)), ("values", dict(enumerate(xs)).values()),
        ]
    return out


def attempt(fn):
    try:
        return True, fn()
    except Exception as e:
        return False, e


def expect(what, got, want):
    if got != want or type(got) is bool and got is not want:
        raise Violation("%s is %r instead of %r" % (what, got, want))


def holds(what, seq, objs):
    """The very elements, in order, and the same again at the second look."""
    for look in (seq(), seq()):
        if len(look) != len(objs) or any(a is not b and a != b for a, b in zip(look, objs)):
            raise Violation("%s: %r instead of %r" % (what, look, objs))


def other(a, b):
    """Whether a is not the part b that was given."""
    return a is not b and not (b is not None and type(a) is type(b) and a == b and absyn.dump(a) == absyn.dump(b))


def names_of(tags):
    return {str(t) for t in tags}


# ------------------------------------------------------------------------------------- terms

TAGS = [None] + [t for n in range(3) for t in itertools.permutations(["t1", "t2", "object"], n)] + [("t1", "t2", "t3")]


def term(case, obs):
    which, n, tags = case
    L = absyn.lib()
    from pddl.custom_types import name

    obs.state(case)
    for nm in (n, name(n)):
        if which == "constant":
            for t in [None] if tags is None else [tags[0], name(tags[0])]:
                for c in [L["Constant"](nm, t), L["Constant"](name=nm, type_tag=t)] + ([L["Constant"](nm)] if t is None else []):
                    obs.step()
                    expect("name of Constant%r" % (case,), str(c.name), n)
                    expect("text of Constant%r" % (case,), str(c), n)
                    expect("type of Constant%r" % (case,), c.type_tag, t)
                    expect("types of Constant%r" % (case,), names_of(c.type_tags), set() if t is None else {t})
            continue
        for k, ts in [("none", None)] if tags is None else kinds(tags):
            other = L["Variable"](nm, ["t9"])
            for v in [L["Variable"](nm, ts), L["Variable"](name=nm, type_tags=ts), other.with_type_tags(ts)] + (
                [L["Variable"](nm)] if ts is None else []
            ):
                obs.step()
                expect("name of Variable%r (%s)" % (case, k), str(v.name), n)
                expect("text of Variable%r (%s)" % (case, k), str(v), "?" + n)
                expect("types of Variable%r (%s)" % (case, k), names_of(v.type_tags), set(tags or ()))
            expect("types after with_type_tags", names_of(other.type_tags), {"t9"})


def terms_cases():
    for n in NAMES:
        for t in [None, ("t1",), ("object",), ("T-1",)]:
            yield ("constant", n, t)
        for t in TAGS:
            yield ("variable", n, t)


def bad_term(case, obs):
    """Types twice in a list, and strings that are no names."""
    n, tags, ok = case
    L = absyn.lib()
    obs.step()
    obs.state(case)
    for f in (lambda: L["Variable"](n, list(tags)), lambda: L["Variable"]("v").with_type_tags(list(tags)) if ok is None else L["Variable"](n, tags)):
        if attempt(f)[0]:
            raise Violation("Variable%r accepted" % (case,))


def bad_term_cases():
    for tags in itertools.product(["t1", "t2"], repeat=3):
        yield ("x", tags, None)
    yield ("x", ("t1", "t1"), None)
    for b in BAD:
        yield (b, (), True)
        yield ("x", (b,), None)


def helper(case, obs):
    """variables(...) and constants(...): one term for each name, in order."""
    s, types = case
    from pddl.logic import constants, variables

    L = absyn.lib()
    want = s.split()
    obs.state(case)
    legal = all(w in NAMES for w in want)
    forms = [("none", None)] if types is None else kinds(types)
    for k, ts in forms:
        ok, got = attempt(lambda: variables(s, ts) if ts is not None else variables(s))
        obs.step()
        if ok != legal:
            raise Violation("variables(%r, %r) %s" % (s, types, "accepted" if ok else "fails: %s" % env.brief(got)))
        if ok:
            have = [(type(v) is L["Variable"], str(v.name), names_of(v.type_tags)) for v in got]
            expect("variables(%r, %s %r)" % (s, k, types), have, [(True, w, set(types or ())) for w in want])
    if types is None or len(types) == 1:
        t = types and types[0]
        ok, got = attempt(lambda: constants(s, type_=t) if t else constants(s))
        obs.step()
        if ok != legal:
            raise Violation("constants(%r, %r) %s" % (s, t, "accepted" if ok else "fails: %s" % env.brief(got)))
        if ok:
            have = [(type(v) is L["Constant"], str(v.name), v.type_tag) for v in got]
            expect("constants(%r, %r)" % (s, t), have, [(True, w, t) for w in want])


def helper_cases(n):
    toks = ["a", "B", "a-1", "1a", " ", "  ", "\t", "\n"]
    for k in range(n + 1):
        for ts in itertools.product(toks, repeat=k):
            s = "".join(ts)
            for types in [None, ("t1",)] + ([(), ("t1", "t2")] if k < n else []):
                if set(s.split()) <= set(NAMES) | {"1a"}:
                    yield (s, types)


# ------------------------------------------------------------------------------ applications

TERMS = [
    ("c", "a", None), ("c", "a", "t1"), ("c", "b", None), ("c", "x", "t2"), ("v", "x", ()), ("v", "x", ("t1",)), ("v", "a", ("t1",)),
    ("v", "x", ("t1", "t2")),
]


def consistent(ts):
    """Occurrences of a term have the same types; a constant without a type fits."""
    seen = {}
    for t in ts:
        if t[0] == "c" and t[2] is None:
            continue
        if seen.setdefault(t[:2], t[2]) != t[2]:
            return False
    return True


def application(case, obs):
    """Predicates, functions and equalities of terms, and predicates and functions applied to other terms."""
    ts = case
    L = absyn.lib()
    obs.state(case)
    objs = [absyn.b_term(t) for t in ts]
    for cls, n in [("Predicate", "p"), ("NumericFunction", "f")]:
        ok, x = attempt(lambda: L[cls](n, *objs))
        obs.step()
        want = consistent(ts) if cls == "Predicate" else True
        if ok != want:
            raise Violation("%s of %r %s" % (cls, ts, "accepted" if ok else "rejected: %s" % env.brief(x)))
        if ok:
            expect("name", str(x.name), n)
            expect("arity of %s" % x, x.arity, len(ts))
            holds("terms of %s%r" % (cls, ts), lambda: x.terms, objs)
            expect("terms of %s%r" % (cls, ts), tuple(map(absyn.dump_term, x.terms)), ts)
            expect("text", str(x), "(%s)" % " ".join([n] + [t[1] if t[0] == "c" else "?" + t[1] for t in ts]))
    if len(ts) == 2:
        ok, e = attempt(lambda: L["EqualTo"](*objs))
        obs.step()
        if ok:
            expect("left of = %r" % (ts,), absyn.dump_term(e.left), ts[0])
            expect("right of = %r" % (ts,), absyn.dump_term(e.right), ts[1])
        elif consistent(ts):
            raise Violation("= of %r rejected" % (ts,))


def term_lists(n):
    for k in range(n + 1):
        yield from itertools.product(TERMS, repeat=k)


def call(case, obs):
    """p(...) with other terms is the predicate of these terms; p is not changed."""
    old, new = case
    L = absyn.lib()
    obs.state(case)
    args = [absyn.b_term(t) for t in new]
    for cls, n in [("Predicate", "p"), ("NumericFunction", "f")]:
        if cls == "Predicate" and not consistent(old):
            continue
        x = L[cls](n, *map(absyn.b_term, old))
        ok, y = attempt(lambda: x(*args))
        obs.step()
        if len(old) != len(new):
            want = False
        elif cls == "Predicate":
            want = consistent(new)
        else:  # a function takes terms of the same types only
            want = [set(t[2] or ()) if t[0] == "v" else {t[2]} - {None} for t in old] == [
                set(t[2] or ()) if t[0] == "v" else {t[2]} - {None} for t in new
            ]
        if ok != want:
            raise Violation("%s applied to %r: %s" % (x, new, "accepted" if ok else "rejected: %s" % env.brief(y)))
        if ok:
            expect("%s%r applied" % (cls, old), (type(y), str(y.name), tuple(map(absyn.dump_term, y.terms))), (L[cls], n, new))
        expect("%s after the application" % cls, tuple(map(absyn.dump_term, x.terms)), old)


def call_cases(n):
    few = TERMS[:2] + TERMS[4:6]
    for a in term_lists(2):
        for b in term_lists(2):
            yield (a, b)
    for i in range(n + 1):
        for j in range(n + 1):
            if max(i, j) > 2:
                yield from itertools.product(itertools.product(few, repeat=i), itertools.product(few[1:4], repeat=j))


# ---------------------------------------------------------------------------------- operators

ATOMS = [("atom", "p", ()), ("atom", "q", (("c", "a", None),)), ("not", ("atom", "p", ())), ("and", (("atom", "r", ()), ("atom", "s", ())))]
NUMS = [("fn", "f", ()), ("num", 1), ("num", 2.5), ("-", (("fn", "f", ()), ("num", 1)))]


def operators(case, obs):
    """Operands: all of them, in order."""
    which, idx = case
    L = absyn.lib()
    obs.state(case)
    obs.step()
    if which in ("OneOf", "Imply"):
        ops = [absyn.build(ATOMS[i]) for i in idx]
        x = L[which](*ops)
        holds("operands of %s%r" % case, lambda: x.operands, ops)
    elif which in ("And", "Or"):
        ops = [absyn.build(ATOMS[i]) for i in idx]
        x = L[which](*ops)
        have = absyn.norm(absyn.dump(x))
        expect("%s%r" % case, have, absyn.norm((which.lower(), tuple(ATOMS[i] for i in idx))))
        again = L[which](*ops)
        if not (x == again and hash(x) == hash(again)):
            raise Violation("%s%r twice differs" % case)
        if len(set(idx)) != 1 and type(x) is not L[which]:
            raise Violation("%s%r is a %s" % (which, idx, type(x).__name__))
    else:
        ops = [absyn.build(NUMS[i]) for i in idx]
        kind, sym = which
        x = L[kind][sym](*ops)
        if type(x) is not L[kind][sym]:
            raise Violation("%s of %r is a %s" % (sym, idx, type(x).__name__))
        holds("operands of %s%r" % (sym, idx), lambda: x.operands, ops)


def operator_cases(n):
    L = absyn.lib()
    for w in ("OneOf", "Imply", "And", "Or"):
        for k in range(n + 1) if w != "Imply" else [2]:
            for idx in itertools.product(range(4), repeat=k):
                yield (w, idx)
    for kind in ("cmp", "asg", "arith"):
        for sym in L[kind]:
            for k in range(1, n + 1) if sym in ("+", "*") else [2]:
                for idx in itertools.product(range(4), repeat=k):
                    yield ((kind, sym), idx)


VARS = [("v", "x", ()), ("v", "x", ("t1",)), ("v", "y", ("t1", "t2")), ("v", "z", ())]


def quantified(case, obs):
    cls, vs, b = case
    L = absyn.lib()
    obs.state(case)
    body = absyn.build(b)
    vobjs = [absyn.b_term(v) for v in vs]
    forms = kinds(vobjs) + ([("none", None)] if not vs else [])
    key = "effect" if cls == "Forall" else "cond"
    for k, coll in forms:
        made = [L[cls](body, coll), L[cls](**{key: body, "variables": coll})]
        if coll is None:
            made.append(L[cls](body))
        for x in made:
            obs.step()
            got = x.effect if cls == "Forall" else x.condition
            if other(got, body):
                raise Violation("body of %s with %s %r is %s" % (cls, k, vs, got))
            expect("variables of %s with %s %r" % (cls, k, vs), sorted(map(absyn.dump_term, x.variables)), sorted(vs))
            if type(x) is not L[cls]:
                raise Violation("%s is a %s" % (cls, type(x).__name__))


def quantified_cases():
    for cls in ("ForallCondition", "ExistsCondition", "Forall"):
        for n in range(4):
            for vs in itertools.permutations(VARS, n):
                for b in ATOMS:
                    yield (cls, vs, b)


def parts(case, obs):
    """When, Not, derived predicates, metrics, numbers: the very parts."""
    which, a, b = case
    L = absyn.lib()
    obs.state(case)
    obs.step()
    if which == "when":
        c, e = absyn.build(a), absyn.build(b)
        for x in (L["When"](c, e), L["When"](condition=c, effect=e)):
            if other(x.condition, c) or other(x.effect, e):
                raise Violation("parts of %s" % x)
    elif which == "not":
        c = absyn.build(a)
        for x in (L["Not"](c), L["Not"](arg=c)) + ((~c,) if hasattr(c, "__invert__") else ()):
            if other(x.argument, c):
                raise Violation("argument of %s" % x)
    elif which == "derived":
        c, e = absyn.build(a), absyn.build(b)
        for x in (L["DerivedPredicate"](c, e), L["DerivedPredicate"](predicate=c, condition=e)):
            if other(x.predicate, c) or other(x.condition, e):
                raise Violation("parts of %s" % x)
    elif which == "metric":
        e = absyn.build(a)
        legal = b in (None, "minimize", "maximize")
        made = [lambda: L["Metric"](e, b), lambda: L["Metric"](expression=e, optimization=b)] if b is not None else [lambda: L["Metric"](e)]
        for f in made:
            ok, x = attempt(f)
            if ok != legal:
                raise Violation("Metric(%s, %r) %s" % (e, b, "accepted" if ok else "rejected: %s" % env.brief(x)))
            if ok:
                if other(x.expression, e):
                    raise Violation("expression of %s" % x)
                expect("direction of %s" % x, str(x.optimization), b or "minimize")
    elif which == "number":
        x = L["NumericValue"](a)
        if type(x.value) is not type(a) or x.value != a:
            raise Violation("NumericValue(%r).value is %r" % (a, x.value))


def part_cases():
    for a in ATOMS:
        yield ("not", a, None)
        for b in ATOMS:
            yield ("when", a, b)
    for a in ATOMS[:2]:
        for b in ATOMS:
            yield ("derived", a, b)
    dirs = [None, "minimize", "maximize", "", "min", "max", "Minimize", "MAXIMIZE", "minimise", " minimize", "minimize ", ":minimize", "minimizemaximize", "total-cost", "metric"]
    for a in NUMS:
        for d in dirs:
            yield ("metric", a, d)
    for v in (0, 1, -1, 0.0, 0.5, 1e-9, 1e30, 10**30, 3):
        yield ("number", v, None)


# ------------------------------------------------------------------------------------ actions


def action(case, obs):
    ps, pre, eff = case
    L = absyn.lib()
    obs.state(case)
    pobjs = [absyn.b_term(p) for p in ps]
    c = None if pre is None else absyn.build(pre)
    e = None if eff is None else absyn.build(eff)
    for k, coll in kinds(pobjs, ordered=True):
        made = [L["Action"]("go", coll, c, e), L["Action"](name="go", parameters=coll, precondition=c, effect=e), L["Action"]("go", coll, effect=e, precondition=c)]
        if c is None:
            made.append(L["Action"]("go", coll, effect=e))
        if e is None:
            made.append(L["Action"]("go", coll, c))
        if c is None and e is None:
            made.append(L["Action"]("go", parameters=coll))
        for x in made:
            obs.step()
            expect("name", str(x.name), "go")
            holds("parameters of %r (%s)" % (case, k), lambda: x.parameters, pobjs)
            holds("terms of %r (%s)" % (case, k), lambda: x.terms, pobjs)
            expect("parameters of %r" % (case,), tuple(map(absyn.dump_term, x.parameters)), ps)
            if other(x.precondition, c):
                raise Violation("precondition of %r is %s" % (case, x.precondition))
            if other(x.effect, e):
                raise Violation("effect of %r is %s" % (case, x.effect))


def action_cases(n):
    for k in range(n + 1):
        for ps in itertools.product(VARS + [("c", "a", "t1")], repeat=k):
            few = [None, ATOMS[0], ATOMS[3]] if k < 3 else [None, ATOMS[1]]
            for pre, eff in itertools.product(few, repeat=2):
                yield (ps, pre, eff)


# ------------------------------------------------------------------------- domains and problems

T1 = ("v", "x", ("t1",))
X = ("v", "x", ())
PARTS = {
    "requirements": [None, (), ("typing",), ("strips", "typing"), ("adl", "numeric-fluents", "derived-predicates")],
    "types": [None, (), (("t1", None),), (("t1", "t0"), ("t0", None))],
    "constants": [None, (), (("k", None),), (("k", "t1"), ("m", None))],
    "predicates": [None, (), (("atom", "p", (X,)),), (("atom", "p", (T1,)), ("atom", "r", ()), ("atom", "p", ()))],
    "derived_predicates": [None, (), ((("atom", "p", (X,)), ("atom", "r", ())),)],
    "functions": [None, (), ((("fn", "f", ()), None),), ((("fn", "f", (T1,)), "number"), (("fn", "g", ()), None))],
    "actions": [None, (), (("go", (X,), None, None),), (("go", (T1,), ("atom", "p", (T1,)), None), ("stop", (), None, ("atom", "r", ())))],
}
KEYS = list(PARTS)


def value(key, v):
    L = absyn.lib()
    if v is None:
        return None
    if key == "requirements":
        return [L["Requirements"](r) for r in v]
    if key == "types":
        return dict(v)
    if key == "constants":
        return [L["Constant"](n, t) for n, t in v]
    if key == "predicates":
        return [absyn.build(p) for p in v]
    if key == "derived_predicates":
        return [L["DerivedPredicate"](absyn.build(h), absyn.build(f)) for h, f in v]
    if key == "functions":
        return {absyn.build(f): t for f, t in v}
    return [absyn.b_action(a) for a in v]


def dumped(key, x):
    L = absyn.lib()
    if key == "requirements":
        return {r.value for r in x}
    if key == "types":
        return {str(k): None if v is None else str(v) for k, v in x.items()}
    if key == "constants":
        return {(str(c.name), c.type_tag) for c in x}
    if key == "functions":
        return {absyn.dump(f): None if t is None else str(t) for f, t in x.items()}
    return set(map(absyn.dump, x))


def domain(case, obs):
    """Every part is held as it is given, None and a missing argument mean empty, in every kind of collection."""
    combo, kind = case
    L = absyn.lib()
    given = {k: value(k, PARTS[k][i]) for k, i in zip(KEYS, combo)}
    coll = {
        k: v if v is None or isinstance(v, dict) else dict(kinds(v))[kind]
        for k, v in given.items()
    }
    ok, d = attempt(lambda: L["Domain"]("d", **coll))
    obs.step()
    obs.outcome(ok)
    obs.state(combo)
    tagged = {k for k, i in zip(KEYS, combo) if k not in ("requirements", "types") and "t1" in repr(PARTS[k][i])}
    reqs, types = given["requirements"] or [], given["types"] or {}
    typing = any(r.value in ("typing", "adl") for r in reqs)
    numeric = any(r.value == "numeric-fluents" for r in reqs)
    want = (not tagged or typing and "t1" in types) and (numeric or not given["functions"])
    if ok != want and (typing or not types):  # types without the requirement: C12
        raise Violation("Domain(%r) %s" % (coll, "accepted" if ok else "rejected: %s" % env.brief(d)))
    if not ok:
        return
    expect("name", str(d.name), "d")
    for k in KEYS:
        v = given[k]
        empty = {} if k in ("types", "functions") else set()
        expect("%s of Domain(%r)" % (k, coll), dumped(k, getattr(d, k)), empty if v is None else dumped(k, v))
    if any(v is None for v in given.values()):
        e = L["Domain"](name="d", **{k: v for k, v in coll.items() if v is not None})
        obs.step()
        if not (d == e and str(d) == str(e)):
            raise Violation("a missing argument is not the same as None: %r" % (coll,))
    f = L["Domain"]("d", *[coll[k] for k in KEYS])
    if not (d == f and str(d) == str(f)):
        raise Violation("positional arguments of Domain are not the documented ones: %r" % (coll,))


def domain_cases(level):
    ranges = [range(len(PARTS[k])) for k in KEYS]
    names = [k for k, _ in kinds([])]
    n = 0
    for combo in itertools.product(*ranges):
        if level > 1:
            for k in names:
                yield (combo, k)
        else:
            yield (combo, names[n % len(names)])
            n += 1
    if level == 1:
        for combo in itertools.product(*[r[-2:] for r in ranges]):
            for k in names:
                yield (combo, k)


PPARTS = {
    "requirements": [None, (), ("typing", "strips")],
    "objects": [None, (), ("a", "b"), ("b",)],
    "init": [None, (), (0,), (1, 0), (2, 3, 0)],
    "goal": [None, 0, 1, 3],
    "metric": [None, 0, 1],
}
LITS = [("atom", "p", ()), ("not", ("atom", "q", (("c", "a", None),))), ("cmp", "=", ("fn", "f", ()), ("num", 3)), ("=", ("c", "a", None), ("c", "b", None))]
PKEYS = list(PPARTS)


def problem(case, obs):
    combo, kind, attach = case
    L = absyn.lib()
    v = {k: PPARTS[k][i] for k, i in zip(PKEYS, combo)}
    given = {
        "requirements": None if v["requirements"] is None else [L["Requirements"](r) for r in v["requirements"]],
        "objects": None if v["objects"] is None else [L["Constant"](n) for n in v["objects"]],
        "init": None if v["init"] is None else [absyn.build(LITS[i]) for i in v["init"]],
    }
    coll = {k: x if x is None else dict(kinds(x))[kind] for k, x in given.items()}
    goal = None if v["goal"] is None else absyn.build(ATOMS[v["goal"]])
    metric = None if v["metric"] is None else L["Metric"](absyn.build(NUMS[v["metric"]]), "maximize")
    kw = dict(coll, goal=goal, metric=metric)
    dom = L["Domain"]("d", requirements=[L["Requirements"](r) for r in v["requirements"] or ("equality",)])
    where = {"name": dict(domain_name="d"), "domain": dict(domain=dom), "both": dict(domain=dom, domain_name="d"), "none": {}}[attach]
    ok, p = attempt(lambda: L["Problem"]("q", **where, **kw))
    obs.step()
    obs.state(case)
    want = attach != "none"
    if attach in ("domain", "both") and v["requirements"] == ():
        return  # requirements that are given and not those of the domain: C14
    if ok != want:
        raise Violation("Problem(%r, %r) %s" % (where, kw, "accepted" if ok else "rejected: %s" % env.brief(p)))
    if not ok:
        return
    for q in (p, L["Problem"](name="q", **where, **{k: x for k, x in kw.items() if x is not None})):
        expect("name", str(q.name), "q")
        expect("domain name", str(q.domain_name), "d")
        if attach != "name" and q.domain is not dom:
            raise Violation("domain of %r" % (case,))
        reqs = {r.value for r in (dom.requirements if attach != "name" else given["requirements"] or ())}
        expect("requirements of %r" % (case,), {r.value for r in q.requirements}, reqs)
        expect("objects of %r" % (case,), {str(o.name) for o in q.objects}, set(v["objects"] or ()))
        expect("init of %r" % (case,), set(map(absyn.dump, q.init)), {LITS[i] for i in v["init"] or ()})
        if goal is None:
            expect("goal of %r" % (case,), absyn.dump(q.goal), ("and", ()))
        elif other(q.goal, goal):
            raise Violation("goal of %r is %s" % (case, q.goal))
        if other(q.metric, metric):
            raise Violation("metric of %r is %s" % (case, q.metric))
    obs.step()


def problem_cases(level):
    ranges = [range(len(PPARTS[k])) for k in PKEYS]
    names = [k for k, _ in kinds([])]
    for n, combo in enumerate(itertools.product(*ranges)):
        for a in ("name", "domain", "both", "none"):
            for k in names if level > 1 else names[n % len(names):][:1]:
                yield (combo, k, a)


def plan(case, obs):
    steps = case
    L = absyn.lib()
    obs.state(case)
    for k, _ in kinds([], ordered=True):
        objs = [(n, dict(kinds([L["Constant"](c) for c in args], ordered=True))[k]) for n, args in steps]
        for k2, coll in kinds(objs, ordered=True):
            for p in (L["Plan"](coll), L["Plan"](actions=coll)):
                obs.step()
                for _ in range(2):
                    expect("actions of a plan (%s of %s)" % (k2, k), [(str(n), tuple(str(c.name) for c in args)) for n, args in p.actions], [tuple(s) for s in steps])


def plan_cases(n):
    one = [("go", ()), ("go", ("a",)), ("stop", ("a", "a")), ("go", ("b", "a"))]
    for k in range(n + 1):
        yield from itertools.product(one, repeat=k)


def main(check):
    absyn.lib()
    lv = check.level
    check.run("terms", term, terms_cases(), chunk=20)
    check.run("illegal-terms", bad_term, bad_term_cases(), chunk=20)
    check.run("helpers", helper, helper_cases(4 if lv == 1 else 5), chunk=200)
    check.run("applications", application, term_lists(4 if lv == 1 else 5), chunk=100)
    check.run("calls", call, call_cases(3 if lv == 1 else 4), chunk=200)
    check.run("operators", operators, operator_cases(4 if lv == 1 else 6), chunk=200)
    check.run("quantified", quantified, quantified_cases(), chunk=20)
    check.run("parts", parts, part_cases(), chunk=20)
    check.run("actions", action, action_cases(3 if lv == 1 else 4), chunk=50)
    check.run("domains", domain, domain_cases(lv), chunk=100)
    check.run("problems", problem, problem_cases(lv), chunk=100)
    check.run("plans", plan, plan_cases(4 if lv == 1 else 5), chunk=20)
    check.notes["explanation"] = (
        "every constructor and helper of the public classes is called with all combinations of the listed "
        "arguments, given or not, by position and by keyword, in every kind of collection; what its "
        "accessors give is compared with what was given, and arguments that do not fit have to be refused"
    )
