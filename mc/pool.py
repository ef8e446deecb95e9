"""A pool of abstract syntax of every kind of object: systematically enumerated up to depth 2, used
for the laws that quantify over pairs and triples of objects."""

import itertools

from mc import absyn


def v(n, *tags):
    return ("v", n, tuple(sorted(tags)))


def c(n, t=None):
    return ("c", n, t)


TERMS = [
    v("x"), v("x", "t1"), v("x", "t2"), v("x", "t1", "t2"), v("y"), v("y", "t1"),
    c("x"), c("a"), c("a", "t1"), c("b"), c("b", "t2"), v("a"), v("X"), c("A"), v("t1"),
]


def consistent(ts):
    seen = {}
    for t in ts:
        if t[0] == "c" and t[2] is None:
            continue
        if seen.setdefault(t[:2], t[2]) != t[2]:
            return False
    return True


def term_lists(level):
    yield ()
    for t in TERMS:
        yield (t,)
    few = [v("x"), v("x", "t1"), v("y"), v("y", "t2"), c("a"), c("b", "t1"), c("x")]
    for k in (2, 3) if level > 1 else (2,):
        for ts in itertools.product(few, repeat=k):
            if consistent(ts):
                yield ts
    yield (v("x"), v("y"), c("a"))
    yield (v("y"), v("x"), c("a"))


def atoms(level):
    for ts in term_lists(level):
        yield ("atom", "p", ts)
    for ts in [(), (v("x"),), (c("a"),), (v("x"), v("y"))]:
        yield ("atom", "q", ts)
        yield ("atom", "pq", ts)
        yield ("atom", "P", ts)


def numbers():
    return [("num", n) for n in (0, 0.0, 1, 1.0, 2, 2.0, 10, -1, -1.0, 0.5, 1.5, 1e-07, 1e21, 10 ** 21, 123456789012345678901)]


def functions(level):
    for ts in term_lists(1):
        yield ("fn", "p", ts)
    for ts in [(), (v("x"),), (c("a"),), (v("x"), v("y"))]:
        yield ("fn", "f", ts)
    yield ("fn", "total-cost", ())


PA, PB, PX, PY = (("atom", "p", (t,)) for t in (c("a"), c("b"), v("x"), v("y")))
P0, Q0 = ("atom", "p", ()), ("atom", "q", ())
F0, FX, N1, N2 = ("fn", "f", ()), ("fn", "f", (v("x"),)), ("num", 1), ("num", 2)
VARSETS = [
    (), (v("x"),), (v("y"),), (v("x", "t1"),), (v("x", "t2"),), (v("x", "t1", "t2"),),
    (v("x"), v("y")), (v("x", "t1"), v("y")), (v("x", "t1"), v("y", "t1")), (v("x"), v("y"), v("z")),
]


def expressions(level):
    base = [F0, FX, N1, N2, ("fn", "g", ())]
    yield from numbers()
    yield from functions(level)
    one = []
    for op in "+-*/":
        for k in (2, 3) if level > 1 else (2,):
            for ops in itertools.product(base[:4], repeat=k):
                one.append((op, ops))
    yield from one
    for op in "+-*/":
        for e in one[:: 5 if level > 1 else 11]:
            yield (op, (e, N1))
            yield (op, (N1, e))
        yield (op, (N1, N2, FX))
        yield (op, (N1, FX, N2))
        yield (op, (("num", 1.0), ("num", 2.0), FX))
        yield (op, (F0, ("num", 1.0)))


def compares(level):
    es = [F0, FX, N1, N2, ("num", 1.0), ("+", (F0, N1)), ("-", (F0, N1)), ("-", (N1, F0))]
    for op in ("=", "<", "<=", ">", ">="):
        for a, b in itertools.product(es, repeat=2):
            yield ("cmp", op, a, b)


def assigns(level):
    for op in ("assign", "increase", "decrease", "scale-up", "scale-down"):
        for a in (F0, FX):
            for b in (F0, FX, N1, N2, ("num", 2.0), ("+", (F0, N1)), ("+", (F0, ("num", 1.0)))):
                yield ("asg", op, a, b)


def equalities(level):
    for a, b in itertools.product([v("x"), v("y"), v("x", "t1"), c("a"), c("b"), c("x")], repeat=2):
        if consistent((a, b)):
            yield ("=", a, b)


def formulas(level):
    yield from atoms(level)
    yield from equalities(level)
    yield from compares(level)
    leaves = [P0, Q0, PA, PB, PX, PY, ("=", v("x"), c("a")), ("cmp", "<", F0, N1)]
    one = [("and", ()), ("or", ())]
    for k in ("and", "or", "oneof"):
        for n in (2, 3) if level > 1 else (2,):
            for xs in itertools.product(leaves, repeat=n):
                one.append((k, xs))
        one.append((k, (P0, Q0, PA)))
        one.append((k, (PA, Q0, P0)))
        one.append((k, (P0, P0, Q0)))
    one += [("not", x) for x in leaves]
    one += [("imply", x, y) for x in leaves for y in leaves]
    one += [(q, vs, x) for q in ("forall", "exists") for vs in VARSETS for x in (P0, PX, PA)]
    yield from one
    picked = one[:: 9 if level > 1 else 17]
    for x in picked:
        yield ("not", x)
        for k in ("and", "or", "oneof"):
            yield (k, (x, P0))
            yield (k, (P0, x))
        yield ("imply", x, P0)
        yield ("imply", P0, x)
        for q in ("forall", "exists"):
            yield (q, (v("x", "t1"),), x)


def effects(level):
    yield from assigns(level)
    prims = [P0, Q0, PX, ("not", P0), ("not", PX), ("asg", "increase", F0, N1), ("and", (P0, Q0))]
    one = [("when", x, y) for x in (P0, Q0, PX, ("not", P0), ("or", (P0, Q0))) for y in prims]
    one += [("feff", vs, x) for vs in VARSETS for x in prims[:4]]
    yield from one
    for x in one[::3]:
        yield ("and", (x, P0))
        yield ("and", (P0, x))
        yield ("oneof", (x, P0))
        yield ("feff", (v("x"),), x)


# equal parts that are written in different ways: a number, a constant with and without its type
ONE_POINT = ("num", 1.0)
TWINS = [
    (("cmp", "<", F0, N1), ("cmp", "<", F0, ONE_POINT)),
    (("asg", "increase", F0, N1), ("asg", "increase", F0, ONE_POINT)),
    (("atom", "p", (c("a"),)), ("atom", "p", (c("a", "t1"),))),
]


def twins(level):
    for t in (x for xs in TWINS for x in xs):
        if t[0] != "asg":
            yield ("not", t)
            yield ("not", ("not", t))
            yield ("imply", t, Q0)
            yield ("imply", Q0, t)
            yield ("imply", t, t)
            yield ("when", t, Q0)
            yield ("when", ("and", (t, Q0)), P0)
            yield ("forall", (v("x"),), t)
            yield ("exists", (v("x"),), t)
            yield ("or", (t, Q0))
        if t[0] != "cmp":
            yield ("when", Q0, t)
            yield ("oneof", (t, Q0))
            yield ("feff", (v("x"),), t)
            yield ("feff", (v("x"),), ("when", Q0, t))
        yield ("and", (t, Q0))
        yield ("and", (Q0, t))


def twin_actions(level):
    for t in (x for xs in TWINS for x in xs):
        if t[0] != "asg":
            yield ("go", (v("x"),), t, Q0)
            yield ("go", (v("x"),), t, None)
        if t[0] != "cmp":
            yield ("go", (v("x"),), Q0, t)
            yield ("go", (v("x"),), None, t)


def actions(level):
    yield from twin_actions(level)
    for n in ("go", "Go", "run"):
        for ps in [(), (v("x"),), (v("x", "t1"),), (v("y"),), (v("x"), v("y")), (v("y"), v("x"))]:
            for pre in (None, ("and", ()), P0, PX):
                for eff in (None, ("and", ()), P0, ("not", P0)):
                    if n == "go" or (pre in (None, P0) and eff in (None, P0)):
                        yield (n, ps, pre, eff)


HEADS = [("atom", n, ps) for n in ("p", "q") for ps in ((), (v("x"),), (v("x", "t1"),), (v("y"),), (v("x"), v("y")))]


def derived(level):
    for h in HEADS:
        free = set(h[2])
        for f in [
            ("and", ()), P0, Q0, PA, ("not", P0), ("and", (P0, Q0)), ("and", (Q0, P0)), ("or", (P0, Q0)),
            ("exists", (v("z"),), ("atom", "p", (v("z"),))), ("forall", (v("z"),), ("atom", "p", (v("z"),))),
            ("cmp", "<", F0, N1), ("cmp", ">", F0, N1), ("=", c("a"), c("b")), ("imply", P0, Q0),
        ]:
            yield (h, f)
        for t in (x for xs in TWINS for x in xs if x[0] != "asg"):
            yield (h, t)
        for x in sorted(free):
            yield (h, ("atom", "p", (x,)))
            yield (h, ("not", ("atom", "p", (x,))))
            yield (h, ("=", x, c("a")))


def metrics(level):
    for o in ("minimize", "maximize"):
        for e in [F0, N1, ("fn", "f", (c("a"),)), ("fn", "total-cost", ()), ("+", (F0, N1)), ("+", (N1, F0)), ("-", (F0, N1)), ONE_POINT, ("+", (F0, ONE_POINT)), ("fn", "f", (c("a", "t1"),))]:
            yield (o, e)


def entries(level):
    """(kind, abstract syntax) of every member of the pool."""
    for t in TERMS:
        yield ("term", t)
    for k, g in (
        ("formula", formulas), ("formula", expressions), ("formula", effects), ("formula", twins), ("action", actions),
        ("derived", derived), ("metric", metrics),
    ):
        for a in g(level):
            yield (k, a)


def make(entry):
    k, a = entry
    L = absyn.lib()
    if k == "term":
        return absyn.b_term(a)
    if k == "formula":
        return absyn.build(a)
    if k == "action":
        return absyn.b_action(a)
    if k == "derived":
        return L["DerivedPredicate"](absyn.build(a[0]), absyn.build(a[1]))
    if k == "metric":
        return L["Metric"](absyn.build(a[1]), a[0])
    if k in ("domain", "problem", "plan"):
        return absyn.build_any(k, a)
    if k == "attached":
        return absyn.build_problem(a[1], domain=absyn.build_domain(a[0]))
    raise ValueError(k)


def untyped(d):
    """Forget the types of the constants of a domain, the objects of a problem."""
    if d[0] == "domain":
        return d[:4] + (frozenset(c[0] for c in d[4]),) + d[5:]
    if d[0] == "problem":
        return d[:4] + (frozenset(c[0] for c in d[4]),) + d[5:]
    return d


def raw(entry, obj):
    """Kind and components."""
    k = entry[0]
    if k == "term":
        return (k, absyn.dump_term(obj))
    if k in ("domain", "problem", "plan"):
        return (k, absyn.dump_any(k, obj))
    if k == "attached":
        return (k, (absyn.dump_domain(obj.domain), absyn.dump_problem(obj)))
    return (k, absyn.dump(obj))


def key(entry, obj=None):
    """What equality is about: kind and components, without the types of constants."""
    k, d = raw(entry, make(entry) if obj is None else obj)
    if k == "attached":
        d = tuple(map(untyped, d))
    elif k in ("domain", "problem", "plan"):
        d = untyped(d)
    return (k, absyn.strip_ctypes(d))


def unique(level):
    seen = set()
    for e in entries(level):
        if repr(e) not in seen:  # 1 and 1.0 are written differently
            seen.add(repr(e))
            yield e
