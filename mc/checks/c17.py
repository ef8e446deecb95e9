"""Ordered objects are totally ordered, consistently with equality, by name or value first."""

import itertools

from mc import absyn, pool, sread
from mc.run import Violation

_made = {}
REQS = sorted(sread.REQS)
NUMBERS = [0, 1, 2, 10, 9, -1, -2, 0.5, 0.25, 1.5, 1e-07, 1e21, 123456789012345678901, 1.0, 2.0, 100]
NAMES = ["p", "q", "pq", "P", "p-1", "p_1", "p1", "z", "aa", "a", "total-cost"]


def terms(level):
    tags = [(), ("t1",), ("t2",), ("t1", "t2"), ("t10",), ("t1", "t3")]
    for n in ["x", "y", "a", "b", "X", "ab", "a-b", "a1", "x_"]:
        for t in tags:
            yield ("v", n, t)
        for t in (None, "t1", "t2"):
            yield ("c", n, t)


def group(name, level):
    """(abstract syntax, object, what comes first in the order)"""
    tag = (name, level)
    if tag in _made:
        return _made[tag]
    L = absyn.lib()
    out = []
    if name == "terms":
        out = [(t, absyn.b_term(t), None) for t in terms(level)]
    elif name == "predicates":
        for a in pool.atoms(level):
            out.append((a, absyn.build(a), a[1]))
        for n in NAMES:
            if n != "total-cost":
                out += [(("atom", n, ts), absyn.build(("atom", n, ts)), n) for ts in ((), (pool.v("x", "t2"),))]
    elif name == "functions":
        for a in pool.functions(level):
            out.append((a, absyn.build(a), a[1]))
        for n in NAMES:
            out += [(("fn", n, ts), absyn.build(("fn", n, ts)), n) for ts in ((), (pool.v("x", "t2"),))]
    elif name == "numbers":
        out = [(("num", n), L["NumericValue"](n), n) for n in NUMBERS]
    elif name == "requirements":
        out = [(("req", r), L["Requirements"](r), r) for r in REQS]
    elif name == "derived":
        for a in pool.derived(level):
            out.append((a, pool.make(("derived", a)), a[0][1]))
    seen, uniq = set(), []
    for a, x, k in out:
        if (type(a), repr(a)) not in seen:
            seen.add((type(a), repr(a)))
            uniq.append((a, x, k))
    _made[tag] = uniq
    return uniq


GROUPS = ("terms", "predicates", "functions", "numbers", "requirements", "derived")


def same(name, a, b):
    if name == "derived":
        return absyn.strip_ctypes(a) == absyn.strip_ctypes(b)
    return absyn.strip_ctypes(a) == absyn.strip_ctypes(b)


def bad(what, *xs):
    raise Violation("%s: %s" % (what, "  ".join("%s [%r]" % (x, x) for x in xs)))


def pairs(case, obs):
    name, level, i = case
    g = group(name, level)
    a, x, k = g[i]
    obs.state((name, a))
    for b, y, m in g:
        lt, gt, le, ge, eq = x < y, x > y, x <= y, x >= y, x == y
        for r in (lt, gt, le, ge, eq):
            if r is not True and r is not False:
                bad("comparison gives %r" % (r,), x, y)
        if eq is not same(name, a, b):
            bad("equality is %s" % eq, x, y)
        if lt + gt + eq != 1:
            bad("not exactly one of < > == holds (< %s, > %s, == %s)" % (lt, gt, eq), x, y)
        if le is not (lt or eq) or ge is not (gt or eq):
            bad("<= or >= disagrees with < > ==", x, y)
        if (y > x) is not lt or (y < x) is not gt or (y >= x) is not le or (y <= x) is not ge:
            bad("the comparison depends on the side", x, y)
        if k is not None and k != m and lt is not (k < m):
            bad("the order does not follow names, texts or values", x, y)
        if k is None and a[0] == b[0] and a[1] != b[1] and lt is not (a[1] < b[1]):
            bad("the order does not follow names", x, y)
    obs.step(len(g))


def triples(case, obs):
    name, level, i, stride = case
    g = group(name, level)
    x = g[i][1]
    rest = [g[j][1] for j in range(i % stride, len(g), stride)]
    above = [y for y in rest if x < y]
    for y in above:
        for z in rest:
            if y < z and not x < z:
                bad("not transitive", x, y, z)
            if y == z and not x < z:
                bad("not compatible with equality", x, y, z)
    obs.state((name, i, "triples"))
    obs.step(len(above) * len(rest))


def sorting(case, obs):
    """Every permutation of a few objects is sorted to the same list."""
    name, level, idx = case
    g = group(name, level)
    xs = [g[i][1] for i in idx]
    want = None
    for p in itertools.permutations(xs):
        s = sorted(p)
        down = sorted(p, reverse=True)
        if want is None:
            want = s
        if not all(x == y for x, y in zip(s, want)):
            bad("sorting depends on the order of the list", *p)
        if not all(x == y for x, y in zip(down, reversed(want))):
            bad("sorting downwards is not the reverse of sorting upwards", *p)
        if not (min(p) == want[0] and max(p) == want[-1]):
            bad("min or max is not the first or last of the sorted list", *p)
        obs.step()
    obs.state((name, idx))


def whole(case, obs):
    """All objects of a group, from every rotation, also reversed."""
    name, level, r, back = case
    xs = [x for _, x, _ in group(name, level)]
    want = sorted(xs)
    ys = xs[r:] + xs[:r]
    got = sorted(ys[::-1] if back else ys)
    if not all(x == y for x, y in zip(got, want)):
        bad("sorting depends on the order of the list of all", *xs[:5])
    obs.step()
    obs.state(case)


def foreign(case, obs):
    """Objects of different ordered kinds (or of no kind) are not compared."""
    one, two, level = case
    L = absyn.lib()
    others = {
        "python": ["p", 1, 0.5, None, (), object()],
        "formulas": [L["And"](), L["Or"](), absyn.build(("not", pool.P0)), absyn.build(("=", pool.v("x"), pool.c("a"))),
                     absyn.build(("cmp", "<", pool.F0, pool.N1)), absyn.build(("+", (pool.F0, pool.N1)))],
    }
    left = [x for _, x, _ in group(one, 1)][::7]
    right = others[two] if two in others else [x for _, x, _ in group(two, 1)][::7]
    import operator

    for x in left:
        for y in right:
            for p, q in ((x, y), (y, x)):
                for op in (operator.lt, operator.gt, operator.le, operator.ge):
                    try:
                        r = op(p, q)
                    except TypeError:
                        obs.step()
                        continue
                    raise Violation("%s of %r and %r is %r instead of TypeError" % (op.__name__, p, q, r))
    obs.state(case)


def main(check):
    level = check.level
    n = {k: len(group(k, level)) for k in GROUPS}
    check.run("pairs", pairs, ((k, level, i) for k in GROUPS for i in range(n[k])), 20)
    check.run(
        "triples", triples,
        ((k, level, i, 1 if n[k] < 400 else 3) for k in GROUPS for i in range(n[k])), 4,
    )
    size, few = (5, 16) if level > 1 else (4, 13)
    check.run(
        "sorting", sorting,
        (
            (k, level, tuple(c))
            for k in GROUPS
            for c in itertools.combinations(range(0, n[k], max(1, -(-n[k] // few))), size)
        ), 50,
    )
    check.run(
        "sorting-all", whole,
        ((k, level, r, b) for k in GROUPS for r in range(0, n[k], 1 if level > 1 else 5) for b in (0, 1)), 10,
    )
    check.run(
        "foreign", foreign,
        ((a, b, level) for a in GROUPS for b in GROUPS + ("python", "formulas") if a != b), 4,
    )
    check.notes["explanation"] = (
        "states: objects, subsets and orders; transitions: pairs and triples compared and lists sorted. All ordered pairs "
        "and triples of enumerated terms, predicates, functions, numbers, requirements and derived predicates; all "
        "permutations of all small subsets of a spread of each kind; all pairs of different kinds."
    )
