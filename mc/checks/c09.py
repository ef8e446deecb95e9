"""Building formulas, expressions and effects keeps their meaning."""

import itertools
from fractions import Fraction

from mc import absyn, env, sem
from mc.checks.common import warm
from mc.run import Violation

A, B, C = (("atom", n, ()) for n in "pqr")
STATES = [
    frozenset((n,) for n, v in zip("pqr", vs) if v) for vs in itertools.product((0, 1), repeat=3)
]


def props(reps=None, atoms=(A, B, C)):
    """All propositional formulas of depth 1 over the given ones."""
    subs = list(atoms)
    few = subs[:4]
    out = [("and", ()), ("or", ())]
    for k in ("and", "or"):
        out += [(k, (x,)) for x in subs]
        out += [(k, c) for c in itertools.product(subs, repeat=2)]
        out += [(k, c) for c in itertools.product(few, repeat=3)]
    out += [("not", x) for x in subs]
    out += [("imply", x, y) for x, y in itertools.product(subs, repeat=2)]
    return out


def table(a):
    return tuple(sem.holds(a, st, {}) for st in STATES)


def compare(a, built, value, obs, also=None):
    got = value(absyn.dump(built))
    obs.step(len(got))
    want = value(a)
    obs.state(a)
    if got == want or (also is not None and got == value(also)):
        return
    k = next(i for i in range(len(want)) if got[i] != want[i])
    raise Violation(
        "meaning changed: %r\nbuilt %s\nin state %d: %r instead of %r" % (a, built, k, got[k], want[k])
    )


def proposition(a, obs):
    compare(a, absyn.build(a), table, obs)


def py(a, L):
    """Build with the operators of the library's formulas."""
    k = a[0]
    if k == "and" and len(a[1]) == 2:
        return py(a[1][0], L) & py(a[1][1], L)
    if k == "or" and len(a[1]) == 2:
        return py(a[1][0], L) | py(a[1][1], L)
    if k == "not":
        return ~py(a[1], L)
    if k == "imply":
        return py(a[1], L) >> py(a[2], L)
    return absyn.build(a)


def operators(a, obs):
    compare(a, py(a, absyn.lib()), table, obs)


def mixed_operators(a, obs):
    """The operators on comparisons, equalities and quantified formulas."""
    compare(a, py(a, absyn.lib()), mtable, obs)


def mixed(a, obs):
    compare(a, absyn.build(a), mtable, obs)


def binary(subs):
    for k in ("and", "or"):
        for x, y in itertools.product(subs, repeat=2):
            yield (k, (x, y))
    for x, y in itertools.product(subs, repeat=2):
        yield ("imply", x, y)
    for x in subs:
        yield ("not", x)


# numeric

F, G, ONE, TWO = ("fn", "f", ()), ("fn", "g", ()), ("num", 1), ("num", 2)
VALUES = [Fraction(x) for x in (0, 1, 2, 3, -1)] + [Fraction(5, 2)]
NSTATES = [{("f",): x, ("g",): y} for x in VALUES for y in VALUES]


def arith(subs, few):
    for k in ("+", "*"):
        for c in itertools.product(subs, repeat=2):
            yield (k, c)
        for c in itertools.product(few, repeat=3):
            yield (k, c)
        for c in itertools.product(few[:3], repeat=4):
            yield (k, c)
    for k in ("-", "/"):
        for c in itertools.product(subs, repeat=2):
            yield (k, c)
    for x in subs:
        yield ("-", (x,))


def ntable(a):
    return tuple(sem.number(a, st, {}) for st in NSTATES)


def numeric(a, obs):
    compare(a, absyn.build(a), ntable, obs)


def ctable(a):
    return tuple(sem.holds(a, st, {}) for st in NSTATES)


def comparison(a, obs):
    compare(a, absyn.build(a), ctable, obs)


# quantified formulas over two objects

X, Y = ("v", "x", ()), ("v", "y", ())
KA, KB = ("c", "a", None), ("c", "b", None)
QATOMS = [("atom", "s", (X,)), ("atom", "t", (X, Y)), ("=", X, Y), ("=", X, KA), ("atom", "s", (KB,)), ("atom", "t", (Y, X))]
QSTATES = [
    frozenset([("s", c) for c, v in zip("ab", vs) if v] + [("t",) + c for c, v in zip(itertools.product("ab", repeat=2), ws) if v])
    for vs in itertools.product((0, 1), repeat=2) for ws in itertools.product((0, 1), repeat=4)
]
ENVS = [{"x": x, "y": y} for x in "ab" for y in "ab"]


def qtable(a):
    return tuple(sem.holds(a, st, e) for st in QSTATES for e in ENVS)


def quantified(a, obs):
    compare(a, absyn.build(a), qtable, obs)


def quants(subs):
    for k in ("forall", "exists"):
        for vs in ((X,), (Y,), (X, Y), (Y, X), ()):
            for s in subs:
                yield (k, vs, s)


# everything together: facts and numbers of two objects

FX, FA = ("fn", "h", (X,)), ("fn", "h", (KA,))
MVALUES = [Fraction(x) for x in (-1, 0, 1)] + [Fraction(1, 2)]


class Mixed(dict):
    def __init__(self, facts, values):
        super().__init__(values)
        self.facts = facts

    def __contains__(self, x):
        return x in self.facts or dict.__contains__(self, x)


MSTATES = [
    Mixed(frozenset([("s", c) for c, v in zip("ab", vs) if v]), {("h", "a"): m, ("h", "b"): n, ("f",): k})
    for vs in itertools.product((0, 1), repeat=2) for m in MVALUES for n in MVALUES[::2] for k in MVALUES[1:]
]
MENVS = [{"x": x} for x in "ab"]
SX = ("atom", "s", (X,))
MATOMS = [SX, ("=", X, KA), ("=", KA, KB)]
MATOMS += [("cmp", op, l, r) for op in ("=", "<", "<=", ">", ">=") for l, r in ((FX, ONE), (F, FA))]
MATOMS += [("cmp", "<", ("+", (FX, F)), ("num", 0.5)), ("cmp", ">=", ("num", 0), ("-", (FA, F)))]
MQ = [(q, vs, b) for q in ("forall", "exists") for vs in ((X,), ()) for b in MATOMS[:4] + [("not", SX)]]
MATOMS += MQ + [("imply", SX, MATOMS[3]), ("and", ()), ("or", ()), ("and", (SX, MATOMS[4])), ("not", MATOMS[5])]


def mtable(a):
    return tuple(sem.holds(a, st, e) for st in MSTATES for e in MENVS)


# effects

PA = ("atom", "s", (KA,))
EATOMS = [A, ("not", A), B, ("asg", "increase", F, ONE), ("asg", "decrease", F, ("+", (F, F)))]
QEATOMS = [("atom", "s", (X,)), ("not", ("atom", "t", (X, KA)))]


class St(dict):
    """A state with facts and values."""

    def __init__(self, facts, values):
        super().__init__(values)
        self.facts = facts

    def __contains__(self, x):
        return x in self.facts or dict.__contains__(self, x)


ESTATES = [
    St(frozenset([(n,) for n, v in zip("pq", vs) if v] + [("s", c) for c, v in zip("ab", vs[2:]) if v]), {("f",): n})
    for vs in itertools.product((0, 1), repeat=4) for n in (Fraction(0), Fraction(3))
]


def etable(a):
    return tuple(frozenset(sem.outcomes(a, st, {"x": "a"})) for st in ESTATES)


def effect(a, obs):
    # whether the same effect repeated in a conjunction counts once or not is left open: it makes a
    # difference only for nondeterministic effects
    compare(a, absyn.build(a), etable, obs, absyn.norm(a))


def effs(subs, few):
    for x in subs:
        yield ("and", (x,))
        yield ("oneof", (x,))
        for c in (A, ("not", B), ("and", (A, B)), ("or", (A, PA)), ("atom", "s", (X,))):
            yield ("when", c, x)
        yield ("feff", (X,), x)
    yield ("and", ())
    for k in ("and", "oneof"):
        for c in itertools.product(subs, repeat=2):
            yield (k, c)
        for c in itertools.product(few, repeat=3):
            yield (k, c)


def main(check):
    warm("domain")
    lib = absyn.lib()
    del lib
    one = props()
    check.run("propositions-1", proposition, one, chunk=100)
    two = props(atoms=(A, B, C) + tuple(one))
    check.run("propositions-2", proposition, two, chunk=1000)
    step = 250 if check.level == 1 else 60
    three = itertools.chain(
        props(atoms=(A, B) + tuple(two[::step])),
    )
    check.run("propositions-3", proposition, three, chunk=1000)
    for k in ("and", "or"):
        deep = [A, B, C]
        check.run("long-" + k, proposition, (
            (k, c) for n in range(4, 8 if check.level == 1 else 10) for c in itertools.product(deep, repeat=n)
        ), chunk=1000)
        check.run("alternating-" + k, proposition, alternating(k, 5 if check.level == 1 else 6), chunk=1000)
    ops = list(binary([A, B, C]))
    ops2 = list(binary([A, B, C] + ops))
    check.run("operators", operators, itertools.chain(ops, ops2, binary(ops2[::40])), chunk=1000)
    m1 = list(binary(MATOMS)) + list(quants(MATOMS[:8]))
    few = MATOMS[:: 1 if check.level > 1 else 3]
    check.run("mixed-operators", mixed_operators, itertools.chain(
        MATOMS, m1, binary(few[:6] + m1[:: 60 if check.level == 1 else 15])), chunk=50)
    check.run("mixed", mixed, itertools.chain(
        MATOMS, m1, (("not", x) for x in m1), props(atoms=few[:4] + m1[:: 60 if check.level == 1 else 15])), chunk=50)
    numbers = [("num", x) for x in (0, 0.5, -1, -0.5, 1.0, 1e-05, 3, -2.5)]
    check.run("numbers", numeric, arith([F] + numbers, [F, G] + numbers[:5]), chunk=100)
    signs = list(arith([F, numbers[0], numbers[2]], [F, numbers[1]]))
    check.run("numbers-nested", numeric, arith(signs[::2] + numbers, numbers[:3]), chunk=500)
    leaves = [F, G, ONE, TWO]
    e1 = list(arith(leaves, leaves))
    check.run("expressions-1", numeric, e1, chunk=100)
    e2 = list(arith(leaves + e1[::1 if check.level > 1 else 3], leaves[:2] + e1[::29]))
    check.run("expressions-2", numeric, e2, chunk=1000)
    check.run("expressions-3", numeric, arith(e2[:: max(1, len(e2) // (90 if check.level == 1 else 200))], leaves), chunk=1000)
    check.run("comparisons", comparison, (
        ("cmp", op, x, y) for op in ("=", "<", "<=", ">", ">=")
        for x in leaves + e1[::7] for y in leaves + e1[::7]
    ), chunk=1000)
    q0 = QATOMS
    q1 = list(quants(q0)) + props(atoms=q0)
    check.run("quantified-1", quantified, q1, chunk=20)
    q2 = itertools.chain(quants(q1), props(atoms=q1[:: 3 if check.level > 1 else 7]))
    check.run("quantified-2", quantified, q2, chunk=20)
    f1 = list(effs(EATOMS + QEATOMS, EATOMS + QEATOMS))
    check.run("effects-1", effect, f1, chunk=100)
    check.run("effects-2", effect, effs(EATOMS[:2] + f1[::5], f1[::60]), chunk=100)
    check.notes["explanation"] = (
        "all terms of the listed depths are built with the public constructors and operators; the "
        "meaning of what was built is compared with the meaning of the term in every state (truth "
        "tables, numeric values, quantifiers over two objects, alternatives of effects)"
    )
    check.notes["assumptions"] = ["numeric values are compared exactly on 36 assignments of two functions"]


def alternating(k, n):
    """Nestings of the same operator: every way to bracket a sequence of n operands."""
    other = "or" if k == "and" else "and"

    def trees(xs, op):
        if len(xs) == 1:
            yield xs[0]
            return
        for i in range(1, len(xs)):
            for l in trees(xs[:i], op):
                for r in trees(xs[i:], op):
                    yield (op, (l, r))
        if len(xs) == 3:
            yield (other, (xs[0], (op, (xs[1], xs[2]))))

    for xs in itertools.product((A, B, C), repeat=n):
        yield from trees(xs, k)
