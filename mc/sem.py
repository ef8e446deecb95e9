"""Meaning of the abstract syntax over a finite universe."""

import itertools
from fractions import Fraction

UNIVERSE = ("a", "b")


def term(t, env):
    return env[t[1]] if t[0] == "v" else t[1]


def bindings(vs, env):
    names = sorted({v[1] for v in vs})
    for vals in itertools.product(UNIVERSE, repeat=len(names)):
        e = dict(env)
        e.update(zip(names, vals))
        yield e


def number(a, st, env):
    """Value of a numeric expression, None when it is not defined."""
    k = a[0]
    if k == "num":
        return Fraction(a[1])
    if k == "fn":
        return st.get((a[1],) + tuple(term(t, env) for t in a[2]), Fraction(0))
    xs = [number(x, st, env) for x in a[1]]
    if None in xs:
        return None
    if k == "+":
        return sum(xs, Fraction(0))
    if k == "*":
        out = Fraction(1)
        for x in xs:
            out *= x
        return out
    if k == "-":
        return -xs[0] if len(xs) == 1 else xs[0] - xs[1]
    return None if xs[1] == 0 else xs[0] / xs[1]


COMPARE = {
    "=": lambda x, y: x == y, "<": lambda x, y: x < y, "<=": lambda x, y: x <= y,
    ">": lambda x, y: x > y, ">=": lambda x, y: x >= y,
}


def holds(a, st, env):
    k = a[0]
    if k == "atom":
        return (a[1],) + tuple(term(t, env) for t in a[2]) in st
    if k == "and":
        return all(holds(x, st, env) for x in a[1])
    if k == "or":
        return any(holds(x, st, env) for x in a[1])
    if k == "not":
        return not holds(a[1], st, env)
    if k == "imply":
        return not holds(a[1], st, env) or holds(a[2], st, env)
    if k == "forall":
        return all(holds(a[2], st, e) for e in bindings(a[1], env))
    if k == "exists":
        return any(holds(a[2], st, e) for e in bindings(a[1], env))
    if k == "=":
        return term(a[1], env) == term(a[2], env)
    if k == "cmp":
        x, y = number(a[2], st, env), number(a[3], st, env)
        return x is not None and y is not None and COMPARE[a[1]](x, y)
    raise ValueError(a)


def merge(sets):
    """All ways to take one alternative of each set of alternatives together."""
    out = {frozenset()}
    for alts in sets:
        out = {x | y for x in out for y in alts}
    return out


def outcomes(a, st, env):
    """The alternatives of an effect in a state: every one is a set of changes."""
    k = a[0]
    if k == "and":
        return merge([outcomes(x, st, env) for x in a[1]])
    if k == "oneof":
        return set().union(*(outcomes(x, st, env) for x in a[1]))
    if k == "feff":
        return merge([outcomes(a[2], st, e) for e in bindings(a[1], env)])
    if k == "when":
        return outcomes(a[2], st, env) if holds(a[1], st, env) else {frozenset()}
    if k == "atom":
        return {frozenset({("add", a[1]) + tuple(term(t, env) for t in a[2])})}
    if k == "not":
        return {frozenset({("del", a[1][1]) + tuple(term(t, env) for t in a[1][2])})}
    if k == "asg":
        f = (a[2][1],) + tuple(term(t, env) for t in a[2][2])
        return {frozenset({(a[1], f, number(a[3], st, env))})}
    raise ValueError(a)
