"""Sets whose iteration order is chosen by the checker: inside `controlled(rank)`, the sets that the
library makes are iterated in the rank-th permutation of their elements (for the n! orders of a set
of n elements, rank modulo n!).  The sets are sets in every other respect."""

import builtins
import contextlib
import sys

_rank = 0
iterated = {}


def permuted(xs, rank):
    xs, out = list(xs), []
    while xs:
        rank, i = divmod(rank, len(xs))
        out.append(xs.pop(i))
    return out


def key(x):
    return (type(x).__name__, str(x), repr(x), str(getattr(x, "type_tags", "") and sorted(x.type_tags)))


def order(xs, rank):
    xs = sorted(xs, key=key)
    n, f = len(xs), 1
    for i in range(2, min(n, 12) + 1):
        f *= i
    iterated[n] = iterated.get(n, 0) + 1
    return permuted(xs, rank % f)


class Frozen(builtins.frozenset):
    def __iter__(self):
        return iter(order(builtins.frozenset.__iter__(self), _rank))


class Plain(builtins.set):
    def __iter__(self):
        return iter(order(builtins.set.__iter__(self), _rank))


@contextlib.contextmanager
def controlled(rank):
    """The iteration order is only changed for the sets made in modules of the library."""
    global _rank
    mods = [m for n, m in list(sys.modules.items()) if n == "pddl" or n.startswith("pddl.")]
    saved, _rank = _rank, rank
    touched = [m for m in mods if m is not None and "frozenset" not in m.__dict__]
    for m in touched:
        m.__dict__["frozenset"] = Frozen
        m.__dict__["set"] = Plain
    try:
        yield
    finally:
        _rank = saved
        for m in touched:
            m.__dict__.pop("frozenset", None)
            m.__dict__.pop("set", None)
