"""Canonical abstract syntax: normal form, reading it off the library's objects, building the
library's objects from it, and printing it (our own printer)."""

from fractions import Fraction

from mc.sread import norm_tags

# ------------------------------------------------------------------------------ normal form


def norm(a):
    """Normal form: nested and/or (and +/*) are flattened, repeated operands of and/or are dropped,
    a conjunction or disjunction of one operand is that operand.  Everything else is kept."""
    if not isinstance(a, tuple) or not a:
        return a
    k = a[0]
    if k in ("and", "or"):
        out = []
        for x in a[1]:
            x = norm(x)
            for y in x[1] if x[0] == k else (x,):
                if y not in out:
                    out.append(y)
        return out[0] if len(out) == 1 else (k, tuple(out))
    if k in ("+", "*"):
        out = []
        for x in a[1]:
            x = norm(x)
            out += x[1] if x[0] == k else (x,)
        return (k, tuple(out))
    if k in ("-", "/", "oneof"):
        return (k, tuple(norm(x) for x in a[1]))
    if k == "not":
        return (k, norm(a[1]))
    if k in ("imply", "when"):
        return (k, norm(a[1]), norm(a[2]))
    if k in ("forall", "exists", "feff"):
        return (k, a[1], norm(a[2]))
    if k == "cmp":
        return (k, a[1], norm(a[2]), norm(a[3]))
    if k == "asg":
        return (k, a[1], norm(a[2]), norm(a[3]))
    if k == "domain":
        _, n, reqs, types, consts, preds, funcs, derived, actions = a
        types = dict(types)
        for p in list(types.values()):
            if p is not None:
                types.setdefault(p, None)
        return (
            k, n, reqs, frozenset(types.items()), consts, preds, funcs,
            frozenset((norm(h), norm(f)) for h, f in derived),
            frozenset((an, ps, norm(pre), norm(eff)) for an, ps, pre, eff in actions),
        )
    if k == "problem":
        _, n, dn, reqs, objs, init, goal, metric = a
        return (
            k, n, dn, reqs, objs, frozenset(norm(x) for x in init), norm(goal),
            None if metric is None else (metric[0], norm(metric[1])),
        )
    return a


def strip_ctypes(a):
    """Forget the types of the occurrences of constants."""
    if isinstance(a, tuple):
        if len(a) == 3 and a[0] == "c":
            return ("c", a[1], None)
        return tuple(strip_ctypes(x) for x in a)
    if isinstance(a, frozenset):
        return frozenset(strip_ctypes(x) for x in a)
    return a


# ------------------------------------------------------------------------------ library objects

_lib = {}


def lib():
    """The public classes of the library (imported on first use)."""
    if not _lib:
        from pddl.action import Action
        from pddl.core import Domain, Plan, Problem
        from pddl.logic.base import (
            And, ExistsCondition, ForallCondition, Imply, Not, OneOf, Or,
        )
        from pddl.logic.effects import Forall, When
        from pddl.logic import functions as F
        from pddl.logic.predicates import DerivedPredicate, EqualTo, Predicate
        from pddl.logic.terms import Constant, Variable
        from pddl.requirements import Requirements

        _lib.update(
            Action=Action, Domain=Domain, Plan=Plan, Problem=Problem, And=And, Or=Or, Not=Not,
            Imply=Imply, OneOf=OneOf, ForallCondition=ForallCondition,
            ExistsCondition=ExistsCondition, Forall=Forall, When=When, EqualTo=EqualTo,
            Predicate=Predicate, DerivedPredicate=DerivedPredicate, Constant=Constant,
            Variable=Variable, Requirements=Requirements, NumericFunction=F.NumericFunction,
            NumericValue=F.NumericValue, Metric=F.Metric,
        )
        _lib["cmp"] = {
            "=": F.EqualTo, "<": F.LesserThan, "<=": F.LesserEqualThan, ">": F.GreaterThan,
            ">=": F.GreaterEqualThan,
        }
        _lib["asg"] = {
            "assign": F.Assign, "scale-up": F.ScaleUp, "scale-down": F.ScaleDown,
            "increase": F.Increase, "decrease": F.Decrease,
        }
        _lib["arith"] = {"+": F.Plus, "*": F.Times, "-": F.Minus, "/": F.Divide}
        _lib["by_class"] = {}
        for kind in ("cmp", "asg", "arith"):
            for sym, c in _lib[kind].items():
                _lib["by_class"][c] = (kind, sym)
        _lib["known"] = {c for c in _lib.values() if isinstance(c, type)} | set(_lib["by_class"])
    return _lib


class Unreadable(Exception):
    """An object of the library is not of the expected shape."""


def dump_term(t):
    L = lib()
    if isinstance(t, L["Variable"]):
        return ("v", str(t.name), norm_tags(set(map(str, t.type_tags))))
    if isinstance(t, L["Constant"]):
        tag = t.type_tag
        return ("c", str(t.name), None if tag in (None, "object") else str(tag))
    raise Unreadable("not a term: %r" % (t,))


def dump_number(v):
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        raise Unreadable("not a number: %r" % (v,))
    return ("num", v)


def dump(x):
    """Canonical abstract syntax of a formula, expression, effect, action..., by public properties."""
    L = lib()
    c = next((k for k in type(x).__mro__ if k in L["known"]), type(x))
    if c is L["Predicate"]:
        return ("atom", str(x.name), tuple(map(dump_term, x.terms)))
    if c is L["And"]:
        return ("and", tuple(map(dump, x.operands)))
    if c is L["Or"]:
        return ("or", tuple(map(dump, x.operands)))
    if c is L["Not"]:
        return ("not", dump(x.argument))
    if c is L["Imply"]:
        a, b = x.operands
        return ("imply", dump(a), dump(b))
    if c is L["OneOf"]:
        return ("oneof", tuple(map(dump, x.operands)))
    if c is L["ForallCondition"] or c is L["ExistsCondition"]:
        k = "forall" if c is L["ForallCondition"] else "exists"
        return (k, tuple(sorted(map(dump_term, x.variables))), dump(x.condition))
    if c is L["Forall"]:
        return ("feff", tuple(sorted(map(dump_term, x.variables))), dump(x.effect))
    if c is L["When"]:
        return ("when", dump(x.condition), dump(x.effect))
    if c is L["EqualTo"]:
        return ("=", dump_term(x.left), dump_term(x.right))
    if c is L["NumericFunction"]:
        return ("fn", str(x.name), tuple(map(dump_term, x.terms)))
    if c is L["NumericValue"]:
        return dump_number(x.value)
    if c in L["by_class"]:
        kind, sym = L["by_class"][c]
        ops = tuple(map(dump, x.operands))
        if kind == "arith":
            return (sym, ops)
        if len(ops) != 2:
            raise Unreadable("%s with %d operands" % (sym, len(ops)))
        return (kind, sym) + ops
    if c is L["Action"]:
        return (
            str(x.name), tuple(map(dump_term, x.parameters)),
            None if x.precondition is None else dump(x.precondition),
            None if x.effect is None else dump(x.effect),
        )
    if c is L["DerivedPredicate"]:
        return (dump(x.predicate), dump(x.condition))
    if c is L["Metric"]:
        return (str(x.optimization), dump(x.expression))
    raise Unreadable("unexpected object %s" % c.__name__)


def dump_types(types):
    return frozenset(
        (str(t), None if p is None or p == "object" else str(p)) for t, p in types.items()
    )


def dump_domain(d):
    L = lib()
    if type(d) is not L["Domain"]:
        raise Unreadable("not a domain: %r" % (d,))
    return (
        "domain", str(d.name), frozenset(r.value for r in d.requirements), dump_types(d.types),
        frozenset(dump_term(c)[1:] for c in d.constants),
        frozenset((dump(p)[1], dump(p)[2]) for p in d.predicates),
        frozenset(
            (dump(f)[1:], None if t is None else str(t)) for f, t in d.functions.items()
        ),
        frozenset(map(dump, d.derived_predicates)),
        frozenset(map(dump, d.actions)),
    )


def dump_problem(p):
    L = lib()
    if type(p) is not L["Problem"]:
        raise Unreadable("not a problem: %r" % (p,))
    return (
        "problem", str(p.name), str(p.domain_name), frozenset(r.value for r in p.requirements),
        frozenset(dump_term(c)[1:] for c in p.objects),
        frozenset(strip_ctypes(dump(x)) for x in p.init), strip_ctypes(dump(p.goal)),
        None if p.metric is None else strip_ctypes(dump(p.metric)),
    )


def dump_plan(p):
    L = lib()
    if type(p) is not L["Plan"]:
        raise Unreadable("not a plan: %r" % (p,))
    return (
        "plan",
        tuple((str(n), tuple(dump_term(c)[1] for c in args)) for n, args in p.actions),
    )


def dump_raw(kind, obj):
    """Everything, the types of the occurrences of constants included."""
    out = dump_any(kind, obj)
    if kind == "plan":
        return out + (tuple(tuple(map(dump_term, args)) for _, args in obj.actions),)
    if kind == "problem":
        return out + (
            frozenset(map(dump, obj.init)), dump(obj.goal), None if obj.metric is None else dump(obj.metric),
        )
    return out


DUMP = {"domain": dump_domain, "problem": dump_problem, "plan": dump_plan}


def dump_any(kind, obj):
    return DUMP[kind](obj)


# ------------------------------------------------------------------------------ building objects


def b_term(t):
    L = lib()
    if t[0] == "v":
        return L["Variable"](t[1], set(t[2]))
    return L["Constant"](t[1], t[2])


def b_vars(vs):
    return [b_term(v) for v in vs]


def build(a):
    """The library's object for a canonical abstract syntax, through the public constructors."""
    L = lib()
    k = a[0]
    if k == "atom":
        return L["Predicate"](a[1], *map(b_term, a[2]))
    if k in ("and", "or"):
        return L["And" if k == "and" else "Or"](*map(build, a[1]))
    if k == "oneof":
        return L["OneOf"](*map(build, a[1]))
    if k == "not":
        return L["Not"](build(a[1]))
    if k == "imply":
        return L["Imply"](build(a[1]), build(a[2]))
    if k == "forall":
        return L["ForallCondition"](build(a[2]), b_vars(a[1]))
    if k == "exists":
        return L["ExistsCondition"](build(a[2]), b_vars(a[1]))
    if k == "feff":
        return L["Forall"](build(a[2]), b_vars(a[1]))
    if k == "when":
        return L["When"](build(a[1]), build(a[2]))
    if k == "=":
        return L["EqualTo"](b_term(a[1]), b_term(a[2]))
    if k == "fn":
        return L["NumericFunction"](a[1], *map(b_term, a[2]))
    if k == "num":
        return L["NumericValue"](a[1])
    if k in ("cmp", "asg"):
        return L[k][a[1]](build(a[2]), build(a[3]))
    if k in L["arith"]:
        return L["arith"][k](*map(build, a[1]))
    raise ValueError("cannot build %r" % (a,))


def b_action(a):
    n, ps, pre, eff = a
    return lib()["Action"](
        n, b_vars(ps), None if pre is None else build(pre), None if eff is None else build(eff)
    )


def _order(xs):
    return sorted(xs, key=repr)


def build_domain(a, order=_order):
    L = lib()
    _, n, reqs, types, consts, preds, funcs, derived, actions = a
    return L["Domain"](
        n,
        requirements=[L["Requirements"](r) for r in order(reqs)],
        types=dict(order(types)),
        constants=[L["Constant"](c, t) for c, t in order(consts)],
        predicates=[L["Predicate"](p, *b_vars(vs)) for p, vs in order(preds)],
        derived_predicates=[
            L["DerivedPredicate"](build(h), build(f)) for h, f in order(derived)
        ],
        functions={
            L["NumericFunction"](f, *b_vars(vs)): t for (f, vs), t in order(funcs)
        },
        actions=[b_action(x) for x in order(actions)],
    )


def build_problem(a, order=_order, domain=None):
    L = lib()
    _, n, dn, reqs, objs, init, goal, metric = a
    kw = dict(domain_name=dn) if domain is None else dict(domain=domain)
    return L["Problem"](
        n,
        requirements=[L["Requirements"](r) for r in order(reqs)] if reqs else None,
        objects=[L["Constant"](c, t) for c, t in order(objs)],
        init=[build(x) for x in order(init)],
        goal=build(goal),
        metric=None if metric is None else L["Metric"](build(metric[1]), metric[0]),
        **kw,
    )


def build_plan(a):
    L = lib()
    return L["Plan"]([(n, [L["Constant"](c) for c in args]) for n, args in a[1]])


def build_any(kind, a):
    return {"domain": build_domain, "problem": build_problem, "plan": build_plan}[kind](a)


# ------------------------------------------------------------------------------ printing


def p_num(v):
    if isinstance(v, int):
        return str(v)
    f = Fraction(v)
    s = repr(v)
    if "e" in s:
        n = 0
        while f.denominator != 1 and n < 1100:
            f *= 10
            n += 1
        digits = str(f.numerator).rjust(n + 1, "0")
        s = (digits[:-n] + "." + digits[-n:]) if n else digits + ".0"
    return s


def p_term(t):
    return "?" + t[1] if t[0] == "v" else t[1]


def p_tags(tags):
    if len(tags) == 1:
        return tags[0]
    return "(either %s)" % " ".join(tags)


def p_vars(vs):
    """A typed list of variables: every variable carries its type, object when it has none, unless
    no variable has a type."""
    if not any(v[2] for v in vs):
        return " ".join("?" + v[1] for v in vs)
    return " ".join("?%s - %s" % (v[1], p_tags(v[2] or ("object",))) for v in vs)


def p_list(n, ts):
    return "(%s)" % " ".join((n,) + tuple(ts))


def unparse(a):
    """Text of a formula, expression or effect (our own printer)."""
    k = a[0]
    if k in ("atom", "fn"):
        return p_list(a[1], map(p_term, a[2]))
    if k in ("and", "or", "oneof", "+", "*", "-", "/"):
        return p_list(k, map(unparse, a[1]))
    if k == "not":
        return p_list(k, [unparse(a[1])])
    if k in ("imply", "when"):
        return p_list(k, [unparse(a[1]), unparse(a[2])])
    if k in ("forall", "exists", "feff"):
        return p_list(
            "forall" if k == "feff" else k, ["(%s)" % p_vars(a[1]), unparse(a[2])]
        )
    if k == "=":
        return p_list("=", [p_term(a[1]), p_term(a[2])])
    if k == "num":
        return p_num(a[1])
    if k in ("cmp", "asg"):
        return p_list(a[1], [unparse(a[2]), unparse(a[3])])
    raise ValueError(a)
