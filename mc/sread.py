"""Reference reader for the PDDL dialect: a tokenizer and a recursive-descent reader.

It is written from the language definition (docs/grammar of the dialect and the rules the README
documents) and shares no code with the implementation.  The result of reading a text is one of

  ("ok", ast)      the text is well formed; ast is its canonical abstract syntax
  ("maybe", ast)   the text uses something the dialect leaves open (free variables, undefined
                   predicates, wrong arities...): the implementation may reject it, but if it accepts
                   it, it has to read it as ast
  ("skip", why)    nothing is claimed about the text
  ("bad", why)     the text is malformed and has to be rejected

Abstract syntax (tuples):
  term      ("v", name, tags) | ("c", name, type|None)       tags: sorted tuple of names, () = object
  formula   ("atom", name, terms) ("=", t, t) ("not", f) ("and", fs) ("or", fs) ("imply", f, f)
            ("forall", vars, f) ("exists", vars, f) ("cmp", op, e, e)
  expr      ("num", n) ("fn", name, terms) ("+"|"*"|"-"|"/", es)
  effect    ("and", es) ("feff", vars, e) ("when", f, e) ("oneof", es) ("not", atom) atom
            ("asg", op, fn, e)
"""

import re

KEYWORDS = {
    "(", ")", "-", "=", "and", "define", "domain", "either", "exists", "forall", "imply", "not",
    "object", "oneof", "or", "problem", "when", ">=", ">", "<=", "<", "+", "*", "/", "assign",
    "scale-up", "scale-down", "increase", "decrease", "maximize", "minimize", "total-cost",
}
REQS = {
    "strips", "typing", "negative-preconditions", "disjunctive-preconditions",
    "universal-preconditions", "existential-preconditions", "quantified-preconditions", "equality",
    "conditional-effects", "adl", "derived-predicates", "non-deterministic", "fluents",
    "object-fluents", "numeric-fluents", "action-costs",
}
CLOSURE = {
    "quantified-preconditions": {"universal-preconditions", "existential-preconditions"},
    "adl": {
        "strips", "typing", "negative-preconditions", "disjunctive-preconditions", "equality",
        "conditional-effects", "universal-preconditions", "existential-preconditions",
    },
    "fluents": {"numeric-fluents", "object-fluents"},
}
ASSIGN_OPS = {"assign", "scale-up", "scale-down", "increase", "decrease"}
COMPARE_OPS = {">", "<", ">=", "<="}

NAME_RE = re.compile(r"[a-zA-Z][a-zA-Z0-9_-]*")
NUM_RE = re.compile(r"[0-9]+(?:\.[0-9]+)*")
TOKEN_RE = re.compile(
    r"\s+|;[^\n]*|(?P<tok>[()?]|:[a-zA-Z-]+|[a-zA-Z][a-zA-Z0-9_-]*|[0-9]+(?:\.[0-9]+)*|>=|<=|[=<>+*/-])"
)


class Bad(Exception):
    """Malformed text."""


class Skip(Exception):
    """Nothing is claimed about the text."""


def closure(reqs):
    out = set(reqs)
    for r in reqs:
        out |= CLOSURE.get(r, set())
    return out


def tokens(text):
    out, pos = [], 0
    while pos < len(text):
        m = TOKEN_RE.match(text, pos)
        if m is None:
            raise Bad("illegal character %r" % text[pos])
        if m.group("tok") is not None:
            out.append(m.group("tok"))
        pos = m.end()
    return out


def is_name(t):
    return NAME_RE.fullmatch(t) is not None


def is_num(t):
    return NUM_RE.fullmatch(t) is not None


def norm_tags(tags):
    return () if "object" in tags else tuple(sorted(tags))


class Reader:
    def __init__(self, text):
        self.toks = tokens(text)
        self.i = 0
        self.open = []  # reasons for "maybe"
        self.ext = None  # extended requirements; None: unknown, anything goes
        self.constants = None  # name -> type; None: not checked (problem)
        self.preds = {}
        self.funcs = None
        self.used_preds = []

    # -- token level
    def peek(self, k=0):
        j = self.i + k
        return self.toks[j] if j < len(self.toks) else None

    def next(self):
        t = self.peek()
        if t is None:
            raise Bad("unexpected end")
        self.i += 1
        return t

    def expect(self, *ts):
        for t in ts:
            if self.next() != t:
                raise Bad("expected %r" % t)

    def at(self, *ts):
        return all(self.peek(k) == t for k, t in enumerate(ts))

    def name(self, allow=()):
        t = self.next()
        if not is_name(t):
            raise Bad("expected a name, got %r" % t)
        if t in KEYWORDS and t not in allow:
            raise Bad("keyword %r used as a name" % t)
        return t

    def number(self):
        t = self.next()
        if not is_num(t):
            raise Bad("expected a number")
        if t.count(".") > 1:
            raise Skip("number with several dots")
        return float(t) if "." in t else int(t)

    def need(self, *reqs):
        if self.ext is not None and not (set(reqs) & self.ext):
            raise Bad("missing requirement %s" % (reqs,))

    def note(self, why):
        self.open.append(why)

    # -- typed lists
    def typed_names(self):
        """List of (name, type|None) up to the closing parenthesis; 'object' is kept as a type."""
        out, group = [], []
        while not self.at(")"):
            if self.at("-"):
                self.next()
                if not group:
                    raise Bad("type without items")
                t = self.name(allow={"object"})
                out += [(n, t) for n in group]
                group = []
            else:
                group.append(self.name())
        self.next()
        out += [(n, None) for n in group]
        seen = set()
        for n, _ in out:
            if n in seen:
                raise Bad("duplicate name %s" % n)
            seen.add(n)
        return out

    def typed_vars(self):
        """List of (name, tags or None) up to the closing parenthesis."""
        out, group = [], []
        while not self.at(")"):
            if self.at("-"):
                self.next()
                if not group:
                    raise Bad("type without items")
                if self.at("(", "either"):
                    self.i += 2
                    tags = []
                    while not self.at(")"):
                        tags.append(self.name(allow={"object"}))
                    self.next()
                    if not tags:
                        raise Bad("empty either")
                else:
                    tags = [self.name(allow={"object"})]
                out += [(n, frozenset(tags)) for n in group]
                group = []
            else:
                self.expect("?")
                group.append(self.name())
        self.next()
        out += [(n, frozenset()) for n in group]
        seen = {}
        for n, tags in out:
            if seen.setdefault(n, tags) != tags:
                raise Bad("variable %s with different types" % n)
        return out

    def check_tags(self, tags):
        """The types have to be declared, and the typing requirement has to be specified."""
        if not tags:
            return
        if self.types is None:  # problem: the types are those of the domain
            if self.ext is not None and "typing" not in self.ext:
                self.note("types without typing in a problem")
            return
        self.need("typing")
        for t in tags:
            if t != "object" and t not in self.types:
                raise Bad("undeclared type %s" % t)

    types = None

    @staticmethod
    def as_vars(vs):
        return tuple(("v", n, norm_tags(tags)) for n, tags in vs)

    def quant_vars(self):
        self.expect("(")
        vs = self.typed_vars()
        for _, tags in vs:
            self.check_tags(tags)
        return vs

    @staticmethod
    def vset(vs):
        return tuple(sorted(set(Reader.as_vars(vs))))

    # -- terms
    def term(self, env):
        if self.at("?"):
            self.next()
            n = self.name()
            if n not in env:
                self.note("free variable")
                return ("v", n, ())
            return ("v", n, norm_tags(env[n]))
        n = self.name()
        if self.constants is None:
            return ("c", n, None)
        if n not in self.constants:
            raise Bad("undefined constant %s" % n)
        return ("c", n, self.constants[n])

    def terms(self, env):
        out = []
        while not self.at(")"):
            out.append(self.term(env))
        self.next()
        return tuple(out)

    def atom_rest(self, env):
        n = self.name()
        ts = self.terms(env)
        self.used_preds.append((n, len(ts)))
        return ("atom", n, ts)

    # -- formulas
    def gd(self, env):
        self.expect("(")
        t = self.peek()
        if t == "and" or t == "or":
            self.next()
            if t == "or":
                self.need("disjunctive-preconditions", "adl")
            out = []
            while not self.at(")"):
                out.append(self.gd(env))
            self.next()
            return (t, tuple(out))
        if t == "not":
            self.next()
            f = self.gd(env)
            self.expect(")")
            return ("not", f)
        if t == "imply":
            self.next()
            self.need("disjunctive-preconditions", "adl")
            a = self.gd(env)
            b = self.gd(env)
            self.expect(")")
            return ("imply", a, b)
        if t in ("forall", "exists"):
            self.next()
            self.need(
                "universal-preconditions" if t == "forall" else "existential-preconditions",
                "quantified-preconditions",
                "adl",
            )
            vs = self.quant_vars()
            inner = dict(env)
            inner.update(dict(vs))
            f = self.gd(inner)
            self.expect(")")
            return (t, self.vset(vs), f)
        if t in COMPARE_OPS:
            self.next()
            a = self.fexp(env)
            b = self.fexp(env)
            self.expect(")")
            return ("cmp", t, a, b)
        if t == "=":
            self.next()
            first, second = self.peek(), self.peek(1)
            if first is None or second is None:
                raise Bad("unexpected end")
            if first == "?" or (is_name(first) and (second == "?" or is_name(second))):
                return self.equality_rest(env)
            a = self.fexp(env)
            b = self.fexp(env)
            self.expect(")")
            return ("cmp", "=", a, b)
        return self.atom_rest(env)

    def equality_rest(self, env):
        self.need("equality", "adl")
        for k in (0, 1):
            n = self.peek(k)
            if n is not None and self.funcs is not None and n in self.funcs:
                raise Skip("(= NAME NAME) with a function name")
        a = self.term(env)
        b = self.term(env)
        self.expect(")")
        return ("=", a, b)

    # -- numeric expressions
    def fhead(self, env, ground=False):
        if self.at("("):
            self.next()
            n = self.name(allow={"total-cost"})
            if ground:
                ts = []
                while not self.at(")"):
                    ts.append(("c", self.name(), None))
                self.next()
                ts = tuple(ts)
            else:
                ts = self.terms(env)
            return ("fn", n, ts)
        return ("fn", self.name(allow={"total-cost"}), ())

    def fexp(self, env, ground=False):
        t = self.peek()
        if t is not None and is_num(t):
            return ("num", self.number())
        if t == "(" and self.peek(1) in ("+", "*", "-", "/"):
            self.next()
            op = self.next()
            out = []
            while not self.at(")"):
                out.append(self.fexp(env, ground))
            self.next()
            legal = {"-": len(out) in (1, 2), "/": len(out) == 2}.get(op, len(out) >= 2)
            if not legal:
                raise Bad("wrong number of operands")
            return (op, tuple(out))
        return self.fhead(env, ground)

    # -- effects
    def effect(self, env):
        if self.at("(", "and"):
            self.i += 2
            out = []
            while not self.at(")"):
                out.append(self.ceffect(env))
            self.next()
            return ("and", tuple(out))
        return self.ceffect(env)

    def ceffect(self, env):
        if self.at("(", "forall"):
            self.i += 2
            vs = self.quant_vars()
            inner = dict(env)
            inner.update(dict(vs))
            e = self.effect(inner)
            self.expect(")")
            return ("feff", self.vset(vs), e)
        if self.at("(", "when"):
            self.i += 2
            f = self.gd(env)
            if self.at("(", "and"):
                self.i += 2
                out = []
                while not self.at(")"):
                    out.append(self.peffect(env))
                self.next()
                e = ("and", tuple(out))
            else:
                e = self.peffect(env)
            self.expect(")")
            return ("when", f, e)
        if self.at("(", "oneof"):
            self.i += 2
            self.need("non-deterministic")
            out = []
            while not self.at(")"):
                out.append(self.effect(env))
            self.next()
            if not out:
                raise Bad("empty oneof")
            return ("oneof", tuple(out))
        return self.peffect(env)

    def peffect(self, env):
        self.expect("(")
        t = self.peek()
        if t == "not":
            self.next()
            self.expect("(")
            a = self.effect_atom(env)
            self.expect(")")
            return ("not", a)
        if t in ASSIGN_OPS:
            self.next()
            f = self.fhead(env)
            e = self.fexp(env)
            self.expect(")")
            return ("asg", t, f, e)
        return self.effect_atom(env)

    def effect_atom(self, env):
        if self.at("="):
            self.note("equality as an effect")
            self.next()
            return self.equality_rest(env)
        return self.atom_rest(env)

    # -- requirements
    def requirements(self):
        self.i += 2
        out = set()
        while not self.at(")"):
            t = self.next()
            if t[:1] != ":" or t[1:] not in REQS:
                raise Bad("unknown requirement %s" % t)
            out.add(t[1:])
        self.next()
        if not out:
            raise Bad("no requirement")
        return out

    # -- domain
    def domain(self):
        self.expect("(", "define", "(", "domain")
        dname = self.name()
        self.expect(")")
        reqs = set()
        if self.at("(", ":requirements"):
            reqs = self.requirements()
        self.ext = closure(reqs)
        types = []
        if self.at("(", ":types"):
            self.i += 2
            types = self.typed_names()
            if any(p is not None for _, p in types):
                self.need("typing")
        parents = {t: (None if p == "object" else p) for t, p in types}
        for t in parents:
            seen, u = set(), t
            while u is not None:
                if u in seen:
                    raise Bad("cycle in the type hierarchy")
                seen.add(u)
                u = parents.get(u)
        self.parents = parents
        self.types = set(parents) | {p for p in parents.values() if p}
        constants = []
        if self.at("(", ":constants"):
            self.i += 2
            constants = self.typed_names()
            for _, t in constants:
                self.check_tags([t] if t else [])
        self.constants = {n: (None if t == "object" else t) for n, t in constants}
        preds = []
        if self.at("(", ":predicates"):
            self.i += 2
            while not self.at(")"):
                self.expect("(")
                n = self.name()
                vs = self.typed_vars()
                for _, tags in vs:
                    self.check_tags(tags)
                preds.append((n, self.as_vars(vs)))
                if n in self.preds and vs not in sum(self.preds[n].values(), []):
                    self.note("predicate declared twice")
                self.preds.setdefault(n, {}).setdefault(len(vs), []).append(vs)
            self.next()
            if not preds:
                raise Bad("no predicate")
        funcs, self.funcs = [], {}
        if self.at("(", ":functions"):
            self.i += 2
            group = []
            while not self.at(")"):
                if self.at("-"):
                    self.next()
                    self.expect("number")
                    if not group:
                        raise Bad("type without items")
                    funcs += [(f, "number") for f in group]
                    group = []
                else:
                    self.expect("(")
                    n = self.name(allow={"total-cost"})
                    vs = self.typed_vars()
                    for _, tags in vs:
                        self.check_tags(tags)
                    if n == "total-cost" and vs:
                        raise Skip("total-cost with parameters")
                    group.append((n, self.as_vars(vs)))
            self.next()
            funcs += [(f, None) for f in group]
            if not funcs:
                raise Bad("no function")
            if len({f for f, _ in funcs}) != len(funcs):
                raise Bad("duplicate function")
            if any(f[0] == "total-cost" for f, _ in funcs):
                self.need("action-costs")
            if any(f[0] != "total-cost" for f, _ in funcs):
                self.need("numeric-fluents")
            for (n, vs), _ in funcs:
                if n in self.funcs and self.funcs[n] != vs:
                    self.note("function declared twice")
                self.funcs[n] = vs
        actions, derived = [], []
        while not self.at(")"):
            if self.at("(", ":action"):
                actions.append(self.action())
            elif self.at("(", ":derived"):
                derived.append(self.derived())
            else:
                raise Bad("unexpected section")
        self.next()
        if self.peek() is not None:
            raise Bad("text after the domain")
        if len({a[0] for a in actions}) != len(actions):
            self.note("action declared twice")
        self.check_used()
        return (
            "domain", dname, frozenset(reqs), frozenset(parents.items()),
            frozenset(self.constants.items()), frozenset(preds), frozenset(funcs),
            frozenset(derived), frozenset(actions),
        )

    def check_used(self):
        for n, k in self.used_preds:
            if k not in self.preds.get(n, ()):
                self.note("predicate not declared")

    def action(self):
        self.i += 2
        n = self.name()
        self.expect(":parameters", "(")
        ps = self.typed_vars()
        if len({p for p, _ in ps}) != len(ps):
            raise Skip("duplicate parameter")
        for _, tags in ps:
            self.check_tags(tags)
        env = dict(ps)
        pre = eff = None
        if self.at(":precondition"):
            self.next()
            if self.at("(", ")"):
                self.i += 2
                pre = ("and", ())
            else:
                pre = self.gd(env)
        if self.at(":effect"):
            self.next()
            if self.at("(", ")"):
                self.i += 2
                eff = ("and", ())
            else:
                eff = self.effect(env)
        self.expect(")")
        return (n, self.as_vars(ps), pre, eff)

    def subtype(self, t, tags):
        while t is not None:
            if t in tags:
                return True
            t = self.parents.get(t)
        return False

    def derived(self):
        self.i += 2
        self.expect("(")
        n = self.name()
        vs = self.typed_vars()
        for _, tags in vs:
            self.check_tags(tags)
        if n not in self.preds:
            raise Bad("undefined derived predicate")
        if len(vs) not in self.preds[n]:
            raise Bad("wrong number of arguments of a derived predicate")
        decls = self.preds[n][len(vs)]
        if len({tuple(map(norm_tags, (tags for _, tags in d))) for d in decls}) > 1:
            raise Skip("derived predicate declared twice")
        decl = decls[-1]
        if len({v for v, _ in vs}) != len(vs):
            raise Skip("repeated variable in a derived predicate")
        heads = []
        for (v, tags), (_, dtags) in zip(vs, decl):
            if not tags:
                tags = dtags
            elif norm_tags(dtags) != ():
                for t in tags:
                    if not self.subtype(t, dtags):
                        raise Bad("type of a derived predicate is not a subtype")
            heads.append((v, tags))
        f = self.gd(dict(heads))
        self.expect(")")
        return (("atom", n, self.as_vars(heads)), f)

    # -- problem
    def ground_atom(self):
        self.expect("(")
        n = self.name()
        ts = []
        while not self.at(")"):
            ts.append(("c", self.name(), None))
        self.next()
        return ("atom", n, tuple(ts))

    def problem(self):
        self.expect("(", "define", "(", "problem")
        pname = self.name()
        self.expect(")", "(", ":domain")
        dname = self.name()
        self.expect(")")
        reqs = set()
        if self.at("(", ":requirements"):
            reqs = self.requirements()
            self.ext = closure(reqs)
        objects = []
        if self.at("(", ":objects"):
            self.i += 2
            objects = self.typed_names()
        self.expect("(", ":init")
        init = []
        while not self.at(")"):
            if self.at("(", "not"):
                self.i += 2
                init.append(("not", self.ground_atom()))
                self.expect(")")
            elif self.at("(", "="):
                self.i += 2
                f = self.fhead({}, ground=True)
                init.append(("cmp", "=", f, ("num", self.number())))
                self.expect(")")
            else:
                init.append(self.ground_atom())
        self.next()
        self.expect("(", ":goal")
        goal = self.gd({})
        self.expect(")")
        metric = None
        if self.at("(", ":metric"):
            self.i += 2
            opt = self.next()
            if opt not in ("minimize", "maximize"):
                raise Bad("unknown optimization")
            metric = (opt, self.fexp({}, ground=True))
            self.expect(")")
        self.expect(")")
        if self.peek() is not None:
            raise Bad("text after the problem")
        return (
            "problem", pname, dname, frozenset(reqs),
            frozenset((n, None if t == "object" else t) for n, t in objects),
            frozenset(init), goal, metric,
        )

    # -- plan
    def plan(self):
        out = []
        while self.peek() is not None:
            self.expect("(")
            if self.peek() in KEYWORDS and is_name(self.peek()):
                raise Skip("keyword as an action name")
            n = self.name()
            args = []
            while not self.at(")"):
                args.append(self.name())
            self.next()
            out.append((n, tuple(args)))
        return ("plan", tuple(out))


def read(kind, text):
    """Read a text of the given kind: domain, problem or plan."""
    try:
        r = Reader(text)
        ast = getattr(r, kind)()
    except Bad as e:
        return ("bad", str(e))
    except Skip as e:
        return ("skip", str(e))
    if r.open:
        return ("maybe", ast)
    return ("ok", ast)
