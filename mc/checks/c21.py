"""Names are letters, digits, - and _ after a letter, and not reserved words."""

import itertools
import re
import string

from mc import absyn, env, sread
from mc.checks.common import warm
from mc.run import Violation

LEGAL = re.compile(r"[A-Za-z][A-Za-z0-9_\-]*\Z")
RESERVED = {
    "define", "domain", "problem", "object", "either", "and", "or", "not", "imply", "forall", "exists", "oneof", "when",
    "assign", "scale-up", "scale-down", "increase", "decrease", "minimize", "maximize", "total-cost",
}
# the characters that matter to a scanner: letters, digits, the two marks, everything that delimits,
# characters that only look like letters or digits, and line ends
ALPHABET = ["a", "Z", "z", "0", "9", "-", "_", "?", " ", "\n", "\t", "\r", ".", ":", ";", "(", ")", "@", "[", "`", "{", "/", "=", "+",
            "\u00e9", "\u00df", "\u0430", "\u00b2", "\u0660", "\u212a", "\uff21", "\u0301", "\x00", "\u2028", "'", '"', "\\", "%", "<", "$", "^", "|", "*", "#", ",", "!", "~", "&"]
SMALL = ["a", "Q", "7", "-", "_", "?", " ", "\n", ".", ":", "\u00e9", "("]


def allowed(slot, s):
    if LEGAL.match(s) is None:
        return False
    if s in RESERVED:
        return (slot in TYPES and s == "object") or (slot == "function" and s == "total-cost")
    return True


def made():
    """How a name gets into an object of each kind, and out again."""
    L = absyn.lib()
    R = L["Requirements"]
    P = L["Predicate"]
    return {
        "variable": lambda s: L["Variable"](s).name,
        "constant": lambda s: L["Constant"](s).name,
        "variable-type": lambda s: one(L["Variable"]("v", [s]).type_tags),
        "variable-type-set": lambda s: one(L["Variable"]("v", {s}).type_tags),
        "second-type": lambda s: [t for t in L["Variable"]("v", ["zzz", s]).type_tags if t != "zzz"][0] if s != "zzz" else s,
        "replaced-type": lambda s: one(L["Variable"]("v", ["t"]).with_type_tags([s]).type_tags),
        "constant-type": lambda s: L["Constant"]("c", s).type_tag,
        "predicate": lambda s: P(s).name,
        "predicate-with-terms": lambda s: P(s, L["Variable"]("v"), L["Constant"]("c")).name,
        "function": lambda s: L["NumericFunction"](s).name,
        "action": lambda s: L["Action"](s, []).name,
        "domain": lambda s: L["Domain"](s).name,
        "problem": lambda s: L["Problem"](s, domain_name="d").name,
        "problem-domain": lambda s: L["Problem"]("q", domain_name=s).domain_name,
        "type-definition": lambda s: one(L["Domain"]("d", requirements={R.TYPING}, types={s: None}).types),
        "subtype-definition": lambda s: [
            t for t in L["Domain"]("d", requirements={R.TYPING}, types={"zzz": None, s: "zzz"}).types if t != "zzz"
        ][0] if s != "zzz" else s,
        "supertype": lambda s: L["Domain"]("d", requirements={R.TYPING}, types={"t": s, s: None} if s != "object" and s != "t" else {"t": "object"}).types["t"] if s != "t" else s,
    }


TYPES = {"variable-type", "variable-type-set", "second-type", "replaced-type", "constant-type", "supertype"}
OPEN = {("type-definition", "object"), ("subtype-definition", "object")}


def one(xs):
    xs = list(xs)
    if len(xs) != 1:
        raise Violation("%d names instead of one: %r" % (len(xs), xs))
    return xs[0]


class Text(str):
    """A string that is not exactly of type str."""


def refused(make, s):
    try:
        return None, make(s)
    except Violation:
        raise
    except Exception as e:  # noqa
        return e, None


def strings(case, obs):
    """A block of strings in every place a name can be given to the library."""
    slots = made()
    for s in case:
        for slot, make in slots.items():
            if (slot, s) in OPEN or (s == "" and slot in ("supertype",)):
                continue
            for given in (s, Text(s)):
                e, got = refused(make, given)
                obs.step()
                if allowed(slot, s):
                    if e is not None:
                        raise Violation("the name %r is refused as %s: %s" % (s, slot, env.brief(e)))
                    if str(got) != s or not got == s or hash(got) != hash(s):
                        raise Violation("the name %r of a %s has become %r" % (s, slot, got))
                    e2, again = refused(make, got)
                    if e2 is not None or again != s:
                        raise Violation("the name %r taken from a %s is not accepted again: %r" % (s, slot, e2))
                elif e is None:
                    raise Violation("%r is accepted as a name (%s): %r" % (s, slot, got))
        obs.state((s, tuple(allowed(k, s) for k in slots)))


def crossed(case, obs):
    """A name taken from one kind of object is used for another."""
    slots = made()
    for s in case:
        for a, b in itertools.permutations(slots, 2):
            if (a, s) in OPEN or (b, s) in OPEN or not allowed(a, s):
                continue
            n = slots[a](s)
            e, got = refused(slots[b], n)
            obs.step()
            if allowed(b, s) != (e is None):
                raise Violation("the name %r of a %s is %s as %s: %s" % (s, a, "refused" if e else "accepted", b, e))
            if e is None and str(got) != s:
                raise Violation("the name %r has become %r" % (s, got))
        obs.state((s, "crossed"))


PRINTED = {
    "variable": "?%s", "constant": "%s", "predicate": "(%s)", "predicate-with-terms": "(%s ?v c)", "function": "(%s)",
}


def printed(case, obs):
    L = absyn.lib()
    objects = {
        "variable": L["Variable"], "constant": L["Constant"], "predicate": L["Predicate"],
        "predicate-with-terms": lambda s: L["Predicate"](s, L["Variable"]("v"), L["Constant"]("c")), "function": L["NumericFunction"],
    }
    for s in case:
        for slot, want in PRINTED.items():
            if allowed(slot, s):
                got = str(objects[slot](s))
                obs.step()
                if got != want % s:
                    raise Violation("the %s %r is printed %r" % (slot, s, got))
        obs.state((s, "printed"))


# ------------------------------------------------------------------------------ texts

D = {
    "domain": "(define (domain %s))",
    "type-definition": "(define (domain d) (:requirements :typing) (:types %s))",
    "supertype": "(define (domain d) (:requirements :typing) (:types t9 - %s))",
    "constant": "(define (domain d) (:constants %s))",
    "constant-type": "(define (domain d) (:requirements :typing) (:types t9) (:constants a - %s))",
    "predicate": "(define (domain d) (:predicates (%s)))",
    "variable": "(define (domain d) (:predicates (p ?%s)))",
    "variable-type": "(define (domain d) (:requirements :typing) (:types t9) (:predicates (p ?x - %s)))",
    "function": "(define (domain d) (:requirements :fluents) (:functions (%s)))",
    "action": "(define (domain d) (:action %s :parameters ()))",
    "parameter": "(define (domain d) (:action a :parameters (?%s)))",
    "atom": "(define (domain d) (:predicates (p)) (:action a :parameters () :precondition (%s)))",
    "argument": "(define (domain d) (:constants %s) (:predicates (p ?x)) (:action a :parameters () :precondition (p %s)))",
}
Q = {
    "problem": "(define (problem %s) (:domain d) (:init) (:goal (and)))",
    "problem-domain": "(define (problem q) (:domain %s) (:init) (:goal (and)))",
    "object": "(define (problem q) (:domain d) (:objects %s) (:init) (:goal (and)))",
    "object-type": "(define (problem q) (:domain d) (:objects a - %s) (:init) (:goal (and)))",
    "init": "(define (problem q) (:domain d) (:init (%s)) (:goal (and)))",
    "goal": "(define (problem q) (:domain d) (:init) (:goal (%s)))",
}


def in_texts(case, obs):
    """The parser accepts the same names."""
    for s in case:
        for kind, forms in (("domain", D), ("problem", Q)):
            for slot, form in forms.items():
                text = form.replace("%s", s)
                verdict, ast = sread.read(kind, text)
                if verdict not in ("ok", "bad"):
                    continue
                how, x = env.outcome(kind, text, obs.fresh)
                obs.step()
                if (how == "obj") != (verdict == "ok"):
                    raise Violation(
                        "%r is %s as the name of a %s: %s\n%s"
                        % (s, "accepted" if how == "obj" else "refused", slot, "" if how == "obj" else env.brief(x), text)
                    )
                if how == "obj" and absyn.norm(absyn.dump_any(kind, x)) != absyn.norm(ast):
                    raise Violation("the name %r of a %s has changed:\n%s\n%s" % (s, slot, text, x))
        obs.state((s, "texts"))


def neighbours(words):
    """Words one edit away from the reserved words."""
    out = []
    for w in sorted(words):
        out += [w, w.upper(), w.capitalize(), w.swapcase(), w + w, w[::-1], ":" + w, "?" + w, w + " ", " " + w, w + "\n", "\n" + w, w + "\x00"]
        out += [w[:i] + w[i + 1:] for i in range(len(w))]
        out += [w[:i] + w[i].upper() + w[i + 1:] for i in range(len(w))]
        for x in ("a", "0", "-", "_", " ", "."):
            out += [w[:i] + x + w[i:] for i in range(len(w) + 1)]
            out += [w[:i] + x + w[i + 1:] for i in range(len(w))]
        if "-" in w:
            out += [w.replace("-", "_"), w.replace("-", ""), w.split("-")[0], w.split("-")[1], w.replace("-", "--")]
    more = [":action", ":requirements", ":types", ":init", "-", "=", ">=", "<=", ">", "<", "+", "*", "/", "number", "action", "types",
            "constants", "predicates", "functions", "parameters", "precondition", "effect", "init", "goal", "objects", "metric",
            "requirements", "typing", "strips", "derived", "preference", "always", "at", "over", "start", "end", "all", "undefined",
            "None", "True", "self", "class", "lambda", "__init__", "nan", "inf", "a" * 1000, "a" + "-" * 500, "x" + "0" * 3000]
    return list(dict.fromkeys(out + more))


def all_strings(level):
    yield ""
    for c in ALPHABET + [chr(i) for i in range(0x250)]:
        yield c
        yield "a" + c
        yield c + "a"
        yield "a" + c + "a"
        yield "a-" + c
    for k in (2, 3, 4) if level > 1 else (2, 3):
        for cs in itertools.product(SMALL, repeat=k):
            yield "".join(cs)
    for cs in itertools.product(ALPHABET, repeat=2):
        yield "".join(cs)
    for x in string.ascii_letters:
        for y in string.ascii_letters + string.digits + "-_":
            yield x + y


def blocks(xs, n=40):
    it = iter(dict.fromkeys(xs))
    while True:
        part = tuple(itertools.islice(it, n))
        if not part:
            return
        yield part


def main(check):
    level = check.level
    warm("domain", "problem")
    near = neighbours(RESERVED)
    check.run("strings", strings, blocks(all_strings(level)), 2)
    check.run("reserved-words", strings, blocks(near), 2)
    check.run("crossed", crossed, blocks(list(near)[::2] + ["a", "Z9", "a-b_c", "x" * 50] + sorted(RESERVED), 10), 2)
    check.run("printed", printed, blocks(itertools.chain(all_strings(level), near)), 4)
    texts = itertools.chain(near, (s for s in all_strings(level) if not re.search(r"[\s();]", s)))
    check.run("texts", in_texts, blocks(texts, 20), 1)
    check.notes["explanation"] = (
        "states: distinct strings (by family); transitions: names given to a constructor, or texts parsed. All strings up to "
        "three (four) characters of an alphabet of delimiters and look-alikes, all words one edit away from the reserved "
        "words, in every place a name can be given to a constructor, and in every place of a text."
    )
