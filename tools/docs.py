"""Writes properties.jsonl and MANIFEST.json (single source of what is claimed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    anchors = {"files": list(dict.fromkeys("pddl/" + f for f in files)), "mechanism": [{"name": a, "where": "pddl/" + b} for a, b in mech]}
    if state:
        anchors["state"] = [{"name": a, "meaning": b, "where": "pddl/" + c} for a, b, c in state]
    anchors["observe_at"] = observe or ["public API"]
    anchors["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier={"over": over, "text": text},
                  why_tests_cant=" ".join(why.split()), anchors=anchors, technique=technique, note=" ".join(note.split())))


EX = "explicit-state model checking: exhaustive bounded enumeration on the real code"
REF = ("The oracle is a reference model of the language (mc/sread.py, an independent reader; mc/absyn.py, canonical content of "
       "objects); every enumerated case is replayed on the implementation. ")

prop("C01", "Printing a domain and parsing the text gives an equal domain",
     """For every domain that the domain parser accepts or that is built through the public constructors out of contents that
     can be written in PDDL, the text printed for it is accepted by the domain parser and read as a domain with the same name,
     requirements, types and supertypes, typed constants, predicates, functions, actions (parameters with all their types in
     order, preconditions and effects with the same structure, order of operands and numbers) and
     derived predicates. Printing the read domain gives the same text again. (A supertype that is not declared may come back
     declared under object, and 'object' may come back as no type; from then on the text stays the same.)""",
     ["inputs"], "all domains: every construct, nesting, arity, number, type hierarchy, name and section size",
     """The tests print and reparse a fixed list of benchmark domains; they do not reach combinations such as nested numeric
     operators, either-types in quantifiers, empty sections, numbers that print in exponent form.""",
     ["core.py", "formatter.py", "logic/base.py", "logic/effects.py", "logic/functions.py", "logic/predicates.py", "action.py", "parser/domain.py"],
     [("domain printer", "core.py Domain.__str__"), ("section and typed list printing", "formatter.py"),
      ("printing of formulas, effects, expressions", "logic/*.py __str__"), ("domain grammar and transformer", "parser/grammar.lark, parser/domain.py")],
     EX, REF + """Domains are parsed and also built through the constructors, printed, parsed again; content, equality and second
     printing are compared, and the text is read by the reference reader. Holds for all domains up to the bounds of the families in the evidence (formula, expression and
     effect depth 2-3, sections of up to 40 elements, all type hierarchies up to 4 names, name and numeral alphabets, single deviations of rich base texts).""")
prop("C02", "Printing a problem and parsing the text gives an equal problem",
     """For every problem that the problem parser accepts or that is built through the public constructors out of contents that
     can be written in PDDL, with or without a domain attached, the printed text is accepted by the problem parser and read as a
     problem with the same name, domain name, requirements, objects with their types, initial literals and function values, goal
     and metric. Printing the read problem gives the same text again.""",
     ["inputs"], "all problems: every goal and metric shape, initial state, object list, number, name",
     "The tests reparse fixture problems; goals there are conjunctions of atoms and metrics a single function.",
     ["core.py", "formatter.py", "logic/functions.py", "parser/problem.py"],
     [("problem printer", "core.py Problem.__str__"), ("constants and init printing", "formatter.py"), ("metric", "logic/functions.py Metric"),
      ("problem grammar and transformer", "parser/grammar.lark, parser/problem.py")],
     EX, REF + "Every problem of the families in the evidence, free standing and attached to a domain (goals to depth 2-3 over all connectives, all metrics to depth 2, numerals, initial states, object lists up to 40).")
prop("C03", "Printing a plan and parsing the text gives an equal plan",
     """For every plan that the plan parser accepts or that is built from action names and constants, the printed text is accepted by
     the plan parser and read as an equal plan: the same steps in the same order, with the same action names and the same
     arguments in the same order. This includes the empty plan, repeated steps, repeated arguments and steps without arguments.""",
     ["inputs"], "all sequences of steps, all argument lists, all names",
     "The tests parse one fixture plan and print one built plan.",
     ["core.py", "parser/plan.py", "formatter.py"], [("plan printer", "core.py Plan.__str__"), ("plan grammar and transformer", "parser/grammar.lark, parser/plan.py")],
     EX, REF + "All plans of up to 5-6 steps over small alphabets, all argument lists, all short names, lengths up to 120.")
prop("C04", "The domain parser reads exactly what the text says",
     """For every well-formed domain text, the domain parser returns a domain whose every component is the one written: name,
     declared requirements, each type with its supertype, each constant with its type, each predicate and function with its
     parameters and their types, each action with its parameters, precondition and effect, and each derived predicate with its
     condition; nothing is lost, merged, reordered, renamed or added, except that directly nested conjunctions (disjunctions, sums, products) may be flattened and repeated operands of a conjunction or disjunction dropped. A missing precondition, effect or section means none, and an empty () means the empty conjunction.""",
     ["inputs"], "all well-formed domain texts: every construct in every position, nesting, arity and combination of sections",
     "The tests check that fixtures parse, and compare parsed content for a few small cases only.",
     ["parser/domain.py", "parser/grammar.lark", "parser/grammar.lark", "parser/typed_list_parser.py", "parser/_update_type_tags.py"],
     [("transformer methods", "parser/domain.py DomainTransformer"), ("grammar", "parser/grammar.lark"), ("typed lists", "parser/typed_list_parser.py")],
     EX, REF + "The parsed domain is dumped structurally and compared with what the reference reader read, for all texts of the families in the evidence.")
prop("C05", "The problem and plan parsers read exactly what the text says",
     """For every well-formed problem text the problem parser returns the name, domain name, requirements, objects with types,
     initial literals and function assignments, goal and metric that are written, and for every well-formed plan text the plan
     parser returns the written steps in order; nothing is lost, merged, reordered, renamed or added, numbers have the written
     value, and the metric has the written direction and expression.""",
     ["inputs"], "all well-formed problem and plan texts",
     "The tests compare parsed content for a few small problems and one plan.",
     ["parser/problem.py", "parser/plan.py", "parser/grammar.lark", "parser/grammar.lark", "parser/domain.py"],
     [("problem transformer", "parser/problem.py"), ("plan transformer", "parser/plan.py"), ("shared goal rules", "parser/domain.py")],
     EX, REF + "The parsed object is dumped structurally and compared with the reference reader's content for all texts of the families.")
prop("C06", "The parsers accept exactly the documented PDDL language",
     """Each parser accepts every text of the supported language (sections in their order, every documented construct under its
     requirements) and rejects every other text with an error: unbalanced, missing, extra or misplaced tokens, unknown
     keywords or requirements, undeclared constants in a domain, undeclared types, items declared twice with contradictory types, missing or superfluous operands, malformed
     metrics and initial states. An accepted text is read with the content it has.""",
     ["inputs"], "all token sequences",
     "The tests contain some negative cases; they cannot try every token in every place.",
     ["parser/grammar.lark", "parser/grammar.lark", "parser/grammar.lark", "parser/grammar.lark", "parser/domain.py", "parser/problem.py", "parser/base.py"],
     [("grammars", "parser/grammar.lark"), ("semantic checks while parsing", "parser/domain.py, parser/problem.py"), ("error reporting", "parser/base.py")],
     EX, REF + """All one- and two-token edits of rich base texts, all sequences of sections and of action fields, all short token
     sequences in every formula, effect and expression position, all texts of C01-C05 as acceptance cases.""")
prop("C07", "Typed lists give each type to exactly the items it follows",
     """In every typed list (types, constants, objects, parameters of predicates, functions, actions, quantifiers, derived heads),
     'a b - t c' gives type t to exactly the items since the previous type and none to trailing items, wherever the items and
     dashes stand; '(either s t)' gives all the listed types and is rejected for names. Malformed lists (a dash without
     items or type, an item listed twice where names have to be distinct or with contradictory types) are rejected.""",
     ["inputs"], "all typed lists in all positions",
     "The tests cover a handful of lists, mostly for types and constants.",
     ["parser/typed_list_parser.py", "parser/domain.py", "parser/problem.py", "parser/grammar.lark"],
     [("typed list parser", "parser/typed_list_parser.py TypedListParser.parse_typed_list"), ("list grammar", "parser/grammar.lark")],
     EX, REF + "All token sequences of up to 5-6 tokens in each of the eleven positions plus long lists with every pattern of types.")
prop("C08", "White space, comments and line ends never change the meaning",
     """Replacing white space between tokens by any other white space (spaces, tabs, any line end), or adding comments from ';' to
     the end of the line with any content anywhere between tokens, changes neither acceptance nor the content read by any of the three parsers,
     and neither does removing the white space next to a parenthesis; names, keywords and variables are not split or joined. The same holds for texts read from files.""",
     ["inputs"], "all layouts of all texts",
     "The tests use the layout of the fixtures.",
     ["parser/grammar.lark", "parser/grammar.lark", "parser/grammar.lark", "parser/grammar.lark", "helpers/base.py", "__init__.py"],
     [("tokens and ignored text", "parser/grammar.lark"), ("comments", "parser/grammar.lark"), ("files", "__init__.py parse_domain, parse_problem, parse_plan")],
     EX, REF + "Every separator (white space of every kind, line ends of every kind, comments with all kinds of content, none) in every gap of base texts, one, two adjacent or all gaps at a time, from strings and files.")
prop("C09", "Building formulas, expressions and effects keeps their meaning",
     """A condition, effect or numeric expression built through the constructors, the operators ~ & | >> or the parser has the
     meaning of its parts: for every state (truth assignment, numeric state, set of objects) it is true, has the value or changes the state exactly as the written combination of
     its operands does. Simplification of nested or repeated operands never changes that meaning; repeated arithmetic operands, operand order
     where it matters and exclusive alternatives are kept.""",
     ["inputs"], "all formulas, expressions and effects over all states",
     "The tests check the structure of a few combinations.",
     ["logic/base.py", "logic/effects.py", "logic/functions.py", "logic/helpers.py"],
     [("simplification at construction", "logic/base.py BinaryOpMetaclass, _simplify_monotone_op_operands"), ("operators", "logic/base.py Formula"), ("effects", "logic/effects.py")],
     EX, """An independent evaluator (mc/sem.py) evaluates the built object and the written combination in every state (all truth
     assignments, all small numeric states, all small universes) for all formulas, expressions and effects up to the depths in the evidence.""")
prop("C10", "Instantiation substitutes exactly the free parameters",
     """Instantiating an action, condition, effect or expression with constants replaces every free occurrence of each given variable by the
     given constant, in every construct and at every depth, and changes nothing else: occurrences bound by a quantifier inside,
     variables that are not given, constants, numbers, operators, order and multiplicity remain. The instantiated action has the same name and
     no free parameter left; a wrong number of arguments is an error, and the original is not changed.""",
     ["inputs"], "all actions and all argument lists, including repeated arguments and quantifiers that reuse a parameter's name",
     "The tests instantiate two actions of one domain.",
     ["action.py", "logic/base.py", "logic/effects.py", "logic/functions.py", "logic/predicates.py"],
     [("Action.instantiate", "action.py"), ("instantiate of every kind of node", "logic/*.py")],
     EX, REF + "Substitution defined independently on the abstract syntax, for all enumerated bodies and all ground argument lists, including after simplification.")
prop("C11", "Plans are instantiated and checked step by step against the domain",
     """Instantiating a plan in a domain gives, for each step in order, the action of the domain with the step's name applied to the
     step's arguments; a step with an unknown action or the wrong number of arguments is an error. Checking a plan against a domain and a problem succeeds
     exactly when every step names an action of the domain, has as many arguments as it has parameters, and every argument is an object of the
     problem or a constant of the domain.""",
     ["inputs", "histories"], "all sequences of steps, domains and problems",
     "The tests check one plan.",
     ["core.py", "action.py"], [("Plan.instantiate", "core.py"), ("Plan.check", "core.py")],
     EX, REF + "All plans of up to 3-4 steps over alphabets of good and bad steps, for several domains and problems; outcome and resulting actions compared with the model.")
prop("C12", "Type hierarchies and used types are validated, completely",
     """A domain is accepted only if its type hierarchy has no cycle and no supertype of the root type object, and if every type used anywhere in it
     (constants, predicates, functions, parameters, quantifiers, conditions, effects, derived predicates) is declared or object, with types used only under
     the typing requirement; otherwise building or parsing it raises an error. Every acyclic hierarchy and every domain using only declared
     types is accepted. The same rule applies to the terms of a problem that is attached to a domain.""",
     ["inputs"], "all type hierarchies and all places where a type can be used",
     "The tests contain one cycle and a few undeclared types.",
     ["_validation.py", "helpers/base.py", "core.py", "parser/domain.py"],
     [("hierarchy check", "_validation.py Types"), ("use of types", "_validation.py TypeChecker"), ("cycle search", "helpers/base.py find_cycle")],
     EX, REF + "All hierarchies over up to 4-5 names (every function from types to supertypes), and one undeclared or untyped use in every position, through constructors and texts.")
prop("C13", "Each construct is allowed exactly under its requirements",
     """In a domain, disjunctions and implications need disjunctive-preconditions, universal and existential conditions need their own requirement, equality of terms
     needs equality, oneof effects need non-deterministic, supertypes and types of terms need typing, total-cost needs action-costs and other functions need numeric-fluents, and in a goal the same holds if the problem declares requirements. Adl implies strips, typing,
     negative and disjunctive preconditions, equality, quantified preconditions and conditional effects, quantified-preconditions implies existential and universal ones, and
     fluents implies numeric and object fluents; a construct is accepted, at every depth, exactly if a declared requirement enables or implies it. Every documented requirement is accepted and kept as declared.""",
     ["inputs", "configurations"], "all sets of requirements times all constructs in all positions",
     "The tests try single requirements with single constructs.",
     ["requirements.py", "parser/domain.py", "parser/problem.py", "_validation.py", "core.py"],
     [("closure of requirements", "requirements.py _extend_domain_requirements"), ("gates", "parser/domain.py gd_*"), ("typing gate", "_validation.py TypeChecker")],
     EX, REF + "All sets of up to three requirements and their complements (all sets through the constructors) against every gated construct, plain and nested.")
prop("C14", "A problem is always consistent with its domain or the operation fails",
     """A problem can be built with or checked against a domain exactly when the domain names agree up to case, the requirements of the problem
     (if it has any) are among those declared by the domain, and all types in its objects, initial state and goal are known to the domain and used under typing; building a problem with a domain
     requires in addition a given domain name to be the domain's and given requirements to be the same as the domain's, and without domain and domain name it fails; assigning a domain to a problem takes over the domain's name and applies the other rules. Otherwise the operation raises an error and leaves the problem as it was. The initial
     state accepts exactly literals (atoms, negated atoms and values of functions), and a problem without a goal has the empty conjunction.""",
     ["inputs", "histories", "fault_sequences"], "all sequences of checks and attachments, successful and failing, on all problems",
     "The tests build a problem with one domain; they do not attach after a failure.",
     ["core.py", "_validation.py"], [("constructor and setter", "core.py Problem"), ("consistency", "core.py Problem.check"), ("type check", "_validation.py TypeChecker")],
     EX, REF + "All combinations of domains, names, requirements and contents and all histories of up to 3-4 operations; acceptance, atomicity and observable state compared with the model after every step.",
     state=[("attached domain", "the domain of the problem, if any", "core.py Problem._domain")])
prop("C15", "Variables have the types of their binder, constants their declared type",
     """In every parsed domain, problem and goal, each occurrence of a variable has exactly the types given where it is bound: by the innermost quantifier
     that binds its name, else by the action's parameters or the derived predicate's head, else none; constants of a domain occur with their declared type. A derived
     predicate's head must fit the declared predicate of its name: the same number of arguments, each untyped (then it takes the declared types, if any) or with types that are each equal to or below a declared one.""",
     ["inputs"], "all nestings of binders that share names or not, in conditions, effects and derived predicates",
     "The tests have few quantifiers and none that shadows.",
     ["parser/domain.py", "parser/_update_type_tags.py", "core.py", "logic/predicates.py"],
     [("types of bound variables", "parser/domain.py, parser/_update_type_tags.py"), ("derived heads", "parser/domain.py derived_predicates, core.py")],
     EX, REF + "All nestings of up to 2-3 binders over shadowing and non-shadowing names and types around every kind of body; all derived heads against all declared types over a hierarchy.")
prop("C16", "Equality is structural; equal objects have equal hashes, copies and pickles",
     """Two objects of the library are equal exactly if they are of the same kind and have equal components (order and multiplicity counting
     where the order is part of the content), independently of how they were built; equality is symmetric and transitive, and equal hashable objects have equal hashes.
     A copy, deep copy or pickled copy of an object, also one read in another interpreter with another hash seed and after any use of
     the original, is equal to it, behaves alike and has the hash of equal objects there.""",
     ["inputs", "histories", "configurations"], "all pairs of objects, all histories of hashing, copying and pickling, all hash seeds",
     "The tests compare a few pairs and pickle some objects in one interpreter.",
     ["logic/base.py", "logic/terms.py", "logic/predicates.py", "logic/functions.py", "logic/effects.py", "action.py", "core.py", "helpers/cache_hash.py", "custom_types.py"],
     [("__eq__ and __hash__", "logic/*.py, action.py, core.py"), ("cached hash", "helpers/cache_hash.py")],
     EX, REF + "All ordered pairs of a pool of thousands of enumerated objects, built twice, against structural keys; all histories of hash, copy, deepcopy, pickle up to length 3; pickles exchanged between interpreters with different hash seeds.")
prop("C17", "Sorting order is total and agrees with equality",
     """Terms, predicates, functions, numbers, requirements and derived predicates are strictly and totally ordered among their own kind:
     never a<a, of a<b and b<a exactly one if a and b differ, transitive, the other comparisons agreeing with it and with equality. The order is by name (or value, or written form) first,
     so that sorting gives the same result from every initial order, and comparing for order with another kind raises a type error.""",
     ["inputs"], "all pairs, triples and permutations",
     "The tests sort nothing but what printing sorts.",
     ["logic/terms.py", "logic/predicates.py", "logic/functions.py", "requirements.py"],
     [("__lt__ with total_ordering", "logic/terms.py, logic/predicates.py, logic/functions.py, requirements.py")],
     EX, "All ordered pairs and triples of enumerated elements of each kind, all permutations of small subsets; no model beyond the order laws and keys by name or value.")
prop("C18", "Printed text depends on the content only",
     """Two equal domains, problems or plans print the same text: it does not depend on the order in which elements were written or added to sets, on the
     iteration order of sets, on the hash seed of the interpreter, or on what was done before; where the order of elements is part of the content (parameters,
     operands, plan steps) it is kept.""",
     ["inputs", "configurations", "schedules"], "all insertion orders, all iteration orders of sets, all hash seeds",
     "The tests run under one hash seed and compare no orders.",
     ["formatter.py", "core.py", "logic/base.py", "logic/terms.py", "logic/predicates.py"],
     [("sorted printing", "formatter.py sort_and_print_collection, print_*"), ("either types", "logic/terms.py _print_tag_set, formatter.py")],
     EX + " with a controlled set iteration order",
     "The iteration order of every set and frozenset the library makes is controlled and enumerated (all permutations up to 5 elements), as are all written orders; interpreters with enumerated hash seeds that realise the orders confirm it on unmodified sets.")
prop("C19", "What a text means does not depend on what was parsed before",
     """A parser gives for a text the same object or the same kind of error whatever texts, accepted or rejected at any point, it or any other parser has parsed
     before; objects parsed earlier do not change. Creating and using parsers leaves the settings of the interpreter (trace
     back limit, recursion limit, logging, warnings, environment, standard streams) as they were and writes nothing to the terminal.""",
     ["histories", "fault_sequences"], "all histories of accepted and rejected texts of one or several parsers",
     "The tests use each parser mostly once, or only with accepted texts.",
     ["parser/domain.py", "parser/problem.py", "parser/plan.py", "parser/base.py"],
     [("state of the transformers", "parser/domain.py reset, parser/problem.py reset"), ("calls", "parser/base.py BaseParser.__call__")],
     EX, "All pairs, de-Bruijn-covered triples (all in the thorough tier) of texts that set and that read each part of a parser's state and that fail at every stage, through one parser and through two interleaved ones, each compared with a fresh parser.",
     state=[("parser state", "types, constants, predicates, requirements, parameters of the text being parsed", "parser/domain.py DomainTransformer")])
prop("C20", "Threads do not disturb each other",
     """Threads that parse with their own parsers or with the file helpers get the results and errors that they would get alone, in every interleaving. Threads that
     use the same objects (print, hash, compare, copy, pickle, instantiate, check) at the same time get the results they would get alone, and the objects are afterwards as they were.""",
     ["schedules"], "all interleavings of two (three) threads",
     "The tests are single threaded.",
     ["parser/base.py", "parser/domain.py", "parser/problem.py", "helpers/cache_hash.py", "__init__.py"],
     [("parsers without shared state", "parser/base.py"), ("cached hash", "helpers/cache_hash.py")],
     "stateless model checking: controlled scheduler on the real code, all interleavings up to a preemption bound",
     """A scheduler drives real threads with one runnable at a time and preempts at every function call, line or instruction of the library (sys.monitoring); all schedules with up to 1-2
     preemptions at the stated grain; results compared with those of the thread alone. Code of lark and the standard library between two points of the library is atomic.""")
prop("C21", "Names are legal identifiers, and are kept as written",
     """Wherever a name is given (domain, problem, type, constant, object, variable, predicate, function, action), through constructors or texts, it is accepted exactly if it starts with
     an ASCII letter, goes on with letters, digits, '-' and '_' only, and is not a reserved word of the language (object may be used as a type, total-cost as a
     function); any other string raises an error. An accepted name is kept and printed verbatim, in its case.""",
     ["inputs"], "all strings, in all places for names",
     "The tests try a handful of names.",
     ["custom_types.py", "helpers/base.py", "parser/symbols.py", "parser/grammar.lark"],
     [("name pattern and keywords", "custom_types.py"), ("constrained strings", "helpers/base.py RegexConstrainedString"), ("name token", "parser/grammar.lark")],
     EX, REF + "All strings of up to two (three) characters over an alphabet of every class of character, all reserved words with all one-character edits, in every constructor and every place of the texts.")
prop("C22", "The command line tool reports validity by exit status and prints the objects",
     """The command 'pddl' with a domain file, optionally a problem file and optionally a plan file exits with 0 exactly if all given files parse, the problem is consistent with the domain and the plan with
     both, and with a non-zero status otherwise, also for wrong usage; it prints the text of each valid object in the order given, or nothing on standard output with --quiet. The file helpers parse_domain, parse_problem and parse_plan return
     what the parsers return for the text of the file, for string and path objects, and raise errors for invalid or missing files.""",
     ["inputs", "configurations"], "all combinations of valid, invalid, missing and mutually inconsistent files and flags",
     "The tests run the tool on valid fixtures.",
     ["__main__.py", "__init__.py"], [("commands", "__main__.py"), ("file helpers", "__init__.py, helpers/base.py")],
     EX, "All combinations of file kinds and flags in process, a subset and all wrong usages in processes of their own; status and output compared with parsers and checks called directly.")
prop("C23", "Using objects never changes them, and they share nothing with the caller",
     """Printing, comparing, hashing, copying, instantiating, checking, combining with operators or attaching an object, in any order and also when the operation fails, changes neither that object nor any other (attaching sets the problem's domain only). A collection
     that the caller passed to a constructor or method is not modified, and modifying it afterwards does not change the object.""",
     ["histories", "fault_sequences"], "all sequences of operations, successful or failing",
     "The tests look at results, not at the objects afterwards.",
     ["core.py", "action.py", "logic/base.py", "helpers/base.py", "_validation.py"],
     [("copies of collections", "helpers/base.py ensure_set, ensure_sequence"), ("objects", "core.py, action.py, logic/*.py")],
     EX, "All sequences of up to 2-3 (3-4) operations on a rich domain, problem, plan and their parts, with the complete observable content compared after each; every collection argument of every constructor modified in every way.")

prop("C24", "Objects built in Python hold exactly what they are given",
     """Every public constructor and helper (terms, variables(...), constants(...), predicates and functions and their application to other terms, connectives, quantifiers,
     effects, metrics, numbers, actions, domains, problems, plans) makes an object whose accessors give exactly the given parts: the same elements,
     in the same order and number for sequences and operands, whatever kind of collection they come in, by position or by keyword. What is left out or None
     is empty (the empty conjunction for a goal, no precondition, no effect, no type, minimize). Applying a predicate or function to terms
     gives a new one with these terms and keeps the old one; a wrong number of terms, types listed twice, inconsistent types of a term within a predicate, and unknown directions of a metric are errors.""",
     ["inputs", "configurations"], "all arguments, given or not, in all kinds of collections and all ways of passing them",
     "The tests build a few objects, mostly from lists, and look at their text.",
     ["logic/terms.py", "logic/helpers.py", "logic/predicates.py", "logic/functions.py", "logic/base.py", "logic/effects.py", "action.py", "core.py", "helpers/base.py"],
     [("collections", "helpers/base.py ensure_set, ensure_sequence, check_no_duplicates"), ("constructors and accessors", "logic/*.py, action.py, core.py"),
      ("application to terms", "logic/predicates.py Predicate.__call__, logic/functions.py NumericFunction.__call__")],
     EX, "Every constructor with all combinations of the listed arguments (present, None, empty, filled) in eight kinds of collections; accessors compared with what was given.")
prop("C25", "The interpreter's configuration does not matter",
     """Parsing, printing, checking, building and instantiating give the same results and the same kinds of errors in every Python process: with and without optimisation
     (-O, -OO) and other flags, for every hash seed, locale, encoding of the standard streams (closed ones included), working directory (also one with files of similar names, a removed or changed one), state of the interpreter
     (garbage collection, warnings as errors, logging, decimal context, recursion limit, thread, child process), and whichever module of the library is imported first.""",
     ["configurations"], "all configurations of the interpreter and all orders of first imports",
     "The tests run in one configuration.",
     ["helpers/base.py", "core.py", "parser/base.py", "parser/__init__.py", "__init__.py", "logic/functions.py", "logic/base.py"],
     [("checks that do not use assert statements", "helpers/base.py assert_, check"), ("location of the grammar", "parser/__init__.py, __init__.py"), ("imports", "pddl/*.py")],
     "explicit-state model checking: exhaustive enumeration of configurations, differential on the real code",
     "Every listed configuration (singly, and pairs) runs a fixed corpus of texts, constructions, checks and instantiations in an interpreter of its own; each outcome (content, text, kind of error) is compared with that of the plain interpreter.")

prop("C26", "No operation depends on earlier, unrelated ones",
     """Whatever was done before in the process with other objects (building, parsing, reading files, printing, comparing, hashing, checking, instantiating, copying, rejected attempts included), a
     constructor, parser, check, instantiation, comparison, helper or command given the same arguments gives the same result, the same types of numbers and names included, or the same kind of
     error, as it gives as the first thing in a new process. In particular objects of the same names and different types, equal numbers of different kinds, domains of the same name and different
     types, requirements or actions, files of the same name whose contents changed, collections that an earlier caller modified, and repetitions do not influence each other.""",
     ["histories"], "all histories of operations of the whole public interface",
     "The tests run each in a fixed order after few others and compare with equality, by which 1 and 1.0, or constants of different types, are equal.",
     ["_validation.py", "core.py", "action.py", "custom_types.py", "helpers/base.py", "helpers/cache_hash.py", "logic/base.py", "logic/functions.py", "logic/predicates.py", "logic/terms.py", "logic/helpers.py",
      "requirements.py", "__init__.py", "__main__.py", "parser/base.py"],
     [("values computed once", "helpers/cache_hash.py, parser/base.py"), ("rules about types and requirements", "_validation.py, requirements.py"), ("interpreted names", "custom_types.py")],
     "explicit-state model checking: exhaustive enumeration of histories (fork of the real process state at each operation), differential on the real code",
     "713 operations; from the state of a process that has imported the library, every pair (quick: of the same kind and a share of the others), triples of subsets, all in one process in many orders, each 40 times; every outcome (content with types of numbers, text, kind of error) is compared with that of the operation alone.")

prop("C27", "What is refused is refused with an error about it",
     """Every text that a parser refuses is refused with a syntax error (lark's UnexpectedInput), a ParseError or one of the library's own errors (PDDLError), never with an internal failure (such as
     TypeError, KeyError, AttributeError, RuntimeError, AssertionError). Syntax errors have the right place: for a text that is well-formed up to a foreign character, the offset, line and column of this character; for a text that
     ends too early, the end; for a well-formed text followed by more, the first thing that follows; for a text with one changed token, never an earlier one; line, column, token and offset agree. An error about a missing
     requirement (PDDLMissingRequirementError) names a requirement that is neither declared nor implied, and once it is declared does not come again. Errors about undeclared types, constants and predicates, reserved words
     used as names, names listed twice or with different types, and steps of a plan name these. Domains (types) refused by the constructor, plans refused by Plan.check raise PDDLValidationError, plans refused by Plan.instantiate raise
     ValueError; a problem refused by the constructor raises one of these two, by Problem.check or by setting its domain PDDLValidationError or AssertionError.""",
     ["inputs"], "all malformed texts, plans, domains and problems",
     "The tests look at the error of a dozen malformed texts.",
     ["exceptions.py", "parser/base.py", "parser/domain.py", "parser/problem.py", "parser/plan.py", "parser/typed_list_parser.py", "_validation.py", "core.py", "custom_types.py", "helpers/base.py"],
     [("kinds of errors", "exceptions.py"), ("errors of lark passed on", "parser/base.py BaseParser._call_parser"),
      ("semantic errors", "parser/domain.py, parser/problem.py, _validation.py, core.py Plan.check, Problem.check")],
     EX, "All base texts cut, extended and edited at every token gap, in six layouts; mutants, declarations, names, type uses, short token sequences for the kinds; requirement errors iterated until none is left; forms with one culprit. Places are known by construction of the text.")

prop("C28", "Work and stack stay within bounds as inputs grow",
     """For inputs in which one construct of the language is repeated or nested n times (types, constants, predicates, functions, actions, parameters, operands, nested conditions, effects and expressions, objects, initial literals,
     goals, metrics, steps of a plan, formulas joined one by one), the work of parsing, printing, comparing, hashing, copying, pickling, building, sorting, instantiating, connecting and checking grows at most quadratically: twice the
     size needs at most about four times the calls (for domains with many types, whose hierarchy is put in order, at most cubically). Nesting of at least 70 levels does not exhaust the interpreter's default stack.""",
     ["inputs"], "all constructs, operations and sizes",
     "The tests' inputs are small or shallow, and how the work grows is not measured.",
     ["logic/base.py", "logic/functions.py", "logic/effects.py", "logic/predicates.py", "helpers/base.py", "helpers/cache_hash.py", "_validation.py", "core.py", "parser/domain.py", "parser/typed_list_parser.py", "parser/_update_type_tags.py", "formatter.py"],
     [("recursion over formulas", "logic/base.py, _validation.py, parser/_update_type_tags.py"), ("typed lists and hierarchies", "parser/typed_list_parser.py, helpers/base.py find_cycle"), ("printing", "formatter.py")],
     "explicit-state model checking: exhaustive enumeration of constructs x operations x sizes, with a deterministic cost monitor",
     "Calls of functions are counted on the real code (sys.setprofile; deterministic, no clock) for every construct, operation and size n of the evidence and for 2n; five times the calls plus 400 is a violation (ten times for domains with many types).")

prop("C29", "An interrupted operation leaves everything usable",
     """If an exception arrives from outside while the library works (KeyboardInterrupt, the exception of a timeout's signal handler, lack of memory, exhausted stack), at whatever point, the operation either raises or gives its right
     result, and afterwards nothing is half done: domains, problems, plans, actions, formulas, terms and collections are as they were before (an attachment of a domain to a problem has happened completely or not at all),
     hashes and equalities are right, a parser reads the next text as a new parser would, and the same operation done again gives what it gives when nothing interrupts it.""",
     ["inputs", "crash_points"], "all operations and points of interruption",
     "No test interrupts an operation; the points are many and the effect of one is seen only in a later operation.",
     ["core.py", "parser/base.py", "parser/domain.py", "parser/problem.py", "parser/plan.py", "helpers/cache_hash.py", "logic/base.py", "__main__.py"],
     [("state of the transformers", "parser/domain.py, parser/problem.py"), ("attachment", "core.py Problem.domain"), ("cached hashes", "helpers/cache_hash.py")],
     "explicit-state model checking: exhaustive enumeration of crash points (fault injection at every interruption point of the real code) and of stack sizes, with an atomicity oracle",
     "For several hundred operations, the exception is raised at every point in the library's code at which the interpreter runs signal handlers (function entry, return of a C function, backward jump; sys.monitoring), and the operation runs with every stack size up to the needed one; afterwards, all objects and the next operation are compared with the uninterrupted ones. Operations that build parsers from files: every 11th point (thorough: every 3rd).")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if k not in ("technique", "note")}
            f.write(json.dumps(q) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": PY + " mc/setup.py",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": "%s mc/run.py %s --tier quick" % (PY, p["id"]),
                "thorough_cmd": "%s mc/run.py %s --tier thorough" % (PY, p["id"]),
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["technique"],
                "level": "model_checking",
                "level_note": p["note"],
            }
            for p in P
        ],
        "not_applicable": [],
        "notes": "No hooks in /repo. Everything runs /repo's working tree by import (PYTHONPATH order set in mc/env.py); see DESIGN.md.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
