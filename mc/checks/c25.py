"""The result does not depend on how the interpreter is run: its flags, environment, working directory, state."""

import hashlib
import importlib
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile

from mc import absyn, env, fam, mutate
from mc.run import Obs, Violation, canon

# ---------------------------------------------------------------- the corpus (runs in the interpreter under test)

OTHERS = [  # cases of other checks: their verdict must be the same in every interpreter
    ("c24", "term", lambda m: m.terms_cases(), 3), ("c24", "bad_term", lambda m: m.bad_term_cases(), 1),
    ("c24", "helper", lambda m: m.helper_cases(3), 11), ("c24", "application", lambda m: m.term_lists(3), 7),
    ("c24", "call", lambda m: m.call_cases(2), 29), ("c24", "parts", lambda m: m.part_cases(), 2),
    ("c24", "operators", lambda m: m.operator_cases(3), 11), ("c24", "action", lambda m: m.action_cases(2), 7),
    ("c24", "problem", lambda m: m.problem_cases(1), 37), ("c14", "construct", lambda m: m.construct_cases(), 41),
    ("c14", "literals", lambda m: m.literal_cases(), 211), ("c14", "histories", lambda m: m.history_cases(1), 1009),
    ("c12", "hierarchy", lambda m: m.maps(1), 97), ("c12", "usage", lambda m: m.usages(), 43),
    ("c13", "api", lambda m: range(1 << 16), 331), ("c10", "repeated", lambda m: m.name_lists(3), 3),
    ("c11", "histories", lambda m: m.history_cases(1), 211), ("c11", "long_plans", lambda m: ((n, b, k) for n in (3, 9) for b in range(n) for k in range(9)), 3),
]
EXTRA = {
    "domain": ["", "(", "(define (domain d))", "(define (domain d) (:requirements :numeric-fluents) (:functions (f)) (:action a :parameters () :precondition (> (f) 0.0000001) :effect (increase (f) 123456789012345678901234567890)))"],
    "problem": ["", "(define (problem q) (:domain d) (:init (= (f) 0.00000000012) (= (g) 1000000000000000000000000.0)) (:goal (and)) (:metric minimize (+ (f) 1e)))",
                "(define (problem q) (:domain d) (:init (= (f) 0.00000000012) (= (g) 1000000000000000000000000.0)) (:goal (and)) (:metric minimize (+ (f) 1)))"],
    "plan": ["", "(", "(a)(b)"],
}


def every(it, k):
    return itertools.islice(it, 0, None, k)


def corpus(size):
    """Names and thunks of what is run; the same list in every interpreter."""
    k = {"full": 1, "quick": 6, "mini": 400}[size]
    texts = [(kind, t) for kind in ("domain", "problem", "plan") for t in list(mutate.BASES[kind]) + EXTRA[kind]]
    if size != "mini":
        texts += [("domain", t) for t in every(mutate.mutants("domain"), 41 * k)]
        texts += [("problem", t) for t in every(mutate.mutants("problem"), 41 * k)]
        texts += [("plan", t) for t in every(mutate.mutants("plan", 1), 3 * k)]
        texts += [("domain", t) for t in every(fam.domain_deviations(1), 3)]
        texts += [("problem", t) for t in every(fam.problem_deviations(1), 3)]
        texts += [("domain", t) for t in every(fam.alike_domains(1), 7)]
    for kind, t in texts:
        yield ("text", kind, t)
    if size != "mini":
        for mod, fn, cases, step in OTHERS:
            m = importlib.import_module("mc.checks." + mod)
            for case in every(cases(m), step * k):
                yield ("case", (mod, fn), case)


def evaluate(what, how, x):
    if what == "text":
        got, obj = env.outcome(how, x)
        if got == "exc":
            return "rejected %s" % type(obj).__name__
        return "accepted %r %s" % (canon(absyn.dump_raw(how, obj)), obj)
    mod, fn = how
    f = getattr(importlib.import_module("mc.checks." + mod), fn)
    try:  # not run_case: alarms are for the main thread
        f(x, Obs())
        return "case holds"
    except Violation:
        return "case fails"
    except Exception as e:
        return "case fails with %s" % type(e).__name__


def worker(size, out, wanted=None):
    """Writes the digest of every outcome to a file; of the wanted ones, the outcome itself."""
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 2000))
    res = []
    for i, item in enumerate(corpus(size)):
        r = evaluate(*item)
        if wanted is None:
            res.append(hashlib.blake2b(r.encode("utf-8", "backslashreplace"), digest_size=8).hexdigest())
        elif i in wanted:
            res.append((repr(item)[:1500], r[:1500]))
    with open(out, "w", encoding="ascii", errors="backslashreplace") as f:
        json.dump(res, f)


# ----------------------------------------------------------------------------------------- configurations

FLAGS = {
    "": [], "-O": ["-O"], "-OO": ["-OO"], "-B": ["-B"], "-E": ["-E"], "-s": ["-s"], "-P": ["-P"], "-I": ["-I"], "-u": ["-u"], "-bb": ["-bb"],
    "-W error": ["-W", "error"], "-W ignore": ["-W", "ignore"], "-X dev": ["-X", "dev"], "-X utf8": ["-X", "utf8"], "-X utf8=0": ["-X", "utf8=0"],
    "-X no_debug_ranges": ["-X", "no_debug_ranges"], "-X frozen_modules=off": ["-X", "frozen_modules=off"], "-X tracemalloc": ["-X", "tracemalloc=2"],
    "-X int_max_str_digits": ["-X", "int_max_str_digits=640"],
}
ENVS = {
    "": {}, "seed 1": {"PYTHONHASHSEED": "1"}, "seed 2": {"PYTHONHASHSEED": "2"}, "seed 12345": {"PYTHONHASHSEED": "12345"},
    "LC_ALL=C": {"LC_ALL": "C"}, "LC_ALL=POSIX": {"LC_ALL": "POSIX", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}, "C.UTF-8": {"LC_ALL": "C.UTF-8"},
    "LANG unknown": {"LANG": "tr_TR.ISO-8859-9", "LC_ALL": "tr_TR.ISO-8859-9", "PYTHONUTF8": "0"}, "ascii streams": {"PYTHONIOENCODING": "ascii"},
    "optimize": {"PYTHONOPTIMIZE": "1"}, "optimize 2": {"PYTHONOPTIMIZE": "2"}, "malloc": {"PYTHONMALLOC": "debug"}, "no home": {"HOME": ""},
    "no path": {"PATH": ""}, "tz": {"TZ": "Asia/Kathmandu"}, "term": {"TERM": "dumb", "COLUMNS": "10", "LINES": "2", "NO_COLOR": "1"},
    "tmp": {"TMPDIR": "/nonexistent"}, "debug": {"DEBUG": "1", "PDDL_DEBUG": "1", "LOGLEVEL": "DEBUG"}, "asyncio": {"PYTHONASYNCIODEBUG": "1"},
}
# code that runs before the library is imported
BEFORE = {
    "": "", "gc off": "import gc; gc.disable()", "gc often": "import gc; gc.set_threshold(1000, 2, 2)", "gc frozen": "import gc; gc.freeze()",
    "limit 600": "import sys; sys.setrecursionlimit(600)", "limit 100000": "import sys; sys.setrecursionlimit(100000)",
    "decimal": "import decimal; decimal.setcontext(decimal.Context(prec=1, rounding=decimal.ROUND_UP, Emin=-3, Emax=3, capitals=0))",
    "decimal traps": "import decimal; decimal.getcontext().traps = dict.fromkeys(decimal.getcontext().traps, True)",
    "warnings": "import warnings; warnings.simplefilter('error')", "logging": "import logging; logging.basicConfig(level=1)",
    "logging off": "import logging; logging.disable(logging.CRITICAL)",
    "profile": "import sys; sys.setprofile(lambda *a: None)", "switch": "import sys; sys.setswitchinterval(1e-6)",
    "no stdout": "import os, sys; sys.stdout = sys.stderr = sys.stdin = None", "closed": "import os; os.close(0); os.close(1); os.close(2)",
    "locale": "import locale; locale.setlocale(locale.LC_ALL, '')", "traceback": "import sys; sys.tracebacklimit = 0",
    "argv": "import sys; sys.argv = []", "no argv": "import sys; del sys.argv", "random": "import random; random.seed(0)",
    "umask": "import os; os.umask(0o777)", "lark first": "import lark", "click first": "import click",
    "recursive": "import sys\ndef deep(n, f):\n  return deep(n - 1, f) if n else f()\nif sys.getrecursionlimit() < 1500: sys.setrecursionlimit(1500)\nRUN = lambda f: deep(300, f)",
    "thread": "import threading\ndef RUN(f):\n  t = threading.Thread(target=f); t.start(); t.join()",
    "small stack": "import threading; threading.stack_size(1 << 20)\ndef RUN(f):\n  t = threading.Thread(target=f); t.start(); t.join()",
    "asyncio": "import asyncio\ndef RUN(f):\n  async def g(): f()\n  asyncio.run(g())",
    "fork": "import os\ndef RUN(f):\n  import pddl.parser.domain\n  p = os.fork()\n  if p == 0:\n    f(); os._exit(0)\n  os.waitpid(p, 0)",
    "context": "import contextvars\ndef RUN(f): contextvars.copy_context().run(f)",
    "handler": "def RUN(f):\n  try: raise ValueError('outer')\n  except ValueError: f()",
    "generator": "def RUN(f):\n  def g(): yield f()\n  list(g())",
    "reload": "import importlib, sys\nimport pddl.core, pddl.parser.domain\nfor m in [m for m in sys.modules if m == 'pddl' or m.startswith('pddl.')]: del sys.modules[m]",
}
WHERE = ["/", "scratch", "decoys", "removed", "repo", "moved"]
CODE = """
import sys
sys.path.insert(0, %(verif)r)
sys.path.insert(0, %(repo)r)
RUN = lambda f: f()
%(before)s
%(first)s
%(move)s
from mc.checks import c25
RUN(lambda: c25.worker(%(size)r, %(out)r, %(wanted)r))
"""


def execute(conf, size, wanted=None, seconds=400):
    """The outcomes in a configuration; a string says that there are none."""
    flags, envs, before, where, first = conf
    scratch = tempfile.mkdtemp(prefix="c25-")
    try:
        out, cwd, move = os.path.join(scratch, "out.json"), scratch, ""
        if where == "/":
            cwd = "/"
        elif where == "repo":
            cwd = env.REPO
        elif where == "decoys":
            cwd = os.path.join(scratch, "decoys")
            os.makedirs(os.path.join(cwd, "parser"))
            for n in ("grammar.lark", "domain.lark", "common.lark", "parser/grammar.lark", "d.pddl", "pddl"):
                with open(os.path.join(cwd, n), "w") as f:
                    f.write("decoy\n")
        elif where == "removed":
            cwd = os.path.join(scratch, "removed")
            os.makedirs(cwd)
            move = "import os; os.rmdir(%r)" % cwd
        elif where == "moved":
            cwd = os.path.join(scratch, "moved")
            os.makedirs(cwd)
            move = "import pddl, os; os.chdir('/')"
        e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "VERIF_"))}
        e.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PDDL_REPO=env.REPO)
        e.update(ENVS[envs])
        if "-E" in FLAGS[flags] or "-I" in FLAGS[flags]:
            e["PDDL_REPO"] = env.REPO
        code = CODE % dict(verif=env.VERIF, repo=env.REPO, before=BEFORE[before], first=first and "import " + first, move=move, size=size, out=out, wanted=wanted)
        p = subprocess.run([sys.executable, "-B"] + FLAGS[flags] + ["-c", code], cwd=cwd, env=e, capture_output=True, timeout=seconds)
        if not os.path.exists(out):
            return "does not run (status %d): %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-800:])
        if before == "umask":
            os.chmod(out, 0o600)
        with open(out) as f:
            return json.load(f)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


PLAIN = ("", "", "", "/", "")
_reference = {}


def configuration(case, obs):
    conf, size = case
    if size not in _reference:
        _reference[size] = execute(PLAIN, size)
    want = _reference[size]
    got = execute(conf, size)
    obs.step(len(want))
    obs.state(case)
    if got == want:
        return
    if isinstance(got, str) or isinstance(want, str):
        raise Violation("configuration %r: %s" % (conf, got if isinstance(got, str) else want))
    if len(got) != len(want):
        raise Violation("configuration %r: %d outcomes instead of %d" % (conf, len(got), len(want)))
    bad = [i for i in range(len(want)) if got[i] != want[i]][:2]
    a, b = execute(conf, size, bad), execute(PLAIN, size, bad)
    raise Violation("configuration %r (flags, environment, state, directory, first import): %d outcomes differ, e.g.\n%s\n  here: %s\n  otherwise: %s" % (
        conf, len([i for i in range(len(want)) if got[i] != want[i]]), a[0][0], a[0][1], b[0][1]))


configuration.seconds = 200


def modules():
    out = []
    root = os.path.join(env.REPO, "pddl")
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            if f.endswith(".py"):
                m = os.path.relpath(os.path.join(d, f), env.REPO)[:-3].replace(os.sep, ".")
                out.append(m[:-9] if m.endswith(".__init__") else m)
    return out


def singles():
    for f in FLAGS:
        yield (f, "", "", "/", "")
    for e in ENVS:
        yield ("", e, "", "/", "")
    for b in BEFORE:
        yield ("", "", b, "/", "")
    for w in WHERE:
        yield ("", "", "", w, "")


def pairs():
    for f, e in itertools.product(FLAGS, ENVS):
        yield (f, e, "", "/", "")
    for f, b in itertools.product(["-O", "-OO", "-W error", "-X dev", "-I"], BEFORE):
        yield (f, "", b, "/", "")
    for e, b in itertools.product(["seed 1", "LC_ALL=POSIX"], BEFORE):
        yield ("", e, b, "/", "")
    for w, f in itertools.product(WHERE, ["-O", "-I", "-P"]):
        yield (f, "", "", w, "")


def main(check):
    big = "full" if check.level > 1 else "quick"
    _reference[big] = execute(PLAIN, big)
    _reference["mini"] = execute(PLAIN, "mini")
    check.run("configurations", configuration, [(c, big) for c in singles()], chunk=1)
    if check.level > 1:
        check.run("pairs", configuration, [(c, "quick") for c in pairs()], chunk=1)
    else:
        check.run("pairs", configuration, [((f, e, b, w, ""), "mini") for f in ("-O", "-OO") for e in ("seed 1", "LC_ALL=POSIX") for b in BEFORE for w in ("/",)], chunk=1)
    ms = modules()
    first = [(("", "", "", "/", m), "mini") for m in ms]
    if check.level > 1:
        first += [(("", "", "", "/", "%s, %s" % (a, b)), "mini") for a in ms for b in ms if a != b]
    check.run("first-imports", configuration, first, chunk=1)
    n = len(_reference[big]) if isinstance(_reference[big], list) else 0
    check.notes["explanation"] = (
        "every configuration of flags, environment, state of the interpreter, working directory and first imported module "
        "that is listed runs the same corpus (%d texts and operations); every outcome is compared with the one of the plain interpreter" % n
    )
