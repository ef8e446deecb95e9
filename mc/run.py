"""Runner of the checks: enumerates cases in parallel, collects coverage, reports violations.

usage: python mc/run.py PROPERTY [--tier quick|thorough] [--replay FILE]
"""

import argparse
import hashlib
import importlib
import itertools
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env  # noqa: E402

CASE_SECONDS = 20


class Hang(BaseException):
    """A case did not end in time."""


class Violation(Exception):
    """The property does not hold on a case."""


def _alarm(signum, frame):
    raise Hang()


def fingerprint(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "big")


def canon(x):
    """A representation of a canonical value that does not depend on the order of sets."""
    if isinstance(x, frozenset) or isinstance(x, set):
        return ("set",) + tuple(sorted(map(repr, map(canon, x))))
    if isinstance(x, tuple):
        return tuple(map(canon, x))
    return x


class Obs:
    """What one worker has observed."""

    def __init__(self, fresh=False):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.fresh = fresh
        self.outcomes = {}

    def state(self, x):
        self.states.add(fingerprint(canon(x)))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, what):
        self.outcomes[what] = self.outcomes.get(what, 0) + 1


def run_case(fn, case, obs, seconds=CASE_SECONDS):
    """
    Message of the violation, or None.

    The limit is on processor time, because other processes may take most of the processors; who
    waits without computing anything is stopped after three times as long.
    """
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    signal.setitimer(signal.ITIMER_REAL, 3 * seconds)
    try:
        fn(case, obs)
        return None
    except Violation as v:
        return str(v)
    except Hang:
        return "does not end within %d s" % seconds
    except MemoryError:
        return "runs out of memory"
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        where = tb[-1] if tb else None
        return "unexpected %s at %s:%s" % (
            env.brief(e),
            os.path.basename(where.filename) if where else "?",
            where.lineno if where else "?",
        )
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _work(task):
    fn, cases = task
    obs = Obs()
    bad = []
    seconds = getattr(fn, "seconds", CASE_SECONDS)
    for case in cases:
        obs.traces += 1
        msg = run_case(fn, case, obs, seconds)
        if msg is not None:
            # confirm with fresh parsers and more time: what depends on the history of a parser is
            # the business of the property about histories
            if getattr(fn, "drop", True):
                env.drop_parsers()
            msg = run_case(fn, case, Obs(fresh=True), 3 * seconds)
            if msg is not None:
                bad.append((len(repr(case)), case, msg))
                if len(bad) > 20:
                    break
    bad.sort(key=lambda b: b[0])
    return (obs.states, obs.transitions, obs.traces, obs.outcomes, bad[:5], len(bad))


def _init():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(5000)


class Check:
    """Accumulates the results of a check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.known = any(p == prop for p, _ in load_known())
        self.thorough = tier == "thorough"
        self.level = 2 if self.thorough else 1
        self.states, self.transitions, self.traces = set(), 0, 0
        self.families = {}
        self.outcomes = {}
        self.samples = []
        self.bad = []
        self.nbad = 0
        self.notes = {}
        self.t0 = time.time()

    def enough(self):
        """Violations end the exploration early."""
        return self.nbad > 200 or self.nbad > 0 and time.time() - self.t0 > 90 and not self.known

    def run(self, family, fn, cases, chunk=100, serial=False):
        """Run fn on every case; cases is an iterable that is consumed completely."""
        if self.enough():
            return
        t0, first = time.time(), []

        def tasks():
            it = iter(cases)
            while True:
                part = list(itertools.islice(it, chunk))
                if not part:
                    return
                if not first:
                    first.extend(part[:1])
                yield (fn, part)

        count = states = 0
        before = len(self.states)
        if serial:
            results = map(_work, tasks())
            pool = None
        else:
            pool = multiprocessing.get_context("fork").Pool(
                int(os.environ.get("MC_JOBS", os.cpu_count() or 1)), initializer=_init
            )
            results = pool.imap_unordered(_work, tasks())
        try:
            for st, tr, n, outs, bad, nbad in results:
                self.states |= st
                self.transitions += tr
                count += n
                for k, v in outs.items():
                    self.outcomes[k] = self.outcomes.get(k, 0) + v
                self.bad += [(s, family, fn, c, m) for s, c, m in bad]
                self.nbad += nbad
                if self.enough():
                    break
        finally:
            if pool is not None:
                pool.terminate()
                pool.join()
        states = len(self.states) - before
        self.traces += count
        f = self.families.setdefault(family, {"cases": 0, "new_states": 0, "seconds": 0})
        f["cases"] += count
        f["new_states"] += states
        f["seconds"] = round(f["seconds"] + time.time() - t0, 2)
        if first:
            self.samples.append({"family": family, "case": show(first[0])})
        print(
            "%s %-28s cases=%d new_states=%d %.1fs bad=%d"
            % (self.prop, family, count, states, time.time() - t0, self.nbad),
            flush=True,
        )

    def finish(self, known):
        wall = time.time() - self.t0
        self.bad.sort(key=lambda b: b[0])
        fresh, quiet = [], []
        for _, family, fn, case, msg in self.bad:
            key = "%s|%s" % (family, json.dumps(case, default=repr, sort_keys=True))
            if (self.prop, key) in known:
                quiet.append(known[(self.prop, key)])
            else:
                fresh.append((family, fn, case, msg))
        for what in sorted(set(quiet)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        evidence = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": len(self.states),
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "exhaustive": not self.enough(),
                "families": self.families,
                "outcomes": {str(k): v for k, v in sorted(self.outcomes.items(), key=str)},
                "samples": self.samples[:12],
                "explanation": self.notes.get("explanation", ""),
            },
            "assumptions": self.notes.get("assumptions", []),
            "wall_s": round(wall, 2),
            "violations": len(fresh),
        }
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(env.VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, default=repr)
            f.write("\n")
        print(
            "%s states=%d transitions=%d traces=%d wall=%.1fs"
            % (self.prop, len(self.states), self.transitions, self.traces, wall)
        )
        if not fresh:
            return 0
        os.makedirs(os.path.join(env.VERIF, "replays"), exist_ok=True)
        for n, (family, fn, case, msg) in enumerate(fresh[:3]):
            path = os.path.join(env.VERIF, "replays", "%s-%d.json" % (self.prop, n))
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": self.prop, "family": family, "module": fn.__module__,
                        "function": fn.__name__, "case": repr(case), "message": msg,
                    },
                    f, indent=1,
                )
                f.write("\n")
            print("--- %s" % msg[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        return 1


def show(case):
    s = case if isinstance(case, str) else repr(case)
    return s if len(s) < 600 else s[:600] + "..."


def load_known():
    known = {}
    path = os.path.join(env.VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                head, _, key = line[7:].rstrip("\n").partition(" key=")
                prop, _, what = head.partition(" ")
                known[(prop.split("=")[1], key)] = what
    return known


def replay(path):
    r = json.load(open(path))
    mod = importlib.import_module(r["module"])
    fn = getattr(mod, r["function"])
    getattr(mod, "setup", int)()
    from fractions import Fraction  # noqa: F401

    case = eval(r["case"], {"frozenset": frozenset, "Fraction": Fraction})
    _init()
    msg = run_case(fn, case, Obs(fresh=True), 120)
    print("case: %r" % (case,))
    print("result: %s" % (msg or "the property holds"))
    return 1 if msg else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    check = Check(a.property, a.tier, seed)
    sys.setrecursionlimit(5000)
    mod = importlib.import_module("mc.checks.%s" % a.property.lower())
    try:
        mod.main(check)
    except Exception as e:  # the library cannot even be driven
        traceback.print_exc()
        check.bad.append((0, "driver", driver_failed, repr(e), "driver failed: %s" % env.brief(e)))
    return check.finish(load_known())


def driver_failed(case, obs):
    raise Violation(case)


if __name__ == "__main__":
    import mc.run

    sys.exit(mc.run.main())
