"""Harness shared by every explorer.

A property module `mc/cXX.py` defines

    LEVEL       evidence level
    SUBCHECKS   dict name -> SubCheck(gen, run)

`gen(tier)` yields JSON-able *case blocks* (lists/dicts of plain values) in a fixed
order, simplest first; `run(block)` explores the block exhaustively and returns a
`Result`.  Blocks are distributed over a process pool, so the verdict and the counts
do not depend on scheduling.  A violation names the minimal case that can be replayed
by `run.py --property Cxx --replay FILE`.
"""

import io
import json
import logging
import multiprocessing
import multiprocessing.connection
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")

REAL_TIME = time.time


class Violation(Exception):
    """Raised by a case when the property fails there."""


class CaseTimeout(BaseException):
    """A case ran far beyond anything the unchanged tree needs."""


class Result:
    """Counters and violations of one block."""

    def __init__(self):
        self.counts = {}
        self.outcomes = set()
        self.violations = []  # (key, message, replay case)
        self.samples = []
        self.capped = False

    def add(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def outcome(self, value):
        """Record an observed outcome (used to report non-vacuity)."""
        if len(self.outcomes) < 4000:
            self.outcomes.add(value if isinstance(value, (str, int)) else repr(value))

    def sample(self, value):
        if len(self.samples) < 2:
            self.samples.append(str(value)[:600])

    def violation(self, key, message, case):
        if len(self.violations) < 20:
            self.violations.append((str(key), str(message)[:4000], case))


class SubCheck:
    def __init__(self, gen, run, replay=None, timeout=300):
        self.gen = gen
        self.run = run
        self.replay = replay or run
        self.timeout = timeout


def quiet():
    """Silence the library's logging and stdout prints."""
    logging.disable(logging.CRITICAL)
    try:
        import logzero

        logzero.loglevel(logging.CRITICAL + 10)
        for handler in list(logzero.logger.handlers):
            logzero.logger.removeHandler(handler)
    except Exception:  # pragma: no cover - logging is not under test
        pass


class muted:
    """Swallow what the library prints; the harness prints only its verdicts."""

    def __enter__(self):
        self.saved = sys.stdout
        sys.stdout = io.StringIO()
        return self

    def __exit__(self, *exc):
        sys.stdout = self.saved
        return False


def short_tb(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    out = []
    for f in frames[-6:]:
        out.append(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}")
    return f"{type(exc).__name__}: {exc} @ " + " < ".join(reversed(out))


def in_library(exc):
    """Did the exception come from the code under test (rather than the harness)?"""
    frames = traceback.extract_tb(exc.__traceback__)
    return any(REPO in f.filename for f in frames)


# ----------------------------------------------------------------------------------
# Controlled clock
# ----------------------------------------------------------------------------------


_LIBRARY = (0, [])


def library_modules():
    """The modules of the library imported so far."""
    global _LIBRARY
    if _LIBRARY[0] != len(sys.modules):
        found = [m for n, m in list(sys.modules.items()) if m is not None and n.startswith("comb_spec_searcher")]
        _LIBRARY = (len(sys.modules), found)
    return _LIBRARY[1]


class Clock:
    """A `time.time` under the control of the harness.

    Every call advances `now` by `step` and returns it.
    """

    def __init__(self, step=0.0):
        self.now = 1_000_000.0
        self.step = step
        self.calls = 0

    def __call__(self):
        self.calls += 1
        self.now += self.step
        return self.now

    def __enter__(self):
        self._saved = []
        for name in ("time", "perf_counter", "monotonic", "process_time"):
            original = getattr(time, name)
            self._saved.append((time, name, original))
            setattr(time, name, self)
            for mod in library_modules():
                # names imported with `from time import ...`
                if mod.__dict__.get(name) is original:
                    self._saved.append((mod, name, original))
                    setattr(mod, name, self)
        return self

    def __exit__(self, *exc):
        for mod, name, value in reversed(self._saved):
            setattr(mod, name, value)
        return False


# ----------------------------------------------------------------------------------
# Controlled randomness
# ----------------------------------------------------------------------------------


class DivergedReplay(Exception):
    pass


class Chooser:
    """Replays a prefix of choices, then takes the default at every later point."""

    def __init__(self, prefix=(), default=0):
        self.prefix = tuple(prefix)
        self.points = []  # number of alternatives at each point
        self.choices = []
        self.default = default

    def choose(self, n):
        i = len(self.points)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise DivergedReplay(f"choice {c} of {n} at point {i}")
        else:
            c = self.default if self.default < n else n - 1
        self.points.append(n)
        self.choices.append(c)
        return c


class RandomSeam:
    """Replace the random sources the library uses by a Chooser."""

    TARGETS = ("randint", "choice", "shuffle", "random", "sample", "choices", "randrange")

    def __init__(self, chooser, modules=()):
        self.chooser = chooser
        self.modules = modules

    def _randint(self, a, b):
        if a > b:
            raise ValueError("empty range for randint")
        return a + self.chooser.choose(b - a + 1)

    def _randrange(self, a, b=None, step=1):
        r = range(a) if b is None else range(a, b, step)
        return r[self.chooser.choose(len(r))]

    def _choice(self, seq):
        if len(seq) == 0:
            raise IndexError("Cannot choose from an empty sequence")
        return seq[self.chooser.choose(len(seq))]

    def _shuffle(self, x):
        items = list(x)
        out = []
        while items:
            out.append(items.pop(self.chooser.choose(len(items)) if len(items) > 1 else 0))
        x[:] = out

    def _choices(self, population, weights=None, *, cum_weights=None, k=1):
        import itertools

        if cum_weights is None:
            weights = [1] * len(population) if weights is None else list(weights)
            cum_weights = list(itertools.accumulate(weights))
        if any(int(w) != w for w in cum_weights) or not cum_weights or cum_weights[-1] <= 0:
            raise ValueError("harness: only positive integer weights are modelled")
        out = []
        for _ in range(k):
            r = self.chooser.choose(int(cum_weights[-1]))
            out.append(next(x for x, c in zip(population, cum_weights) if r < c))
        return out

    def _sample(self, population, k):
        items = list(population)
        if k > len(items):
            raise ValueError("Sample larger than population")
        return [items.pop(self.chooser.choose(len(items))) for _ in range(k)]

    def _unsupported(self, *a, **k):
        raise RuntimeError("harness: unmodelled random source used by the library")

    def __enter__(self):
        import random

        self._saved = []
        repl = {
            "randint": self._randint,
            "choice": self._choice,
            "shuffle": self._shuffle,
            "randrange": self._randrange,
            "random": self._unsupported,
            "sample": self._sample,
            "choices": self._choices,
        }
        originals = {name: getattr(random, name) for name in repl}
        for name, f in repl.items():
            self._saved.append((random, name, originals[name]))
            setattr(random, name, f)
        # names imported with `from random import ...`
        for mod in library_modules():
            for name, f in repl.items():
                if getattr(mod, name, None) == originals[name]:
                    self._saved.append((mod, name, originals[name]))
                    setattr(mod, name, f)
        return self

    def __exit__(self, *exc):
        for mod, name, f in reversed(self._saved):
            setattr(mod, name, f)
        return False


def explore_choices(run, max_deviations=None, cap=None, default=0):
    """Depth-first enumeration of all choice sequences of `run(chooser)`.

    Yields (choices, points, result).  With `max_deviations`, only the sequences
    having at most that many non-default choices are explored.
    """
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        chooser = Chooser(prefix, default)
        result = run(chooser)
        if len(chooser.points) < len(prefix):
            raise DivergedReplay("fewer choice points than the prefix")
        yield tuple(chooser.choices), tuple(chooser.points), result
        n += 1
        if cap is not None and n >= cap:
            if stack:
                raise OverflowError("choice exploration capped")
            # there may be unexplored alternatives
        dev = sum(1 for c in prefix if c != default)
        for i in reversed(range(len(prefix), len(chooser.points))):
            if max_deviations is not None and dev + 1 > max_deviations:
                continue
            base = tuple(chooser.choices[:i])
            for alt in reversed(range(chooser.points[i])):
                if alt != chooser.choices[i]:
                    stack.append(base + (alt,))


# ----------------------------------------------------------------------------------
# Pool
# ----------------------------------------------------------------------------------

_SUBCHECKS = None
_MODULE = None
_FACTOR = 1  # thorough blocks are given more time


def _alarm(signum, frame):
    raise CaseTimeout()


def _init_worker():
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    sys.setrecursionlimit(3000)
    quiet()


def _work(item):
    name, idx, block = item
    sub = _SUBCHECKS[name]
    limit = sub.timeout * _FACTOR
    signal.alarm(limit)
    start = REAL_TIME()
    try:
        with muted():
            res = sub.run(block)
    except CaseTimeout:
        res = Result()
        res.violation(f"timeout:{name}", f"does not terminate within {limit}s", block)
    except MemoryError:
        res = Result()
        res.violation(f"memory:{name}", "memory exhausted", block)
    except Violation as e:
        res = Result()
        res.violation(f"{name}", str(e), block)
    except Exception as e:  # an unexpected exception out of the library is a failure
        res = Result()
        if in_library(e):
            res.violation(f"crash:{name}", "unexpected " + short_tb(e), block)
        elif isinstance(e, (AttributeError, ImportError, NameError, DivergedReplay)):
            # the harness does not fit the code: no verdict
            res.error = traceback.format_exc()
            return name, idx, res.__dict__, REAL_TIME() - start, res.error
        else:
            # the oracle cannot make sense of what the library handed out
            res.violation(f"oracle:{name}", "oracle failed with " + short_tb(e), block)
    finally:
        signal.alarm(0)
    return name, idx, res.__dict__, REAL_TIME() - start, None


DEADLINES = {"quick": 840, "thorough": 4 * 3600}
STOP_AFTER = 12  # enough violations: the verdict can not change any more


def _serve(conn):
    _init_worker()
    while True:
        item = conn.recv()
        if item is None:
            return
        conn.send(_work(item))


def pool_map(blocks, procs, deadline):
    """Run `_work` on every block in forked workers; a worker that dies is a violation
    of its block.  Yields results as they come; (None, ...) when time is up."""
    ctx = multiprocessing.get_context("fork")
    todo = iter(blocks)
    workers = {}

    def spawn():
        parent, child = ctx.Pipe()
        proc = ctx.Process(target=_serve, args=(child,), daemon=True)
        proc.start()
        child.close()
        return parent, proc

    def feed(parent, proc):
        item = next(todo, None)
        if item is None:
            try:
                parent.send(None)
            except OSError:
                pass
            proc.join(5)
            parent.close()
            return
        parent.send(item)
        workers[parent] = (proc, item)

    try:
        for _ in range(max(1, min(procs, len(blocks)))):
            feed(*spawn())
        while workers:
            left = deadline - REAL_TIME()
            ready = multiprocessing.connection.wait(list(workers), timeout=max(0, left))
            if not ready:
                yield None, None, None, None, None
                return
            for conn in ready:
                proc, item = workers.pop(conn)
                try:
                    result = conn.recv()
                except (EOFError, OSError):
                    proc.join(5)
                    res = Result()
                    res.violation(
                        f"died:{item[0]}", f"the process died (exit code {proc.exitcode})", item[2]
                    )
                    conn.close()
                    yield item[0], item[1], res.__dict__, 0.0, None
                    feed(*spawn())
                    continue
                feed(conn, proc)
                yield result
    finally:
        for conn, (proc, _) in workers.items():
            proc.kill()
            proc.join(5)


def load_known():
    """KNOWN_FINDINGS.txt: `property=<id> key=<key> :: <what fails>` per finding."""
    known = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("property="):
                    continue
                head, _, text = line.partition("::")
                parts = dict(p.split("=", 1) for p in head.split() if "=" in p)
                known[(parts["property"], parts["key"])] = text.strip()
    return known


def run_check(prop, module, tier, seed, only=None, verbose=False, procs=None):
    global _SUBCHECKS, _MODULE, _FACTOR
    _SUBCHECKS = module.SUBCHECKS
    _MODULE = module
    _FACTOR = 1 if tier == "quick" else 20
    start = REAL_TIME()
    quiet()
    blocks = []
    per = {}
    for name, sub in module.SUBCHECKS.items():
        if only and name not in only:
            continue
        for i, block in enumerate(sub.gen(tier)):
            blocks.append((name, i, block))
    procs = procs or int(os.environ.get("MC_PROCS", "8"))
    total = {}
    outcomes = {}
    violations = []
    samples = []
    errors = []
    slow = []
    deadline = start + DEADLINES.get(tier, 3600)
    unlisted = 0
    known = load_known()
    stopped = None
    for name, idx, d, wall, err in pool_map(blocks, procs, deadline):
        if name is None:
            stopped = "deadline"
            break
        if err:
            errors.append((name, idx, err))
            continue
        p = per.setdefault(name, {"blocks": 0, "cpu_s": 0.0, "counts": {}})
        p["blocks"] += 1
        p["cpu_s"] += wall
        slow.append((wall, name, idx))
        for k, v in d["counts"].items():
            p["counts"][k] = p["counts"].get(k, 0) + v
            total[k] = total.get(k, 0) + v
        outcomes.setdefault(name, set()).update(d["outcomes"])
        for s in d["samples"]:
            if len(samples) < 12 and sum(1 for q in samples if q.startswith(name)) < 3:
                samples.append(f"{name}: {s}")
        for key, msg, case in d["violations"]:
            violations.append((name, idx, key, msg, case))
            # a block that ran into its time limit is expensive: stop earlier
            unlisted += ((prop, key) not in known) * (4 if key.startswith("timeout:") else 1)
        if unlisted >= STOP_AFTER:
            stopped = "violations"
            break
    violations.sort(key=lambda v: (v[0], v[1]))
    wall = REAL_TIME() - start
    if stopped == "deadline":
        errors.append(("*", 0, f"deadline of the {tier} tier reached, exploration incomplete"))
    reported = []
    seen_known = set()
    for name, idx, key, msg, case in violations:
        if (prop, key) in known:
            seen_known.add((prop, key))
        else:
            reported.append((name, key, msg, case))
    for p, key in sorted(known):
        if p == prop and (only is None):
            print(f"KNOWN-FINDING: property={prop} {known[(p, key)]}"
                  + ("" if (p, key) in seen_known else " (not reproduced in this run)"))
    for name in per:
        per[name]["distinct_outcomes"] = len(outcomes.get(name, ()))
        per[name]["cpu_s"] = round(per[name]["cpu_s"], 2)
    evals = total.get("executions", 0)
    states = total.get("states", evals)
    transitions = total.get("transitions", evals)
    coverage = {
        "states": states,
        "transitions": transitions,
        "evaluations": evals,
        "distinct_nontrivial": sum(len(o) for o in outcomes.values()),
        "rule": getattr(module, "RULE", "every execution within the stated bounds"),
        "traces_validated_against_impl": total.get("validated", evals),
        "samples": samples or ["(none)"],
        "exhaustive": True,
        "counts": total,
        "subchecks": per,
        "bounds": getattr(module, "BOUNDS", {}).get(tier, ""),
        "outcomes": {n: sorted(map(str, o))[:8] for n, o in outcomes.items()},
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    replays = []
    if reported:
        rdir = os.path.join(EVIDENCE, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, (name, key, msg, case) in enumerate(reported[:10]):
            path = os.path.join(rdir, f"{prop}-{i}.json")
            with open(path, "w") as f:
                json.dump(
                    {"property": prop, "subcheck": name, "key": key, "message": msg,
                     "case": case}, f, indent=1, default=repr)
            replays.append(path)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": module.LEVEL,
        "coverage": coverage,
        "wall_s": round(wall, 2),
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "violations": len(reported),
    }
    if only is None:
        tmp = os.path.join(EVIDENCE, f".{prop}.json.tmp")
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1, default=repr)
        os.replace(tmp, os.path.join(EVIDENCE, f"{prop}.json"))
    if verbose:
        print(json.dumps({k: per[k] for k in per}, indent=1))
        print("slowest blocks:", [(round(w, 1), n, i) for w, n, i in sorted(slow)[-5:]])
    print(f"{prop} tier={tier} blocks={len(blocks)} executions={evals} states={states} "
          f"transitions={transitions} wall={wall:.1f}s violations={len(reported)}")
    if reported:
        for (name, key, msg, case), path in zip(reported, replays):
            print(f"-- {name} [{key}] {msg}"[:1500])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for name, idx, err in errors[:5]:
            print(f"ERROR in harness, subcheck {name} block {idx}\n{err}", file=sys.stderr)
        return 2
    return 0


def replay(prop, module, path):
    with open(path) as f:
        data = json.load(f)
    sub = module.SUBCHECKS[data["subcheck"]]
    quiet()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(sub.timeout)
    try:
        res = sub.replay(data["case"])
    except Violation as e:
        print(f"-- {e}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if res.violations:
        for key, msg, _ in res.violations:
            print(f"-- [{key}] {msg}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("no violation on replay")
    return 0


def chunked(seq, size):
    block = []
    for x in seq:
        block.append(x)
        if len(block) == size:
            yield block
            block = []
    if block:
        yield block
