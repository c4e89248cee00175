"""C17: a search pickled or interrupted at any point resumes faithfully.

The clock is controlled, so that the time limit can be made to strike after every single
work packet.  For a set of points (every single packet, every pair of packets of short
searches, all packets at once) three executions of the same search are compared:

  A  one call of auto_search, which looks for a specification at the points
  B  a call with a time limit per point, each of which is interrupted there, one without
  C  like B, with the searcher pickled and replaced by its copy between the calls

They must hand out the same packets in the same order, give the same answer, and end with
the same classes, labels, emptiness, rules, equivalences and verified classes.  At every
point the copy must equal the original.  Afterwards all three are taken further (levels,
specifications by every option) and have to agree as well.  From every point the rest of
the work is also done level by level (B against C), and the copies are also continued in
another process, with another hash seed.  The specifications found are checked like those
of C01 and C02.
"""

import os
import pickle
import subprocess
import sys

from comb_spec_searcher.exception import ExceededMaxtimeError, NoMoreClassesToExpandError, SpecificationNotFound
from comb_spec_searcher.rule_db import RuleDB
from comb_spec_searcher.rule_db.base import RuleDBBase

from mc import universe as U
from mc.common import Chooser, RandomSeam, Result, SubCheck, Violation, in_library, short_tb

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of the interruption and pickling points of real searches under a controlled clock, "
             "differential against the uninterrupted execution")
NOTE = "Every prefix length of every configuration within the bounds; every pair of points of the short searches."
RULE = "every set of points of every configuration; outcome = (how the calls ended, rule database)"

MAX_PACKETS = {"quick": 18, "thorough": 80}
PAIRS = {"quick": 5, "thorough": 12}


def equivalences(ruledb, labels):
    reps, out = [], []
    for x in labels:
        for i, r in enumerate(reps):
            if ruledb.are_equivalent(x, r):
                out.append(i)
                break
        else:
            out.append(len(reps))
            reps.append(x)
    return out


def snapshot(searcher):
    db, rdb = searcher.classdb, searcher.ruledb
    labels = list(db)
    out = {
        "labels": labels,
        "classes": [repr(db.get_class(x)) for x in labels],
        "verified": [rdb.is_verified(x) for x in labels],
        "level": searcher.classqueue.levels_completed,
    }
    if isinstance(rdb, RuleDBBase):
        out["rules"] = sorted(rdb)
        out["equivalences"] = equivalences(rdb, labels)
        if isinstance(rdb, RuleDB):
            out["strategies"] = sorted((k, repr(s)) for d in (rdb.rule_to_strategy, rdb.eqv_rule_to_strategy) for k, s in d.items())
    else:
        out["function"] = sorted((k, str(v)) for k, v in rdb.table_method.function.items())
        out["rules"] = sorted(repr(k) for k in rdb.table_method.pumping_subuniverse())
    # last, as it may ask the classes
    out["empty"] = [db.is_empty(db.get_class(x), x) for x in labels]
    return out


class Run:
    """One execution: a searcher under the controlled clock, and what it did."""

    def __init__(self, cfg, searcher=None):
        self.searcher = searcher or U.make_searcher(cfg)
        self.trace = []
        self.log = []
        self.specs = []

    def _call(self, stops, f):
        clock = U.SearchClock(stops)

        def hook(number, wp):
            clock.packet(number, wp)
            if wp is not None:
                self.trace.append((number, wp.label, [repr(s) for s in wp.strategies], wp.inferral))

        self.searcher.classqueue.hook = hook
        try:
            with clock, RandomSeam(Chooser()):
                return f()
        finally:
            self.searcher.classqueue.hook = None

    def auto(self, stops=(), limit=None, **kwargs):
        try:
            spec = self._call(stops, lambda: self.searcher.auto_search(max_expansion_time=limit, **kwargs))
        except ExceededMaxtimeError:
            self.log.append("exceeded")
            return None
        except SpecificationNotFound:
            self.log.append("not found")
            return False
        self.found(spec)
        return spec

    def found(self, spec):
        self.specs.append(spec)
        self.log.append(sorted(map(repr, U.spec_signature(spec))))

    def level(self):
        try:
            self._call((), self.searcher.do_level)
        except NoMoreClassesToExpandError:
            self.log.append("no more classes")
            return False
        self.log.append(("level", self._call((), self.searcher.has_specification)))
        return True

    def answers(self):
        """The specifications for every option."""
        options = [{}] if getattr(self.searcher.ruledb, "iterative", False) or not isinstance(
            self.searcher.ruledb, RuleDBBase) else [{}, {"smallest": True}]
        for kw in options:
            try:
                self.found(self._call((), lambda: self.searcher.get_specification(minimization_time_limit=0, **kw)))
            except SpecificationNotFound:
                self.log.append("no specification")

    def tail(self):
        for _ in range(2):
            if not self.level():
                break
        self.answers()

    def levels(self):
        for _ in range(40):
            if not self.level():
                break
        self.answers()

    def result(self):
        return {"trace": self.trace, "log": self.log, "universe": snapshot(self.searcher)}


def copy_of(searcher):
    before = snapshot(searcher)
    blob = pickle.dumps(searcher)
    copy = pickle.loads(blob)
    # not with !=, which is not always the opposite
    if not (copy == searcher):
        raise Violation("the restored searcher is not equal to the original")
    if not (searcher == copy):
        raise Violation("the original is not equal to the restored searcher")
    diff("the restored searcher", snapshot(copy), before)
    diff("the original after pickling", snapshot(searcher), before)
    return blob, copy


def diff(what, got, want):
    for key in want:
        if got[key] != want[key]:
            a, b = got[key], want[key]
            if isinstance(a, list) and isinstance(b, list):
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                raise Violation(f"{what}: {key}[{i}] is {a[i:i + 1]}, expected {b[i:i + 1]} ({len(a)} and {len(b)} entries)")
            raise Violation(f"{what}: {key} is {a}, expected {b}")


def one_call(cfg, points, tail=True):
    run = Run(cfg)
    run.auto(set(points))
    if tail:
        run.tail()
    return run


def interrupted(cfg, points, tail=True, blobs=None, pickled=False):
    """B and C.  None when the search does not get to the last point."""
    run = Run(cfg)
    answer = None
    for k in points:
        if pickled:
            blob, run.searcher = copy_of(run.searcher)
        answer = run.auto({k}, 1.0)
        if answer is not None:
            break
        if run.searcher.classqueue.packets != k:
            raise Violation(f"interrupted by the time limit after {run.searcher.classqueue.packets} packets instead of {k}")
    if pickled:
        blob, run.searcher = copy_of(run.searcher)
        if blobs is not None and answer is None:
            blobs.append((cfg, points[-1] if points else 0, blob))
    if answer is None:
        run.auto()
        if pickled:
            _, run.searcher = copy_of(run.searcher)
    run.log = [x for x in run.log if x != "exceeded"]
    if tail:
        run.tail()
    return run


def by_levels(cfg, points, pickled):
    run = Run(cfg)
    for k in points:
        if run.auto({k}, 1.0) is not None:
            break
    if pickled:
        _, run.searcher = copy_of(run.searcher)
    run.levels()
    return run


def check_points(cfg, points, good, blobs, tail=True, levels=True):
    a = one_call(cfg, points, tail)
    b = interrupted(cfg, points, tail)
    c = interrupted(cfg, points, tail, blobs, True)
    ra, rb, rc = a.result(), b.result(), c.result()
    diff("interrupted against one call", rb, ra)
    diff("pickled against not pickled", rc, rb)
    runs = [a, b, c]
    if levels:
        b2, c2 = by_levels(cfg, points, False), by_levels(cfg, points, True)
        diff("pickled against not pickled, level by level", c2.result(), b2.result())
        runs += [b2, c2]
    for run in runs:
        for spec in run.specs:
            sig = U.spec_signature(spec)
            if sig not in good:
                good.add(sig)
                U.check_valid(spec, run.searcher.start_class, [run.searcher.strategy_pack])
                U.check_enumeration(spec, run.searcher.start_class, 4)
    return a, b


def configs(tier):
    for cfg in U.configs(tier):
        if tier == "quick":
            if cfg["stats"] != "0" and (cfg["policy"] not in ("keep", "merge") or cfg["stats"] not in ("a,b", "a,a", "a", "d,d")):
                continue
            if cfg["stats"] != "0" and cfg["kind"] not in ("-aa", "a.b", "dyck"):
                continue
            if cfg["stats"] == "0" and cfg["pack"] != "std" and cfg["kind"] not in ("-aa", "a|-aa", "a.b", "dyck"):
                continue
            if cfg.get("compress") and cfg["pack"] not in ("std", "infer"):
                continue
        yield cfg


def gen(tier):
    cfgs = list(configs(tier))
    n = max(1, len(cfgs) // (10 if tier == "quick" else 6))
    for i in range(n):
        yield {"cfgs": cfgs[i::n], "tier": tier}


def point_sets(packets, tier):
    packets = min(packets, MAX_PACKETS[tier])
    yield from ([k] for k in range(1, packets + 1))
    if 2 <= packets <= PAIRS[tier]:
        yield from ([i, j] for i in range(1, packets + 1) for j in range(i + 1, packets + 1))
    if packets > 2:
        yield list(range(1, packets + 1))


def run(b):
    res = Result()
    tier = b["tier"]
    blobs = []
    for cfg in b["cfgs"]:
        good = set()
        first, _ = U.run_search(cfg)
        sets = [b["points"]] if "points" in b else [[]] + list(point_sets(first.classqueue.packets, tier))
        res.add("states", len(sets))
        for points in sets:
            case = {"cfgs": [cfg], "points": points, "tier": tier}
            try:
                # quick: alternately what is done with the searcher after that
                last = points[-1] if points else 0
                tail = tier == "thorough" or "points" in b or last % 2 == 0
                levels = tier == "thorough" or "points" in b or len(points) < 2 and last % 2 == 1
                a, b_ = check_points(cfg, points, good, blobs, tail, levels)
                res.add("executions", 5 if levels else 3)
                res.add("transitions", len(a.trace) + len(b_.trace))
                res.outcome((cfg["db"], str(b_.log)[:40] if not b_.specs else "found", len(points) > 1))
            except Violation as e:
                res.violation("resume", f"{cfg} at {points}: {e}", case)
            except Exception as e:
                if not in_library(e):
                    raise
                res.violation("crash:resume", f"{cfg} at {points}: {short_tb(e)}", case)
        if len(res.violations) > 4:
            break
    elsewhere(blobs, res, tier)
    res.sample(b["cfgs"][0])
    return res


# ----------------------------------------------------------------------------------
# Another process
# ----------------------------------------------------------------------------------


def resumed(cfg, searcher):
    run = Run(cfg, searcher)
    run.auto()
    run.tail()
    return run.result()


def elsewhere(blobs, res, tier):
    """Continue the pickled searches in another process."""
    chosen = {}
    for cfg, k, blob in blobs:
        chosen.setdefault(str(cfg), {})[k] = (cfg, k, blob)
    items = []
    for per in chosen.values():
        ks = sorted(per)
        items += [per[k] for k in (ks if tier == "thorough" else sorted({ks[0], ks[len(ks) // 2], ks[-1]}))]
    if not items:
        return
    env = dict(os.environ, PYTHONHASHSEED="77", MC_CHILD="1")
    code = "import sys; sys.path[:0] = %r; from mc import c17; c17.child()" % sys.path
    p = subprocess.run([sys.executable, "-c", code], input=pickle.dumps(items), capture_output=True, env=env, check=False)
    if p.returncode:
        tail = p.stderr.decode(errors="replace")[-600:]
        case = {"cfgs": [c for c, _, _ in items], "tier": tier}
        if "comb_spec_searcher" in tail.split("Error")[0]:
            res.violation("crash:process", f"resuming in another process failed: {tail}", case)
            return
        raise RuntimeError(f"harness: child failed: {tail}")
    for (cfg, k, blob), got in zip(items, pickle.loads(p.stdout)):
        res.add("executions")
        res.add("processes")
        try:
            diff("another process", got, resumed(cfg, pickle.loads(blob)))
        except Violation as e:
            res.violation("process", f"{cfg} at {k}: {e}", {"cfgs": [cfg], "points": [k], "tier": tier})


def child():
    from mc.common import quiet

    quiet()
    items = pickle.loads(sys.stdin.buffer.read())
    out = pickle.dumps([resumed(cfg, pickle.loads(blob)) for cfg, _, blob in items])
    sys.stdout.buffer.write(out)
    sys.stdout.flush()


SUBCHECKS = {"resume": SubCheck(gen, run, run, 600)}
