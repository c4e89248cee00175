"""C16: the work queue schedules every class completely, once, in order, and terminates.

Alphabet: add, stop, verify and not-inferrable marks on a few labels; take one packet;
start a level and take one packet of it.  Every reachable state of (real queue, monitor)
within a bound on the number of additions and marks is visited (states are merged when
the whole content of the queue object and the monitor agree), and every state is drained.
Oracle: the stream of every label must be a prefix of (inferral, initial strategies,
expansion sets), nothing after a stop, everything once drained.
"""

import copy
import pickle
from collections import deque

from mc import universe as U
from mc.common import Result, SubCheck, in_library, short_tb

from comb_spec_searcher import StrategyPack
from comb_spec_searcher.class_queue import DefaultQueue
from comb_spec_searcher.exception import NoMoreClassesToExpandError

LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of the real DefaultQueue under every bounded interleaving of operations, with a stream monitor; every state drained"
NOTE = "All states of queue x monitor reachable within the bounds; plus every queue history of the controlled searches."
RULE = "every operation in every reachable state; outcome = the streams of a drained history"
ASSUMPTIONS = ["set_verified tells the default queue to stop (documented reaction of the default queue)"]


def make_pack(shape):
    inf, init, exp = shape
    return StrategyPack(
        [f"i{k}" for k in range(init)],
        [f"f{k}" for k in range(inf)],
        [[f"e{j}.{k}" for k in range(m)] for j, m in enumerate(exp)],
        [],
        "queue",
    )


class Bad(Exception):
    pass


class Monitor:
    """Judges the packets handed out for a history of operations."""

    def __init__(self, inf, init, exp):
        self.inf = [(s, True) for s in inf]
        self.rest = [(s, False) for s in init] + [(s, False) for e in exp for s in e]
        self.given = {}  # label -> what was handed out
        self.added = set()
        self.stopped = set()
        self.early = set()  # not-inferrable before the queue could act on the addition
        self.late = set()  # not-inferrable later on
        self.fresh = set()  # added since the last packet was asked for
        self.dry = False

    def key(self):
        return (
            tuple(sorted((k, tuple(v)) for k, v in self.given.items())),
            tuple(map(lambda s: tuple(sorted(s)), (self.added, self.stopped, self.early, self.late, self.fresh))),
            self.dry,
        )

    def add(self, label):
        if label not in self.added:
            self.fresh.add(label)
        self.added.add(label)
        self.dry = False

    def stop(self, label):
        self.stopped.add(label)

    def notinf(self, label):
        if label not in self.added or label in self.fresh:
            self.early.add(label)
        elif label not in self.early:
            self.late.add(label)

    def expected(self, label, inferral):
        return (self.inf if inferral else []) + self.rest

    def packet(self, wp):
        label, strategies, inferral = wp
        if self.dry:
            raise Bad(f"{wp} handed out after exhaustion with nothing added")
        if label not in self.added:
            raise Bad(f"{wp} handed out, but the label was never added")
        if label in self.stopped:
            raise Bad(f"{wp} handed out, but the label was told to stop")
        got = self.given.setdefault(label, [])
        for s in strategies:
            if (s, inferral) in got:
                raise Bad(f"{wp} handed out twice")
            got.append((s, inferral))
        self.prefix(label)

    def prefix(self, label):
        got = self.given.get(label, [])
        for with_inf in (True, False):
            if with_inf and label in self.early and self.inf:
                continue
            if not with_inf and label not in self.early and label not in self.late:
                continue
            if got == self.expected(label, with_inf)[: len(got)]:
                return
        raise Bad(f"label {label} was given {got}, out of order")

    def asked(self):
        self.fresh = set()

    def exhausted(self):
        """The queue says nothing is left."""
        self.dry = True
        for label in self.added - self.stopped:
            got = self.given.get(label, [])
            full = [self.expected(label, False)] if label in self.early | self.late else []
            if label not in self.early:
                full.append(self.expected(label, True))
            if got not in full:
                raise Bad(f"exhausted, but label {label} was only given {got}")


class Sim:
    """The real queue, the monitor and the level iterator of one history."""

    def __init__(self, pack):
        self.q = DefaultQueue(pack)
        self.m = Monitor(pack.inferral_strats, pack.initial_strats, pack.expansion_strats)
        self.level = None
        self.level_start = None

    def canon(self):
        return (canon(self.q.__dict__), self.m.key(), None if self.level is None else self.level_start)

    def next(self):
        self.m.asked()
        try:
            wp = next(self.q)
        except StopIteration:
            self.m.exhausted()
            return None
        self.m.packet(wp)
        return wp

    def step(self, op):
        k = op[0]
        q, m = self.q, self.m
        if k == "add":
            q.add(op[1])
            m.add(op[1])
        elif k == "stop":
            q.set_stop_yielding(op[1])
            m.stop(op[1])
        elif k == "verified":
            q.set_verified(op[1])
            m.stop(op[1])
        elif k == "notinf":
            m.notinf(op[1])
            q.set_not_inferrable(op[1])
        elif k == "next":
            self.next()
        elif k == "level":
            self.level_start = q.levels_completed
            self.level = q.do_level()
            self.pull()
        elif k == "pull":
            self.pull()
        elif k == "status":
            q.status()
        else:
            raise ValueError(op)

    def pull(self):
        """One packet of the level."""
        q, m = self.q, self.m
        advanced = q.levels_completed != self.level_start
        m.asked()
        try:
            wp = next(self.level)
        except StopIteration:
            self.level = None
            if q.levels_completed == self.level_start:
                raise Bad("the level ended but the level counter did not advance")
            return False
        except NoMoreClassesToExpandError:
            self.level = None
            if q.levels_completed != self.level_start:
                raise Bad("no more classes to expand, but the level counter advanced")
            m.exhausted()
            return False
        if advanced:
            raise Bad(f"{wp} handed out by a level that was over")
        m.packet(wp)
        return True

    def drain(self, limit=200):
        """Only packets from here; then nothing, three times, also by level."""
        for _ in range(limit):
            if self.next() is None:
                break
        else:
            raise Bad("the queue does not drain")
        for label in sorted(self.m.added)[:1]:
            self.q.set_not_inferrable(label)
            self.m.notinf(label)
            self.q.set_stop_yielding(label)
            self.m.stop(label)
        for _ in range(2):
            if self.next() is not None:
                raise Bad("woken up by marks")
        self.level_start = self.q.levels_completed
        self.level = self.q.do_level()
        if self.pull():
            raise Bad("a level of a dry queue")
        if self.next() is not None:
            raise Bad("woken up by a level")

    def drain_levels(self, limit=60):
        for _ in range(limit):
            self.level_start = self.q.levels_completed
            self.level = self.q.do_level()
            n = 0
            while self.pull():
                n += 1
                if n > 200:
                    raise Bad("endless level")
            if self.m.dry:
                return
        raise Bad("levels without end")


def canon(x):
    """A hashable description of the content of the queue object."""
    if isinstance(x, (int, str, type(None), bool)):
        return x
    if isinstance(x, dict):
        # the order of a dictionary can matter (it breaks ties)
        return (type(x).__name__, tuple((canon(k), canon(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, x))))
    if isinstance(x, (list, tuple, deque)):
        return (type(x).__name__, tuple(map(canon, x)))
    if hasattr(x, "__dict__"):
        return (type(x).__name__, canon(x.__dict__))
    return pickle.dumps(x)


def replay_ops(pack, ops):
    sim = Sim(pack)
    for op in ops:
        sim.step(op)
    return sim


def enabled(sim, ops, lim):
    """The alphabet in a state."""
    used = {}
    for op in ops:
        if len(op) > 1:
            used[op] = used.get(op, 0) + 1
    marks = sum(v for k, v in used.items() if k[0] != "add")
    adds = sum(v for k, v in used.items() if k[0] == "add")
    out = [("next",)]
    out.append(("pull",) if sim.level is not None else ("level",))
    for lab in range(lim["labels"]):
        if adds < lim["adds"] and used.get(("add", lab), 0) < lim["each"]:
            # labels are interchangeable: new ones are used in order, unless marked
            out.append(("add", lab))
        if marks < lim["marks"]:
            for k in ("stop", "notinf", "verified"):
                if k == "verified" and lab:
                    continue
                if (k, lab) not in used:
                    out.append((k, lab))
        if not any(len(op) > 1 and op[1] == lab for op in ops):
            break  # labels are interchangeable: use a new one only after the previous
    return out


def explore(shape, lim, first, res):
    pack = make_pack(shape)
    seen = set()
    frontier = [first]
    while frontier:
        nxt = []
        for ops in frontier:
            res.add("executions")
            res.add("transitions", len(ops))
            try:
                sim = replay_ops(pack, ops)
                try:
                    key = sim.canon()
                except Exception:
                    key = None  # no merging of states then
                if key is not None:
                    key = (key, budget(ops))
                    if key in seen:
                        continue
                    seen.add(key)
                options = enabled(sim, ops, lim) if len(ops) < lim["depth"] else []
                res.add("states")
                final = replay_ops(pack, ops)
                final.drain()
                res.outcome(repr(sorted(final.m.given.items())))
                other = replay_ops(pack, ops)
                other.drain_levels()
            except Bad as e:
                res.violation("queue", f"pack {shape}, after {list(ops)}: {e}", {"shape": shape, "ops": ops})
                if len(res.violations) > 5:
                    return
                continue
            except Exception as e:
                if not in_library(e):
                    raise
                res.violation("crash:queue", f"pack {shape}, after {list(ops)}: {short_tb(e)}",
                              {"shape": shape, "ops": ops})
                if len(res.violations) > 5:
                    return
                continue
            nxt.extend(ops + (op,) for op in options)
        frontier = nxt


def budget(ops):
    """What the bounds still allow (two states only merge with equal budgets)."""
    return tuple(sorted((op for op in ops if len(op) > 1)))


SHAPES = [
    (1, 1, (1,)),
    (0, 0, ()),
    (0, 0, (1,)),
    (0, 1, ()),
    (1, 0, ()),
    (2, 0, (1,)),
    (0, 2, (1,)),
    (1, 1, ()),
    (0, 1, (1, 1)),
    (1, 1, (1, 1)),
    (0, 0, (2, 1)),
    (2, 2, (1, 2)),
    (0, 1, (1, 1, 1)),
    (1, 0, (0, 1)),
    (0, 1, (2, 0)),
]
BOUND = {
    "quick": {"labels": 2, "adds": 4, "each": 2, "marks": 1, "depth": 12},
    "thorough": {"labels": 3, "adds": 5, "each": 3, "marks": 2, "depth": 18},
}
BOUND2 = {
    "quick": {"labels": 2, "adds": 3, "each": 3, "marks": 2, "depth": 9},
    "thorough": {"labels": 2, "adds": 6, "each": 4, "marks": 3, "depth": 20},
}
BOUND3 = {
    "quick": {"labels": 3, "adds": 4, "each": 2, "marks": 1, "depth": 8},
    "thorough": {"labels": 4, "adds": 6, "each": 2, "marks": 1, "depth": 18},
}
BOUNDS = {t: str([BOUND[t], BOUND2[t], BOUND3[t]]) for t in BOUND}


def gen(tier):
    for shape in SHAPES:
        for lim in (BOUND[tier], BOUND2[tier], BOUND3[tier]):
            yield {"shape": shape, "lim": lim}


def run(b):
    res = Result()
    shape = (b["shape"][0], b["shape"][1], tuple(b["shape"][2]))
    if "ops" in b:
        ops = tuple(tuple(o) for o in b["ops"])
        for how in ("drain", "drain_levels"):
            try:
                getattr(replay_ops(make_pack(shape), ops), how)()
            except Exception as e:
                res.violation("queue", f"pack {shape}, after {list(ops)}: {type(e).__name__}: {e}", b)
        return res
    explore(shape, b["lim"], (), res)
    res.sample(f"pack {shape}: every state within {b['lim']}")
    return res


# ----------------------------------------------------------------------------------
# Histories of real searches
# ----------------------------------------------------------------------------------


class WatchedQueue(U.HookQueue):
    """Tells a monitor about everything that happens to the queue."""

    def __init__(self, pack):
        super().__init__(pack)
        ids = {}

        def name(s):
            return ids.setdefault(id(s), f"{len(ids)}:{s!r}")

        self._keep = [pack]
        self._name = name
        self._mon = Monitor(
            [name(s) for s in pack.inferral_strats],
            [name(s) for s in pack.initial_strats],
            [[name(s) for s in e] for e in pack.expansion_strats],
        )
        self._depth = 0
        self.finished = False

    def _outer(self, f, note, *args):
        if not self._depth:
            note(*args)
        self._depth += 1
        try:
            return f(*args)
        finally:
            self._depth -= 1

    def add(self, label):
        return self._outer(super().add, self._mon.add, label)

    def set_stop_yielding(self, label):
        return self._outer(super().set_stop_yielding, self._mon.stop, label)

    def set_verified(self, label):
        return self._outer(super().set_verified, self._mon.stop, label)

    def set_not_inferrable(self, label):
        return self._outer(super().set_not_inferrable, self._mon.notinf, label)

    def __next__(self):
        self._mon.asked()
        self._depth += 1
        try:
            wp = super().__next__()
        except StopIteration:
            if self.packets < self.limit:
                self._mon.exhausted()
                self.finished = True
            raise
        finally:
            self._depth -= 1
        self._mon.packet((wp[0], [self._name(s) for s in wp[1]], wp[2]))
        return wp


def watched_search(cfg, res, stops):
    searcher = U.make_searcher(cfg)
    pack = searcher.strategy_pack
    searcher = U.CombinatorialSpecificationSearcher(
        searcher.start_class, pack, ruledb=U.DBS[cfg["db"]](), classqueue=WatchedQueue(pack),
        expand_verified=cfg.get("expand_verified", False), debug=False,
    )
    msg = None
    try:
        U.run_search(cfg, stops=stops, searcher=searcher)
        with U.SearchClock(lambda k: False):
            for _ in range(150):
                try:
                    searcher.do_level()
                except (NoMoreClassesToExpandError, StopIteration, RuntimeError):
                    break
                if searcher.classqueue.packets >= searcher.classqueue.limit:
                    break
    except Bad as e:
        msg = str(e)
    except Exception as e:
        if not in_library(e):
            raise
        msg = short_tb(e)
    res.add("executions")
    res.add("transitions", searcher.classqueue.packets)
    if searcher.classqueue.finished:
        res.add("drained")
    if msg:
        res.violation("search", f"{cfg} {stops}: {msg}", {"cfg": cfg})


def gen_search(tier):
    cfgs = [c for c in U.configs(tier) if c["db"] in ("rule", "forest")]
    n = max(1, len(cfgs) // 12)
    for i in range(n):
        yield {"cfgs": cfgs[i::n]}


def run_search(b):
    res = Result()
    for cfg in b["cfgs"] if "cfgs" in b else [b["cfg"]]:
        watched_search(cfg, res, (lambda k: True) if len(cfg) % 2 else ())
    return res


SUBCHECKS = {"states": SubCheck(gen, run, None, 150), "searches": SubCheck(gen_search, run_search, None, 100)}
