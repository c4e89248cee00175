"""C04: the rule universe built by the searcher is faithful to the strategies.

A spy sits on every insertion into the rule database (and on every key given to the
forest): labels must belong to exactly the classes of the rule, the rule must be what a
strategy of the pack gives (an independent interpreter of packs decides), children may
only be missing when empty and declared so, the label bijection must be stable.
`tables` enumerates packs over a universe of numbers, `searches` the real menu.
"""

import itertools

from mc import universe as U
from mc.common import Result, SubCheck, Violation, in_library, short_tb
from mc.ints import IntClass

from comb_spec_searcher import (
    CombinatorialSpecificationSearcher,
    DisjointUnionStrategy,
    StrategyFactory,
    StrategyPack,
    SymmetryStrategy,
    VerificationStrategy,
)
from comb_spec_searcher.class_db import ClassDB
from comb_spec_searcher.exception import NoMoreClassesToExpandError
from comb_spec_searcher.rule_db.base import RuleDBBase
from comb_spec_searcher.strategies import EmptyStrategy
from comb_spec_searcher.strategies.rule import Rule

LEVEL = "model_checking"
TECHNIQUE = "stateless exhaustive exploration of packs and search histories on the real searcher with a spy on every rule insertion, against an independent interpreter of packs"
NOTE = "Every pack built from a menu of behaviours on a small universe, every rule database, every insertion; plus the real search menu."
RULE = "every pack of the menu x database; outcome = the recorded universe"
ASSUMPTIONS = ["strategies honour their documented contract (possibly_empty, symmetries, two way rules)"]


class Spy:
    """Watches everything a search records."""

    def __init__(self, searcher, genuine, truly_empty, res):
        self.s = searcher
        self.genuine = genuine
        self.empty = truly_empty
        self.res = res
        self.labels = {}
        self.stack = []
        self.log = []
        ruledb = searcher.ruledb
        self._add = ruledb.add
        ruledb.add = self.add
        table = getattr(ruledb, "table_method", None)
        if table is not None and hasattr(table, "add_rule_key"):
            self._key = table.add_rule_key
            table.add_rule_key = self.key

    def label(self, comb_class):
        """The label of a class the searcher knows; stable."""
        lab = self.s.classdb.get_label(comb_class)
        if self.labels.setdefault(comb_class, lab) != lab:
            raise Violation(f"label of {comb_class!r} changed from {self.labels[comb_class]} to {lab}")
        return lab

    def cls(self, label):
        c = self.s.classdb.get_class(label)
        if self.labels.setdefault(c, label) != label:
            raise Violation(f"{c!r} has two labels, {self.labels[c]} and {label}")
        return c

    def add(self, start, ends, rule):
        self.res.add("insertions")
        start, ends = start, tuple(ends)
        if self.cls(start) != rule.comb_class:
            raise Violation(f"rule {rule!s} recorded for label {start}, which is {self.cls(start)!r}")
        children = tuple(rule.children)
        got = [self.cls(e) for e in ends]
        rest = list(children)
        for c in got:
            if c not in rest:
                raise Violation(f"child label of {c!r} recorded, but the children are {children!r}")
            rest.remove(c)
        for c in rest:
            if not (rule.possibly_empty and self.empty(c)):
                raise Violation(f"child {c!r} is missing from the recorded labels {ends} of {children!r}")
        msg = self.genuine(rule)
        if msg:
            raise Violation(msg)
        base = isinstance(self.s.ruledb, RuleDBBase)
        before = set(self.s.ruledb) if base else None
        self.stack.append(rule)
        try:
            self._add(start, ends, rule)
        finally:
            self.stack.pop()
        if base:
            kept = [c for c in children if not (rule.possibly_empty and self.empty(c))]
            key = (start, tuple(sorted(self.label(c) for c in kept)))
            after = set((a, tuple(b)) for a, b in self.s.ruledb)
            if not after - before <= {key}:
                raise Violation(f"{after - before} recorded for {rule.comb_class!r} -> {children!r}, labels {key}")
            if key not in after and key[1] != (start,):
                raise Violation(f"{key} was not recorded")
        self.log.append((start, ends))

    def key(self, key):
        """What the forest stores: a form of the rule being added."""
        self.res.add("keys")
        parent, children = self.cls(key.parent), tuple(self.cls(c) for c in key.children)
        rule = self.stack[-1]
        forms = [(rule.comb_class, tuple(rule.children))]
        if rule.children and rule.is_reversible():
            for i, c in enumerate(rule.children):
                forms.append((c, (rule.comb_class,) + rule.children[:i] + rule.children[i + 1 :]))
        for p, cs in forms:
            if p != parent:
                continue
            rest = list(cs)
            for c in children:
                if c in rest:
                    rest.remove(c)
                else:
                    break
            else:
                if all(rule.possibly_empty and self.empty(c) for c in rest):
                    break
        else:
            raise Violation(f"forest key {parent!r} -> {children!r} for {rule.comb_class!r} -> {rule.children!r}")
        self._key(key)

    def finish(self):
        db = self.s.classdb
        n = 0
        seen = {}
        for label in list(db):
            c = self.cls(label)
            if c in seen:
                raise Violation(f"{c!r} has the labels {seen[c]} and {label}")
            seen[c] = label
            if self.label(c) != label:
                raise Violation(f"label {label} holds {c!r}, whose label is {self.label(c)}")
            if bool(db.is_empty(c, label)) != bool(self.empty(c)):
                raise Violation(f"{c!r} is recorded as {'' if db.is_empty(c, label) else 'not '}empty")
            n += 1
        if sorted(seen.values()) != list(range(n)):
            raise Violation(f"labels {sorted(seen.values())}")
        for c, lab in self.labels.items():
            if seen.get(c) != lab:
                raise Violation(f"{c!r} was {lab}, is {seen.get(c)}")
        self.res.add("classes", n)


def drive(searcher, levels=40):
    """Expand until the queue is dry (the queue itself bounds the packets)."""
    for _ in range(levels):
        try:
            searcher.do_level()
        except NoMoreClassesToExpandError:
            return
        if searcher.classqueue.packets >= searcher.classqueue.limit:
            return


# ----------------------------------------------------------------------------------
# Packs over numbers
# ----------------------------------------------------------------------------------


class Flagged:
    """Strategies that are tables: class number -> children (None: does not apply)."""

    def __repr__(self):
        return f"{type(self).__name__}({self.name})"

    def formal_step(self):
        return self.name

    def to_jsonable(self):
        return {"name": self.name}

    @classmethod
    def from_dict(cls, d):
        raise NotImplementedError


class TStrategy(Flagged, DisjointUnionStrategy):
    def __init__(self, name, table, two_way=False, **flags):
        self.name = name
        self.table = dict(table)
        self.tw = two_way
        super().__init__(**flags)

    def decomposition_function(self, comb_class):
        kids = self.table.get(comb_class.n)
        return None if kids is None else tuple(map(IntClass, kids))

    def is_two_way(self, comb_class):
        return self.tw

    def is_reversible(self, comb_class):
        return self.tw

    def shifts(self, comb_class, children=None):
        return (0,) * len(self.table[comb_class.n])

    def forward_map(self, comb_class, obj, children=None):
        raise NotImplementedError


class TSymmetry(Flagged, SymmetryStrategy):
    def __init__(self, name, table):
        self.name = name
        self.table = dict(table)
        super().__init__()

    def decomposition_function(self, comb_class):
        kids = self.table.get(comb_class.n)
        return None if kids is None else (IntClass(kids),)

    def shifts(self, comb_class, children=None):
        return (0,)

    def forward_map(self, comb_class, obj, children=None):
        raise NotImplementedError

    def backward_map(self, comb_class, objs, children=None):
        raise NotImplementedError


class TVer(Flagged, VerificationStrategy):
    def __init__(self, name, numbers, **flags):
        self.name = name
        self.numbers = tuple(numbers)
        super().__init__(**flags)

    def verified(self, comb_class):
        return comb_class.n in self.numbers


class TFactory(StrategyFactory):
    """table: class number -> list of strategies, (strategy, parent) for ready rules,
    (strategy, parent, "lazy") for ready rules whose children are not computed yet."""

    def __init__(self, name, table):
        self.name = name
        self.table = dict(table)

    def __call__(self, comb_class):
        for x in self.table.get(comb_class.n, self.table.get("*", ())):
            if isinstance(x, tuple):
                parent = IntClass(comb_class.n + x[1][1] if isinstance(x[1], tuple) else x[1])
                if len(x) == 3:
                    yield Rule(x[0], parent)
                elif x[0].decomposition_function(parent) is not None:
                    yield x[0](parent)
            else:
                yield x

    def __repr__(self):
        return f"TFactory({self.name})"

    __str__ = __repr__

    @classmethod
    def from_dict(cls, d):
        raise NotImplementedError


N = 5


def menu():
    """Behaviours per slot."""
    S, F = TStrategy, TFactory
    up = {i: (i + 1,) for i in range(N - 1)}
    split = {0: (1, 2), 1: (2, 2), 2: (3, 1), 3: (4, 4)}
    down = {i: (i - 1,) for i in range(1, N)}
    init = {
        "none": [],
        "split": [S("split", split)],
        "up": [S("up", up)],
        "up2": [S("up", up, True)],
        "ign": [S("split", split, ignore_parent=True), S("up", up)],
        "unwork": [S("split", split, workable=False)],
        "empty": [S("empty", {0: (-1, 1), 1: (2, -1, -2), 2: (-1, -2), 3: (3, -1), 4: ()})],
        "emptyeq": [S("emptyeq", {0: (-1, 1), 1: (-2, 2, -2), 2: (0, -1)}, True)],
        "full": [S("full", {0: (1, 2), 1: (1,), 2: (2, 2)}, possibly_empty=False)],
        "self": [S("self", {0: (0,), 1: (1, -1), 2: (3,)}, True)],
        "fact": [F("fact", {0: [S("a", {1: (2,)}), S("b", {0: (1, 3)})], "*": [S("c", down, True)]})],
        "ready": [F("ready", {"*": [(S("d", split), ("d", 0)), (S("e", down), ("d", 0), "lazy"), (S("f", up), ("d", 0), "lazy")]})],
        "foreign": [S("split", split), F("foreign", {"*": [(S("g", up, True), ("d", -1)), (S("h", {0: (1, 2), 1: (2, 3, 4)}), ("d", -1))]})],
        "foreignlazy": [F("flazy", {"*": [(S("g", {0: (1, 4), 1: (2, 4)}), ("d", -1), "lazy"), S("up", up)]})],
        "foreignself": [F("fself", {"*": [(S("s", {0: (1,), 1: (2,)}), ("d", -1)), (S("t", {1: (1,)}), ("d", 1)), S("split", split)]})],
        "perm": [S("perm", {0: (2, 1), 1: (4, 3, 2), 2: (3, 3, 0)})],
        "two": [S("x", {0: (1, 2), 1: (3,)}, True), S("y", {0: (1, 2), 1: (3,)}), S("z", {3: (1,), 1: (0,)})],
    }
    inf = {
        "none": [],
        "chain": [S("i1", {0: (1,), 2: (3,)}, ignore_parent=True), S("i2", {1: (2,), 3: (4,)}, ignore_parent=True)],
        "cyc": [S("i1", {0: (1,), 1: (2,)}, True), S("i2", {1: (0,), 2: (2,)}, True), S("i3", {2: (3,)}, True)],
        "empty": [S("ie", {0: (1, -1), 1: (-2, 2)}, ignore_parent=True), S("i2", {2: (3,), 1: (4,)}, True)],
        "vanish": [S("iv", {0: (1,), 1: (-1,), 2: (-2,)}, True), S("i4", {1: (2,), 2: (4,)}, True)],
        "fact": [F("if", {0: [S("j1", {1: (2,)}), S("j2", {0: (3,)}, True)], 1: [(S("j3", {1: (4,)}), 1)]}), S("j4", {3: (2,)})],
        "foreign": [F("ifo", {1: [(S("k1", {0: (1,)}, True), 0)], 2: [(S("k2", {1: (2,)}), 1, "lazy")]}), S("k3", {0: (2,), 2: (3,)}, True)],
    }
    exp = {
        "none": [],
        "split": [[S("xsplit", split)]],
        "two": [[S("xa", {0: (1,), 1: (0, 2)})], [S("xb", {0: (2, 3), 2: (1, -1)}), S("xc", {1: (4,)}, True)]],
        "notinf": [[S("xd", split, inferrable=False)]],
        "fact": [[F("xf", {"*": [S("xe", {0: (1, 2, 3)}), (S("xg", {0: (1,), 1: (2,), 2: (3,)}, True), ("d", -1))]})]],
    }
    sym = {
        "none": [],
        "swap": [TSymmetry("swap", {1: 2, 2: 1, 3: 4, 4: 3})],
        "rot": [TSymmetry("r1", {1: 2, 2: 3, 3: 1}), TSymmetry("r2", {1: 3, 2: 1, 3: 2, 0: 0, -1: -2, -2: -1})],
    }
    ver = {
        "none": [],
        "four": [TVer("v", (4,))],
        "more": [TVer("v", (1, 3), ignore_parent=False), TVer("w", (3, 4, -1))],
    }
    return init, inf, exp, sym, ver


def interpret(pack):
    """(strategy repr, parent, children) of everything the pack can give."""
    out = set()
    classes = range(-3, N + 2)
    for strat in pack:
        for n in classes:
            if isinstance(strat, TFactory):
                for x in strat.table.get(n, strat.table.get("*", ())):
                    if isinstance(x, tuple):
                        s, p = x[0], (n + x[1][1] if isinstance(x[1], tuple) else x[1])
                    else:
                        s, p = x, n
                    if p in s.table:
                        out.add((repr(s), p, tuple(s.table[p])))
            elif isinstance(strat, TVer):
                if n in strat.numbers:
                    out.add((repr(strat), n, ()))
            elif n in strat.table:
                kids = strat.table[n]
                out.add((repr(strat), n, (kids,) if isinstance(strat, TSymmetry) else tuple(kids)))
    return out


def judge(case, res):
    init, inf, exp, sym, ver = menu()
    pack = StrategyPack(
        init[case["init"]], inf[case["inf"]], exp[case["exp"]], ver[case["ver"]], "tables",
        symmetries=sym[case["sym"]],
    )
    allowed = interpret(pack)

    def genuine(rule):
        if isinstance(rule.strategy, EmptyStrategy):
            return None if rule.comb_class.n < 0 and not rule.children else f"empty rule for {rule.comb_class!r}"
        what = (repr(rule.strategy), rule.comb_class.n, tuple(c.n for c in rule.children))
        if what not in allowed:
            return f"{what} is not given by any strategy of the pack"
        if isinstance(rule.strategy, VerificationStrategy) == isinstance(rule, Rule):
            return f"wrong kind of rule {type(rule).__name__} for {rule.strategy!r}"
        return None

    msg = None
    spy = None
    try:
        classdb = ClassDB(IntClass)
        for i in range(case.get("first", 0)):
            classdb.get_label(IntClass((4, 2, -1, 0, 3)[i]))
        # the start class is recorded as well: nothing happens before the spy is there,
        # except the verification and the symmetries of the start class
        searcher = _Delayed(
            IntClass(case.get("root", 0)), pack, ruledb=U.DBS[case["db"]](), classdb=classdb, classqueue=U.HookQueue(pack),
            expand_verified=case.get("all", False), debug=False,
            spy=lambda s: Spy(s, genuine, lambda c: c.n < 0, res),
        )
        spy = searcher.spy
        drive(searcher)
        spy.finish()
    except Violation as e:
        msg = str(e)
    except Exception as e:
        if not in_library(e):
            raise
        msg = short_tb(e)
    res.add("executions")
    if msg:
        res.violation("tables", f"{case}: {msg}", case)
    else:
        res.outcome(hash(tuple(spy.log)) % 10**9)


class _Delayed(CombinatorialSpecificationSearcher):
    """Puts the spy in place as soon as the rule database is linked."""

    def __init__(self, *args, spy, **kwargs):
        self.make_spy = spy
        super().__init__(*args, **kwargs)

    @property
    def start_label(self):
        return self.__dict__["start_label"]

    @start_label.setter
    def start_label(self, value):
        self.__dict__["start_label"] = value
        if "spy" not in self.__dict__:
            self.spy = self.make_spy(self)


def gen_tables(tier):
    init, inf, exp, sym, ver = menu()
    dbs = ("rule", "forget", "forest", "forest0")
    for i, f in itertools.product(init, inf):
        yield {"init": i, "inf": f, "dbs": dbs, "tier": tier}


def run_tables(b):
    res = Result()
    if "db" in b:
        judge(b, res)
        return res
    init, inf, exp, sym, ver = menu()
    roots = ((0, 0, False), (1, 3, True)) if b["tier"] == "quick" else tuple(
        itertools.product((0, 1, -1, 4), (0, 1, 3), (False, True)))
    for e, s, v, db in itertools.product(exp, sym, ver, b["dbs"]):
        for root, first, every in roots:
            case = {"init": b["init"], "inf": b["inf"], "exp": e, "sym": s, "ver": v, "db": db,
                    "root": root, "first": first, "all": every}
            judge(case, res)
            if len(res.violations) > 5:
                return res
    res.sample(f"initial {b['init']}, inferral {b['inf']}, all the rest")
    return res


# ----------------------------------------------------------------------------------
# Real searches
# ----------------------------------------------------------------------------------


def judge_search(cfg, res, stops):
    start = U.start_class(cfg["kind"], cfg.get("stats", "0"), cfg.get("compress", False))
    pack = U.make_pack(cfg["pack"], cfg.get("policy", "keep"), cfg.get("iterative", False))
    interpreted = {}

    def genuine(rule):
        key = (U.strategy_id(rule.strategy), rule.comb_class, tuple(rule.children))
        if key not in interpreted:
            interpreted[key] = U.genuine(rule, [pack])
        return interpreted[key]

    msg = None
    try:
        queue = U.HookQueue(pack)
        searcher = _Delayed(
            start, pack, ruledb=U.DBS[cfg["db"]](), classqueue=queue,
            expand_verified=cfg.get("expand_verified", False), debug=False,
            spy=lambda s: Spy(s, genuine, lambda c: U.kit.kind_empty(c.kind), res),
        )
        U.run_search(cfg, stops=stops, searcher=searcher)
        drive(searcher)
        searcher.spy.finish()
        res.outcome(hash(tuple(searcher.spy.log)) % 10**9)
    except Violation as e:
        msg = str(e)
    except NoMoreClassesToExpandError:
        pass
    except Exception as e:
        if not in_library(e):
            raise
        msg = short_tb(e)
    res.add("executions")
    if msg:
        res.violation("search", f"{cfg}: {msg}", {"cfg": cfg})


def gen_search(tier):
    cfgs = U.configs(tier)
    n = max(1, len(cfgs) // 12)
    for i in range(n):
        yield {"cfgs": cfgs[i::n]}


def run_search(b):
    res = Result()
    for cfg in b["cfgs"] if "cfgs" in b else [b["cfg"]]:
        judge_search(cfg, res, ())
        if len(res.violations) > 5:
            break
    return res


SUBCHECKS = {
    "tables": SubCheck(gen_tables, run_tables, None, 150),
    "searches": SubCheck(gen_search, run_search, None, 150),
}
BOUNDS = {t: "17 x 7 x 5 x 3 x 3 packs on 5 numbers, 4 databases; all search configurations" for t in ("quick", "thorough")}
