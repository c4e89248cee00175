"""Search configurations over the kit, drivers that own the clock and the random
source, and independent oracles for the specifications a search hands back."""

import itertools
import time
from collections import Counter

from comb_spec_searcher import CombinatorialSpecificationSearcher, StrategyPack
from comb_spec_searcher.class_queue import DefaultQueue
from comb_spec_searcher.exception import SpecificationNotFound
from comb_spec_searcher.rule_db import RuleDB, RuleDBForest, RuleDBForgetStrategy
from comb_spec_searcher.strategies import AtomStrategy, EmptyStrategy
from comb_spec_searcher.strategies.constructor import CartesianProduct, DisjointUnion
from comb_spec_searcher.strategies.rule import (
    AbstractRule,
    EquivalencePathRule,
    EquivalenceRule,
    ReverseRule,
    Rule,
    VerificationRule,
)
from comb_spec_searcher.strategies.strategy import (
    AbstractStrategy,
    StrategyFactory,
    VerificationStrategy,
)

from mc import common, kit, refs
from mc.common import Clock, RandomSeam, Violation, explore_choices
from mc.kit import (
    K,
    KB,
    Atom,
    DropLetters,
    DropPatterns,
    DropStats,
    Expand,
    ExpandTight,
    Factor,
    FactorFactory,
    OneAndTwo,
    ParentFactory,
    Retag,
    RetagParent,
    RetagWithEmpty,
    Scatter,
    StatsParentFactory,
    SwapLetters,
    VerifyIf,
    VerifyLib,
    VerifyTagged,
    VerifyWith,
    lang,
    tuplify,
)

# ----------------------------------------------------------------------------------
# Start classes
# ----------------------------------------------------------------------------------

STATS = {
    "0": (),
    "a": (("k", "a"),),
    "b": (("k", "b"),),
    "a,b": (("k", "a"), ("l", "b")),
    "a,a": (("k", "a"), ("l", "a")),
    "ab,a": (("k", "ab"), ("l", "a")),
    "b,a": (("p", "b"), ("k", "a")),
    "a,b,ab": (("k", "a"), ("l", "b"), ("m", "ab")),
    "a,a,b": (("k", "a"), ("l", "a"), ("m", "b")),
    "c": (("k", "c"),),
    "d": (("k", "("),),
    "d,d": (("k", "("), ("l", "()")),
}

KINDS = {
    "a*": lang("a"),
    "a-aa": lang("a", "", ("aa",)),
    "ab*": lang("ab"),
    "-aa": lang("ab", "", ("aa",)),
    "-ab": lang("ab", "", ("ab",)),
    "-b": lang("ab", "", ("b",)),
    "-aa,bb": lang("ab", "", ("aa", "bb")),
    "-ab,ba": lang("ab", "", ("ab", "ba")),
    "-aa,ab": lang("ab", "", ("aa", "ab")),
    "-aa,ab,ba": lang("ab", "", ("aa", "ab", "ba")),
    "-aa,ab,ba,bb": lang("ab", "", ("aa", "ab", "ba", "bb")),
    "-aba": lang("ab", "", ("aba",)),
    "-aab": lang("ab", "", ("aab",)),
    "-aab,bb": lang("ab", "", ("aab", "bb")),
    "-a,b": lang("ab", "", ("a", "b")),
    "-aa,b": lang("ab", "", ("aa", "b")),
    "-aa,aab": lang("ab", "", ("aa", "aab")),
    "a|-aa": lang("ab", "a", ("aa",)),
    "b|-aa": lang("ab", "b", ("aa",)),
    "ab|-aa": lang("ab", "ab", ("aa",)),
    "bb|-ab": lang("ab", "bb", ("ab",)),
    "a!": lang("ab", "a", ("aa",), True),
    "eps!": lang("ab", "", ("aa",), True),
    "empty": lang("ab", "aa", ("aa",)),
    "abc": lang("abc", "", ("ab", "cc")),
    "a.b": ("blocks", lang("a"), lang("b")),
    "a.b-bb": ("blocks", lang("a"), lang("b", "", ("bb",))),
    "a.b.c": ("blocks", lang("a"), lang("b"), lang("c")),
    "ab.c": ("blocks", lang("ab", "", ("aa",)), lang("c", "c")),
    "dyck": ("dyck", False),
    "dyck+": ("dyck", True),
    "bal": ("bal", ""),
}


def start_class(kind, stats, compress=False):
    return (KB if compress else K)(KINDS[kind], STATS[stats])


# ----------------------------------------------------------------------------------
# Packs
# ----------------------------------------------------------------------------------

AB_VER = tuple(
    lang("ab", p, q)
    for p in ("aa", "bb", "ab", "ba")
    for q in ((), ("aa",), ("bb",), ("ab",), ("aa", "bb"), ("ab", "ba"), ("aba",), ("aab",))
)


TWO = ("aa", "ab", "ba", "bb")


def make_pack(name, p="keep", iterative=False):
    """Named packs; `p` is the statistics policy."""
    F, E, ET = Factor, Expand, ExpandTight
    init, inf, exp, ver, sym = [F(p)], [], [[E(p)]], [Atom()], []
    if name == "std":
        pass
    elif name == "lib":
        ver = [AtomStrategy()]
    elif name == "tight":
        exp = [[ET(p)]]
    elif name == "rev":
        init, exp = [F(p, order="rev")], [[E(p, "rev")]]
    elif name == "twosets":
        init, exp = [], [[ET(p)], [F(p), F(p, 1)]]
    elif name == "both":
        init, exp = [F(p), F(p, 1), F(p, 2)], [[E(p, "rev"), ET(p)], [E(p)]]
    elif name == "noignore":
        init = [F(p, ignore_parent=False, workable=True, inferrable=True)]
    elif name == "ignexp":
        exp = [[E(p, ignore_parent=True)]]
    elif name == "unwork":
        # children not workable in one strategy, workable in another
        init, exp = [F(p)], [[E(p, workable=False), ET(p)]]
    elif name == "infer":
        inf = [DropLetters(p), DropPatterns(p)]
    elif name == "infer2":
        inf = [DropPatterns("drop"), DropLetters(p), DropStats("merge")]
    elif name == "infernot":
        inf, exp = [DropLetters(p)], [[E(p, inferrable=False)]]
    elif name == "sym":
        sym = [SwapLetters()]
    elif name == "syminf":
        sym, inf = [SwapLetters()], [DropLetters(p)]
    elif name == "symtight":
        sym, exp = [SwapLetters()], [[ET(p)]]
    elif name == "fact":
        init = [FactorFactory(p)]
    elif name == "factready":
        init = [FactorFactory(p, True)]
    elif name == "parent":
        exp = [[ParentFactory(p)], [E(p)]]
    elif name == "parentonly":
        # expansions of proper prefixes are only ever found from their children
        init, exp = [F(p), ParentFactory(p)], [[E(p, workable=True)]]
    elif name == "parentf":
        init, exp = [ParentFactory(p, "factor")], [[E(p)]]
    elif name == "retag":
        init = [Retag("", "x", policy=p), F(p)]
    elif name == "retagonly":
        # only the copies can be expanded further
        init, exp = [Retag("", "x", policy=p)], [[_Tagged(E(p), "x"), _Tagged(F(p), "x")]]
    elif name == "retag1":
        init = [Retag("", "x", False, p), F(p)]
    elif name == "retag1back":
        init = [Retag("", "x", False, p), Retag("x", "", False, p), F(p)]
    elif name == "cycle3":
        init = [Retag("", "x", False, p), Retag("x", "y", False, p), Retag("y", "", False, p), F(p)]
    elif name == "cyclemix":
        init = [Retag("", "x", False, p), Retag("x", "y", True, p), Retag("y", "", False, p)]
        exp = [[_Tagged(E(p), "y"), _Tagged(F(p), "y")]]
    elif name == "retagE":
        init = [RetagWithEmpty("", "y", True, p), F(p)]
    elif name == "retagEf":
        init = [RetagWithEmpty("", "y", True, p, True), Retag("y", "", True, p), F(p)]
    elif name == "retagEonly":
        init = [RetagWithEmpty("", "y", True, p, True)]
        exp = [[_Tagged(E(p), "y"), _Tagged(F(p), "y")]]
    elif name == "retagE1":
        init = [RetagWithEmpty("", "y", False, p), F(p)]
    elif name == "scatter":
        # copies of the same class in several places, equivalent through a third copy
        init = [Scatter(p), Retag("x", "z", policy=p), Retag("y", "z", policy=p), Retag("z", "", policy=p)]
        exp = [[_Tagged(E(p), "")]]
    elif name == "scatter1":
        # the same, one way only
        init = [Scatter(p), Retag("x", "z", False, p), Retag("y", "z", False, p), Retag("z", "", False, p)]
        exp = [[_Tagged(E(p), "")]]
    elif name == "scatterE":
        init = [Scatter(p), RetagWithEmpty("x", "z", True, p, True), RetagWithEmpty("y", "z", True, p), Retag("z", "", policy=p)]
        exp = [[_Tagged(E(p), "")]]
    elif name == "unretagE":
        init, exp = [RetagParent(p)], [[_Tagged(E(p), "p"), _Tagged(F(p), "p")]]
    elif name == "unretagE2":
        init, exp = [RetagParent(p, False)], [[_Tagged(E(p), "p"), _Tagged(F(p), "p")]]
    elif name == "oneandtwo":
        init = [OneAndTwo("", "x", (False, True), p), F(p)]
    elif name == "twoandone":
        init = [OneAndTwo("", "x", (True, False), p, True), OneAndTwo("x", "y", (False, False, True), p, True), F(p)]
    elif name == "dropstats":
        init = [DropStats("merge"), F(p)]
    elif name == "unmerge":
        # the class is only expanded through one with a duplicated statistic
        init, exp = [StatsParentFactory("merge")], [[StatsOnly("Expand", "keep"), StatsOnly("Factor", "keep")]]
    elif name == "undrop":
        init, exp = [StatsParentFactory("drop")], [[StatsOnly("Expand", "keep"), StatsOnly("Factor", "keep")]]
    elif name == "swapstats":
        init = [DropStats("swap"), F(p)]
    elif name == "ver":
        ver = [Atom(), VerifyIf(AB_VER)]
    elif name == "verpack":
        ver = [Atom(), VerifyIf(AB_VER, "plain")]
    elif name == "verlib":
        ver = [Atom(), VerifyLib(AB_VER, "keep")]
    elif name == "vernest":
        ver = [Atom(), VerifyIf(AB_VER, "nested")]
    elif name == "vernoign":
        ver = [Atom(ignore_parent=False), VerifyIf(AB_VER, ignore_parent=False)]
    elif name == "vertag":
        init = [F(p), Retag("", "v", policy=p)]
        ver = [Atom(), VerifyTagged("v")]
    elif name == "verE":
        init = [RetagWithEmpty("", "y", True, p), F(p)]
        ver = [Atom(), VerifyIf(AB_VER)]
    elif name == "verdep":
        # verified classes that depend on other classes
        ver = [Atom(), VerifyWith(TWO, (0,), "", "keep")]
    elif name == "verdep2":
        ver = [Atom(), VerifyWith(TWO, (0, 1), ignore_parent=False)]
    elif name == "noatom":
        # no verification of atoms other than the empty word's: nothing to find
        ver = [VerifyIf(AB_VER)]
    elif name == "slow":
        # one big step and small ones in the last set
        init, exp = [], [[E(p)], [F(p)], [F(p, 1)]]
    elif name == "many":
        init = [FactorFactory(p), Retag("", "x", policy=p)]
        inf = [DropLetters(p)]
        exp = [[ET(p)], [ParentFactory(p)]]
        sym = [SwapLetters()]
    else:
        raise KeyError(name)
    return StrategyPack(init, inf, exp, ver, name, symmetries=sym, iterative=iterative)


class _Tagged(kit._Settings):
    """Not used directly: replaced by a factory restricted to a tag."""

    def __new__(cls, strat, tag):
        return TagOnly(type(strat).__name__, strat.policy, tag)


class TagOnly(kit._FactoryBase):
    """A factory yielding one strategy on the classes with a given tag."""

    SETTINGS = ("strat", "policy", "only")

    def __init__(self, strat="Expand", policy="keep", only="x"):
        self.strat = strat
        self.policy = policy
        self.only = only

    def __call__(self, comb_class):
        if comb_class.tag == self.only:
            yield getattr(kit, self.strat)(self.policy)


class StatsOnly(kit._FactoryBase):
    """A factory yielding one strategy on the classes tracking the statistic `t`."""

    SETTINGS = ("strat", "policy", "stat")

    def __init__(self, strat="Expand", policy="keep", stat="t"):
        self.strat = strat
        self.policy = policy
        self.stat = stat

    def __call__(self, comb_class):
        if self.stat in comb_class.extra_parameters:
            yield getattr(kit, self.strat)(self.policy)


DBS = {
    "rule": RuleDB,
    "forget": RuleDBForgetStrategy,
    "forest": lambda: RuleDBForest(reverse=True),
    "forest0": lambda: RuleDBForest(reverse=False),
}


# ----------------------------------------------------------------------------------
# Controlled searches
# ----------------------------------------------------------------------------------


class HookQueue(DefaultQueue):
    """A default queue telling the harness about every packet handed out."""

    def __init__(self, pack, limit=80):
        super().__init__(pack)
        self.packets = 0
        self.limit = limit  # some universes are infinite
        self.hook = None

    def __next__(self):
        if self.packets >= self.limit:
            if self.hook is not None:
                self.hook(None, None)
            raise StopIteration
        try:
            wp = super().__next__()
        except StopIteration:
            if self.hook is not None:
                self.hook(None, None)
            raise
        self.packets += 1
        if self.hook is not None:
            self.hook(self.packets, wp)
        return wp


class SearchClock(Clock):
    """Flat time; during the packets in `stops` every look at the clock is late."""

    JUMP = 100000.0

    def __init__(self, stops=()):
        super().__init__(0.0)
        self.stops = stops if callable(stops) else set(stops).__contains__

    def packet(self, number, wp=None):
        # late as well once the queue is dry, so that every timed loop ends
        self.step = self.JUMP if number is None or self.stops(number) else 0.0


def make_searcher(cfg, hook=True, **kwargs):
    """cfg: dict(kind, stats, compress, pack, policy, iterative, db, expand_verified)"""
    start = start_class(cfg["kind"], cfg.get("stats", "0"), cfg.get("compress", False))
    pack = make_pack(cfg["pack"], cfg.get("policy", "keep"), cfg.get("iterative", False))
    queue = HookQueue(pack) if hook else DefaultQueue(pack)
    return CombinatorialSpecificationSearcher(
        start,
        pack,
        ruledb=kwargs.pop("ruledb", None) or DBS[cfg["db"]](),
        classqueue=queue,
        expand_verified=cfg.get("expand_verified", False),
        debug=False,
        **kwargs,
    )


def searcher_for(start, packname, db, policy="keep"):
    """A searcher for any class of the kit."""
    pack = make_pack(packname, policy)
    return CombinatorialSpecificationSearcher(
        start, pack, ruledb=DBS[db](), classqueue=HookQueue(pack), debug=False
    )


def run_search(cfg, stops=(), chooser=None, smallest=False, searcher=None, max_time=None):
    """auto_search under the controlled clock.  Returns (searcher, spec or None)."""
    searcher = searcher or make_searcher(cfg)
    clock = SearchClock(stops)
    searcher.classqueue.hook = clock.packet
    chooser = chooser or common.Chooser()
    with clock, RandomSeam(chooser):
        try:
            spec = searcher.auto_search(smallest=smallest)
        except SpecificationNotFound:
            spec = None
        finally:
            searcher.classqueue.hook = None
    return searcher, spec


def all_specs(searcher, max_deviations, cap=400):
    """Every specification get_specification can hand back for the random choices."""

    def run(chooser):
        with Clock(), RandomSeam(chooser):
            return searcher.get_specification(minimization_time_limit=0)

    n = 0
    for choices, points, spec in explore_choices(run, max_deviations):
        yield choices, spec
        n += 1
        if n >= cap:
            return


# ----------------------------------------------------------------------------------
# Oracles
# ----------------------------------------------------------------------------------


def nonzero(terms):
    return {k: v for k, v in terms.items() if v}


def check_enumeration(spec, start, bound):
    """Counts agree with brute force, for every parameter value up to the bound."""
    sizes = [bound] + list(range(bound))
    for n in sizes:
        want = dict(start.true_terms(n))
        got = nonzero(spec.get_terms(n))
        if got != want:
            raise Violation(f"get_terms({n}) = {got}, true terms {want} for {start!r}\n{spec}")
    for n in range(bound + 1):
        want = start.true_terms(n)
        names = start.extra_parameters
        values = set(want)
        # values with no object: neighbours of the true ones
        extra = set()
        for v in list(values)[:6]:
            for i in range(len(v)):
                extra.add(v[:i] + (v[i] + 1,) + v[i + 1 :])
                if v[i]:
                    extra.add(v[:i] + (v[i] - 1,) + v[i + 1 :])
        if not values:
            extra.add((0,) * len(names))
        for v in sorted(values | extra):
            got = spec.count_objects_of_size(n, **dict(zip(names, v)))
            if got != want.get(v, 0):
                raise Violation(
                    f"count_objects_of_size({n}, {dict(zip(names, v))}) = {got}, "
                    f"true count {want.get(v, 0)} for {start!r}\n{spec}"
                )


def strategy_id(strategy):
    return (type(strategy).__module__, type(strategy).__name__, repr(strategy))


def applications(comb_class, packs):
    """An independent interpreter of packs: (strategy id, parent, children)."""
    for pack in packs:
        for strat in pack:
            outs = strat(comb_class) if isinstance(strat, StrategyFactory) else [strat]
            for x in outs:
                if isinstance(x, AbstractRule):
                    s, parent = x.strategy, x.comb_class
                else:
                    s, parent = x, comb_class
                children = s.decomposition_function(parent)
                if children is not None:
                    yield s, parent, tuple(children)


def genuine(rule, packs, start=None):
    """Is the rule what a strategy of a pack produces (or a derived form of it)?"""
    if isinstance(rule, EquivalencePathRule):
        cur = rule.comb_class
        for r in rule.rules:
            msg = genuine(r, packs)
            if msg:
                return msg
            if r.comb_class != cur:
                return f"broken equivalence path: {r.comb_class!r} after {cur!r}"
            if len(r.children) != 1:
                return "equivalence path through a rule with several children"
            cur = r.children[0]
        if rule.children != (cur,):
            return f"equivalence path ends in {cur!r}, children {rule.children!r}"
        return None
    if isinstance(rule, EquivalenceRule):
        orig = rule.original_rule
        msg = genuine(orig, packs)
        if msg:
            return msg
        alive = tuple(c for c in orig.children if not kit.kind_empty(c.kind))
        if rule.comb_class != orig.comb_class or rule.children != alive or len(alive) != 1:
            return f"equivalence rule {rule.comb_class!r}->{rule.children!r} of {orig.children!r}"
        return None
    if isinstance(rule, ReverseRule):
        orig, idx = rule.original_rule, rule.idx
        msg = genuine(orig, packs)
        if msg:
            return msg
        want = (orig.comb_class,) + orig.children[:idx] + orig.children[idx + 1 :]
        if rule.comb_class != orig.children[idx] or rule.children != want:
            return f"reverse rule {rule.comb_class!r} -> {rule.children!r}, expected {want!r}"
        if not orig.strategy.is_reversible(orig.comb_class):
            return "reverse of a non reversible rule"
        return None
    if isinstance(rule.strategy, EmptyStrategy):
        if not kit.kind_empty(rule.comb_class.kind):
            return f"empty rule for the non-empty class {rule.comb_class!r}"
        if rule.children:
            return "empty rule with children"
        return None
    want = strategy_id(rule.strategy)
    for source in dict.fromkeys((rule.comb_class,) + tuple(rule.children)):
        for s, parent, children in applications(source, packs):
            if (
                parent == rule.comb_class
                and children == tuple(rule.children)
                and strategy_id(s) == want
            ):
                if isinstance(s, VerificationStrategy) != isinstance(rule, VerificationRule):
                    return f"wrong rule type {type(rule).__name__} for {s}"
                return None
    return f"no strategy of the pack gives {rule.comb_class!r} -> {rule.children!r} ({rule.strategy!r})"


def true_shifts(rule):
    """Shifts of a (genuine) rule from the definition of its constructor."""
    if isinstance(rule, EquivalencePathRule):
        return (sum(true_shifts(r)[0] for r in rule.rules),)
    if isinstance(rule, EquivalenceRule):
        s = true_shifts(rule.original_rule)
        return (s[rule.original_rule.children.index(rule.children[0])],)
    if isinstance(rule, ReverseRule):
        s = true_shifts(rule.original_rule)
        i = rule.idx
        return (-s[i],) + tuple(t - s[i] for j, t in enumerate(s) if j != i)
    if isinstance(rule, VerificationRule):
        return tuple(len(rule.comb_class.kind[2]) - len(c.kind[2]) for c in rule.children)
    if isinstance(rule.strategy, (Factor,)):
        mins = [kit.kind_min(c.kind) for c in rule.children]
        return tuple(sum(mins) - m for m in mins)
    return (0,) * len(rule.children)


def spec_rules(spec):
    return list(spec)


def check_valid(spec, start, packs):
    """C02: closed, one rule per class, genuine, productive; reachable."""
    rd = spec.rules_dict
    if spec.root != start:
        raise Violation(f"root {spec.root!r} is not the start class {start!r}")
    if start not in rd:
        raise Violation(f"no rule for the start class\n{spec}")
    parents = [r.comb_class for r in spec]
    if len(set(parents)) != len(parents):
        raise Violation(f"two rules for one class\n{spec}")
    keys = []
    for c, rule in rd.items():
        if rule.comb_class != c:
            raise Violation(f"rule of {rule.comb_class!r} stored for {c!r}")
        msg = genuine(rule, packs)
        if msg:
            raise Violation(f"not genuine: {msg}")
        for child in rule.children:
            if child not in rd and not kit.kind_empty(child.kind):
                raise Violation(f"no rule for the non-empty class {child!r}\n{spec}")
        keys.append((c, tuple(rule.children), tuple(rule.shifts()), true_shifts(rule)))
    # empty children are counted by nothing at all
    have = {k[0] for k in keys}
    for _, children, _, _ in list(keys):
        for c in children:
            if c not in have:
                keys.append((c, (), (), ()))
                have.add(c)
    labels = {c: i for i, c in enumerate(have)}
    # the shifts the rules declare, and those of the definition of their constructors
    for which in (2, 3):
        ints = [(labels[k[0]], tuple(labels[c] for c in k[1]), k[which]) for k in keys]
        fp = refs.lfp(ints)
        bad = [c for c, i in labels.items() if fp[i] is not None]
        if bad:
            raise Violation(f"not productive: {bad!r} get only {[fp[labels[c]] for c in bad]} terms\n{spec}")


def spec_signature(spec):
    """A hashable description of the rule set (for counting distinct outcomes)."""

    def sig(rule):
        if isinstance(rule, EquivalencePathRule):
            return ("path",) + tuple(sig(r) for r in rule.rules)
        if isinstance(rule, EquivalenceRule):
            return ("eqv", sig(rule.original_rule))
        if isinstance(rule, ReverseRule):
            return ("rev", rule.idx, sig(rule.original_rule))
        return (repr(rule.strategy), rule.comb_class, rule.children)

    return frozenset(sig(r) for r in spec)


def rule_forms(spec):
    forms = Counter()
    for rule in spec:
        if isinstance(rule, EquivalencePathRule):
            forms["path%d" % min(len(rule.rules), 3)] += 1
            for r in rule.rules:
                forms["path/" + type(r).__name__] += 1
        elif isinstance(rule, ReverseRule):
            forms["reverse/" + type(rule.strategy).__name__] += 1
        else:
            forms[type(rule).__name__ + "/" + type(rule.strategy).__name__] += 1
    return forms


# ----------------------------------------------------------------------------------
# Configurations
# ----------------------------------------------------------------------------------


def configs(tier):
    """The menu of search configurations, simplest first (no duplicates)."""
    out = []
    seen = set()

    def add(kind, pack, db, stats="0", policy="keep", **opts):
        cfg = {"kind": kind, "stats": stats, "pack": pack, "policy": policy, "db": db}
        cfg.update({k: v for k, v in opts.items() if v})
        key = tuple(sorted(cfg.items()))
        if key not in seen:
            seen.add(key)
            out.append(cfg)

    dbs = ("rule", "forget", "forest", "forest0")
    # every language, standard pack
    for kind in KINDS:
        for db in dbs:
            add(kind, "std", db)
    # every pack on a few languages
    packs = [
        "lib", "tight", "rev", "twosets", "both", "noignore", "ignexp", "unwork", "infer",
        "infer2", "infernot", "sym", "syminf", "symtight", "fact", "factready", "parent",
        "parentonly", "parentf", "retag", "retagonly", "retag1", "retag1back", "cycle3",
        "cyclemix", "retagE", "retagEf", "retagEonly", "retagE1", "scatter", "scatter1", "scatterE",
        "unretagE", "unretagE2", "oneandtwo", "twoandone", "ver", "verpack",
        "verlib", "vernest", "vernoign", "vertag", "verE", "verdep", "verdep2", "noatom", "slow", "many",
    ]
    few = ("-aa", "-ab", "-aa,bb", "a|-aa") + (
        ("-b", "-aab", "-aa,b", "ab.c", "-aa,ab", "dyck") if tier == "thorough" else ("-b",)
    )
    for pack in packs:
        for kind in few:
            if pack.startswith("sym") and KINDS[kind][0] != "lang":
                pass
            for db in dbs:
                add(kind, pack, db)
                if db in ("rule", "forget"):
                    add(kind, pack, db, iterative=True)
    # statistics and policies
    stats = ("a", "a,b", "a,a", "ab,a", "a,b,ab") + (("b,a", "a,a,b") if tier == "thorough" else ())
    for st in stats:
        for pol in kit.POLICIES:
            for kind in ("-aa", "-ab") + (("a|-aa", "-aa,bb") if tier == "thorough" else ()):
                for pack in ("std", "infer", "retag", "dropstats", "swapstats", "retagE", "parent",
                             "vertag", "sym", "fact", "unmerge", "undrop", "scatter", "unretagE"):
                    if pack.startswith("sym") and pol == "swap":
                        continue
                    for db in dbs if tier == "thorough" or pack in ("std", "retag", "parent") else ("rule", "forest"):
                        add(kind, pack, db, st, pol)
    for kind, sts in (
        ("a.b", ("a", "a,b", "a,a", "ab,a")),
        ("ab.c", ("a", "c", "a,a,b")),
        ("dyck", ("d", "d,d")),
        ("dyck+", ("d,d",)),
        ("bal", ("d", "d,d")),
        ("a*", ("a", "a,a")),
    ):
        for st in sts:
            for pol in kit.POLICIES:
                for pack in ("std", "both", "dropstats"):
                    for db in dbs:
                        add(kind, pack, db, st, pol)
    # compression, expand_verified
    for kind in ("-aa", "a.b", "dyck"):
        for pack in ("std", "infer", "retag", "sym", "ver"):
            for db in dbs:
                for st, pol in (("0", "keep"), ("a,b" if kind != "dyck" else "d,d", "merge")):
                    add(kind, pack, db, st, pol, compress=True)
                    add(kind, pack, db, st, pol, expand_verified=True)
    return out


def valid_config(cfg):
    """Some packs only honour their contract on some languages."""
    if make_pack(cfg["pack"]).symmetries and KINDS[cfg["kind"]][0] != "lang":
        return True  # the symmetry does not apply; still a legal pack
    return True
