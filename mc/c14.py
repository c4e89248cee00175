"""C14: default and memory-saving rule databases are observationally identical.

Both databases, each in its own searcher, are fed the same rules.  After every single
insertion: the stores, verified labels, existence of a specification, membership of
stored and other keys, and the strategies handed back (re-applied).
`ints`: every short history of a menu of rules over numbers; `searches`: the histories
of the real searches.
"""

import itertools

from mc import ints
from mc import universe as U
from mc.common import Result, SubCheck, Violation, in_library, short_tb
from mc.c04 import drive

from comb_spec_searcher.exception import StrategyDoesNotApply
from comb_spec_searcher.rule_db import RuleDB, RuleDBForgetStrategy

LEVEL = "model_checking"
TECHNIQUE = "stateless exhaustive exploration of insertion histories on both real rule databases in lockstep, compared after every insertion"
NOTE = "Every history within the bounds over number universes; every history of the search menu."
RULE = "every insertion history; outcome = (stores, verified labels, specification) reached"
ASSUMPTIONS = ["the pack of the searcher contains the strategies that gave the rules"]


class Pair:
    """The two databases in lockstep; labels of the second are translated through the
    classes (recomputing strategies may label classes early)."""

    def __init__(self, a, b, res):
        self.a, self.b = a, b
        self.res = res

    def to_b(self, label):
        return self.b.classdb.get_label(self.a.classdb.get_class(label))

    def key_a(self, key):
        """A key of b, in labels of a."""
        out = []
        for lab in (key[0],) + tuple(key[1]):
            c = self.b.classdb.get_class(lab)
            if c not in self.a.classdb:
                raise Violation(f"the memory saving database stores {c!r}, the default one does not know it")
            out.append(self.a.classdb.get_label(c))
        return out[0], tuple(sorted(out[1:]))

    def feed(self, start, ends, rule):
        self.b.ruledb.add(self.to_b(start), tuple(map(self.to_b, ends)), rule)

    def compare(self, last=None, all_strategies=True, probe=True):
        a, b = self.a.ruledb, self.b.ruledb
        stored = {}
        for name in ("rule_to_strategy", "eqv_rule_to_strategy"):
            ka = set(getattr(a, name))
            kb = set(map(self.key_a, getattr(b, name)))
            if ka != kb:
                raise Violation(f"{name}: only default {ka - kb}, only memory saving {kb - ka}")
            stored[name] = ka
            if len(getattr(a, name)) != len(getattr(b, name)):
                raise Violation(f"{name}: different lengths")
        every = set(a)
        if every != set(map(self.key_a, b)):
            raise Violation(f"stored rules: {every} and {set(map(self.key_a, b))}")
        labels = sorted(self.a.classdb)
        if probe:
            self.membership(every, labels)
        self.verified(labels, "before pruning")
        sa, sb = a.has_specification(), b.has_specification()
        if sa != sb:
            raise Violation(f"has_specification: {sa} by default, {sb} memory saving")
        self.verified(labels, "after pruning")
        for name, keys in stored.items():
            for key in keys if all_strategies else [k for k in keys if last and k[0] == last[0]]:
                self.strategy(a, self.a, name, key)
                kb = (self.to_b(key[0]), tuple(sorted(map(self.to_b, key[1]))))
                self.strategy(b, self.b, name, kb)
        self.res.add("comparisons")
        return (len(every), sa, sum(a.is_verified(x) for x in labels))

    def verified(self, labels, when):
        for x in labels:
            va, vb = self.a.ruledb.is_verified(x), self.b.ruledb.is_verified(self.to_b(x))
            if va != vb:
                raise Violation(f"is_verified({x}) {when}: {va} by default, {vb} memory saving")

    def membership(self, every, labels):
        probes = set(every)
        few = labels[:5]
        for s in few:
            probes.add((s, ()))
            for e in few:
                probes.add((s, (e,)))
                probes.add((s, (e, s)))
        for s, ends in list(every)[:30]:
            probes.add((s, ends[1:]))
            probes.add((s, ends + ends[:1]))
            probes.add((ends[0] if ends else s, ends))
        for s, ends in probes:
            for order in {ends, ends[::-1]}:
                want = (s, tuple(sorted(ends))) in every
                ga = self.a.ruledb.contains(s, order)
                gb = self.b.ruledb.contains(self.to_b(s), tuple(map(self.to_b, order)))
                if ga != want or gb != want:
                    raise Violation(f"contains({s}, {order}): {ga} by default, {gb} memory saving, stored: {want}")

    def strategy(self, db, searcher, name, key):
        """Re-apply what is handed back."""
        comb_class = searcher.classdb.get_class(key[0])
        if comb_class.is_empty():
            return
        strat = getattr(db, name)[key]
        who = type(db).__name__
        try:
            rule = strat(comb_class)
            children = rule.children
        except StrategyDoesNotApply:
            raise Violation(f"{who}.{name}[{key}] is {strat!r}, which does not apply to {comb_class!r}")
        if rule.comb_class != comb_class:
            raise Violation(f"{who}.{name}[{key}] is {strat!r}, a rule for {rule.comb_class!r}")
        got = tuple(sorted(searcher.classdb.get_label(c) for c in children if not c.is_empty()))
        if got != key[1]:
            raise Violation(f"{who}.{name}[{key}] is {strat!r}, whose rule has the children {got}")
        if name == "eqv_rule_to_strategy" and not rule.is_two_way():
            raise Violation(f"{who}.{name}[{key}] is {strat!r}, which is not two way")


# ----------------------------------------------------------------------------------
# Number universes
# ----------------------------------------------------------------------------------


def menu(labels, full=True):
    out = []
    for p in labels:
        out.append((p,))
        for q in labels:
            if p != q:
                out.append((p, (q,), True))
                out.append((p, (q,), False))
        a, b = [x for x in labels if x != p][:2] if len(labels) > 2 else (labels[0], labels[-1])
        out.append((p, (a, b), False))
        out.append((p, (b, b), False))
        out.append((p, (-1, a), True))
        out.append((p, (a, -1), False))
        out.append((p, (b, -2, a), False))
        out.append((p, (p, -1), True))
        if full:
            out.append((p, (-1, a), False))
            out.append((p, (p, a), False))
    return out


def fresh(rules, order, db):
    strats = [ints.strategy(r) for r in dict.fromkeys(rules)]
    if order == "rev":
        strats = strats[::-1]
    return ints.make_searcher(strats, db, n=3, root=0)


def insert_both(pair, rule):
    start, ends, r = ints.insert(pair.a, ints.strategy(rule))
    pair.feed(start, ends, r)
    return start, ends


def judge_ints(seq, decoys, order, every, res):
    msg = None
    out = None
    try:
        pack = list(decoys) + list(seq) if order == "rev" else list(seq) + list(decoys)
        pair = Pair(fresh(pack, order, RuleDB), fresh(pack, order, RuleDBForgetStrategy), res)
        for i, rule in enumerate(seq):
            insert_both(pair, rule)
            if every or i == len(seq) - 1:
                out = pair.compare(probe=i == len(seq) - 1)
    except Violation as e:
        msg = str(e)
    except Exception as e:
        if not in_library(e):
            raise
        msg = short_tb(e)
    res.add("executions")
    res.add("transitions", len(seq))
    if msg:
        res.violation("ints", f"{list(seq)} pack order {order}: {msg}",
                      {"seq": [list(r) for r in seq], "decoys": [list(r) for r in decoys], "order": order, "every": every})
    else:
        res.outcome(repr(out))


def tup(rule):
    return tuple(tuple(x) if isinstance(x, list) else x for x in rule)


def canonical(seq):
    """The quick tier only uses label 2 after label 1 (the root is 0)."""
    for rule in seq:
        labels = (rule[0],) + (rule[1] if len(rule) > 1 else ())
        if 1 in labels:
            return True
        if 2 in labels:
            return False
    return True


def gen_ints(tier):
    rules = menu((0, 1, 2), tier != "quick")
    for i in range(len(rules)):
        yield {"first": i, "length": 3, "labels": (0, 1, 2), "tier": tier}
    small = menu((0, 1))
    for i in range(len(small)):
        yield {"first": i, "length": 4 if tier == "quick" else 5, "labels": (0, 1), "tier": tier}


def run_ints(b):
    res = Result()
    if "seq" in b:
        judge_ints(tuple(map(tup, b["seq"])), tuple(map(tup, b["decoys"])), b["order"], b["every"], res)
        return res
    rules = menu(tuple(b["labels"]), b["tier"] != "quick" or len(b["labels"]) < 3)
    first = rules[b["first"]]
    full = b["tier"] != "quick"
    for k in range(b["length"]):
        for n, rest in enumerate(itertools.product(rules, repeat=k)):
            seq = (first,) + rest
            if len(set(seq)) < len(seq) - 1:
                continue
            if not full and not canonical(seq):
                continue
            # strategies of the pack nobody has applied (yet): the next ones of the menu
            decoys = [rules[(b["first"] + n + j) % len(rules)] for j in (1, 3)] if n % 3 == 0 else []
            # only one child of the other rules, so that the pack stays a pack of this universe
            for order in (("fwd", "rev") if full or k < 2 else (("fwd", "rev")[n % 2],)):
                judge_ints(seq, decoys, order, True, res)
                if full or (k < 2):
                    judge_ints(seq, decoys, order, False, res)
            if len(res.violations) > 5:
                return res
    res.sample(f"all histories of length {b['length']} starting with {first}")
    return res


# ----------------------------------------------------------------------------------
# Real searches
# ----------------------------------------------------------------------------------


def judge_search(cfg, mode, res):
    msg = None
    out = None
    n = 0
    try:
        a = U.make_searcher(dict(cfg, db="rule"))
        b = U.make_searcher(dict(cfg, db="forget"))
        pair = Pair(a, b, res)
        out = pair.compare()
        count = [0]
        pending = []
        add = a.ruledb.add

        def spy(start, ends, rule):
            add(start, ends, rule)
            pending.append((start, ends, rule))
            # recursive insertions are fed in the order they are completed
            pair.feed(start, ends, rule)
            count[0] += 1
            if mode == "each" or count[0] % 7 == 0:
                pair.compare((start, ends), all_strategies=count[0] % 5 == 0 or mode != "each", probe=count[0] < 40)

        a.ruledb.add = spy
        try:
            drive(a)
        finally:
            n = count[0]
        out = pair.compare()
        del a.ruledb.add
    except Violation as e:
        msg = str(e)
    except Exception as e:
        if not in_library(e):
            raise
        msg = short_tb(e)
    res.add("executions")
    res.add("transitions", n)
    if msg:
        res.violation("search", f"{cfg}, {n} insertions: {msg}", {"cfg": cfg, "mode": mode})
    else:
        res.outcome(repr(out))


def gen_search(tier):
    cfgs = [c for c in U.configs(tier) if c["db"] == "rule"]
    n = max(1, len(cfgs) // 6)
    for i in range(n):
        yield {"cfgs": cfgs[i::n], "tier": tier}


def run_search(b):
    res = Result()
    if "cfg" in b:
        judge_search(b["cfg"], b["mode"], res)
        return res
    for cfg in b["cfgs"]:
        for mode in ("each", "some"):
            judge_search(cfg, mode, res)
        if len(res.violations) > 5:
            break
    return res


SUBCHECKS = {
    "ints": SubCheck(gen_ints, run_ints, None, 200),
    "searches": SubCheck(gen_search, run_search, None, 200),
}
BOUNDS = {"quick": "histories of length 3 on 3 labels, 4 on 2 labels; all search histories",
          "thorough": "histories of length 3 on 3 labels (both pack orders), 5 on 2 labels; all search histories"}
