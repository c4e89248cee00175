"""C03: forest productivity detection == least fixed point, in any insertion order.

Alphabet: insertion of one integer rule (parent, children, shifts).
Bound: per configuration below, every sequence of insertions up to a length.
Oracle: naive least fixed point of the rules inserted so far, after *every* insertion.
"""

import itertools

from mc import refs
from mc.common import Result, SubCheck

from comb_spec_searcher.rule_db.forest import RuleDBForest, TableMethod
from comb_spec_searcher.typing import ForestRuleKey, RuleBucket

LEVEL = "model_checking"
TECHNIQUE = "stateless exhaustive exploration of insertion sequences on the real TableMethod, against a naive fixed point"
NOTE = ("Every sequence of rule insertions within the bounds is executed on the real code and compared after each "
        "step with an independent least fixed point; trusts the reference fixed point and the bounds.")
RULE = "every insertion sequence over the rule alphabet; outcome = the fixed point function reached"
ASSUMPTIONS = [
    "values above 3(n+1)S+5 in the reference are infinite (gap argument, n labels, shifts bounded by S)"
]
NORMAL = RuleBucket.NORMAL


def fkey(r, bucket=NORMAL):
    return ForestRuleKey(r[0], tuple(r[1]), tuple(r[2]), bucket)


def alphabet(labels, arities, shifts, sort=True, parents=None):
    """All rules; children/shift pairs taken as multisets when `sort`."""
    out = []
    for p in parents or labels:
        for k in arities:
            pairs = list(itertools.product(labels, shifts))
            combos = (
                itertools.combinations_with_replacement(pairs, k)
                if sort
                else itertools.product(pairs, repeat=k)
            )
            for combo in combos:
                out.append((p, tuple(c for c, _ in combo), tuple(s for _, s in combo)))
    return out


_LFP = {}


def lfp(rules):
    key = frozenset(rules)
    v = _LFP.get(key)
    if v is None:
        if len(_LFP) > 200000:
            _LFP.clear()
        v = _LFP[key] = {k: w for k, w in refs.lfp(key).items() if w != 0}
    return v


def compare(tm, rules, labels, res, probe):
    """Compare every observation with the least fixed point."""
    want = lfp(rules)
    got = tm.function
    if got != want:
        return f"function {got} but least fixed point {want}"
    if probe:
        for lab in labels:
            if tm.is_pumping(lab) != (want.get(lab, 0) is None):
                return f"is_pumping({lab}) = {tm.is_pumping(lab)}, function {want}"
        if tm.function != want:
            return "querying changed the function"
    return None


def replay(case):
    res = Result()
    seq = [(r[0], tuple(r[1]), tuple(r[2])) for r in case["seq"]]
    labels = sorted({x for r in seq for x in (r[0],) + r[1]} | {7})
    tm = TableMethod()
    for i, r in enumerate(seq):
        for q in case.get("probe_before", ()):
            tm.is_pumping(q)
        tm.add_rule_key(fkey(r))
        msg = compare(tm, seq[: i + 1], labels, res, case.get("probe", True))
        res.add("executions")
        if msg:
            res.violation("table", f"after inserting {seq[: i + 1]}: {msg}", case)
            break
    return res


def bad(res, seq, msg, probe):
    res.violation(
        "table",
        f"after inserting {list(seq)}: {msg}",
        {"seq": [list(map(_l, r)) for r in seq], "probe": probe},
    )


def _l(x):
    return list(x) if isinstance(x, tuple) else x


# ---------------------------------------------------------------------------------
# All sequences
# ---------------------------------------------------------------------------------


def dfs(prefix, alpha, depth, probe, labels, res, ordered_from=None):
    """Extend `prefix` by every rule, checking after each insertion."""
    for r in alpha:
        tm = TableMethod()
        if probe == "before":
            for lab in labels:
                tm.is_pumping(lab)
        for q in prefix:
            tm.add_rule_key(fkey(q))
        try:
            tm.add_rule_key(fkey(r))
            seq = prefix + (r,)
            msg = compare(tm, seq, labels, res, bool(probe))
        except Exception as e:  # assertion inside the table method
            seq = prefix + (r,)
            msg = f"raised {type(e).__name__}: {e}"
        res.add("executions")
        res.add("transitions", len(seq))
        if msg:
            bad(res, seq, msg, bool(probe))
            if len(res.violations) > 5:
                return
            continue
        if len(res.outcomes) < 300:
            res.outcome(repr(sorted(lfp(seq).items())))
        if depth > 1:
            dfs(seq, alpha, depth - 1, probe, labels, res)
            if len(res.violations) > 5:
                return


def seq_configs(tier):
    q = [
        # labels, arities, shifts, depth, probe
        ("d2-L2-wide", (0, 1), (0, 1, 2), (-2, -1, 0, 1, 2), True, 2, True),
        ("d3-L2", (0, 1), (0, 1, 2), (-1, 0, 1), True, 3, True),
        ("d4-L2-unary", (0, 1), (0, 1), (-2, -1, 0, 1, 2), True, 3, True),
        ("d4-L3-unary", (0, 1, 2), (0, 1), (-1, 1), True, 4, False),
        ("d2-L3-ternary", (0, 1, 2), (1, 2, 3), (-1, 0, 1), True, 1, True),
        ("d3-L2-high", (2, 5), (0, 1), (-3, -1, 2), True, 3, "before"),
    ]
    t = q + [
        ("d5-L2-unary", (0, 1), (0, 1), (-2, 0, 1, 3), True, 4, True),
        ("d3-L3", (0, 1, 2), (0, 1, 2), (-1, 0, 2), True, 2, True),
        ("d5-L3-unary", (0, 1, 2), (0, 1), (-1, 1), True, 5, False),
        ("d3-L3-unary-wide", (0, 1, 2), (0, 1), (-3, -2, -1, 0, 1, 2, 3), True, 3, True),
        ("d4-L4-unary", (0, 1, 2, 3), (0, 1), (-1, 1), True, 4, False),
    ]
    return t if tier == "thorough" else q


def seq_gen(tier):
    for name, labels, arities, shifts, sort, depth, probe in seq_configs(tier):
        alpha = alphabet(labels, arities, shifts, sort)
        step = max(1, min(len(alpha) // 48, 40)) or 1
        for i in range(0, len(alpha), step):
            yield {
                "labels": labels,
                "arities": arities,
                "shifts": shifts,
                "sort": sort,
                "depth": depth,
                "probe": probe,
                "first": [i, min(i + step, len(alpha))],
            }


def seq_run(b):
    res = Result()
    labels = tuple(b["labels"])
    alpha = alphabet(labels, b["arities"], b["shifts"], b["sort"])
    probes = labels + (max(labels) + 3,)
    lo, hi = b["first"]
    for r in alpha[lo:hi]:
        # the first rule itself, then everything after it
        tm = TableMethod()
        try:
            tm.add_rule_key(fkey(r))
            msg = compare(tm, (r,), probes, res, bool(b["probe"]))
        except Exception as e:
            msg = f"raised {type(e).__name__}: {e}"
        res.add("executions")
        if msg:
            bad(res, (r,), msg, bool(b["probe"]))
            continue
        if b["depth"] > 1:
            dfs((r,), alpha, b["depth"] - 1, b["probe"], probes, res)
        if len(res.violations) > 5:
            break
    res.sample(f"labels={labels} first={alpha[lo]} depth={b['depth']}")
    return res


# ---------------------------------------------------------------------------------
# All permutations of structured rule sets: a bigger set of rules, every order
# ---------------------------------------------------------------------------------


def chains(tier):
    """Rule sets built so that the gap has to move: cycles and chains with shifts up to
    `S`, with a side rule, every one inserted in every order."""
    sets = []
    # a cycle 0->1->2->0, plus a source for one of them and a rule into a fourth label
    big = (-3, -2, -1, 0, 1, 2, 3, 4) if tier == "thorough" else (-2, -1, 0, 1, 3)
    for s in itertools.product(big, repeat=3):
        base = [(0, (1,), (s[0],)), (1, (2,), (s[1],)), (2, (0,), (s[2],))]
        for extra in (
            [],
            [(0, (), ())],
            [(3, (0, 1), (1, -1))],
            [(3, (0,), (2,)), (1, (3,), (-1,))],
            [(0, (3,), (2,))],
            [(3, (), ()), (1, (3, 0), (-2, 0))],
        ):
            sets.append(base + extra)
    # two independent growth sources with different speeds joined by a product
    mid = (-2, -1, 0, 1, 2) if tier == "thorough" else (-1, 0, 2)
    for s in itertools.product(mid, repeat=4):
        sets.append(
            [
                (0, (0, 1), (s[0], 0)),
                (1, (1,), (s[1],)),
                (1, (2,), (s[2],)),
                (2, (0, 0), (s[3], 1)),
            ]
        )
        sets.append(
            [
                (0, (1, 2), (s[0], s[1])),
                (1, (0,), (s[2],)),
                (2, (), ()),
                (3, (1, 1), (s[3], -s[3])),
            ]
        )
        sets.append(
            [
                (0, (1,), (s[0],)),
                (1, (0,), (s[1],)),
                (0, (2,), (s[2],)),
                (2, (3,), (s[3],)),
            ]
        )
    # finite values: towers  i -> i+1 with positive shifts ending in a class w/o rules
    for s in itertools.product((0, 1, 2, 3), repeat=3):
        sets.append(
            [(0, (1,), (s[0],)), (1, (2,), (s[1],)), (2, (3,), (s[2],)), (0, (2,), (s[1],)),
             (3, (0,), (-1 - sum(s),))]
        )
    out = []
    seen = set()
    for st in sets:
        key = tuple(sorted(set(st)))
        if key not in seen:
            seen.add(key)
            out.append(key)
    return out


def perm_gen(tier):
    sets = chains(tier)
    for i in range(0, len(sets), 20):
        yield {"tier": tier, "range": [i, min(len(sets), i + 20)]}


def perm_run(b):
    res = Result()
    sets = chains(b["tier"])
    for rules in sets[b["range"][0] : b["range"][1]]:
        for perm in itertools.permutations(rules):
            tm = TableMethod()
            labels = (0, 1, 2, 3, 6)
            for i, r in enumerate(perm):
                try:
                    tm.add_rule_key(fkey(r))
                    msg = compare(tm, perm[: i + 1], labels, res, True)
                except Exception as e:
                    msg = f"raised {type(e).__name__}: {e}"
                res.add("transitions")
                if msg:
                    bad(res, perm[: i + 1], msg, True)
                    break
            res.add("executions")
            if len(res.violations) > 5:
                return res
        res.outcome(repr(sorted(lfp(rules).items())))
    res.sample(f"all orders of {sets[b['range'][0]]}")
    return res


# ---------------------------------------------------------------------------------
# The pumping sub-universe and the rule database around the table
# ---------------------------------------------------------------------------------


class FakeStrategy:
    pass


class FakeRule:
    """An integer rule: only what RuleDBForest needs to see."""

    possibly_empty = False

    def __init__(self, rule, reversible):
        self.rule = rule
        self.children = rule[1]
        self.comb_class = rule[0]
        self.reversible = reversible

    def forest_key(self, get_label, is_empty=None):
        return fkey(self.rule)

    def is_reversible(self):
        return self.reversible

    def is_equivalence(self, is_empty=None):
        return False

    def is_two_way(self):
        return self.reversible

    def shifts(self):
        return self.rule[2]


def reverse_int(rule, idx):
    """The reverse of an integer rule with respect to child idx."""
    p, cs, ss = rule
    d = -ss[idx]
    return (
        cs[idx],
        (p,) + cs[:idx] + cs[idx + 1 :],
        (d,) + tuple(s + d for i, s in enumerate(ss) if i != idx),
    )


def sub_gen(tier):
    alpha = alphabet((0, 1, 2), (0, 1, 2), (-1, 0, 1))
    n = len(alpha)
    for i in range(0, n, 6):
        yield {"first": [i, min(n, i + 6)], "depth": 2}
    alpha = alphabet((0, 1, 2), (0, 1), (-1, 1))
    for i in range(0, len(alpha), 2):
        yield {"first": [i, i + 2], "depth": 4 if tier == "thorough" else 3, "unary": True}


def sub_run(b):
    """pumping_subuniverse / stable_subset on every sequence."""
    res = Result()
    alpha = (
        alphabet((0, 1, 2), (0, 1), (-1, 1))
        if b.get("unary")
        else alphabet((0, 1, 2), (0, 1, 2), (-1, 0, 1))
    )
    lo, hi = b["first"]
    for seq in itertools.product(alpha[lo:hi], *[alpha] * (b["depth"] - 1)):
        tm = TableMethod()
        for r in seq:
            tm.add_rule_key(fkey(r))
        want = lfp(seq)
        inf = {k for k, v in want.items() if v is None}
        sub = sorted((k.parent, k.children, k.shifts) for k in tm.pumping_subuniverse())
        ref = sorted(r for r in seq if r[0] in inf and inf.issuperset(r[1]))
        res.add("executions")
        if sub != ref:
            res.violation("subuniverse", f"{seq}: pumping_subuniverse {sub} != {ref}",
                          {"first": [0, 1], "seq": seq, "depth": 0})
        if set(tm.stable_subset()) != inf:
            res.violation("subuniverse", f"{seq}: stable subset {set(tm.stable_subset())} != {inf}",
                          {"first": [0, 1], "seq": seq, "depth": 0})
        res.outcome(len(ref))
    res.sample(f"pumping sub-universe of every sequence starting with {alpha[lo]}")
    return res


SUBCHECKS = {
    "sequences": SubCheck(seq_gen, seq_run),
    "orders": SubCheck(perm_gen, perm_run),
    "subuniverse": SubCheck(sub_gen, sub_run),
}
