"""C11: forest extraction returns a minimal, closed, productive rule set.

tables    the extractor on every small table of integer rules: every set of rules up to a
          size that makes the start class pump, every assignment of the four buckets,
          every insertion order.
universes a real searcher over integer classes: every set of rules up to a size inserted
          in every order into a forest database with and without reverse rules, some
          classes empty; the rules handed out are compared with the keys that the
          harness computes for everything inserted.
searches  the rules handed out after every packet of real searches, likewise.

Oracle: least fixed points (refs.lfp) of sets of keys.
"""

import itertools

from comb_spec_searcher import StrategyPack
from comb_spec_searcher.class_db import ClassDB
from comb_spec_searcher.exception import SpecificationNotFound
from comb_spec_searcher.rule_db.forest import ForestRuleExtractor, RuleDBForest
from comb_spec_searcher.strategies.rule import EquivalenceRule, ReverseRule, VerificationRule
from comb_spec_searcher.strategies.strategy import EmptyStrategy
from comb_spec_searcher.typing import ForestRuleKey, RuleBucket

from mc import ints, refs
from mc import universe as U
from mc.c03 import alphabet, reverse_int
from mc.common import Chooser, RandomSeam, Result, SubCheck, Violation, in_library, short_tb

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of rule tables, buckets and insertion orders on the real extractor, and of the "
             "stop points of real searches, against least fixed points")
NOTE = ("Every extraction within the bounds is executed on the real code; closedness, minimality, uniqueness of the "
        "left hand sides and the preference order are decided with an independent fixed point of rule keys.")
RULE = "every (rule set, bucket assignment, insertion order); outcome = number of rules per bucket extracted"
ASSUMPTIONS = ["values above 3(n+1)S+5 in the reference are infinite (gap argument, n labels, shifts bounded by S)"]

R, N, E, V = RuleBucket.REVERSE, RuleBucket.NORMAL, RuleBucket.EQUIV, RuleBucket.VERIFICATION
_LFP = {}


def productive(rules, root):
    key = (frozenset(rules), root)
    v = _LFP.get(key)
    if v is None:
        if len(_LFP) > 300000:
            _LFP.clear()
        v = _LFP[key] = refs.lfp(key[0]).get(root, 0) is None
    return v


def plain(key):
    return (key[0], tuple(key[1]), tuple(key[2]))


def check_extraction(inserted, needed, root):
    """`inserted`, `needed`: keys (parent, children, shifts, bucket)."""
    needed = [tuple(k) for k in needed]
    if not set(needed) <= set(map(tuple, inserted)):
        raise Violation(f"extracted rules were not inserted: {sorted(set(needed) - set(map(tuple, inserted)), key=repr)}")
    parents = [k[0] for k in needed]
    if len(set(parents)) != len(parents):
        raise Violation(f"two rules for one class in {needed}")
    loose = {c for k in needed for c in k[1]} - set(parents)
    if loose or root not in parents:
        raise Violation(f"no rule for {loose or root} in {needed}")
    if not productive(map(plain, needed), root):
        raise Violation(f"not productive: {needed}")
    for k in needed:
        if productive([plain(q) for q in needed if q is not k], root):
            raise Violation(f"{k} is superfluous in {needed}")
    if any(k[3] is R for k in needed) and productive([plain(k) for k in inserted if k[3] is not R], root):
        raise Violation(f"a reverse rule is used although none is needed: {needed}")


# ----------------------------------------------------------------------------------
# Tables
# ----------------------------------------------------------------------------------


def table_configs(tier):
    """name, labels, arities, shifts, rules, buckets, all orders?"""
    q = [
        ("2 rules", (0, 1), (0, 1, 2), (-1, 0, 1), (1, 2), "RNEV", True),
        ("3 rules", (0, 1), (0, 1, 2), (0, 1), (3,), "RN", True),
        ("3 rules, 4 buckets", (0, 1), (0, 1), (-1, 1, 2), (3,), "RNEV", False),
        ("4 unary rules", (0, 1), (0, 1), (0, 1), (4,), "RN", True),
        ("3 labels", (0, 1, 2), (0, 1), (-1, 1), (4,), "RN", False),
        ("3 labels, products", (0, 1, 2), (0, 2), (0, 1), (3,), "RNEV", False),
    ]
    t = [
        ("2 rules", (0, 1), (0, 1, 2), (-2, -1, 0, 1, 2), (1, 2), "RNEV", True),
        ("3 rules", (0, 1), (0, 1, 2), (-1, 0, 1), (3,), "RNEV", True),
        ("4 unary rules", (0, 1), (0, 1), (-1, 0, 1), (4,), "RNEV", True),
        ("3 labels", (0, 1, 2), (0, 1), (-1, 1), (4,), "RNE", True),
        ("5 unary rules", (0, 1, 2), (0, 1), (1,), (5,), "RN", True),
        ("3 labels, products", (0, 1, 2), (0, 2), (0, 1), (3,), "RNEV", True),
        ("4 rules", (0, 1), (0, 1, 2), (0, 1), (4,), "RN", False),
    ]
    return t if tier == "thorough" else q


BUCKETS = {"R": R, "N": N, "E": E, "V": V}


def table_gen(tier):
    for name, labels, arities, shifts, sizes, buckets, orders in table_configs(tier):
        alpha = alphabet(labels, arities, shifts)
        for k in sizes:
            for i in range(len(alpha) - k + 1):
                yield {
                    "name": name, "labels": labels, "arities": arities, "shifts": shifts, "k": k,
                    "buckets": buckets, "orders": orders, "first": i,
                }


def extract(keys, root):
    db = RuleDBForest()
    for k in keys:
        db.table_method.add_rule_key(ForestRuleKey(*k))
    ex = ForestRuleExtractor(root, db, ClassDB(ints.IntClass), StrategyPack([], [], [], [], "none"))
    ex.check()
    return ex.needed_rules


def one_table(keys, root, res):
    try:
        needed = extract(keys, root)
        check_extraction(keys, needed, root)
    except Violation as e:
        res.violation("extract", f"inserting {[(*k[:3], k[3].name) for k in keys]}: {e}", table_case(keys, root))
        return
    except Exception as e:
        if not in_library(e):
            raise
        res.violation("crash:extract", f"inserting {keys}: {short_tb(e)}", table_case(keys, root))
        return
    res.outcome("".join(sorted(k[3].name[0] for k in needed)))


def table_case(keys, root):
    return {"keys": [[k[0], list(k[1]), list(k[2]), k[3].name] for k in keys], "root": root}


def table_run(b):
    res = Result()
    if "keys" in b:
        keys = [(k[0], tuple(k[1]), tuple(k[2]), RuleBucket[k[3]]) for k in b["keys"]]
        one_table(keys, b["root"], res)
        return res
    alpha = alphabet(tuple(b["labels"]), b["arities"], b["shifts"])
    k = b["k"]
    for rest in itertools.combinations(alpha[b["first"] + 1 :], k - 1):
        rules = (alpha[b["first"]],) + rest
        res.add("states")
        if not productive(rules, 0):
            res.add("not_pumping")
            continue
        orders = itertools.permutations(range(k)) if b["orders"] else (range(k), range(k - 1, -1, -1))
        for order in orders:
            for buckets in itertools.product(b["buckets"], repeat=k):
                one_table([(*rules[i], BUCKETS[buckets[i]]) for i in order], 0, res)
                res.add("executions")
                res.add("transitions", k)
            if len(res.violations) > 5:
                return res
    # the same rule inserted twice, with different buckets
    if k == 2:
        rule = alpha[b["first"]]
        for b1, b2 in itertools.product(BUCKETS.values(), repeat=2):
            for other in alpha:
                if productive((rule, other), 0):
                    one_table([(*rule, b1), (*other, N), (*rule, b2)], 0, res)
                    res.add("executions")
    res.sample(f"{b['name']}: sets of {k} rules starting with {alpha[b['first']]}")
    return res


# ----------------------------------------------------------------------------------
# Keys of real rules
# ----------------------------------------------------------------------------------


def rule_keys(rule, label, empty, reverse):
    """The keys that inserting this rule brings in, computed by the harness."""
    children = tuple(label(c) for c in rule.children)
    eqv = (
        not isinstance(rule, VerificationRule)
        and rule.strategy.can_be_equivalent()
        and sum(not empty(c) for c in rule.children) == 1
    )
    fwd = (label(rule.comb_class), children, tuple(rule.strategy.shifts(rule.comb_class, rule.children)))
    if isinstance(rule, VerificationRule):
        return [(*fwd, V)]
    keys = [(*fwd, E if eqv else N)]
    if reverse and rule.strategy.is_reversible(rule.comb_class):
        for i, c in enumerate(rule.children):
            rev = reverse_int(fwd, i)
            alone = eqv and not empty(c)
            keys.append((*rev, E if alone else R))
    return keys


def handed_out_key(rule, label, empty, shifts):
    """The key of a rule handed out, in terms of the rule of the pack it comes from."""
    if isinstance(rule, EquivalenceRule):
        rule = rule.original_rule
    if isinstance(rule, ReverseRule):
        orig = rule.original_rule
        fwd = (label(orig.comb_class), tuple(label(c) for c in orig.children), tuple(shifts(orig)))
        return reverse_int(fwd, rule.idx)
    return (label(rule.comb_class), tuple(label(c) for c in rule.children), tuple(shifts(rule)))


def check_handed_out(searcher, inserted, reverse):
    """`inserted`: the rules added so far.  Compare with what the database hands out."""
    db, classdb = searcher.ruledb, searcher.classdb
    label = classdb.get_label
    empty = lambda c: c.is_empty()
    root = searcher.start_label
    keys = [k for rule in inserted for k in rule_keys(rule, label, empty, reverse)]
    # the database itself brings in the empty rules of empty children
    keys += [
        (label(c), (), (), V) for rule in inserted if rule.possibly_empty for c in rule.children if empty(c)
    ]
    pumping = productive(map(plain, keys), root)
    try:
        rules = list(db.get_specification_rules())
    except SpecificationNotFound:
        if pumping:
            raise Violation("no specification although the start class pumps") from None
        return None
    if not pumping:
        raise Violation("a specification although the start class does not pump")
    shifts = lambda rule: rule.strategy.shifts(rule.comb_class, rule.children)
    by_plain = {}
    for k in keys:
        by_plain.setdefault(plain(k), []).append(k[3])
    needed = []
    for rule in rules:
        key = handed_out_key(rule, label, empty, shifts)
        if key not in by_plain:
            raise Violation(f"a rule that was not inserted: {key} {rule}")
        if isinstance(rule.strategy, EmptyStrategy):
            continue
        # the bucket of a rule follows from the rule, up to ties
        opts = by_plain[key]
        if isinstance(rule, VerificationRule):
            opts = [b for b in opts if b is V]
        if not opts:
            raise Violation(f"{key} was not inserted as a verification rule")
        needed.append((*key, min(opts, key=(V, E, N, R).index)))
        # the concrete rule
        base = rule
        while True:
            if isinstance(base, (EquivalenceRule, ReverseRule)):
                base = base.original_rule
            else:
                break
        again = base.strategy(base.comb_class)
        if again is None or tuple(again.children) != tuple(base.children):
            raise Violation(f"not a rule of its strategy: {base}")
    # the empty classes that are mentioned have the empty rule
    for label_ in {root}.union(*(k[1] for k in needed)) - {k[0] for k in needed}:
        if classdb.get_class(label_).is_empty():
            if (label_, (), ()) not in by_plain:
                raise Violation(f"no rule for the empty class {label_}")
            needed.append((label_, (), (), V))
    check_extraction(keys, needed, root)
    return needed


def recording(ruledb, inserted):
    """The rule database, noting every rule added."""
    add = ruledb.add

    def record(start, ends, rule):
        inserted.append(rule)
        return add(start, ends, rule)

    ruledb.add = record
    return ruledb


# ----------------------------------------------------------------------------------
# Integer universes through the database
# ----------------------------------------------------------------------------------


def universe_configs(tier):
    """labels, (arity -> list of shift tuples), empties, sizes, all orders?"""
    q = [
        ("2 labels", (0, 1), {0: [()], 1: [(0,), (1,)], 2: [(0, 1), (1, 1)]}, (-1,), (2,), True),
        ("3 rules", (0, 1), {0: [()], 1: [(0,), (1,)], 2: [(0, 1)]}, (), (3,), True),
        ("3 labels", (0, 1, 2), {0: [()], 1: [(0,)], 2: [(0, 0)]}, (-1,), (2,), True),
        ("4 unary rules", (0, 1, 2), {0: [()], 1: [(0,)]}, (), (4,), False),
    ]
    t = [
        ("2 labels", (0, 1), {0: [()], 1: [(0,), (1,), (2,)], 2: [(0, 0), (0, 1), (1, 1)]}, (-1, -2), (2,), True),
        ("3 rules", (0, 1), {0: [()], 1: [(0,), (1,)], 2: [(0, 1), (1, 1)]}, (-1,), (3,), True),
        ("3 labels", (0, 1, 2), {0: [()], 1: [(0,), (1,)], 2: [(0, 0), (0, 1)]}, (), (3,), False),
        ("4 unary rules", (0, 1, 2), {0: [()], 1: [(0,), (1,)]}, (), (4,), True),
    ]
    return t if tier == "thorough" else q


def int_rules(labels, shapes, empties):
    out = []
    for p in labels:
        for k, shifts in sorted(shapes.items()):
            if k == 0:
                out.append((p,))
                continue
            for kids in itertools.product(labels + tuple(empties), repeat=k):
                if kids == (p,) or all(c < 0 for c in kids):
                    continue
                for s in shifts:
                    for two_way in (False, True):
                        out.append((p, kids, two_way, s))
    return out


def universe_gen(tier):
    for name, labels, shapes, empties, sizes, orders in universe_configs(tier):
        rules = int_rules(labels, shapes, empties)
        for k in sizes:
            for i in range(len(rules) - k + 1):
                yield {
                    "name": name, "labels": labels, "shapes": [[n, s] for n, s in shapes.items()], "empties": empties,
                    "k": k, "orders": orders, "first": i,
                }


def run_universe(rules, order, reverse, res):
    strats = [ints.strategy(r) for r in rules]
    inserted = []
    searcher = ints.make_searcher(strats, lambda: recording(RuleDBForest(reverse=reverse), inserted), n=3)
    case = {"rules": rules, "order": list(order), "reverse": reverse}
    for i in order:
        try:
            ints.insert(searcher, strats[i])
            needed = check_handed_out(searcher, inserted, reverse)
        except Violation as e:
            res.violation("handed_out", f"{[rules[j] for j in order]} reverse={reverse}: {e}", case)
            return
        except Exception as e:
            if not in_library(e):
                raise
            res.violation("crash:universe", f"{[rules[j] for j in order]} reverse={reverse}: {short_tb(e)}", case)
            return
        res.add("transitions")
        if needed is not None:
            res.add("specifications")
            res.outcome("".join(sorted(k[3].name[0] for k in needed)))
    res.add("executions")


def pumps(rules, reverse):
    keys = []
    for r in rules:
        fwd = (r[0], tuple(r[1]), tuple(r[3])) if len(r) > 1 else (r[0], (), ())
        keys.append(fwd)
        if len(r) > 1:
            keys += [(c, (), ()) for c in r[1] if c < 0]
            if reverse and r[2]:
                keys += [reverse_int(fwd, i) for i in range(len(r[1]))]
    return productive(keys, 0)


def universe_run(b):
    res = Result()
    if "rules" in b:
        rules = [tuple(tuple(x) if isinstance(x, list) else x for x in r) for r in b["rules"]]
        run_universe(rules, b["order"], b["reverse"], res)
        return res
    shapes = {n: [tuple(x) for x in s] for n, s in b["shapes"]}
    alpha = int_rules(tuple(b["labels"]), shapes, b["empties"])
    k = b["k"]
    for rest in itertools.combinations(alpha[b["first"] + 1 :], k - 1):
        rules = (alpha[b["first"]],) + rest
        res.add("states")
        for reverse in (True, False):
            if not pumps(rules, reverse):
                res.add("not_pumping")
                continue
            for order in itertools.permutations(range(k)) if b["orders"] else (range(k), range(k - 1, -1, -1)):
                run_universe(rules, order, reverse, res)
        if len(res.violations) > 5:
            break
    res.sample(f"{b['name']}: sets of {k} rules starting with {alpha[b['first']]}")
    return res


# ----------------------------------------------------------------------------------
# Real searches
# ----------------------------------------------------------------------------------


def search_gen(tier):
    for cfg in U.configs(tier):
        if cfg["db"] in ("forest", "forest0"):
            yield {"cfg": cfg, "tier": tier}


def search_run(b):
    res = Result()
    cfg = b["cfg"]
    inserted = []
    searcher = U.make_searcher(cfg, ruledb=recording(U.DBS[cfg["db"]](), inserted))
    reverse = cfg["db"] == "forest"
    limit = 12 if b["tier"] == "quick" else 80
    last = None

    def check(number):
        nonlocal last
        if len(inserted) == last:
            return
        last = len(inserted)
        res.add("states")
        try:
            needed = check_handed_out(searcher, inserted, reverse)
        except Violation as e:
            res.violation("search", f"{cfg} after {number} packets: {e}", b)
            return
        except Exception as e:
            if not in_library(e):
                raise
            res.violation("crash:search", f"{cfg} after {number} packets: {short_tb(e)}", b)
            return
        res.add("executions")
        if needed is not None:
            res.add("specifications")
            res.outcome("".join(sorted(k[3].name[0] for k in needed)))

    def hook(number, wp):
        clock.packet(number, wp)
        if number is None or number - 1 <= limit:
            check(number)

    clock = U.SearchClock()
    searcher.classqueue.hook = hook
    try:
        with clock, RandomSeam(Chooser()):
            spec = searcher.auto_search(max_expansion_time=None)
    except SpecificationNotFound:
        pass
    searcher.classqueue.hook = None
    check("all")
    res.add("transitions", len(inserted))
    res.sample(cfg)
    return res


SUBCHECKS = {
    "tables": SubCheck(table_gen, table_run, table_run),
    "universes": SubCheck(universe_gen, universe_run, universe_run),
    "searches": SubCheck(search_gen, search_run, search_run),
}
