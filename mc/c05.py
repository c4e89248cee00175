"""C05: pruning based detection and proof tree search are exact.

Alphabet: rules over a few labels (dictionaries of rules; histories of insertions into
the real rule databases with one-way/two-way unary rules, verifications and empty
children); the choices of the random source inside the finders.
Bound: every dictionary / every history within the bounds below, every choice sequence.
Oracle: greatest fixed point, bottom-up closure, brute force of all proof trees.
"""

import itertools

from mc import ints, refs
from mc.common import Chooser, Clock, RandomSeam, Result, SubCheck, explore_choices, in_library, short_tb

from comb_spec_searcher import tree_searcher
from comb_spec_searcher.exception import SpecificationNotFound
from comb_spec_searcher.rule_db import RuleDB, RuleDBForgetStrategy
from comb_spec_searcher.strategies.rule import AbstractRule

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of small rule dictionaries, rule histories and random choices on the real pruning "
             "and tree finders, against fixed points and brute force over all proof trees")
NOTE = ("Every rule dictionary and rule history within the bounds, every outcome of the random source (up to a "
        "deviation bound where it repeats), judged by naive references.")
RULE = "every rule set within the bounds; outcome = surviving labels / tree sizes"
ASSUMPTIONS = ["the size of a proof tree is its number of nodes (a repeated label is a leaf)"]


class Bad(Exception):
    pass


def rdict(rules):
    d = {}
    for s, ends in rules:
        d.setdefault(s, set()).add(tuple(sorted(ends)))
    return d


def undict(d):
    return {(s, tuple(e)) for s, ends in d.items() for e in ends}


# ---------------------------------------------------------------------------------
# Trees
# ---------------------------------------------------------------------------------


def tree_nodes(node):
    todo = [node]
    count = 0
    while todo:
        x = todo.pop()
        count += 1
        if count > 5000:
            raise Bad("the proof tree is infinite")
        yield x
        todo.extend(x.children)


def judge_tree(node, rules, root, leafs=(), full=True):
    """Uses only recorded rules, one rule per label, no label without a rule.  Returns
    the assignment label -> children."""
    if node is None:
        raise Bad("no tree returned")
    if node.label != root:
        raise Bad(f"the tree {node} is not rooted at {root}")
    chosen = {}
    leaf_labels = set()
    n = 0
    for x in tree_nodes(node):
        n += 1
        kids = tuple(sorted(c.label for c in x.children))
        if not kids:
            leaf_labels.add(x.label)
            continue
        if (x.label, kids) not in rules:
            raise Bad(f"tree {node}: rule {x.label} -> {kids} was never recorded")
        if chosen.setdefault(x.label, kids) != kids:
            raise Bad(f"tree {node}: label {x.label} has rules {chosen[x.label]} and {kids}")
    for lab in leaf_labels:
        if lab in chosen:
            continue
        if (lab, ()) not in rules:
            raise Bad(f"tree {node}: label {lab} has no rule")
        chosen[lab] = ()
    return chosen


def tree_len(chosen):
    return 1 + sum(len(k) for k in chosen.values())


def all_trees(rules, root):
    return [dict(t) for t in refs.proof_trees(rules, root)]


def no_bad_recursion(chosen, root):
    """Bottom-up derivation, recursion allowed only to the root."""
    done = set()
    while True:
        new = {a for a, ks in chosen.items() if a not in done and all(k in done or k == root for k in ks)}
        if not new:
            return set(chosen) <= done
        done |= new


# ---------------------------------------------------------------------------------
# Rule dictionaries
# ---------------------------------------------------------------------------------


def rule_alphabet(n, arities, empty=True):
    out = []
    for p in range(n):
        for k in arities:
            if k == 0:
                out.append((p, ()))
            else:
                out += [(p, c) for c in itertools.combinations_with_replacement(range(n), k)]
    return out


def choose_all(f, dev=None, cap=3000):
    """f(chooser-seamed) for every choice sequence."""

    def run(chooser):
        with RandomSeam(chooser):
            return f()

    m = 0
    for choices, _, r in explore_choices(run, dev):
        yield choices, r
        m += 1
        if m > cap:
            return


def check_dict(rules, root, res, n_labels, tier):
    """Every function of tree_searcher on one rule set."""
    rules = set(rules)
    # prune
    d = rdict(rules)
    tree_searcher.prune(d)
    alive = refs.gfp_prune(rules)
    if {k for k, v in d.items()} != alive:
        raise Bad(f"prune keeps {sorted(d)}, greatest fixed point {sorted(alive)}")
    want = {(s, e) for s, e in rules if s in alive and all(x in alive for x in e)}
    if undict(d) != want:
        raise Bad(f"prune keeps rules {sorted(undict(d))}, should be {sorted(want)}")
    # iterative prune
    source = rdict(rules)
    it = tree_searcher.iterative_prune(source, root=root)
    derivable, ok = refs.bottom_up(rules, root)
    if {k for k, v in it.items() if v} != derivable:
        raise Bad(f"iterative_prune gives {sorted(it)}, derivable {sorted(derivable)}")
    want_it = {(s, e) for s, e in rules if all(x in derivable or x == root for x in e)}
    if not undict(it) <= rules or not want_it >= undict(it):
        raise Bad(f"iterative_prune gives rules {sorted(undict(it))}, derivable {sorted(want_it)}")
    res.outcome(f"{len(alive)}/{len(derivable)}/{ok}")
    # iterative finder, on the pruned dictionary and on all rules
    for src in (rdict(undict(it)), rdict(rules)):
        try:
            tree = tree_searcher.iterative_proof_tree_finder(src, root)
        except ValueError:
            tree = None
        if (tree is not None) != ok:
            raise Bad(f"iterative_proof_tree_finder: {tree}, derivable {ok}")
        if tree is not None:
            chosen = judge_tree(tree, rules, root)
            if not no_bad_recursion(chosen, root):
                raise Bad(f"iterative tree {tree} recurses to something else than the root")
        res.add("trees")
    if ok:
        tree = tree_searcher.iterative_proof_tree_bfs(rdict(undict(it)), root)
        chosen = judge_tree(tree, rules, root)
        if not no_bad_recursion(chosen, root):
            raise Bad(f"iterative_proof_tree_bfs: {tree} recurses to something else than the root")
        res.add("trees")
    if root not in alive:
        return
    trees = all_trees(want, root)
    sizes = sorted(tree_len(t) for t in trees)
    smallest = sizes[0]
    assignments = {tuple(sorted(t.items())) for t in trees}
    # generators
    for name in ("proof_tree_generator_dfs", "proof_tree_generator_bfs"):
        found = set()
        for i, node in enumerate(getattr(tree_searcher, name)(rdict(want), root)):
            chosen = judge_tree(node, want, root)
            found.add(tuple(sorted(chosen.items())))
            res.add("trees")
            if i > (400 if tier == 'thorough' else 60):
                break
        if not found <= assignments or not found:
            raise Bad(f"{name} yields {sorted(found - assignments)[:3]}, which are no proof trees")
    for maximum in range(0, smallest + 3):
        node = next(tree_searcher.proof_tree_generator_dfs(rdict(want), root, maximum=maximum), None)
        if (node is not None) != (maximum >= smallest):
            raise Bad(f"proof_tree_generator_dfs(maximum={maximum}) gives {node}, smallest size {smallest}")
        if node is not None:
            chosen = judge_tree(node, want, root)
            if tree_len(chosen) > maximum:
                raise Bad(f"proof_tree_generator_dfs(maximum={maximum}) gives {node} of size {len(node)}")
            res.add("trees")
    # random ones, every choice
    deep = tier == "thorough"
    dev = None if len(want) <= 3 else 2 if deep else 1
    cap = 600 if deep else 60
    for choices, node in choose_all(lambda: tree_searcher.random_proof_tree(rdict(want), root), dev, cap):
        chosen = judge_tree(node, want, root)
        res.add("trees")
    for choices, (seen, node) in choose_all(lambda: tree_searcher.proof_tree_dfs(rdict(want), root), dev, cap):
        chosen = judge_tree(node, want, root)
        res.add("trees")
    # a second look of the minimising finder, under a controlled clock
    for looks in (0, 1, 2) if deep else (1,):
        def run():
            with Clock(1.0):
                return tree_searcher.smallish_random_proof_tree(rdict(want), root, looks + 0.5)
        for choices, node in choose_all(run, 2 if deep else 1, 60 if deep else 12):
            judge_tree(node, want, root)
            res.add("trees")


DICTS = {
    # labels, arities, rules in the dictionary
    "quick": [(2, (0, 1, 2), 6), (3, (0, 1, 2), 4), (3, (0, 1), 5), (2, (0, 2, 3), 4), (4, (0, 2), 3)],
    "thorough": [(2, (0, 1, 2), 8), (3, (0, 1, 2), 5), (3, (0, 1), 8), (2, (0, 2, 3), 5), (4, (0, 1), 5),
                 (4, (0, 2), 4), (3, (0, 2), 6)],
}


def dict_gen(tier):
    for n, ar, size in DICTS[tier]:
        alpha = rule_alphabet(n, ar)
        for i in range(len(alpha)):
            if size > 3:
                for j in range(i, len(alpha)):
                    yield {"cfg": [n, ar, size], "first": [i, j], "tier": tier}
            else:
                yield {"cfg": [n, ar, size], "first": [i], "tier": tier}
    for i in range(0, len(structured(tier)), 8):
        yield {"structured": [i, i + 8], "tier": tier}


def structured(tier):
    """Bigger rule sets with many proof trees: several rules per label, sharing."""
    out = []
    base = [
        (0, (1, 2)), (0, (1, 1)), (0, (2, 2, 3)), (1, (2,)), (1, (2, 3)), (1, (0, 3)), (2, (3, 3)), (2, (0,)),
        (2, (1, 1)), (3, ()), (3, (0, 1)), (2, ()),
    ]
    for k in (len(base), len(base) - 1, len(base) - 2) + ((len(base) - 3, len(base) - 4) if tier == "thorough" else ()):
        for c in itertools.combinations(base, k):
            out.append(c)
    # different rules for one label in different branches of the tree
    base = [
        (0, (1, 2)), (1, (3, 3)), (2, (3, 4)), (3, (4,)), (3, (5, 5)), (3, ()), (4, (5,)), (4, (3, 5)), (5, ()),
        (4, (0, 0)), (5, (4,)),
    ]
    for k in (len(base), len(base) - 1, len(base) - 2):
        for c in itertools.combinations(base, k):
            out.append(c)
    return out


def dict_run(b):
    res = Result()
    if "rules" in b:
        sets = [tuple((s, tuple(e)) for s, e in b["rules"])]
    elif "structured" in b:
        sets = structured(b["tier"])[b["structured"][0]: b["structured"][1]]
    else:
        n, ar, size = b["cfg"]
        alpha = rule_alphabet(n, ar)
        first = b["first"]

        def gen():
            if len(first) == 2 and first[0] == first[1]:
                # all sets with fewer than two elements
                yield (alpha[first[0]],)
                return
            head = tuple(alpha[i] for i in first)
            for k in range(0, size - len(head) + 1):
                for rest in itertools.combinations(alpha[first[-1] + 1:], k):
                    yield head + rest

        sets = gen()
    for rules in sets:
        res.add("executions")
        try:
            check_dict(rules, 0, res, 4, b.get("tier", "quick"))
        except Exception as e:
            if not isinstance(e, Bad) and not in_library(e):
                raise
            msg = str(e) if isinstance(e, Bad) else short_tb(e)
            res.violation("trees", f"rules {sorted(rules)}, root 0: {msg}", {"rules": sorted(rules)})
            if len(res.violations) > 5:
                break
    res.sample(f"{b}")
    return res


# ---------------------------------------------------------------------------------
# Histories of the rule database
# ---------------------------------------------------------------------------------


def spec_keys(rules, rep, label):
    """The rules of an extracted specification as (representative, sorted
    representatives), without the inner equivalences."""
    out = {}
    raw = []
    for rule in rules:
        p = label(rule.comb_class)
        kids = tuple(sorted(label(c) for c in rule.children if not c.is_empty()))
        raw.append((p, kids))
        if len(kids) == 1 and rep[p] == rep[kids[0]]:
            continue
        key = (rep[p], tuple(sorted(rep[k] for k in kids)))
        if out.setdefault(key[0], key[1]) != key[1]:
            raise Bad(f"two rules for the class of {p}: {out[key[0]]} and {key[1]}")
    return out, raw


def check_db(searcher, model, root, iterative, res, history):
    db = searcher.ruledb
    rep = model.classes()
    eqv = model.eqv_rules(rep)
    r = rep[root]
    if iterative:
        alive, want = refs.bottom_up(eqv, r)
    else:
        alive = refs.gfp_prune(eqv)
        want = r in alive
    got = db.has_specification()
    if got != want:
        raise Bad(f"has_specification() = {got}, should be {want}")
    if not iterative:
        for lab in model.labels:
            if db.is_verified(lab) != (rep[lab] in alive):
                raise Bad(f"is_verified({lab}) = {db.is_verified(lab)}, surviving {sorted(alive)} (classes {rep})")
    res.outcome(f"{want}/{len(alive)}/{len(set(rep.values()))}")
    if not want:
        try:
            with Clock(), RandomSeam(Chooser()):
                list(db.get_specification_rules(minimization_time_limit=0))
        except SpecificationNotFound:
            return
        raise Bad("rules handed out although there is no specification")
    label = searcher.classdb.get_label
    good = {(s, e) for s, e in eqv if s in alive and all(x in alive for x in e)} if not iterative else eqv

    def judge(rules, smallest=None):
        chosen, raw = spec_keys(rules, rep, label)
        for s, e in chosen.items():
            if (s, e) not in eqv:
                raise Bad(f"rule {s} -> {e} was never recorded (rules up to equivalence {sorted(eqv)})")
        mentioned = {r} | {x for e in chosen.values() for x in e}
        if mentioned != set(chosen):
            raise Bad(f"classes {sorted(mentioned ^ set(chosen))} without a rule or not needed: {chosen}")
        lhs = [p for p, _ in raw]
        if len(set(lhs)) != len(lhs):
            raise Bad(f"two rules for one class: {raw}")
        if {root} | {k for _, ks in raw for k in ks} != set(lhs):
            raise Bad(f"left and right hand sides differ: {raw}, start class {root}")
        if smallest is not None and tree_len(chosen) != smallest:
            raise Bad(f"'smallest' gives {chosen} of size {tree_len(chosen)}, there is one of size {smallest}")
        if iterative and not no_bad_recursion(chosen, r):
            raise Bad(f"iterative specification {chosen} recurses to something else than the start class")

    def rules(**kw):
        with Clock():
            return list(db.get_specification_rules(minimization_time_limit=0, **kw))

    if iterative:
        with RandomSeam(Chooser()):
            judge(rules())
            res.add("trees")
        return
    for choices, rs in choose_all(rules, 2, 40):
        judge(rs)
        res.add("trees")
    trees = all_trees(good, r)
    small = min(map(tree_len, trees))
    for choices, rs in choose_all(lambda: rules(smallest=True), 1, 12):
        judge(rs, small)
        res.add("trees")


def db_alphabet(kind):
    if kind == "mixed3":
        out = [(0,), (1,), (2,)]
        for a in range(3):
            for b in range(3):
                if a != b:
                    out += [(a, (b,), True), (a, (b,), False)]
        out += [(0, (1, 2), True), (0, (0, 1), True), (1, (0, 2), True), (1, (1, 2), False), (2, (0, 0), True),
                (2, (0, 1), False), (0, (-1, 2), True), (1, (-1, -2), True), (1, (2, -1), False), (2, (1, 1), True)]
        return 3, out
    if kind == "eqv4":
        out = [(3,)]
        for a in range(4):
            for b in range(4):
                if a != b:
                    out.append((a, (b,), False))
        out += [(0, (1,), True), (1, (2, 3), True), (2, (0, 3), True), (3, (2, 2), True), (0, (3, 3), True)]
        return 4, out
    if kind == "two2":
        out = [(0,), (1,), (0, (1,), True), (1, (0,), True), (0, (1,), False), (1, (0,), False), (0, (0, 1), True),
               (1, (1, 1), True), (1, (0, 0), True), (0, (-1, 1), False), (0, (0,), True), (0, (-1, 0), True),
               (1, (-1,), True)]
        return 2, out
    raise KeyError(kind)


DBS = {
    "quick": [("two2", 3, 1), ("mixed3", 3, 1), ("eqv4", 3, 2)],
    "thorough": [("two2", 6, 1), ("mixed3", 4, 1), ("eqv4", 4, 2)],
}


def db_gen(tier):
    for kind, depth, _ in DBS[tier]:
        n, alpha = db_alphabet(kind)
        for i in range(len(alpha)):
            for iterative in (False, True):
                for root in ((0,) if kind != "eqv4" else (0, 1)):
                    for ask in (False, True):
                        yield {"kind": kind, "depth": depth, "first": i, "iterative": iterative, "root": root,
                               "ask": ask}


def db_history(kind, seq, iterative, root, ask, res):
    n, alpha = db_alphabet(kind)
    searcher = ints.make_searcher([], RuleDB, n, root, iterative)
    model = ints.Model(range(n))
    for j, i in enumerate(seq):
        ints.insert(searcher, ints.strategy(alpha[i]))
        model.add(alpha[i])
        if ask and j + 1 < len(seq):
            searcher.ruledb.has_specification()
    check_db(searcher, model, root, iterative, res, seq)


def db_one(kind, seq, iterative, root, ask, res):
    res.add("executions")
    res.add("transitions", len(seq))
    try:
        db_history(kind, seq, iterative, root, ask, res)
    except Exception as e:
        if not isinstance(e, Bad) and not in_library(e):
            raise
        _, alpha = db_alphabet(kind)
        msg = str(e) if isinstance(e, Bad) else short_tb(e)
        res.violation(
            "ruledb",
            f"rules {[alpha[i] for i in seq]}, root {root}, iterative {iterative}, asked after each insertion {ask}: {msg}",
            {"kind": kind, "seq": list(seq), "iterative": iterative, "root": root, "ask": ask},
        )


def db_run(b):
    res = Result()
    if "seq" in b:
        db_one(b["kind"], tuple(b["seq"]), b["iterative"], b["root"], b["ask"], res)
        return res
    n, alpha = db_alphabet(b["kind"])
    depths = range(1, b["depth"] + 1) if not b["ask"] else range(2, b["depth"] + 1)
    for depth in depths:
        for rest in itertools.product(range(len(alpha)), repeat=depth - 1):
            db_one(b["kind"], (b["first"],) + rest, b["iterative"], b["root"], b["ask"], res)
            if len(res.violations) > 5:
                return res
    res.sample(f"histories of {b['kind']} starting with {alpha[b['first']]}, iterative={b['iterative']}")
    return res


SUBCHECKS = {
    "dictionaries": SubCheck(dict_gen, dict_run, None, 900),
    "histories": SubCheck(db_gen, db_run, None, 900),
}
BOUNDS = {t: f"dictionaries {DICTS[t]}, histories {DBS[t]}" for t in DICTS}
