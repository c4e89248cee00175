"""C06: equivalence classes are exactly the strongly connected components.

Alphabet: add a two-way edge, add a one-way edge, mark verified, ask everything,
connect the cycles.  Bound: every sequence up to a length over few labels, every
insertion order of every small digraph, every integer rule history on the database.
Oracle: reachability by transitive closure.
"""

import itertools

from mc import ints
from mc.common import Result, SubCheck, in_library, short_tb

from comb_spec_searcher.equiv_db import EquivalenceDB
from comb_spec_searcher.rule_db import RuleDB, RuleDBForgetStrategy

LEVEL = "model_checking"
TECHNIQUE = "stateless exhaustive exploration of edge/verify/query sequences on the real EquivalenceDB, against reachability"
NOTE = ("Every sequence of operations within the bounds is replayed on the real object and compared with strongly "
        "connected components computed by transitive closure.")
RULE = "every operation sequence within the bounds; outcome = the partition and verified set reached"
ASSUMPTIONS = [
    "one way cycles are only required to be merged once connect_cycles has been called; before that the answer has to "
    "be sound and contain the two-way components"
]


def closure(n, edges):
    reach = [1 << i for i in range(n)]
    changed = True
    while changed:
        changed = False
        for a, b in edges:
            new = reach[a] | reach[b]
            for i in range(n):
                if reach[i] >> a & 1 and reach[i] | reach[b] != reach[i]:
                    reach[i] |= reach[b]
                    changed = True
    return reach


def apply_op(db, op):
    k = op[0]
    if k == "2":
        db.add_two_way_edge(op[1], op[2])
    elif k == "1":
        db.add_one_way_edge(op[1], op[2])
    elif k == "v":
        db.set_verified(op[1])
    elif k == "c":
        db.connect_cycles()
    elif k == "q":
        for i in op[1:]:
            db.is_verified(i)
            db[i]
    else:
        raise ValueError(op)


def paths_ok(db, n, edges):
    for a in range(n):
        for b in range(n):
            if db.equivalent(a, b):
                path = tuple(db.find_path(a, b))
                if not path or path[0] != a or path[-1] != b:
                    return f"path {path} from {a} to {b}"
                for e in zip(path, path[1:]):
                    if e not in edges:
                        return f"path {path} from {a} to {b} uses {e}, which was not recorded"
    return None


def check(ops, n):
    """Replay and compare; returns a message or None, and the outcome."""
    db = EquivalenceDB()
    edges, two, marked = set(), set(), set()
    for op in ops:
        apply_op(db, op)
        if op[0] in "12" and op[1] != op[2]:
            edges.add((op[1], op[2]))
            if op[0] == "2":
                edges.add((op[2], op[1]))
                two |= {(op[1], op[2]), (op[2], op[1])}
        elif op[0] == "v":
            marked.add(op[1])
    reach = closure(n, edges)
    sure = closure(n, two)
    # answers at any moment: sound, and the two-way components are there
    for a in range(n):
        for b in range(a + 1, n):
            e = db.equivalent(a, b)
            if e and not (reach[a] >> b & 1 and reach[b] >> a & 1):
                return f"{a} = {b} reported but they do not reach each other", None
            if not e and sure[a] >> b & 1:
                return f"{a} = {b} not reported although two-way edges connect them", None
        ver = db.is_verified(a)
        want = any(db.equivalent(a, m) for m in marked)
        if ver != want:
            return f"is_verified({a}) = {ver} with {sorted(marked)} marked (before connecting)", None
    msg = paths_ok(db, n, edges)
    if msg:
        return msg + " (before connecting)", None
    db.connect_cycles()
    for a in range(n):
        for b in range(n):
            want = bool(reach[a] >> b & 1 and reach[b] >> a & 1)
            if db.equivalent(a, b) != want:
                return f"equivalent({a}, {b}) = {not want} after connect_cycles", None
            if (db[a] == db[b]) != want:
                return f"names of {a} and {b} after connect_cycles", None
    for a in range(n):
        want = any(reach[a] >> m & 1 and reach[m] >> a & 1 for m in marked)
        if db.is_verified(a) != want:
            return f"is_verified({a}) = {not want} after connect_cycles, {sorted(marked)} marked", None
        s = {b for b in range(n) if reach[a] >> b & 1 and reach[b] >> a & 1}
        if set(db.equivalent_set(a)) != s:
            return f"equivalent_set({a}) = {db.equivalent_set(a)}, class {s}", None
    msg = paths_ok(db, n, edges)
    if msg:
        return msg, None
    part = tuple(
        min(b for b in range(n) if reach[a] >> b & 1 and reach[b] >> a & 1) for a in range(n)
    )
    # connecting and asking again changes nothing
    db.connect_cycles()
    for a in range(n):
        for b in range(n):
            if db.equivalent(a, b) != (part[a] == part[b]):
                return "a second connect_cycles changed the classes", None
    return None, (part, tuple(sorted({part[m] for m in marked})))


def judge(ops, n, res):
    try:
        msg, out = check(ops, n)
    except Exception as e:
        if not in_library(e):
            raise
        msg, out = short_tb(e), None
    res.add("executions")
    res.add("transitions", len(ops))
    if msg:
        res.violation("equivalence", f"after {list(ops)}: {msg}", {"n": n, "ops": [list(o) for o in ops]})
    else:
        res.outcome(repr(out))
    return msg


def alphabet(n, with_query=True, asym=True):
    two = [("2", a, b) for a in range(n) for b in range(n) if (a != b if asym else a < b)]
    one = [("1", a, b) for a in range(n) for b in range(n) if a != b]
    out = two + one + [("v", a) for a in range(n)] + [("c",)]
    if with_query:
        out.append(("q",) + tuple(range(n)))
    return out


SEQ = {
    # (labels, length, both orders of a two way edge, alphabet filter)
    "quick": [(2, 5, True, ""), (3, 4, True, ""), (4, 3, True, ""), (5, 3, False, "12c"), (3, 5, False, "1vc")],
    "thorough": [(2, 6, True, ""), (3, 5, True, ""), (4, 4, True, ""), (5, 4, False, "12c"), (3, 7, False, "1c"),
                 (3, 6, False, "1vc"), (4, 5, False, "2vc"), (4, 5, False, "1v")],
}


def seq_alpha(cfg):
    n, length, asym, only = cfg
    alpha = alphabet(n, asym=asym)
    if only:
        alpha = [o for o in alpha if o[0] in only]
    return alpha


def seq_gen(tier):
    for cfg in SEQ[tier]:
        alpha = seq_alpha(cfg)
        for i in range(len(alpha)):
            if tier == "thorough" and cfg[1] > 3:
                for j in range(len(alpha)):
                    yield {"cfg": cfg, "first": [i, j]}
            else:
                yield {"cfg": cfg, "first": [i]}


def seq_run(b):
    res = Result()
    cfg = b["cfg"]
    alpha = seq_alpha(cfg)
    first = tuple(alpha[i] for i in b["first"])
    for rest in itertools.product(alpha, repeat=cfg[1] - len(first)):
        if judge(first + rest, cfg[0], res) and len(res.violations) > 5:
            break
    # the shorter ones
    if b["first"] in ([0], [0, 0]):
        for k in range(1, cfg[1]):
            for ops in itertools.product(alpha, repeat=k):
                judge(ops, cfg[0], res)
            if cfg[1] - k <= 1 or len(alpha) ** k > 20000:
                break
    res.sample(f"labels={cfg[0]} all sequences of length {cfg[1]} starting with {first}")
    return res


GRAPHS = {
    "quick": [(3, 6, False), (4, 4, False), (5, 3, True), (4, 3, True)],
    "thorough": [(3, 6, True), (4, 5, True), (4, 6, False), (5, 4, False), (5, 4, True), (6, 3, True)],
}


def graph_gen(tier):
    """Digraphs of one-way edges in every insertion order; with a mixture of a two-way
    edge and a mark put at every position when `mix`."""
    for n, m, mix in GRAPHS[tier]:
        edges = [("1", a, b) for a in range(n) for b in range(n) if a != b]
        for i in range(len(edges)):
            yield {"n": n, "m": m, "mix": mix, "first": i}


def graph_run(b):
    res = Result()
    n, m, mix = b["n"], b["m"], b["mix"]
    edges = [("1", x, y) for x in range(n) for y in range(n) if x != y]
    first = edges[b["first"]]
    # relabelling: only sets whose labels are used from 0 upwards in order of appearance
    # when nothing else distinguishes them would merge heavier roots; all labels kept
    others = [e for e in edges if e != first]
    for k in range(m):
        for rest in itertools.permutations(others, k):
            ops = (first,) + rest
            if judge(ops, n, res) and len(res.violations) > 5:
                return res
            if mix and k == m - 1:
                for extra in ([("2", x, y) for x in range(n) for y in range(x + 1, n)]
                              + [("v", x) for x in range(n)] + [("c",)]):
                    for pos in range(len(ops)):
                        if judge(ops[:pos] + (extra,) + ops[pos:], n, res) and len(res.violations) > 5:
                            return res
    res.sample(f"digraphs on {n} labels with {m} edges in every order, first {first}")
    return res


# ---------------------------------------------------------------------------------
# Structured large cases: long cycles, chords, cycles sharing a vertex, in rotations
# ---------------------------------------------------------------------------------


def shapes(tier):
    out = []
    big = 9 if tier == "thorough" else 7
    for n in range(3, big):
        cyc = [("1", i, (i + 1) % n) for i in range(n)]
        out.append((n, cyc))
        for a in range(n):
            for b2 in range(n):
                if a != b2:
                    out.append((n, cyc + [("1", a, b2)]))
                    out.append((n, cyc[:-1] + [("2", a, b2)]))
    for n in range(5, big):
        for k in range(2, n - 1):
            # two cycles sharing vertex 0, and two disjoint cycles joined by edges
            c1 = [("1", i, i + 1) for i in range(k - 1)] + [("1", k - 1, 0)]
            c2 = [("1", 0, k)] + [("1", i, i + 1) for i in range(k, n - 1)] + [("1", n - 1, 0)]
            out.append((n, c1 + c2))
            c3 = [("1", i, i + 1) for i in range(k, n - 1)] + [("1", n - 1, k)] if n - k > 1 else []
            for x in range(k):
                for y in range(k, n):
                    out.append((n, c1 + c3 + [("1", x, y)]))
                    out.append((n, c1 + c3 + [("1", x, y), ("1", y, (x + 1) % k)]))
    return out


def shape_gen(tier):
    sh = shapes(tier)
    for i in range(0, len(sh), 12):
        yield {"tier": tier, "range": [i, min(len(sh), i + 12)]}


def shape_run(b):
    """Every rotation and the reversal of the insertion order, relabelled by every
    rotation and reflection, with one mark, merging after every edge or only at the end."""
    res = Result()
    for n, ops in shapes(b["tier"])[b["range"][0]: b["range"][1]]:
        m = len(ops)
        orders = [ops[i:] + ops[:i] for i in range(m)]
        orders += [list(reversed(o)) for o in orders]
        for order in orders:
            for shift in range(n):
                for sign in (1, -1):
                    ren = [(sign * i + shift) % n for i in range(n)]
                    seq = tuple((o[0], ren[o[1]], ren[o[2]]) for o in order)
                    for mode in range(3):
                        if mode == 0:
                            full = seq
                        elif mode == 1:
                            full = tuple(itertools.chain.from_iterable((o, ("c",)) for o in seq))
                        else:
                            full = (("v", 0),) + seq + (("c",),) + seq[:1] + (("v", n - 1),)
                        if judge(full, n, res) and len(res.violations) > 5:
                            return res
    res.sample(f"{b['range']}")
    return res


# ---------------------------------------------------------------------------------
# The same through the rule database (edges recorded by rules, empty children dropped)
# ---------------------------------------------------------------------------------


def db_rules(n):
    out = []
    for a in range(n):
        for b2 in range(n):
            if a != b2:
                out.append((a, (b2,), True))
                out.append((a, (b2,), False))
                out.append((a, (-1, b2), True))
    out += [(a,) for a in range(n)]
    out += [(0, (1, 2), True)]
    return out


def db_gen(tier):
    rules = db_rules(3)
    for i in range(len(rules)):
        yield {"n": 3, "first": i, "depth": 4 if tier == "thorough" else 3}


def db_run(b):
    res = Result()
    n = b["n"]
    rules = db_rules(n)
    strats = [ints.strategy(r) for r in rules]
    for rest in itertools.product(range(len(rules)), repeat=b["depth"] - 1):
        seq = (b["first"],) + rest
        for ask in (False, True):
            searcher = ints.make_searcher([], RuleDB, n, 0)
            model = ints.Model(range(n))
            for i in seq:
                ints.insert(searcher, strats[i])
                model.add(rules[i])
                if ask:
                    searcher.ruledb.has_specification()
            res.add("executions")
            res.add("transitions", len(seq))
            searcher.ruledb.has_specification()
            rep = model.classes()
            for x in range(n):
                for y in range(n):
                    if searcher.ruledb.are_equivalent(x, y) != (rep[x] == rep[y]):
                        res.violation("ruledb", f"after {[rules[i] for i in seq]}: are_equivalent({x}, {y}) is "
                                      f"{searcher.ruledb.are_equivalent(x, y)}",
                                      {"n": n, "first": b["first"], "depth": b["depth"]})
                        if len(res.violations) > 5:
                            return res
            res.outcome(repr(sorted(rep.items())))
    res.sample(f"rule histories starting with {rules[b['first']]}")
    return res


def replay(case):
    res = Result()
    if "ops" in case:
        judge(tuple(tuple(o) for o in case["ops"]), case["n"], res)
        return res
    raise KeyError("block replay")


def _or_block(run):
    def f(case):
        return replay(case) if "ops" in case else run(case)
    return f


SUBCHECKS = {
    "sequences": SubCheck(seq_gen, seq_run, _or_block(seq_run), 900),
    "digraphs": SubCheck(graph_gen, graph_run, _or_block(graph_run), 900),
    "shapes": SubCheck(shape_gen, shape_run, _or_block(shape_run), 900),
    "ruledb": SubCheck(db_gen, db_run, None, 900),
}
BOUNDS = {t: f"sequences {SEQ[t]}, digraphs {GRAPHS[t]}" for t in SEQ}
