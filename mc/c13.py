"""C13: the parallel specification finder is total and its output is a matched pair.

universes all pairs out of families of small integer universes (several rules per class,
          equivalence classes around the start class, one way rules).
words     all pairs of languages and packs of the kit, where the specifications returned
          are also checked like those of C01 and C02 and mapped onto each other.

Both finder variants, fresh searchers for every pair.  A search without specification or
with verified classes that are no atoms is declared unsupported by the finder (ValueError
from its constructor) and counts as "nothing found".
"""

import itertools
import json
from functools import lru_cache

from comb_spec_searcher import (
    AtomStrategy,
    CartesianProductStrategy,
    CombinatorialClass,
    CombinatorialSpecificationSearcher,
    DisjointUnionStrategy,
    StrategyPack,
)
from comb_spec_searcher.bijection import EqPathParallelSpecFinder, ParallelSpecFinder
from comb_spec_searcher.exception import NoMoreClassesToExpandError
from comb_spec_searcher.isomorphism import Bijection, Isomorphism
from comb_spec_searcher.rule_db import RuleDB
from comb_spec_searcher.strategies import EmptyStrategy
from comb_spec_searcher.strategies.rule import EquivalencePathRule, EquivalenceRule, ReverseRule, VerificationRule

from mc import grammar as GR
from mc import kit
from mc import universe as U
from mc.common import Chooser, Clock, RandomSeam, Result, SubCheck, Violation, in_library, short_tb
from mc.c12 import WORD_KINDS, check_bijection

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of all pairs of small rule universes and of searches, run through the real finders; "
             "matched pairs decided by a greatest fixed point and by brute force")
NOTE = ("Every pair within the bounds is run through both finders; what they return is checked for validity against the "
        "universe and for isomorphism with an independent bisimulation.")
RULE = "every ordered pair of universes and finder; outcome = (found?, number of rules)"

FINDERS = {"plain": ParallelSpecFinder, "eqpath": EqPathParallelSpecFinder}
# A "+" says that the searchers are expanded as far as possible before they are given to
# the finder (the words: a few levels further than the finder does).
VARIANTS = ("plain", "eqpath", "plain+", "eqpath+")
QUICK_VARIANTS = {"choices": VARIANTS, "atoms": VARIANTS, "equivalences": ("plain", "eqpath+"), "paths": ("plain", "eqpath"), "entries": ("eqpath",), "empty start": VARIANTS}


# ----------------------------------------------------------------------------------
# Bisimulation of specifications
# ----------------------------------------------------------------------------------


def shape(spec):
    """class -> (kind, non empty children), equivalences followed."""

    def end(c):
        seen = set()
        while spec.rules_dict[c].is_equivalence() and c not in seen:
            seen.add(c)
            c = next(d for d in spec.rules_dict[c].children if not d.is_empty())
        return c

    out, todo = {}, [end(spec.root)]
    while todo:
        c = todo.pop()
        if c in out:
            continue
        rule = spec.rules_dict[c]
        if isinstance(rule, VerificationRule):
            size = next(c.objects_of_size(c.minimum_size_of_object())).size() if c.is_atom() else None
            out[c] = (("atom", size), ())
            continue
        kids = tuple(end(d) for d in rule.children if not d.is_empty())
        out[c] = ((type(rule.constructor).__name__, len(kids)), kids)
        todo.extend(kids)
    return end(spec.root), out


def bisimilar(s1, s2):
    r1, n1 = shape(s1)
    r2, n2 = shape(s2)
    pairs = {(a, b) for a in n1 for b in n2 if n1[a][0] == n2[b][0] and n1[a][0] != ("atom", None)}
    changed = True
    while changed:
        changed = False
        for a, b in list(pairs):
            if not any(all(p in pairs for p in zip(n1[a][1], perm)) for perm in itertools.permutations(n2[b][1])):
                pairs.discard((a, b))
                changed = True
    return (r1, r2) in pairs


def find(variant, searcher1, searcher2, levels=10):
    """None, or the two specifications."""
    if variant.endswith("+"):
        for searcher in (searcher1, searcher2):
            try:
                for _ in range(levels):
                    searcher.do_level()
            except NoMoreClassesToExpandError:
                pass
    try:
        finder = FINDERS[variant.rstrip("+")](searcher1, searcher2)
    except ValueError as e:
        if "No specifications were found" in str(e) or "Only atoms can be verified" in str(e):
            return "unsupported"
        raise
    return finder.find()


# ----------------------------------------------------------------------------------
# Integer universes
# ----------------------------------------------------------------------------------


class N(CombinatorialClass):
    """The class with a number, or an atom."""

    def __init__(self, s):
        self.s = s

    def is_empty(self):
        return self.s == "0"

    def is_atom(self):
        return self.s in GR.SIZES

    def minimum_size_of_object(self):
        return GR.SIZES.get(self.s, 1)

    def objects_of_size(self, n, **parameters):
        if GR.SIZES.get(self.s) == n:
            yield GR.Tree((self.s,))

    def to_jsonable(self):
        d = super().to_jsonable()
        d["s"] = self.s
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["s"])

    def __eq__(self, other):
        return isinstance(other, N) and self.s == other.s

    def __hash__(self):
        return hash(("N", self.s))

    def __repr__(self):
        return f"N({self.s})"

    __str__ = __repr__


class _Rule:
    def __init__(self, parent, kids, two_way=False):
        self.parent = parent
        self.kids = tuple(kids)
        self.two_way = two_way
        super().__init__(ignore_parent=False, possibly_empty="0" in self.kids)

    def decomposition_function(self, comb_class):
        return tuple(map(N, self.kids)) if comb_class.s == self.parent else None

    def is_two_way(self, comb_class):
        return self.two_way

    def is_reversible(self, comb_class):
        return self.two_way

    def formal_step(self):
        return f"{self.parent} {'<->' if self.two_way else '->'} {self.kids}"

    def forward_map(self, comb_class, obj, children=None):
        raise NotImplementedError

    def backward_map(self, comb_class, objs, children=None):
        raise NotImplementedError

    @classmethod
    def from_dict(cls, d):
        raise NotImplementedError

    def __repr__(self):
        return f"{type(self).__name__}({self.formal_step()})"


class Sum(_Rule, DisjointUnionStrategy):
    pass


class Prod(_Rule, CartesianProductStrategy):
    pass


class Step(_Rule, DisjointUnionStrategy):
    """A two way rule that is no equivalence."""

    def can_be_equivalent(self):
        return False


def strat(r):
    op, parent, kids = r
    return {"*": Prod, "~": Step}.get(op, Sum)(parent, kids, op in "=~")


def start_of(rules):
    """The number of the start class: the empty class if that has rules."""
    return "0" if any(p == "0" for _, p, _ in rules) else 0


def universe_searcher(rules):
    pack = StrategyPack([], [], [[strat(r) for r in rules]], [AtomStrategy()], "universe")
    return CombinatorialSpecificationSearcher(N(start_of(rules)), pack, ruledb=RuleDB(), debug=False)


def check_member(spec, rules, start):
    """Is the specification made of rules of the universe, closed, one rule per class?"""
    allowed = {(p, tuple(kids)) for op, p, kids in rules}
    two_way = {(p, tuple(kids)) for op, p, kids in rules if op in "=~"}
    if spec.root != N(start):
        raise Violation(f"specification for {spec.root}")
    lhs, rhs = set(), {N(start)}
    for rule in spec:
        parts = rule.rules if isinstance(rule, EquivalencePathRule) else (rule,)
        if parts[0].comb_class != rule.comb_class or tuple(parts[-1].children)[:1] != tuple(rule.children)[:1]:
            raise Violation(f"path {rule} does not join its ends")
        if rule.comb_class in lhs:
            raise Violation(f"two rules for {rule.comb_class}")
        lhs.add(rule.comb_class)
        rhs.update(rule.children)
        prev = rule.comb_class
        for part in parts:
            if part.comb_class != prev:
                raise Violation(f"path {rule} is broken")
            prev = part.children[0] if part.children else None
            if isinstance(part, VerificationRule):
                if not (part.comb_class.is_atom() or isinstance(part.strategy, EmptyStrategy) and part.comb_class.is_empty()):
                    raise Violation(f"{part.comb_class} is not verified")
                continue
            orig, rev = part, False
            while isinstance(orig, (EquivalenceRule, ReverseRule)):
                rev |= isinstance(orig, ReverseRule)
                orig = orig.original_rule
            key = (orig.comb_class.s, tuple(c.s for c in orig.children))
            if key not in allowed or (rev and key not in two_way):
                raise Violation(f"{part} is not a rule of the universe")
    if not rhs <= lhs:
        raise Violation(f"no rule for {rhs - lhs}")
    if not lhs <= rhs:
        raise Violation(f"unreachable {lhs - rhs}")


def subsets(items, sizes):
    return [c for k in sizes for c in itertools.combinations(items, k)]


def universe_families(tier):
    """name -> list of universes (tuples of rules, the start class is 0)."""
    out = {}
    big = tier == "thorough"
    # several ways to decompose two classes that the start class uses several times
    ways = [("+", ("x", "e")), ("*", ("x", "x"))] + ([("*", ("x", 1)), ("+", ("x", 2))] if big else [("+", ("x", 2))])
    fam = []
    roots = [("+", t) for t in itertools.combinations_with_replacement((1, 2), 3)] + [("*", (1, 2)), ("+", (2, 1))]
    for root in roots:
        for w1 in subsets(ways, (1, 2, 3) if big else (1, 2)):
            for w2 in subsets(ways, (1, 2)):
                fam.append(((root[0], 0, root[1]),) + tuple((op, 1, k) for op, k in w1) + tuple((op, 2, k) for op, k in w2))
    out["choices"] = fam
    # equivalences around the start class, one way steps
    fam = []
    edges = [("=", 0, (1,)), ("=", 1, (0,)), ("=", 1, (2,)), ("=", 2, (0,)), ("+", 0, (1,)), ("+", 1, (2,)), ("+", 2, (0,))]
    decs = [("+", ("x", "e")), ("*", ("x", 0)), ("+", ("x", 1)), ("+", ("x", 2)), ("*", (1, "x"))]
    for es in subsets(edges if big else edges[:-1], (1, 2)):
        for p1, p2 in ((0, 1), (1, 2), (2, 2), (1, 1), (2, 0)) if big else ((0, 1), (1, 2), (2, 2)):
            for (op1, k1), (op2, k2) in subsets(decs, (2,)) if p1 == p2 else itertools.product(decs[: 4 if big else 3], decs[:3]):
                fam.append(tuple(es) + ((op1, p1, k1), (op2, p2, k2)))
    out["equivalences"] = fam
    # classes with the same equivalence label that are not equivalent
    fam = []
    edges = [("~", 0, (1,)), ("~", 1, (0,)), ("=", 0, (1,)), ("~", 1, (2,)), ("~", 2, (0,)), ("=", 2, (1,))]
    decs = [(op, ab) for op in ("+*" if big else "*") for ab in itertools.product((0, 1, 2) if big else (0, 1), repeat=2)] + [("+", ("x", i)) for i in (0, 1, 2)] + [("+", ("x", "e"))]
    for es in subsets(edges, (1, 2, 3) if big else (1, 2)):
        for p in (0, 1, 2):
            fam += [tuple(es) + ((op, p, k),) for op, k in decs]
            if big:
                fam += [tuple(es) + ((op, p, k), ("+", 0, ("x", 1))) for op, k in decs]
    out["paths"] = fam
    # two ways to decompose the start class that enter the same equivalence classes at
    # different places: a way that works in one class may fail in the other
    fam = []
    edges12 = [("~", 1, (2,)), ("=", 1, (2,))] + ([("~", 2, (1,))] if big else [])
    edges34 = [("~", 3, (4,)), ("~", 4, (3,))] + ([("=", 3, (4,))] if big else [])
    for e, f in itertools.product(edges12, edges34):
        for d12, d34 in itertools.product((1, 2) if big else (2,), (3, 4) if big else (4,)):
            decs = (("+", d12, ("x", "e")), ("*", d34, ("x", "x")))
            ways = [("*", 0, (i, j)) for i in (1, 2) for j in (3, 4)], [("+", 0, (i, t)) for i in (1, 2) for t in ("x", 4, i, 3 - i)]
            for way in itertools.chain(itertools.product(*ways), itertools.product(*reversed(ways)), zip(ways[0])):
                fam.append((e, f) + way + decs)
    out["entries"] = fam
    # empty children, atoms behind equivalences, repeated children
    fam = []
    for t in ("x", "e", "xx"):
        for es in ([], [("=", 0, (1,))], [("=", 1, (t,))], [("=", 1, (t, "0"))], [("+", 1, (t,))], [("=", 0, (2,)), ("=", 1, (t,))],
                   [("=", t, (1,))], [("+", t, (1,)), ("=", 0, (1,))], [("*", t, ("x", "e")), ("+", 1, ("x", 1))], [("=", 1, (t,)), ("=", 2, (t,))]):
            for dec in (("+", ("x", 1)), ("+", (1, 1)), ("*", (1, "x")), ("+", (1, "x", "0")), ("+", (1, "0"))):
                for parent in (0, 2):
                    fam.append(tuple(es) + ((dec[0], parent, dec[1]),))
    out["atoms"] = fam
    # an empty start class, which every strategy of the universe may decompose
    decs = [("+", ("0", "0")), ("*", ("x", "0")), ("*", ("0",)), ("*", ("0", 1)), ("+", ("0", "0", "0"))]
    more = [("+", 1, ("x", "e")), ("=", 1, (2,)), ("*", 1, ("x", 1)), ("+", 2, ("x", "0")), ("=", "x", (1,))]
    fam = [((op, "0", k),) + m for op, k in decs for m in subsets(more, (0, 1, 2))]
    fam += [((op, 0, k),) + m for op, k in (("+", ("x",)), ("*", ("x", 1)), ("+", ("0", 1)), ("+", ("x", "0", "e")), ("*", ("x", "x"))) for m in subsets(more, (0, 1))]
    out["empty start"] = fam
    res = {}
    for name, fam in out.items():
        kept, seen = [], set()
        for rules in fam:
            key = frozenset(rules)
            if key in seen or len(key) != len(rules):
                continue
            seen.add(key)
            if has_spec(rules):
                kept.append(rules)
        res[name] = kept
    return res


def has_spec(rules):
    """Can the start class be specified in the sense of the pruning of the searcher?"""
    if start_of(rules) == "0":
        return True
    edges = {(p, next(c for c in k if c != "0")) for op, p, k in rules if len([c for c in k if c != "0"]) == 1}
    edges |= {(next(c for c in k if c != "0"), p) for op, p, k in rules if op in "=~" and len([c for c in k if c != "0"]) == 1}
    nodes = set(range(5)) | set(GR.SIZES)
    reach = {a: {a} for a in nodes}
    for _ in nodes:
        for a, b in edges:
            reach[a] |= reach[b]
    rep = {a: frozenset(b for b in reach[a] if a in reach[b]) for a in nodes}
    alive = set(rep.values())
    changed = True
    while changed:
        changed = False
        for r in list(alive):
            ok = any(t in r for t in GR.SIZES)
            for op, p, k in rules:
                kids = [c for c in k if c != "0"]
                if rep[p] == r and not (len(kids) == 1 and rep[kids[0]] == r) and all(rep[c] in alive for c in kids):
                    ok = True
            if not ok:
                alive.discard(r)
                changed = True
    return rep[0] in alive


@lru_cache(maxsize=None)
def family(name, tier):
    return tuple(universe_families(tier)[name])


def universe_gen(tier):
    for name, fam in universe_families(tier).items():
        step = max(1, len(fam) // 120)
        for i in range(0, len(fam), step):
            yield {"family": name, "tier": tier, "range": [i, min(len(fam), i + step)]}


def one_pair(u1, u2, variant, res):
    case = {"pair": [u1, u2], "variant": variant}
    try:
        found = find(variant, universe_searcher(u1), universe_searcher(u2))
        if found is None or found == "unsupported":
            res.outcome(str(found))
            return
        s1, s2 = found
        res.add("specifications", 2)
        check_member(s1, u1, start_of(u1))
        check_member(s2, u2, start_of(u2))
        res.outcome((len(s1.rules_dict), len(s2.rules_dict)))
        if variant.startswith("plain") and any(op == "~" for op, _, _ in u1 + u2):
            return  # this variant assumes that classes with the same equivalence label are equivalent
        if not bisimilar(s1, s2):
            raise Violation(f"the specifications are not isomorphic:\n{s1}\n{s2}")
        if not Isomorphism.check(s1, s2):
            raise Violation(f"Isomorphism.check is False on the specifications:\n{s1}\n{s2}")
    except Violation as e:
        res.violation(f"pair:{variant}", f"{u1} and {u2} ({variant}): {e}", case)
    except Exception as e:
        if not in_library(e):
            raise
        res.violation(f"crash:{variant}", f"{u1} and {u2} ({variant}): {short_tb(e)}", case)


def universe_run(b):
    res = Result()
    if "pair" in b:
        u1, u2 = ([(op, p, tuple(k)) for op, p, k in u] for u in b["pair"])
        with Clock(), RandomSeam(Chooser()):
            one_pair(u1, u2, b["variant"], res)
        return res
    fam = family(b["family"], b["tier"])
    for i in range(*b["range"]):
        res.add("states")
        with Clock(), RandomSeam(Chooser()):
            for u2 in fam:
                for variant in VARIANTS if b["tier"] == "thorough" else QUICK_VARIANTS[b["family"]]:
                    one_pair(fam[i], u2, variant, res)
                    res.add("executions")
        if len(res.violations) > 5:
            break
    res.sample(f"{b['family']}: {fam[b['range'][0]]} against {len(fam)} universes")
    return res


# ----------------------------------------------------------------------------------
# Words
# ----------------------------------------------------------------------------------

PACKS = {
    "quick": ("std", "tight", "retag", "retagE", "sym", "syminf", "infer", "both"),
    "thorough": ("std", "lib", "tight", "rev", "both", "noignore", "infer", "infer2", "retag", "retagonly", "retag1back",
                 "cycle3", "cyclemix", "retagE", "retagEonly", "parent", "parentonly", "sym", "syminf", "symtight",
                 "fact", "many", "ver"),
}
KINDS_13 = {
    "quick": ("-aa", "-bb", "-ab", "a|-aa", "b|-bb", "dyck", "a.b", "-b", "a*"),
    "thorough": ("-aa", "-bb", "-ab", "-ba", "-aa,bb", "-ab,ba", "a|-aa", "b|-bb", "dyck", "a.b", "c.b", "-b", "a*", "-aab", "-bba"),
}


def starts(tier):
    out = [(k, (), p) for k in KINDS_13[tier] for p in PACKS[tier]]
    for stats in ((("k", "a"),), (("k", "a"), ("l", "a"))):
        out += [("-aa", stats, p) for p in ("std", "retag")]
    # statistics that are merged or dropped on the way ("pack:policy")
    a, aa, aba, b = (("k", "a"),), (("k", "a"), ("l", "a")), (("k", "ab"), ("l", "a")), (("k", "b"),)
    out += [("empty", (), p) for p in (("std", "sym") if tier == "quick" else PACKS[tier])]
    tracked = [("-aa", a, "std:merge"), ("-aa", aa, "std:merge"), ("-bb", b, "std:merge"), ("-aa", aba, "tight:merge"),
               ("-aa", aa, "dropstats:merge")]
    if tier == "thorough":
        tracked += [("-aa", s, f"{p}:{q}") for s in (a, aa, aba) for p in ("std", "infer", "dropstats", "swapstats", "both")
                    for q in ("merge", "drop", "swap")]
    out += [x for x in tracked if x not in out]
    return out


def searcher(name, tier):
    kind, stats, pack = name
    start = kit.K(WORD_KINDS["thorough"][kind], stats)
    pack, _, policy = pack.partition(":")
    return start, U.searcher_for(start, pack, "rule", policy or "keep")


def words_gen(tier):
    n = len(starts(tier))
    for i in range(n):
        yield {"tier": tier, "first": i}


def one_words(n1, n2, variant, tier, res, deep=True):
    case = {"tier": tier, "names": [n1, n2], "variant": variant}
    try:
        start1, se1 = searcher(n1, tier)
        start2, se2 = searcher(n2, tier)
        with Clock(), RandomSeam(Chooser()):
            found = find(variant, se1, se2, 2)
        if found is None or found == "unsupported":
            res.outcome(str(found))
            return
        s1, s2 = found
        res.add("specifications", 2)
        for start, spec, se in ((start1, s1, se1), (start2, s2, se2)):
            U.check_valid(spec, start, [se.strategy_pack])
            U.check_enumeration(spec, start, 5)
        if not bisimilar(s1, s2):
            raise Violation(f"the specifications are not isomorphic:\n{s1}\n{s2}")
        if not Isomorphism.check(s1, s2):
            raise Violation(f"Isomorphism.check is False on the specifications:\n{s1}\n{s2}")
        bij = Bijection.construct(s1, s2)
        if bij is not None:
            size = check_bijection(
                bij, lambda k: map(kit.Word, start1.words(k)), lambda k: map(kit.Word, start2.words(k)), 60, 6
            )
            res.add("bijections")
            res.add("transitions", size)
        res.outcome((len(s1.rules_dict), len(s2.rules_dict)))
    except Violation as e:
        res.violation(f"words:{variant}", f"{n1} and {n2} ({variant}): {e}", case)
    except Exception as e:
        if not in_library(e):
            raise
        res.violation(f"crash:words:{variant}", f"{n1} and {n2} ({variant}): {short_tb(e)}", case)


def words_run(b):
    res = Result()
    tier = b["tier"]
    if "names" in b:
        n1, n2 = ((n[0], kit.tuplify(n[1]), n[2]) for n in b["names"])
        one_words(n1, n2, b["variant"], tier, res)
        return res
    names = starts(tier)
    n1 = names[b["first"]]
    res.add("states")
    for n2 in names:
        for variant in VARIANTS:
            one_words(n1, n2, variant, tier, res)
            res.add("executions")
        if len(res.violations) > 5:
            break
    res.sample(f"{n1} against {len(names)} searches")
    return res


SUBCHECKS = {
    "universes": SubCheck(universe_gen, universe_run, universe_run, 600),
    "words": SubCheck(words_gen, words_run, words_run, 600),
}
