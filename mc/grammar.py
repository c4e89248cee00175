"""Grammars as classes: a nonterminal is a combinatorial class whose objects are its
derivation trees, so that *every* small grammar is a specification of its own.

A grammar is a tuple of rules, one per nonterminal (the integers 0, 1, ...):

  ("+", (s, ...))   disjoint union; a tree is ("+", which, subtree)
  ("*", (s, ...))   product; a tree is ("*", subtree, ...)
  ("2", (s,))       two copies; a tree is ("2", 0 or 1, subtree): the decomposition
                    forgets which one (a rule that is not bijective)

A symbol is a nonterminal or a terminal: "x", "y" (two atoms of size 1), "xx" (an atom of
size 2), "e" (the empty tree, size 0), "0" (the empty class), or a class that is verified
without being an atom: "s" (one tree of every size from 1) and "w" (two trees of size 1).
"""

import itertools
import json
from collections import Counter
from functools import lru_cache

from comb_spec_searcher import (
    AtomStrategy,
    CartesianProductStrategy,
    CombinatorialClass,
    CombinatorialObject,
    CombinatorialSpecification,
    DisjointUnionStrategy,
    Strategy,
    StrategyPack,
    VerificationStrategy,
)
from comb_spec_searcher.strategies.constructor import Constructor
from comb_spec_searcher.strategies.rule import NonBijectiveRule, Rule

from mc import refs

SIZES = {"x": 1, "y": 1, "xx": 2, "e": 0}
VERIFIED = {"s": 1, "w": 1}


class Tree(CombinatorialObject):
    """A derivation tree (a nested tuple)."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def size(self):
        return tree_size(self.t)

    def __len__(self):
        return tree_size(self.t)

    def __bool__(self):
        return True

    def __eq__(self, other):
        return isinstance(other, Tree) and self.t == other.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return show(self.t)


def tree_size(t):
    if len(t) == 1:
        if t[0][0] in VERIFIED:
            return int(t[0][1])
        return SIZES[t[0]]
    if t[0] == "*":
        return sum(map(tree_size, t[1:]))
    return tree_size(t[2])


def show(t):
    if len(t) == 1:
        return t[0]
    if t[0] == "*":
        return "(" + ".".join(map(show, t[1:])) + ")"
    return f"{t[0]}{t[1]}{show(t[2])}"


def tuplify(g):
    return tuple((r[0], tuple(r[1])) for r in g)


def leaf_min(s):
    return SIZES.get(s, VERIFIED.get(s))


def leaf_trees(s, n):
    if s == "s":
        return ((f"s{n}",),) if 0 < n < 10 else ()
    if s == "w":
        return (("w1a",), ("w1b",)) if n == 1 else ()
    return ((s,),) if SIZES.get(s) == n else ()


@lru_cache(maxsize=200000)
def minima(g):
    """The smallest size of every nonterminal (None if it has no tree)."""
    m = [None] * len(g)
    changed = True
    while changed:
        changed = False
        for i, (op, kids) in enumerate(g):
            vals = [leaf_min(k) if isinstance(k, str) else m[k] for k in kids]
            if op == "*":
                v = None if None in vals else sum(vals)
            else:
                v = min((x for x in vals if x is not None), default=None)
            if v is not None and (m[i] is None or v < m[i]):
                m[i] = v
                changed = True
    return tuple(m)


def sym_min(g, s):
    return leaf_min(s) if isinstance(s, str) else minima(g)[s]


@lru_cache(maxsize=200000)
def proper(g):
    """No nonterminal but the first one is empty, all are reachable from it and the grammar
    is productive."""
    m = minima(g)
    if None in m[1:]:
        return False
    seen, todo = {0}, [0]
    while todo:
        for k in g[todo.pop()][1]:
            if not isinstance(k, str) and k not in seen:
                seen.add(k)
                todo.append(k)
    if len(seen) != len(g):
        return False
    rules = []
    for i, (op, kids) in enumerate(g):
        if m[i] is None:
            if any(0 in k for _, k in g):
                return False
            rules.append((i, (), ()))
        elif op == "*":
            if "0" in kids:
                return False
            sizes = [sym_min(g, k) for k in kids]
            rules.append((i, kids, tuple(sum(sizes) - s for s in sizes)))
        else:
            rules.append((i, kids, (0,) * len(kids)))
    for t in ("x", "y", "xx", "e", "0", "s", "w"):
        rules.append((t, (), ()))
    f = refs.lfp(rules)
    return all(f[i] is None for i in range(len(g)))


@lru_cache(maxsize=400000)
def trees(g, s, n):
    """All trees of size n."""
    if isinstance(s, str):
        return leaf_trees(s, n)
    op, kids = g[s]
    if op == "+":
        return tuple(("+", i, t) for i, k in enumerate(kids) for t in trees(g, k, n))
    if op == "2":
        return tuple(("2", i, t) for t in trees(g, kids[0], n) for i in (0, 1))
    return tuple(("*",) + ts for ts in _products(g, kids, n))


def _products(g, kids, n):
    if not kids:
        if n == 0:
            yield ()
        return
    rest = sum(sym_min(g, k) for k in kids[1:])
    for i in range(sym_min(g, kids[0]), n - rest + 1):
        for t in trees(g, kids[0], i):
            for ts in _products(g, kids[1:], n - i):
                yield (t,) + ts


class G(CombinatorialClass):
    """The symbol `s` of the grammar `g`."""

    def __init__(self, g, s=0):
        self.g = g
        self.s = s

    def is_empty(self):
        return self.s == "0" or self.s == 0 and minima(self.g)[0] is None

    def is_atom(self):
        return self.s in SIZES

    def minimum_size_of_object(self):
        return sym_min(self.g, self.s)

    def objects_of_size(self, n, **parameters):
        if not self.is_empty():
            for t in trees(self.g, self.s, n):
                yield Tree(t)

    def to_jsonable(self):
        d = super().to_jsonable()
        d.update(g=self.g, s=self.s)
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(tuplify(d["g"]), d["s"])

    def __eq__(self, other):
        return isinstance(other, G) and self.s == other.s and self.g == other.g

    def __hash__(self):
        return hash((self.s, self.g))

    def __repr__(self):
        return f"G({self.g}, {self.s!r})"

    __str__ = __repr__


class _Base:
    OP = "+"

    def decomposition_function(self, comb_class):
        if isinstance(comb_class.s, str):
            return None
        op, kids = comb_class.g[comb_class.s]
        return tuple(G(comb_class.g, k) for k in kids) if op == self.OP else None

    def formal_step(self):
        return f"rule {self.OP}"

    @classmethod
    def from_dict(cls, d):
        return cls(**d)

    def __repr__(self):
        return f"{type(self).__name__}()"


class Union(_Base, DisjointUnionStrategy):
    OP = "+"

    def forward_map(self, comb_class, obj, children=None):
        children = children or self.decomposition_function(comb_class)
        return tuple(Tree(obj.t[2]) if i == obj.t[1] else None for i in range(len(children)))

    def backward_map(self, comb_class, objs, children=None):
        for i, o in enumerate(objs):
            if o is not None:
                yield Tree(("+", i, o.t))


class Product(_Base, CartesianProductStrategy):
    OP = "*"

    def forward_map(self, comb_class, obj, children=None):
        return tuple(map(Tree, obj.t[1:]))

    def backward_map(self, comb_class, objs, children=None):
        yield Tree(("*",) + tuple(o.t for o in objs))


class Twice(Constructor):
    """Every object of the child counts twice."""

    def get_equation(self, lhs_func, rhs_funcs):
        from sympy import Eq

        return Eq(lhs_func, 2 * rhs_funcs[0])

    def reliance_profile(self, n, **parameters):
        raise NotImplementedError

    def get_terms(self, parent_terms, subterms, n):
        return Counter({k: 2 * v for k, v in subterms[0](n).items()})

    def get_sub_objects(self, subobjs, n):
        raise NotImplementedError

    def random_sample_sub_objects(self, parent_count, subsamplers, subrecs, n, **parameters):
        raise NotImplementedError

    def equiv(self, other, data=None):
        # the data says which of the two comes first on the other side
        return isinstance(other, Twice), [1, 0]


class TwiceRule(NonBijectiveRule):
    def _forward_order(self, obj, image, data=None):
        return obj.t[1]

    def _backward_order_item(self, idx, objs, data=None):
        return Tree(("2", idx if data is None else data[idx], objs[0].t))


class Double(_Base, Strategy):
    OP = "2"

    def __call__(self, comb_class, children=None):
        from comb_spec_searcher.exception import StrategyDoesNotApply

        if children is None:
            children = self.decomposition_function(comb_class)
            if children is None:
                raise StrategyDoesNotApply("no rule")
        return TwiceRule(self, comb_class, children=children)

    def can_be_equivalent(self):
        return False

    def is_two_way(self, comb_class):
        return False

    def is_reversible(self, comb_class):
        return False

    def shifts(self, comb_class, children=None):
        return (0,)

    def constructor(self, comb_class, children=None):
        return Twice()

    def reverse_constructor(self, idx, comb_class, children=None):
        raise NotImplementedError

    def extra_parameters(self, comb_class, children=None):
        return ({},)

    def forward_map(self, comb_class, obj, children=None):
        return (Tree(obj.t[2]),)

    def backward_map(self, comb_class, objs, children=None):
        for i in (0, 1):
            yield Tree(("2", i, objs[0].t))


class LeafStrategy(VerificationStrategy):
    """Verifies the leaves that are not atoms."""

    def verified(self, comb_class):
        return comb_class.s in VERIFIED

    def get_terms(self, comb_class, n):
        return Counter({(): len(leaf_trees(comb_class.s, n))}) if leaf_trees(comb_class.s, n) else Counter()

    def get_objects(self, comb_class, n):
        return {(): [Tree(t) for t in leaf_trees(comb_class.s, n)]}

    def random_sample_object_of_size(self, comb_class, n, **parameters):
        return Tree(leaf_trees(comb_class.s, n)[0])

    def formal_step(self):
        return "is a leaf"

    @classmethod
    def from_dict(cls, d):
        return cls(**d)

    def __repr__(self):
        return "LeafStrategy()"


def pack():
    return StrategyPack(
        [], [], [[Union(), Product(), Double()]], [AtomStrategy(), LeafStrategy()], "grammar"
    )


STRATS = {"+": Union(), "*": Product(), "2": Double()}


def spec(g):
    """The specification that the grammar is."""
    rules = []
    terminals, leaves = set(), set()
    for i, (op, kids) in enumerate(g):
        rule = STRATS[op](G(g, i))
        if rule.is_equivalence() and len(rule.children) > 1:
            rule = rule.to_equivalence_rule()
        rules.append(rule)
        terminals.update(k for k in kids if k in SIZES)
        leaves.update(k for k in kids if k in VERIFIED)
    rules.extend(AtomStrategy()(G(g, t)) for t in sorted(terminals))
    rules.extend(LeafStrategy()(G(g, t)) for t in sorted(leaves))
    return CombinatorialSpecification(G(g, 0), rules)


# ----------------------------------------------------------------------------------
# Enumeration
# ----------------------------------------------------------------------------------


def renamed(g, perm):
    """Nonterminal i becomes perm[i]."""
    out = [None] * len(g)
    for i, (op, kids) in enumerate(g):
        out[perm[i]] = (op, tuple(k if isinstance(k, str) else perm[k] for k in kids))
    return tuple(out)


def canonical(g):
    return min(repr(renamed(g, (0,) + p)) for p in itertools.permutations(range(1, len(g))))


def rules_over(symbols, shapes, ordered):
    """shapes: ((op, arity), ...)"""
    out = []
    for op, k in shapes:
        pick = itertools.product(symbols, repeat=k) if ordered else itertools.combinations_with_replacement(symbols, k)
        for kids in pick:
            out.append((op, kids))
    return out


def grammars(choices):
    """All proper grammars with the i-th rule out of choices[i], up to renaming."""
    seen = set()
    for g in itertools.product(*choices):
        if any(g[i] in (("+", (i,)), ("2", (i,))) for i in range(len(g))):
            continue
        if proper(g):
            key = canonical(g)
            if key not in seen:
                seen.add(key)
                yield g


def matching(g1, g2):
    """The pairs of symbols that an isomorphism may pair: the greatest fixed point."""

    def end(g, s):
        # follow equivalences
        while not isinstance(s, str):
            op, kids = g[s]
            kids = [k for k in kids if k != "0"]
            if op == "+" and len(kids) == 1:
                s = kids[0]
            else:
                return s
        return s

    def node(g, s):
        s = end(g, s)
        if isinstance(s, str):
            return (SIZES[s], ())
        return (g[s][0], tuple(end(g, k) for k in g[s][1] if k != "0"))

    syms = [
        {end(g, s) for s in list(range(len(g))) + [k for r in g for k in r[1] if k in SIZES]} for g in (g1, g2)
    ]
    n1, n2 = {s: node(g1, s) for s in syms[0]}, {s: node(g2, s) for s in syms[1]}
    pairs = {
        (a, b) for a in syms[0] for b in syms[1] if n1[a][0] == n2[b][0] and len(n1[a][1]) == len(n2[b][1])
    }
    changed = True
    while changed:
        changed = False
        for a, b in list(pairs):
            if not any(
                all((c, d) in pairs for c, d in zip(n1[a][1], perm)) for perm in itertools.permutations(n2[b][1])
            ):
                pairs.discard((a, b))
                changed = True
    return pairs, end(g1, 0), end(g2, 0)


def isomorphic(g1, g2):
    pairs, r1, r2 = matching(g1, g2)
    return (r1, r2) in pairs
