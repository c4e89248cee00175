"""Integer universes: classes that are bare numbers and strategies that are explicit
rules, used to drive the real searcher, rule databases and extractors through *every*
small universe of rules."""

from comb_spec_searcher import (
    CombinatorialClass,
    CombinatorialObject,
    CombinatorialSpecificationSearcher,
    DisjointUnionStrategy,
    StrategyPack,
    VerificationStrategy,
)
from comb_spec_searcher.rule_db import RuleDB, RuleDBForest, RuleDBForgetStrategy


class IntClass(CombinatorialClass):
    """The class with number n; negative numbers are empty classes."""

    def __init__(self, n):
        self.n = n

    def is_empty(self):
        return self.n < 0

    def is_atom(self):
        return False

    def minimum_size_of_object(self):
        return 0

    def objects_of_size(self, n, **parameters):
        raise NotImplementedError

    def to_jsonable(self):
        d = super().to_jsonable()
        d["n"] = self.n
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["n"])

    def __eq__(self, other):
        return isinstance(other, IntClass) and self.n == other.n

    def __hash__(self):
        return hash(("IntClass", self.n))

    def __repr__(self):
        return f"IntClass({self.n})"

    __str__ = __repr__


class IntRule(DisjointUnionStrategy):
    """The rule parent -> children, applying to nothing else."""

    def __init__(self, parent, children, two_way=True, shifts=None, possibly_empty=True):
        self.parent = parent
        self.kids = tuple(children)
        self.two_way = two_way
        self.shift = tuple(shifts) if shifts is not None else (0,) * len(self.kids)
        super().__init__(possibly_empty=possibly_empty)

    def decomposition_function(self, comb_class):
        if comb_class.n != self.parent:
            return None
        return tuple(map(IntClass, self.kids))

    def is_two_way(self, comb_class):
        return self.two_way

    def is_reversible(self, comb_class):
        return self.two_way

    def shifts(self, comb_class, children=None):
        return self.shift

    def formal_step(self):
        arrow = "<->" if self.two_way else "->"
        return f"{self.parent} {arrow} {self.kids}"

    def forward_map(self, comb_class, obj, children=None):
        raise NotImplementedError

    def to_jsonable(self):
        d = super().to_jsonable()
        d.update(parent=self.parent, children=self.kids, two_way=self.two_way, shifts=self.shift)
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["parent"], d["children"], d["two_way"], d["shifts"], d["possibly_empty"])

    def __repr__(self):
        return f"IntRule({self.parent}, {self.kids}, {self.two_way}, {self.shift})"


class IntVer(VerificationStrategy):
    """Verifies exactly one class."""

    def __init__(self, parent):
        self.parent = parent
        super().__init__(ignore_parent=False)

    def verified(self, comb_class):
        return comb_class.n == self.parent

    def formal_step(self):
        return f"{self.parent} is verified"

    def to_jsonable(self):
        d = super().to_jsonable()
        d["parent"] = self.parent
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["parent"])

    def __repr__(self):
        return f"IntVer({self.parent})"


def strategy(rule):
    """rule: (parent, children, two_way) or (parent,) for a verification."""
    if len(rule) == 1:
        return IntVer(rule[0])
    return IntRule(*rule)


ROOT = 1000  # a class outside every universe, only there to start a searcher


def make_searcher(strategies, db=RuleDB, n=4, root=0, iterative=False, classes=()):
    """A searcher nothing happens in by itself; class i has label i (i < n)."""
    pack = StrategyPack(list(strategies), [], [[]], [], "ints", iterative=iterative)
    from comb_spec_searcher.class_db import ClassDB

    classdb = ClassDB(IntClass)
    for i in list(range(n)) + list(classes):
        classdb.get_label(IntClass(i))
    return CombinatorialSpecificationSearcher(
        IntClass(root), pack, ruledb=db(), classdb=classdb, debug=False
    )


def insert(searcher, strat):
    """Apply one strategy and record the rule, as the searcher does.  Returns the
    (parent label, child labels, rule)."""
    rule = strat(IntClass(strat.parent))
    label = searcher.classdb.get_label
    start, ends = label(rule.comb_class), tuple(map(label, rule.children))
    searcher.ruledb.add(start, ends, rule)
    return start, ends, rule


class Model:
    """The recorded rules and what follows from them, computed naively."""

    def __init__(self, labels):
        self.labels = set(labels)
        self.rules = set()
        self.edges = set()

    def add(self, rule):
        p = rule[0]
        kids = tuple(sorted(k for k in (rule[1] if len(rule) > 1 else ()) if k >= 0))
        self.rules.add((p, kids))
        self.labels.add(p)
        self.labels.update(kids)
        if len(kids) == 1:
            self.edges.add((p, kids[0]))
            if rule[2]:
                self.edges.add((kids[0], p))

    def classes(self):
        """label -> representative of its strongly connected component."""
        reach = {i: {i} for i in self.labels}
        changed = True
        while changed:
            changed = False
            for a, b in self.edges:
                new = reach[b] - reach[a]
                if new:
                    reach[a] |= new
                    changed = True
        return {i: min(j for j in reach[i] if i in reach[j]) for i in self.labels}

    def eqv_rules(self, rep=None):
        rep = rep or self.classes()
        out = set()
        for p, kids in self.rules:
            if len(kids) == 1 and rep[p] == rep[kids[0]]:
                continue
            out.add((rep[p], tuple(sorted(rep[k] for k in kids))))
        return out
