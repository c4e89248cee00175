"""The universe kit: combinatorial classes and strategies whose every class has a brute
force enumeration, exercising every shortcut of the library.

A class is a set of words, described by a `kind`:

  ("lang", alphabet, prefix, patterns, just)
        words over `alphabet` starting with `prefix` avoiding the consecutive
        `patterns`; only the word `prefix` itself when `just`.
  ("blocks", kind1, kind2, ...)
        concatenations of one word per block (blocks use disjoint letters, so the
        factorisation is unique; a block is a lang kind).
  ("dyck", nonempty)
        Dyck words over "(" and ")"; only the non-empty ones when `nonempty`.

plus `stats`: a tuple of (name, letters): the statistic `name` counts the occurrences of
the letters, and a `tag` distinguishing isomorphic copies.
"""

import itertools
import json
from collections import Counter, defaultdict
from functools import lru_cache

from comb_spec_searcher import (
    AtomStrategy,
    CartesianProductStrategy,
    CombinatorialClass,
    CombinatorialObject,
    DisjointUnionStrategy,
    StrategyFactory,
    StrategyPack,
    SymmetryStrategy,
    VerificationStrategy,
)
from comb_spec_searcher.exception import InvalidOperationError, StrategyDoesNotApply


class Word(str, CombinatorialObject):
    def size(self):
        return str.__len__(self)

    def __len__(self):
        return str.__len__(self)


# ----------------------------------------------------------------------------------
# Kinds
# ----------------------------------------------------------------------------------


def lang(alphabet, prefix="", patterns=(), just=False):
    return ("lang", "".join(sorted(alphabet)), prefix, tuple(sorted(set(patterns))), bool(just))


def tuplify(x):
    return tuple(tuplify(y) for y in x) if isinstance(x, (list, tuple)) else x


@lru_cache(maxsize=None)
def kind_words(kind, n):
    """All words of size n, in lexicographic order."""
    if kind[0] == "lang":
        _, alpha, prefix, patterns, just = kind
        if any(p in prefix for p in patterns):
            return ()
        if just:
            return (prefix,) if len(prefix) == n else ()
        if n < len(prefix):
            return ()
        if n == len(prefix):
            return (prefix,)
        out = []
        for w in kind_words(kind, n - 1):
            for a in alpha:
                v = w + a
                if not any(v.endswith(p) for p in patterns):
                    out.append(v)
        return tuple(out)
    if kind[0] == "blocks":
        if len(kind) == 1:
            return ("",) if n == 0 else ()
        out = []
        for i in range(n + 1):
            first = kind_words(kind[1], i)
            if first:
                rest = kind_words(("blocks",) + kind[2:], n - i)
                out.extend(u + v for u in first for v in rest)
        return tuple(sorted(out))
    if kind[0] == "dyck":
        if n == 0:
            return () if kind[1] else ("",)
        if n % 2:
            return ()
        out = []
        full = ("dyck", False)
        for i in range(0, n - 1, 2):
            for u in kind_words(full, i):
                for v in kind_words(full, n - 2 - i):
                    out.append("(" + u + ")" + v)
        return tuple(sorted(out))
    if kind[0] == "dyckr":
        # dyck words with the brackets exchanged
        swap = str.maketrans("()", ")(")
        return tuple(sorted(w.translate(swap) for w in kind_words(("dyck", kind[1]), n)))
    if kind[0] == "bal":
        # as many ( as ), starting with kind[1]
        return tuple(
            w
            for w in map("".join, itertools.product("()", repeat=n))
            if 2 * w.count("(") == n and w.startswith(kind[1])
        )
    raise ValueError(kind)


@lru_cache(maxsize=None)
def kind_empty(kind):
    if kind[0] == "lang":
        return any(p in kind[2] for p in kind[3])
    if kind[0] == "blocks":
        return any(kind_empty(k) for k in kind[1:])
    return False


@lru_cache(maxsize=None)
def kind_min(kind):
    """Smallest size."""
    if kind[0] == "lang":
        return len(kind[2])
    if kind[0] == "blocks":
        return sum(kind_min(k) for k in kind[1:])
    return 2 if kind[1] else 0


@lru_cache(maxsize=None)
def kind_atom(kind):
    if kind_empty(kind):
        return False
    if kind[0] == "lang":
        _, alpha, prefix, patterns, just = kind
        return just or not kind_words(kind, len(prefix) + 1)
    if kind[0] == "blocks":
        return all(kind_atom(k) for k in kind[1:])
    return False


@lru_cache(maxsize=None)
def kind_letters(kind):
    """A superset of the letters occurring in the words of the kind."""
    if kind[0] == "lang":
        _, alpha, prefix, patterns, just = kind
        if just or kind_atom(kind):
            return frozenset(prefix)
        return frozenset(prefix) | {a for a in alpha if a not in patterns}
    if kind[0] == "blocks":
        return frozenset().union(*(kind_letters(k) for k in kind[1:])) if len(kind) > 1 else frozenset()
    return frozenset("()")


def kind_min_stat(kind, letters):
    if kind[0] == "lang":
        return sum(c in letters for c in kind[2])
    if kind[0] == "blocks":
        return sum(kind_min_stat(k, letters) for k in kind[1:])
    return (("(" in letters) + (")" in letters)) if kind[1] else 0


def stat_value(word, letters):
    return sum(c in letters for c in word)


# ----------------------------------------------------------------------------------
# The class
# ----------------------------------------------------------------------------------


class K(CombinatorialClass):
    """A set of words with statistics."""

    COMPRESS = False

    def __init__(self, kind, stats=(), tag=""):
        self.kind = kind
        self.stats = tuple(stats)
        self.tag = tag
        self._hash = hash((kind, self.stats, tag))

    # -- what the library needs
    def is_empty(self):
        return kind_empty(self.kind)

    def is_atom(self):
        return kind_atom(self.kind)

    def minimum_size_of_object(self):
        return kind_min(self.kind)

    @property
    def extra_parameters(self):
        return tuple(k for k, _ in self.stats)

    def get_minimum_value(self, parameter):
        return kind_min_stat(self.kind, dict(self.stats)[parameter])

    def possible_parameters(self, n):
        seen = sorted({self.get_parameters(w) for w in self.words(n)})
        for p in seen:
            yield dict(zip(self.extra_parameters, p))

    def get_parameters(self, obj):
        return tuple(stat_value(obj, letters) for _, letters in self.stats)

    def words(self, n):
        if n < 0:
            return ()
        return kind_words(self.kind, n)

    def objects_of_size(self, n, **parameters):
        for w in self.words(n):
            obj = Word(w)
            if all(
                stat_value(w, letters) == parameters[k]
                for k, letters in self.stats
                if k in parameters
            ):
                yield obj

    def __contains__(self, word):
        return str(word) in set(self.words(len(word)))

    def to_jsonable(self):
        d = super().to_jsonable()
        d["kind"] = self.kind
        d["stats"] = self.stats
        d["tag"] = self.tag
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(tuplify(d["kind"]), tuplify(d["stats"]), d["tag"])

    def __eq__(self, other):
        if not isinstance(other, K):
            return NotImplemented
        return (self.kind, self.stats, self.tag) == (other.kind, other.stats, other.tag)

    def __hash__(self):
        return self._hash

    def __getstate__(self):
        return (self.kind, self.stats, self.tag)

    def __setstate__(self, state):
        self.__init__(*state)

    def __repr__(self):
        return f"K({self.kind!r}, {self.stats!r}, {self.tag!r})"

    def __str__(self):
        t = f"~{self.tag}" if self.tag else ""
        s = "".join(f"[{k}:{l}]" for k, l in self.stats)
        return f"{self.kind}{s}{t}"

    # -- oracle
    def true_terms(self, n):
        return Counter(self.get_parameters(w) for w in self.words(n))

    def true_objects(self, n):
        res = defaultdict(list)
        for w in self.words(n):
            res[self.get_parameters(w)].append(Word(w))
        return res

    # -- derived classes
    def with_kind(self, kind, stats=None, tag=None):
        return type(self)(
            kind, self.stats if stats is None else stats, self.tag if tag is None else tag
        )


class KB(K):
    """The same class stored compressed in the class database."""

    def to_bytes(self):
        return json.dumps([self.kind, self.stats, self.tag]).encode()

    @classmethod
    def from_bytes(cls, b):
        kind, stats, tag = json.loads(b.decode())
        return cls(tuplify(kind), tuplify(stats), tag)


# ----------------------------------------------------------------------------------
# Statistics of the children
# ----------------------------------------------------------------------------------

POLICIES = ("keep", "drop", "merge", "swap")


def child_stats(parent, kind, policy):
    """(stats of the child, map parent stat -> child stat) for a child of the parent
    whose words (up to a factor) are part of the parent's words.

    keep   the child keeps every statistic under the same name
    drop   statistics that vanish on the child are dropped
    merge  in addition statistics that coincide on the child are merged
    swap   in addition the surviving statistics are renamed cyclically
    """
    usable = kind_letters(kind)
    if policy == "keep":
        return parent.stats, {k: k for k, _ in parent.stats}
    stats = []
    mapping = {}
    for k, letters in parent.stats:
        eff = "".join(sorted(set(letters) & usable))
        if not eff:
            continue
        if policy in ("merge", "swap"):
            for k2, letters2 in stats:
                if letters2 == eff:
                    mapping[k] = k2
                    break
            else:
                stats.append((k, eff))
                mapping[k] = k
        else:
            stats.append((k, letters))
            mapping[k] = k
    if policy == "swap" and stats:
        names = [k for k, _ in stats]
        allnames = [k for k, _ in parent.stats]
        ren = {k: allnames[(allnames.index(k) + 1) % len(allnames)] for k in names}
        stats = sorted((ren[k], l) for k, l in stats)
        mapping = {k: ren[v] for k, v in mapping.items()}
    return tuple(stats), mapping


def make_children(parent, kinds, policy):
    children, maps = [], []
    for kind in kinds:
        stats, mapping = child_stats(parent, kind, policy)
        children.append(parent.with_kind(kind, stats))
        maps.append(mapping)
    return tuple(children), tuple(maps)


# ----------------------------------------------------------------------------------
# Decompositions of kinds
# ----------------------------------------------------------------------------------


def expand_kinds(kind, order="fwd"):
    """Disjoint union."""
    if kind[0] == "lang":
        _, alpha, prefix, patterns, just = kind
        if just:
            return None
        kids = [lang(alpha, prefix, patterns, True)] + [
            lang(alpha, prefix + a, patterns) for a in alpha
        ]
    elif kind[0] == "blocks":
        for i in range(1, len(kind)):
            sub = expand_kinds(kind[i], "fwd")
            if sub is not None and not kind_atom(kind[i]):
                kids = [kind[:i] + (s,) + kind[i + 1 :] for s in sub]
                break
        else:
            return None
    elif kind == ("dyck", False):
        kids = [lang("()", "", (), True), ("dyck", True)]
    elif kind == ("dyckr", False):
        kids = [lang("()", "", (), True), ("dyckr", True)]
    elif kind == ("bal", ""):
        kids = [lang("()", "", (), True), ("bal", "("), ("bal", ")")]
    else:
        return None
    return tuple(kids) if order == "fwd" else tuple(reversed(kids))


def factor_index(kind):
    """How many letters can be removed from the front of a (non-empty) lang kind: no
    pattern may start in the removed part and end after the prefix."""
    _, alpha, prefix, patterns, just = kind
    for j in range(len(prefix)):
        if any(p.startswith(prefix[j:]) and len(p) > len(prefix) - j for p in patterns):
            return j
    return len(prefix)


def factor_kinds(kind, extra=0):
    """Cartesian product (an unambiguous concatenation)."""
    if kind[0] == "lang":
        _, alpha, prefix, patterns, just = kind
        if just or kind_empty(kind):
            return None
        i = factor_index(kind) - extra
        if i <= 0:
            return None
        return (
            lang(alpha, prefix[:i], patterns, True),
            lang(alpha, prefix[i:], patterns),
        )
    if kind[0] == "blocks":
        if extra:
            if len(kind) <= 3:
                return None
            return (("blocks",) + kind[1:3],) + kind[3:]
        return kind[1:]
    if kind == ("dyck", True):
        if extra:
            return None
        return (
            lang("()", "(", (), True),
            ("dyck", False),
            lang("()", ")", (), True),
            ("dyck", False),
        )
    if kind == ("dyckr", True) or kind == ("bal", ")"):
        if extra:
            return None
        return (
            lang("()", ")", (), True),
            ("dyckr", False),
            lang("()", "(", (), True),
            (kind[0], "" if kind[0] == "bal" else False),
        )
    if kind == ("bal", "("):
        if extra:
            return None
        return lang("()", "(", (), True), ("dyck", False), lang("()", ")", (), True), ("bal", "")
    return None


def split_word(kind, word, kids):
    """The parts of a word for `factor_kinds`."""
    if kind[0] == "lang":
        i = len(kids[0][2])
        return word[:i], word[i:]
    if kind[0] == "blocks":
        parts = []
        pos = 0
        for k in kids:
            letters = all_letters(k)
            end = pos
            while end < len(word) and word[end] in letters:
                end += 1
            parts.append(word[pos:end])
            pos = end
        assert pos == len(word), (kind, word)
        return tuple(parts)
    depth = 0
    for i, c in enumerate(word):
        depth += 1 if c == word[0] else -1
        if depth == 0:
            return word[0], word[1:i], c, word[i + 1 :]
    raise ValueError(word)


def all_letters(kind):
    if kind[0] == "lang":
        return set(kind[1]) | set(kind[2])
    if kind[0] == "blocks":
        return set().union(*(all_letters(k) for k in kind[1:]))
    return set("()")


# ----------------------------------------------------------------------------------
# Strategies
# ----------------------------------------------------------------------------------


class _Settings:
    """JSON round trip for strategies with keyword settings."""

    FLAGS = ("ignore_parent", "inferrable", "possibly_empty", "workable")
    SETTINGS = ()

    def to_jsonable(self):
        d = super().to_jsonable()
        for k in self.SETTINGS:
            d[k] = getattr(self, k)
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(**{k: tuplify(v) if isinstance(v, list) else v for k, v in d.items()})

    def __repr__(self):
        args = ", ".join(f"{k}={getattr(self, k)!r}" for k in self.SETTINGS)
        return f"{type(self).__name__}({args})"

    def __str__(self):
        return repr(self)

    def formal_step(self):
        return f"{type(self).__name__} step"


class UnionBase(_Settings, DisjointUnionStrategy):
    """A union strategy from a function parent -> (children, maps) or None."""

    def parts(self, comb_class):
        raise NotImplementedError

    def decomposition_function(self, comb_class):
        parts = self.parts(comb_class)
        return None if parts is None else parts[0]

    def extra_parameters(self, comb_class, children=None):
        parts = self.parts(comb_class)
        if parts is None:
            raise StrategyDoesNotApply(str(self))
        return parts[1]

    def to_parent(self, comb_class, child, word):
        return word

    def from_parent(self, comb_class, child, word):
        return word

    def forward_map(self, comb_class, obj, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
        res = []
        for child in children:
            w = self.from_parent(comb_class, child, obj)
            res.append(Word(w) if w is not None and w in child else None)
        assert sum(r is not None for r in res) == 1, (comb_class, obj, res)
        return tuple(res)

    def backward_map(self, comb_class, objs, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
        idx = DisjointUnionStrategy.backward_map_index(objs)
        yield Word(self.to_parent(comb_class, children[idx], objs[idx]))


class Expand(UnionBase):
    SETTINGS = ("policy", "order")

    def __init__(self, policy="keep", order="fwd", ignore_parent=False, inferrable=True,
                 possibly_empty=True, workable=True):
        self.policy = policy
        self.order = order
        super().__init__(ignore_parent=ignore_parent, inferrable=inferrable,
                         possibly_empty=possibly_empty, workable=workable)

    def parts(self, comb_class):
        kinds = expand_kinds(comb_class.kind, self.order)
        if kinds is None:
            return None
        return make_children(comb_class, kinds, self.policy)


class ExpandTight(Expand):
    """Expansion listing only the non-empty children."""

    def __init__(self, policy="keep", order="fwd", ignore_parent=False, inferrable=True,
                 possibly_empty=False, workable=True):
        super().__init__(policy, order, ignore_parent, inferrable, possibly_empty, workable)

    def parts(self, comb_class):
        kinds = expand_kinds(comb_class.kind, self.order)
        if kinds is None:
            return None
        kinds = tuple(k for k in kinds if not kind_empty(k))
        return make_children(comb_class, kinds, self.policy) if kinds else None


class Retag(UnionBase):
    """An isomorphic copy: tag `old` becomes `new`, words unchanged."""

    SETTINGS = ("old", "new", "two_way", "policy")

    def __init__(self, old="", new="x", two_way=True, policy="keep", ignore_parent=False,
                 inferrable=True, possibly_empty=False, workable=True):
        self.old = old
        self.new = new
        self.two_way = two_way
        self.policy = policy
        super().__init__(ignore_parent=ignore_parent, inferrable=inferrable,
                         possibly_empty=possibly_empty, workable=workable)

    def is_two_way(self, comb_class):
        return self.two_way

    def is_reversible(self, comb_class):
        return self.two_way

    def parts(self, comb_class):
        if comb_class.tag != self.old or comb_class.is_empty():
            return None
        stats, mapping = child_stats(comb_class, comb_class.kind, self.policy)
        return (comb_class.with_kind(comb_class.kind, stats, self.new),), (mapping,)


class RetagWithEmpty(Retag):
    """The same with an extra empty child: an equivalence up to an empty class."""

    SETTINGS = ("old", "new", "two_way", "policy", "first")

    def __init__(self, old="", new="y", two_way=True, policy="keep", first=False,
                 ignore_parent=False, inferrable=True, possibly_empty=True, workable=True):
        self.first = first
        super().__init__(old, new, two_way, policy, ignore_parent, inferrable,
                         possibly_empty, workable)

    def parts(self, comb_class):
        if comb_class.kind[0] != "lang":
            return None
        res = super().parts(comb_class)
        if res is None:
            return None
        empty_kind = lang(comb_class.kind[1], "z", ("z",))
        stats, mapping = child_stats(comb_class, comb_class.kind, "drop")
        empty = comb_class.with_kind(empty_kind, (), self.new)
        (child,), (cmap,) = res
        if self.first:
            return (empty, child), ({}, cmap)
        return (child, empty), (cmap, {})


class SwapLetters(_Settings, SymmetryStrategy):
    """The symmetry exchanging a and b."""

    SETTINGS = ()
    TABLE = str.maketrans("ab", "ba")

    def __init__(self, ignore_parent=False, inferrable=False, possibly_empty=False,
                 workable=False):
        super().__init__(ignore_parent=ignore_parent, inferrable=inferrable,
                         possibly_empty=possibly_empty, workable=workable)

    def _swap_kind(self, kind):
        return lang(kind[1].translate(self.TABLE), kind[2].translate(self.TABLE),
                    [p.translate(self.TABLE) for p in kind[3]], kind[4])

    def decomposition_function(self, comb_class):
        if comb_class.kind[0] != "lang":
            return None
        stats = tuple(
            (k, "".join(sorted(l.translate(self.TABLE)))) for k, l in comb_class.stats
        )
        return (comb_class.with_kind(self._swap_kind(comb_class.kind), stats),)

    def extra_parameters(self, comb_class, children=None):
        return ({k: k for k in comb_class.extra_parameters},)

    def forward_map(self, comb_class, obj, children=None):
        return (Word(obj.translate(self.TABLE)),)

    def backward_map(self, comb_class, objs, children=None):
        yield Word(objs[0].translate(self.TABLE))


class DropLetters(UnionBase):
    """Inferral: letters that are forbidden patterns leave the alphabet, and patterns
    containing another pattern are dropped."""

    SETTINGS = ("policy",)

    def __init__(self, policy="keep", ignore_parent=True, inferrable=True,
                 possibly_empty=False, workable=True):
        self.policy = policy
        super().__init__(ignore_parent=ignore_parent, inferrable=inferrable,
                         possibly_empty=possibly_empty, workable=workable)

    def parts(self, comb_class):
        kind = comb_class.kind
        if kind[0] != "lang" or comb_class.is_empty():
            return None
        _, alpha, prefix, patterns, just = kind
        alpha2 = "".join(a for a in alpha if a not in patterns or a in prefix)
        pats = [p for p in patterns if set(p) <= set(alpha2)]
        pats = [p for p in pats if not any(q != p and q in p for q in pats)]
        new = lang(alpha2, prefix, pats, just)
        if new == kind:
            return None
        stats, mapping = child_stats(comb_class, new, self.policy)
        return (comb_class.with_kind(new, stats),), (mapping,)


class DropPatterns(DropLetters):
    """Inferral: an atom forgets its patterns and its alphabet."""

    def parts(self, comb_class):
        kind = comb_class.kind
        if kind[0] != "lang" or comb_class.is_empty() or not comb_class.is_atom():
            return None
        new = lang(set(kind[2]), kind[2], (), True)
        if new == kind:
            return None
        stats, mapping = child_stats(comb_class, new, self.policy)
        return (comb_class.with_kind(new, stats),), (mapping,)


class DropStats(UnionBase):
    """Drop or merge or rename statistics."""

    SETTINGS = ("policy",)

    def __init__(self, policy="merge", ignore_parent=False, inferrable=True,
                 possibly_empty=False, workable=True):
        self.policy = policy
        super().__init__(ignore_parent=ignore_parent, inferrable=inferrable,
                         possibly_empty=possibly_empty, workable=workable)

    def parts(self, comb_class):
        if comb_class.is_empty():
            return None
        stats, mapping = child_stats(comb_class, comb_class.kind, self.policy)
        if stats == comb_class.stats:
            return None
        return (comb_class.with_kind(comb_class.kind, stats),), (mapping,)


class Factor(_Settings, CartesianProductStrategy):
    SETTINGS = ("policy", "extra", "order")

    def __init__(self, policy="keep", extra=0, order="fwd", ignore_parent=True,
                 inferrable=False, possibly_empty=False, workable=True):
        self.policy = policy
        self.extra = extra
        self.order = order
        super().__init__(ignore_parent=ignore_parent, inferrable=inferrable,
                         possibly_empty=possibly_empty, workable=workable)

    def kinds(self, comb_class):
        if comb_class.is_empty():
            return None
        return factor_kinds(comb_class.kind, self.extra)

    def parts(self, comb_class):
        kinds = self.kinds(comb_class)
        if kinds is None:
            return None
        if self.order == "rev":
            kinds = tuple(reversed(kinds))
        return make_children(comb_class, kinds, self.policy)

    def decomposition_function(self, comb_class):
        parts = self.parts(comb_class)
        return None if parts is None else parts[0]

    def extra_parameters(self, comb_class, children=None):
        parts = self.parts(comb_class)
        if parts is None:
            raise StrategyDoesNotApply(str(self))
        return parts[1]

    def forward_map(self, comb_class, obj, children=None):
        res = split_word(comb_class.kind, str(obj), self.kinds(comb_class))
        if self.order == "rev":
            res = tuple(reversed(res))
        return tuple(map(Word, res))

    def backward_map(self, comb_class, objs, children=None):
        if self.order == "rev":
            objs = tuple(reversed(objs))
        yield Word("".join(objs))


class Atom(_Settings, VerificationStrategy):
    """Verifies atoms, with statistics."""

    def __init__(self, ignore_parent=True):
        super().__init__(ignore_parent=ignore_parent)

    def verified(self, comb_class):
        return comb_class.is_atom()

    def get_terms(self, comb_class, n):
        return comb_class.true_terms(n)

    def get_objects(self, comb_class, n):
        return comb_class.true_objects(n)

    def get_genf(self, comb_class, funcs=None):
        import sympy

        n = comb_class.minimum_size_of_object()
        res = sympy.var("x") ** n
        word = comb_class.words(n)[0]
        for k, letters in comb_class.stats:
            res *= sympy.var(k) ** stat_value(word, letters)
        return res

    def random_sample_object_of_size(self, comb_class, n, **parameters):
        import random

        objs = list(comb_class.objects_of_size(n, **parameters))
        if not objs:
            raise ValueError("no such object")
        return random.choice(objs)


def _genf_word_count(kind):
    """Closed form of a lang kind without patterns."""
    import sympy

    x = sympy.var("x")
    _, alpha, prefix, patterns, just = kind
    if patterns:
        raise NotImplementedError
    if just:
        return x ** len(prefix)
    return x ** len(prefix) / (1 - len(alpha) * x)


class VerifyIf(Atom):
    """Verifies by brute force the classes whose kind is listed (any statistics, any
    tag).  With a non-empty `packname`, offers a pack to expand them."""

    SETTINGS = ("kinds", "packname")

    def __init__(self, kinds=(), packname="", ignore_parent=True):
        self.kinds = tuple(kinds)
        self.packname = packname
        super().__init__(ignore_parent=ignore_parent)

    def verified(self, comb_class):
        return comb_class.kind in self.kinds and not comb_class.is_empty()

    def pack(self, comb_class):
        if not self.packname:
            raise InvalidOperationError("no pack")
        return PACKS[self.packname]()

    def get_genf(self, comb_class, funcs=None):
        if comb_class.kind[0] == "lang" and not comb_class.stats:
            return _genf_word_count(comb_class.kind)
        raise NotImplementedError


class VerifyWith(Atom):
    """Verifies by brute force the languages with a given prefix, declaring that they depend
    on the languages with shorter prefixes (`cuts`: their lengths)."""

    SETTINGS = ("prefixes", "cuts", "to", "packname")

    def __init__(self, prefixes=(), cuts=(0,), to="", packname="", ignore_parent=True):
        self.prefixes = tuple(prefixes)
        self.cuts = tuple(cuts)
        self.to = to
        self.packname = packname
        super().__init__(ignore_parent=ignore_parent)

    def verified(self, comb_class):
        kind = comb_class.kind
        return kind[0] == "lang" and kind[2] in self.prefixes and not kind[4] and not comb_class.is_empty()

    def decomposition_function(self, comb_class):
        if not self.verified(comb_class):
            return None
        _, alpha, prefix, patterns, just = comb_class.kind
        return tuple(comb_class.with_kind(lang(alpha, prefix[:i], patterns), None, self.to) for i in self.cuts)

    def shifts(self, comb_class, children=None):
        return tuple(len(comb_class.kind[2]) - i for i in self.cuts)

    def pack(self, comb_class):
        if not self.packname:
            raise InvalidOperationError("no pack")
        return PACKS[self.packname]()

    def get_genf(self, comb_class, funcs=None):
        raise NotImplementedError


class VerifyLib(_Settings, VerificationStrategy):
    """Verifies the classes whose kind is listed through the specification its pack
    finds: terms, objects, samples and series are the library's own."""

    SETTINGS = ("kinds", "packname")

    def __init__(self, kinds=(), packname="plain", ignore_parent=True):
        self.kinds = tuple(kinds)
        self.packname = packname
        super().__init__(ignore_parent=ignore_parent)

    def verified(self, comb_class):
        return comb_class.kind in self.kinds and not comb_class.is_empty()

    def pack(self, comb_class):
        return PACKS[self.packname]()

    FOUND = {}

    def get_specification(self, comb_class):
        """The library's, searched once, with the default answers of the seams."""
        key = (self.kinds, self.packname, comb_class)
        if key not in self.FOUND:
            from mc.common import Chooser, Clock, RandomSeam

            with Clock(), RandomSeam(Chooser()):
                self.FOUND[key] = super().get_specification(comb_class)
        return self.FOUND[key]


class VerifyTagged(VerifyIf):
    """Verifies by brute force the non-empty classes carrying a given tag."""

    SETTINGS = ("vtag", "packname")

    def __init__(self, vtag="v", packname="", ignore_parent=True):
        super().__init__((), packname, ignore_parent)
        self.vtag = vtag

    def verified(self, comb_class):
        return comb_class.tag == self.vtag and not comb_class.is_empty()


class _FactoryBase(StrategyFactory):
    SETTINGS = ()

    def to_jsonable(self):
        d = super().to_jsonable()
        for k in self.SETTINGS:
            d[k] = getattr(self, k)
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(**{k: tuplify(v) if isinstance(v, list) else v for k, v in d.items()})

    def __repr__(self):
        args = ", ".join(f"{k}={getattr(self, k)!r}" for k in self.SETTINGS)
        return f"{type(self).__name__}({args})"

    def __str__(self):
        return repr(self)


class FactorFactory(_FactoryBase):
    """Yields several strategies, including ones that do not apply, and ready rules."""

    SETTINGS = ("policy", "ready")

    def __init__(self, policy="keep", ready=False):
        self.policy = policy
        self.ready = ready

    def __call__(self, comb_class):
        for extra in (2, 1, 0):
            strat = Factor(self.policy, extra)
            if self.ready:
                if strat.decomposition_function(comb_class) is not None:
                    yield strat(comb_class)
            else:
                yield strat


class ParentFactory(_FactoryBase):
    """Ready rules whose parent is *another* class: the expansion of the class one
    letter shorter, and its factorisation with one letter in front."""

    SETTINGS = ("policy", "mode")

    def __init__(self, policy="keep", mode="expand"):
        self.policy = policy
        self.mode = mode

    def __call__(self, comb_class):
        kind = comb_class.kind
        if kind[0] != "lang" or kind[4] or comb_class.is_empty():
            return
        _, alpha, prefix, patterns, _ = kind
        if self.mode == "expand":
            if not prefix:
                return
            parent = comb_class.with_kind(lang(alpha, prefix[:-1], patterns))
            rule = Expand(self.policy)(parent)
        else:
            parent = comb_class.with_kind(lang(alpha, alpha[0] + prefix, patterns))
            strat = Factor(self.policy)
            if strat.decomposition_function(parent) is None:
                return
            rule = strat(parent)
        if comb_class in rule.children:
            yield rule


class StatsParentFactory(_FactoryBase):
    """Ready equivalences whose parent is another class: the same words with more
    statistics, that are merged or dropped on the class itself."""

    SETTINGS = ("mode", "only")

    def __init__(self, mode="merge", only=""):
        self.mode = mode
        self.only = only

    def __call__(self, comb_class):
        names = [n for n in "tuvw" if n not in comb_class.extra_parameters]
        if comb_class.is_empty() or comb_class.tag != self.only or len(names) < 4:
            return
        if self.mode == "merge":
            if not comb_class.stats:
                return
            # every statistic of the class can be tracked twice by the parent
            parent_stats = comb_class.stats + ((names[0], comb_class.stats[0][1]),)
            policy = "merge"
        else:
            parent_stats = ((names[0], "z"),) + comb_class.stats
            policy = "drop"
        parent = comb_class.with_kind(comb_class.kind, parent_stats)
        rule = DropStats(policy)(parent)
        if rule.children == (comb_class,):
            yield rule
            yield Expand("keep")(parent)


class RetagParent(_FactoryBase):
    """Ready rules whose parent is another class: the copy tagged p, that is the class
    and an empty class."""

    SETTINGS = ("policy", "first", "two_way")

    def __init__(self, policy="keep", first=True, two_way=True):
        self.policy = policy
        self.first = first
        self.two_way = two_way

    def __call__(self, comb_class):
        if comb_class.tag or comb_class.is_empty() or comb_class.kind[0] != "lang":
            return
        for letters in itertools.permutations([x for _, x in comb_class.stats]):
            stats = tuple(zip(comb_class.extra_parameters, letters))
            parent = comb_class.with_kind(comb_class.kind, stats, "p")
            rule = RetagWithEmpty("p", "", self.two_way, self.policy, self.first)(parent)
            if comb_class in rule.children:
                yield rule
                for strat in (Factor(self.policy), Expand(self.policy)):
                    if strat.decomposition_function(parent) is not None:
                        yield strat(parent)
                return


class OneAndTwo(_FactoryBase):
    """The same equivalence several times, only some of them two way."""

    SETTINGS = ("old", "new", "ways", "policy", "ready")

    def __init__(self, old="", new="x", ways=(False, True), policy="keep", ready=False):
        self.old = old
        self.new = new
        self.ways = tuple(ways)
        self.policy = policy
        self.ready = ready

    def __call__(self, comb_class):
        for two_way in self.ways:
            strat = Retag(self.old, self.new, two_way, self.policy)
            if not self.ready:
                yield strat
            elif strat.decomposition_function(comb_class) is not None:
                yield strat(comb_class)


class Scatter(Factor):
    """Factors the classes without tag into classes with different tags."""

    TAGS = ("x", "y")

    def parts(self, comb_class):
        if comb_class.tag:
            return None
        res = super().parts(comb_class)
        if res is None:
            return None
        kids, maps = res
        tag = self.TAGS[hash_of(comb_class.kind) % len(self.TAGS)]
        return tuple(c if c.is_atom() else c.with_kind(c.kind, c.stats, tag) for c in kids), maps


def hash_of(kind):
    """The same in every process."""
    return sum(map(ord, repr(kind)))


# ----------------------------------------------------------------------------------
# Packs offered by verification strategies (by name, so they survive JSON)
# ----------------------------------------------------------------------------------


def _pack_plain():
    return StrategyPack([Factor("merge")], [], [[Expand("merge")]], [Atom()], "plain")


def _pack_keep():
    return StrategyPack([Factor("keep")], [], [[Expand("keep")]], [Atom()], "keep")


def _pack_nested():
    """Expands once more into classes verified by another strategy with a pack."""
    return StrategyPack(
        [Factor("keep")], [], [[Expand("keep")]],
        [Atom(), VerifyIf(tuple(lang("ab", p, q) for p in ("aa", "bb", "ab", "ba")
                                for q in ((), ("aa",), ("bb",), ("ab",), ("aa", "bb"),
                                          ("ab", "ba"))), "keep")],
        "nested",
    )


PACKS = {"plain": _pack_plain, "keep": _pack_keep, "nested": _pack_nested}


def json_roundtrip(x):
    return json.loads(json.dumps(x))
