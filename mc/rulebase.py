"""Explicit enumeration of genuine rules with statistics, and of every form the library
derives from them.  Shared by C07, C08, C09, C10 and C20."""

import itertools
from functools import lru_cache

from comb_spec_searcher.strategies.rule import EquivalencePathRule

from mc import kit
from mc.common import in_library
from mc.kit import K, Factor, UnionBase, Word, _Settings, kind_words, lang, stat_value, tuplify


class _Explicit:
    """children and statistics maps spelled out, for one parent only."""

    def _set(self, parent, children, maps):
        self.parent = parent
        self.kids = tuple(children)
        self.maps = tuple(tuple(sorted(m.items())) if isinstance(m, dict) else m for m in maps)

    def parts(self, comb_class):
        if comb_class != self.parent:
            return None
        return self.kids, tuple(dict(m) for m in self.maps)

    def to_jsonable(self):
        d = super().to_jsonable()
        d["parent"] = self.parent.to_jsonable()
        d["children"] = [c.to_jsonable() for c in self.kids]
        d["maps"] = self.maps
        return d

    @classmethod
    def from_dict(cls, d):
        d = dict(d)
        from comb_spec_searcher import CombinatorialClass

        parent = CombinatorialClass.from_dict(d.pop("parent"))
        kids = tuple(map(CombinatorialClass.from_dict, d.pop("children")))
        return cls(parent, kids, tuplify(d.pop("maps")), **d)

    def __repr__(self):
        return f"{type(self).__name__}({self.parent!r}, {self.kids!r}, {self.maps!r})"


class MapUnion(_Explicit, UnionBase):
    SETTINGS = ()

    def __init__(self, parent, children, maps, ignore_parent=False, inferrable=True,
                 possibly_empty=True, workable=True):
        self._set(parent, children, maps)
        super().__init__(ignore_parent=ignore_parent, inferrable=inferrable,
                         possibly_empty=possibly_empty, workable=workable)


class MapProduct(_Explicit, Factor):
    """Order and split of the words as in Factor."""

    SETTINGS = ("extra", "order")

    def __init__(self, parent, children, maps, extra=0, order="fwd", ignore_parent=True,
                 inferrable=False, possibly_empty=False, workable=True):
        self._set(parent, children, maps)
        super().__init__("keep", extra, order, ignore_parent, inferrable, possibly_empty, workable)


# ----------------------------------------------------------------------------------
# Decompositions
# ----------------------------------------------------------------------------------

EPS = lang("a", "", (), True)
FIN = lang("ab", "", ("aa", "ab", "ba", "bb"))  # the words of size at most one
EMPTY = lang("ab", "z", ("z",))
A, B, C = lang("a"), lang("b"), lang("c")
AB = lang("ab", "", ("aa",))

# (name, kind of the parent, kinds of the children)
UNIONS = [
    ("expand", lang("ab"), kit.expand_kinds(lang("ab"))),
    ("rev", AB, kit.expand_kinds(AB, "rev")),
    ("empty", lang("ab", "a", ("aa",)), kit.expand_kinds(lang("ab", "a", ("aa",)))),
    ("one", lang("a", "", ("aa",)), kit.expand_kinds(lang("a", "", ("aa",)))),
    ("blocks", ("blocks", A, B), kit.expand_kinds(("blocks", A, B))),
    ("dyck", ("dyck", False), kit.expand_kinds(("dyck", False))),
    ("copy", AB, (AB,)),
    ("copyE", AB, (AB, EMPTY)),
    ("copyE1", AB, (EMPTY, AB)),
    ("copyEE", lang("ab", "b", ("ab",)), (EMPTY, lang("ab", "b", ("ab",)), EMPTY)),
    ("abc", lang("abc", "", ("ab", "cc")), kit.expand_kinds(lang("abc", "", ("ab", "cc")))),
]

# (name, kind of the parent, kinds of the children, extra, order)
PRODUCTS = [
    ("a.b", ("blocks", A, B), (A, B), 0, "fwd"),
    ("b.a", ("blocks", A, B), (B, A), 0, "rev"),
    ("pref", lang("ab", "ab", ("aa",)), kit.factor_kinds(lang("ab", "ab", ("aa",))), 0, "fwd"),
    ("perf", lang("ab", "ba", ("aa",)), kit.factor_kinds(lang("ab", "ba", ("aa",)))[::-1], 0, "rev"),
    ("long", lang("ab", "bab", ("bb",)), kit.factor_kinds(lang("ab", "bab", ("bb",))), 0, "fwd"),
    ("a.b.c", ("blocks", A, lang("b", "", ("bb",)), lang("c", "c")), (A, lang("b", "", ("bb",)), lang("c", "c")), 0, "fwd"),
    ("eps.b", ("blocks", EPS, B), (EPS, B), 0, "fwd"),
    ("fin.c", ("blocks", FIN, C), (FIN, C), 0, "fwd"),
    ("ab.c", ("blocks", AB, lang("c", "c")), (AB, lang("c", "c")), 0, "fwd"),
    ("dyck", ("dyck", True), kit.factor_kinds(("dyck", True)), 0, "fwd"),
    ("atoms", ("blocks", lang("a", "aa", (), True), lang("b", "b", (), True)), (lang("a", "aa", (), True), lang("b", "b", (), True)), 0, "fwd"),
]

STATS = {
    "0": (),
    "a": (("k", "a"),),
    "z": (("k", "z"),),
    "a,b": (("k", "a"), ("l", "b")),
    "b,a": (("l", "b"), ("k", "a")),
    "a,a": (("k", "a"), ("l", "a")),
    "ab,a": (("k", "ab"), ("l", "a")),
    "a,z": (("k", "a"), ("l", "z")),
    "a,c": (("k", "a"), ("l", "c")),
    "a,a,b": (("k", "a"), ("l", "a"), ("m", "b")),
    "ab,b,a": (("m", "ab"), ("l", "b"), ("k", "a")),
    "a,a,a": (("k", "a"), ("l", "a"), ("m", "a")),
    "(,)": (("k", "("), ("l", ")")),
    "(,(,()": (("k", "("), ("l", "("), ("m", "()")),
}


def letters_of(kind):
    return kit.all_letters(kind)


@lru_cache(maxsize=None)
def signature(kind, letters):
    """The values of a statistic on the words of a kind: equal signatures mean equal
    statistics (for the kinds used here)."""
    return tuple(stat_value(w, letters) for n in range(7) for w in kind_words(kind, n))


@lru_cache(maxsize=None)
def child_options(pstats, kind, full=True):
    """Every valid (child statistics, map) for a child of that kind: statistics that
    vanish may be dropped, statistics that coincide may be merged; names and order."""
    names = [k for k, _ in pstats]
    if kit.kind_empty(kind):
        out = [(pstats, tuple((k, k) for k in names))]
        if names:
            out.append(((), ()))
        return out
    sig = {k: signature(kind, letters) for k, letters in pstats}
    letters = dict(pstats)
    assignments = [[]]  # list of blocks, in order of first member; None: dropped
    for k in names:
        new = []
        for blocks in assignments:
            if not any(sig[k]):
                new.append([list(b) for b in blocks])
            for i, b in enumerate(blocks):
                if sig[b[0]] == sig[k]:
                    nb = [list(x) for x in blocks]
                    nb[i].append(k)
                    new.append(nb)
            new.append([list(b) for b in blocks] + [[k]])
        assignments = new
    out = []
    for blocks in assignments:
        n = len(blocks)
        namings = [[b[0] for b in blocks]]
        if n:
            if len(names) > 1:
                namings.append([names[(names.index(b[0]) + 1) % len(names)] for b in blocks])
            namings.append([f"c{i}" for i in range(n)])
        for naming in namings:
            if len(set(naming)) < n:
                continue
            orders = [range(n)] + ([range(n - 1, -1, -1)] if n > 1 and full else [])
            for order in orders:
                stats = tuple((naming[i], letters[blocks[i][0]]) for i in order)
                mapping = tuple(sorted((k, naming[i]) for i in range(n) for k in blocks[i]))
                if (stats, mapping) not in out:
                    out.append((stats, mapping))
    # the map that keeps everything comes first
    keep = (pstats, tuple(sorted((k, k) for k in names)))
    out.remove(keep)
    return [keep] + out


def combos(options, limit):
    """Combinations of the choices for each child: all of them if there are at most
    `limit`, otherwise all with at most two children away from the first choice, then
    (still too many) at most one, plus the 'diagonals'."""
    total = 1
    for o in options:
        total *= len(o)
    if total <= limit:
        return list(itertools.product(*options))
    out = []
    base = [o[0] for o in options]
    seen = set()

    def add(c):
        c = tuple(c)
        if c not in seen:
            seen.add(c)
            out.append(c)

    add(base)
    for i, o in enumerate(options):
        for x in o[1:]:
            add(base[:i] + [x] + base[i + 1 :])
    for d in range(1, max(map(len, options))):
        add([o[min(d, len(o) - 1)] for o in options])
        add([o[-1 - min(d, len(o) - 1)] for o in options])
    pairs = []
    for i, j in itertools.combinations(range(len(options)), 2):
        for x in options[i][1:]:
            for y in options[j][1:]:
                c = list(base)
                c[i], c[j] = x, y
                pairs.append(c)
    if len(out) + len(pairs) <= limit:
        for c in pairs:
            add(c)
    else:
        stride = max(1, len(pairs) // max(1, limit - len(out)))
        for c in pairs[::stride]:
            add(c)
    return out


def rule_specs(tier, products=True, unions=True, limit=None):
    """Descriptions of all rules: dictionaries that `build` turns into a strategy."""
    limit = limit or ({"quick": 60, "thorough": 600}[tier])
    out = []
    todo = ([("u", u) for u in UNIONS] if unions else []) + ([("p", p) for p in PRODUCTS] if products else [])
    for kind_of_rule, dec in todo:
        name, pkind, ckinds = dec[:3]
        usable = letters_of(pkind)
        for sname, stats in STATS.items():
            lets = set("".join(l for _, l in stats))
            if lets & set("()") and pkind[0] != "dyck":
                continue
            if pkind[0] == "dyck" and lets & set("abc"):
                continue
            if "c" in lets and "c" not in usable:
                continue
            options = [child_options(stats, k) for k in ckinds]
            for choice in combos(options, limit):
                out.append({"type": kind_of_rule, "dec": name, "stats": sname, "choice": choice})
    return out


def decomposition(typ, name):
    for d in UNIONS if typ == "u" else PRODUCTS:
        if d[0] == name:
            return d
    raise KeyError(name)


def build(spec, parent_tag="", child_tag=None):
    """(strategy, parent class)"""
    dec = decomposition(spec["type"], spec["dec"])
    pkind, ckinds = dec[1], dec[2]
    stats = STATS[spec["stats"]]
    parent = K(pkind, stats, parent_tag)
    kids, maps = [], []
    for kind, (cstats, cmap) in zip(ckinds, tuplify(spec["choice"])):
        tag = child_tag
        if tag is None:
            tag = "x" if kind == pkind else ""
        kids.append(K(kind, cstats, tag))
        maps.append(dict(cmap))
    if spec["type"] == "u":
        return MapUnion(parent, kids, maps), parent
    return MapProduct(parent, kids, maps, extra=dec[3], order=dec[4]), parent


def forms(spec):
    """Names of the forms of a rule; `make_form` builds them (freshly)."""
    strat, parent = build(spec)
    rule = strat(parent)
    yield ("rule",)
    if rule.is_equivalence():
        yield ("eqv",)
        yield ("eqv-rev",)
    if rule.is_reversible():
        for i, c in enumerate(rule.children):
            if not kit.kind_empty(c.kind):
                yield ("rev", i)
                if rule.to_reverse_rule(i).is_equivalence():
                    yield ("rev-eqv", i)


def make_form(spec, form):
    strat, parent = build(spec)
    rule = strat(parent)
    if form[0] == "rule":
        return rule
    if form[0] == "eqv":
        return rule.to_equivalence_rule()
    if form[0] == "eqv-rev":
        return rule.to_equivalence_rule().to_reverse_rule(0)
    if form[0] == "rev":
        return rule.to_reverse_rule(form[1])
    if form[0] == "rev-eqv":
        return rule.to_reverse_rule(form[1]).to_equivalence_rule()
    raise ValueError(form)


# ----------------------------------------------------------------------------------
# Equivalence paths
# ----------------------------------------------------------------------------------

PATH_KIND = AB
PATH_STATS = {
    "quick": [
        (), (("k", "a"),), (("l", "a"),), (("k", "z"),),
        (("k", "a"), ("l", "a")), (("k", "a"), ("l", "b")), (("l", "a"), ("k", "b")),
        (("k", "a"), ("l", "z")), (("l", "z"), ("k", "a")), (("m", "b"), ("k", "a"), ("l", "a")),
    ],
    "thorough": [
        (), (("k", "a"),), (("l", "a"),), (("k", "b"),), (("k", "z"),), (("k", "ab"), ("l", "b")),
        (("k", "a"), ("l", "a")), (("k", "a"), ("l", "b")), (("l", "a"), ("k", "b")), (("l", "b"), ("k", "a")),
        (("k", "a"), ("l", "z")), (("l", "z"), ("k", "a")), (("k", "z"), ("l", "a")),
        (("m", "b"), ("k", "a"), ("l", "a")), (("k", "a"), ("l", "a"), ("m", "a")),
        (("k", "a"), ("l", "z"), ("m", "b")),
    ],
}


def valid_maps(pstats, cstats):
    """Every valid map of the parent's statistics to the child's (same words), hitting
    every statistic of the child."""
    out = []
    cnames = [c for c, _ in cstats]
    sig_c = {c: signature(PATH_KIND, l) for c, l in cstats}
    choices = []
    for k, letters in pstats:
        s = signature(PATH_KIND, letters)
        opts = [(k, c) for c in cnames if sig_c[c] == s]
        if not any(s):
            opts.append(None)
        choices.append(opts)
    for pick in itertools.product(*choices):
        m = tuple(x for x in pick if x is not None)
        if set(c for _, c in m) == set(cnames):
            out.append(m)
    return out


def path_edges(tier):
    """(from stats, to stats, direction, map, shape)"""
    stats = PATH_STATS[tier]
    out = []
    for p in stats:
        for c in stats:
            for m in valid_maps(p, c):
                for shape in ("copy", "copyE", "copyE1"):
                    out.append((p, c, "fwd", m, shape))
                    out.append((c, p, "rev", m, shape))
    return out


def edge_rule(edge, i):
    """The rule of one step of a path, from the class number i to the class i + 1."""
    frm, to, direction, m, shape = edge
    pstats, cstats = (frm, to) if direction == "fwd" else (to, frm)
    ptag, ctag = (f"t{i}", f"t{i+1}") if direction == "fwd" else (f"t{i+1}", f"t{i}")
    parent = K(PATH_KIND, pstats, ptag)
    child = K(PATH_KIND, cstats, ctag)
    empty = K(EMPTY, (), ctag)
    kids, maps = {
        "copy": ((child,), (m,)),
        "copyE": ((child, empty), (m, ())),
        "copyE1": ((empty, child), ((), m)),
    }[shape]
    rule = MapUnion(parent, kids, maps)(parent)
    if shape == "copy":
        rule = rule if direction == "fwd" else rule.to_reverse_rule(0)
        return rule if rule.is_equivalence() else None
    rule = rule.to_equivalence_rule()
    if direction == "rev":
        rule = rule.to_reverse_rule(0)
        if not rule.is_equivalence():
            return None
    return rule


def make_path(edges):
    rules = [edge_rule(e, i) for i, e in enumerate(edges)]
    if any(r is None for r in rules):
        return None
    return EquivalencePathRule(rules)


def paths(tier, length):
    """All chains of edges.  For length >= 2 the empty children only decorate one of
    the steps (every step in turn)."""
    edges = path_edges(tier)
    start = {}
    for e in edges:
        start.setdefault(e[0], []).append(e)

    def go(prefix):
        if len(prefix) == length:
            if length == 1 or sum(e[4] != "copy" for e in prefix) <= 1:
                yield tuple(prefix)
            return
        for e in start.get(prefix[-1][1], ()):
            yield from go(prefix + [e])

    for e in edges:
        yield from go([e])


# ----------------------------------------------------------------------------------
# The truth about the children
# ----------------------------------------------------------------------------------


class Truth:
    """Stands for the rule of a class inside a specification."""

    def __init__(self, comb_class, log=None, choose=None):
        self.c = comb_class
        self.log = log
        self.choose = choose

    def get_terms(self, n):
        if self.log is not None:
            self.log(self.c, n)
        return self.c.true_terms(n)

    def get_objects(self, n):
        return self.c.true_objects(n)

    def count_objects_of_size(self, n, **parameters):
        key = tuple(parameters[k] for k in self.c.extra_parameters)
        return self.c.true_terms(n)[key]

    def random_sample_object_of_size(self, n, **parameters):
        key = tuple(parameters[k] for k in self.c.extra_parameters)
        objs = self.c.true_objects(n).get(key, [])
        return objs[self.choose(len(objs))]


def attach(rule, log=None, choose=None):
    """Bind the children of a rule to the truth.  `log(index, n)` hears every request."""
    count = itertools.count()
    truths = {}

    def get(comb_class):
        # the library asks child by child, once per kind of access
        i = next(count) % len(rule.children)
        if rule.children[i] != comb_class:
            # another order of asking: by class (children may be equal)
            i = rule.children.index(comb_class)
        if i not in truths:
            truths[i] = Truth(comb_class, None if log is None else (lambda c, n, i=i: log(i, n)), choose)
        return truths[i]

    rule.set_subrecs(get)
    return rule
