"""C19: expanding verified classes preserves the enumeration and finishes the job.

Searches whose pack verifies a chosen set of classes - every set of up to two (three) of
the classes met by the same search without it - by a strategy that offers a pack: the pack
of the search itself, one that meets further classes with packs of their own, or one that
only works with reverse rules.  Every specification found, under every rule database, is
expanded by expand_verified (with a clock that stands still and one that is always late)
and, class by class, by expand_comb_class in every order and with every option.  Every
specification met is compared with brute force, checked for validity, and for objects
shared with the ones before it, which have to be unchanged and usable.
"""

import itertools

from comb_spec_searcher import CombinatorialSpecificationSearcher, StrategyPack
from comb_spec_searcher.exception import InvalidOperationError, SpecificationNotFound
from comb_spec_searcher.rule_db import RuleDBForest
from comb_spec_searcher.strategies.rule import EquivalencePathRule, ReverseRule, VerificationRule

from mc import kit
from mc import universe as U
from mc.c18 import rule_sig
from mc.common import Chooser, Clock, RandomSeam, Result, SubCheck, Violation, in_library, short_tb

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of the sets of verified classes, the packs they offer, the rule databases and the "
             "orders of expansion, executed on the real code against brute force enumeration")
NOTE = "Every specification reachable by expansions from every specification with verified classes within the bounds."
RULE = "every (search, set of verified classes, offered pack, database) and order of expansion; outcome = (database, offer, steps)"
ASSUMPTIONS = [
    "the packs offered produce finite universes, and do not verify the class they are offered for in the same way",
    "expanding has to succeed when a fresh search for the class with the pack it offers succeeds",
]

# ----------------------------------------------------------------------------------
# Strategies
# ----------------------------------------------------------------------------------


class VerifyThese(kit.VerifyIf):
    """Verifies by brute force the listed (kind, tag) and offers a pack."""

    SETTINGS = ("these", "offer")

    def __init__(self, these=(), offer="", ignore_parent=True):
        super().__init__((), "", ignore_parent)
        self.these = tuple(these)
        self.offer = offer

    def verified(self, comb_class):
        return (comb_class.kind, comb_class.tag) in self.these and not comb_class.is_empty()

    def pack(self, comb_class):
        if not self.offer:
            raise InvalidOperationError("no pack")
        return offered_pack(self.offer, comb_class)


class Hop(kit.Expand):
    """Expands the classes tagged p into classes without tag."""

    def parts(self, comb_class):
        if comb_class.tag != "p":
            return None
        return untagged(super().parts(comb_class))


class HopFactor(kit.Factor):
    """Factors the classes tagged p into classes without tag."""

    def parts(self, comb_class):
        if comb_class.tag != "p":
            return None
        return untagged(super().parts(comb_class))


def untagged(parts):
    if parts is None:
        return None
    children, maps = parts
    return tuple(c.with_kind(c.kind, c.stats, "") for c in children), maps


class HopFactory(kit._FactoryBase):
    """The rules of a parent (tagged p) that has the class among its children, only for
    the given class."""

    SETTINGS = ("these", "mode", "policy")

    def __init__(self, these=(), mode="expand", policy="keep"):
        self.these = tuple(these)
        self.mode = mode
        self.policy = policy

    def __call__(self, comb_class):
        if (comb_class.kind, comb_class.tag) not in self.these:
            return
        rule = hop(comb_class, self.mode, self.policy)
        if rule is not None:
            # nobody else meets the parent: its rule, and a count for it
            yield rule
            yield kit.VerifyTagged("p")(rule.comb_class)


def hop(comb_class, mode, policy):
    kind = comb_class.kind
    if kind[0] != "lang" or kind[4]:
        return None
    _, alpha, prefix, patterns, _ = kind
    if mode == "expand":
        if not prefix:
            return None
        parent = comb_class.with_kind(kit.lang(alpha, prefix[:-1], patterns), tag="p")
        strat = Hop(policy)
    else:
        parent = comb_class.with_kind(kit.lang(alpha, alpha[-1] + prefix, patterns), tag="p")
        strat = HopFactor(policy)
    children = strat.decomposition_function(parent)
    if not children or comb_class not in children:
        return None
    return strat(parent)


class Except(kit._FactoryBase):
    """The strategies of a pack, but not on the given classes."""

    SETTINGS = ("these", "base", "policy", "where")

    def __init__(self, these=(), base="std", policy="keep", where="initial"):
        self.these = tuple(these)
        self.base = base
        self.policy = policy
        self.where = where

    def __call__(self, comb_class):
        if (comb_class.kind, comb_class.tag) in self.these or comb_class.tag == "p":
            return
        pack = U.make_pack(self.base, self.policy)
        if self.where == "initial":
            strats = pack.initial_strats
        else:
            strats = itertools.chain.from_iterable(pack.expansion_strats)
        for s in strats:
            if isinstance(s, kit._FactoryBase):
                yield from s(comb_class)
            else:
                yield s


def offered_pack(offer, comb_class):
    """same:BASE:POLICY, nest:BASE:POLICY, hop:BASE:POLICY, quo:BASE:POLICY, nesthop:..., again:..."""
    how, base, policy = offer.split(":")
    pack = U.make_pack(base, policy)
    me = ((comb_class.kind, comb_class.tag),)
    ver = list(pack.ver_strats)
    if how == "same":
        return pack
    if how == "nest":
        # the classes one letter further offer packs as well
        tags = ("", "x", "y")
        deeper = tuple((k, t) for k in next_kinds(comb_class.kind) for t in tags if (k, t) not in me)
        if not deeper:
            return pack
        ver.append(VerifyThese(deeper, f"same:{base}:{policy}"))
        return StrategyPack(pack.initial_strats, pack.inferral_strats, pack.expansion_strats, ver, offer, symmetries=pack.symmetries)
    if how == "nesthop":
        deeper = tuple((k, "") for k in next_kinds(comb_class.kind) if (k, "") not in me)
        if not deeper:
            return pack
        ver.append(VerifyThese(deeper, f"hop:{base}:{policy}"))
        return StrategyPack(pack.initial_strats, pack.inferral_strats, pack.expansion_strats, ver, offer, symmetries=pack.symmetries)
    if how == "again":
        # nothing but a verification of the class, that offers no pack
        return StrategyPack([], [], [], ver + [VerifyThese(me, "")], offer)
    # only by reverse rules
    mode = "expand" if how == "hop" else "factor"
    ver.append(kit.VerifyTagged("p"))
    init = [HopFactory(me, mode, policy), Except(me, base, policy, "initial")]
    return StrategyPack(init, [], [[Except(me, base, policy, "expansion")]], ver, offer)


def next_kinds(kind):
    out = []
    todo = [kind]
    for _ in range(2):
        new = []
        for k in todo:
            for kids in (kit.expand_kinds(k), kit.factor_kinds(k)):
                for c in kids or ():
                    if c not in out and not kit.kind_empty(c) and not kit.kind_atom(c):
                        new.append(c)
                        out.append(c)
        todo = new
    return out


# ----------------------------------------------------------------------------------
# Configurations
# ----------------------------------------------------------------------------------

BASES = {
    "quick": ("std", "tight", "retag", "retagE", "retagEonly", "parent", "infer", "retag1", "cyclemix"),
    "thorough": ("std", "lib", "tight", "rev", "both", "infer", "infer2", "retag", "retagonly", "retag1",
                 "retag1back", "cycle3", "cyclemix", "retagE", "retagEf", "retagEonly", "retagE1", "parent", "parentonly",
                 "sym", "syminf", "fact", "factready", "twosets", "slow"),
}
STARTS = {
    "quick": [("-aa", "0"), ("-ab", "0"), ("-aba", "0"), ("a.b", "0"), ("dyck", "0"), ("-aa", "a"), ("-aa", "a,b"), ("ab.c", "a")],
    "thorough": [(k, s) for k in ("-aa", "-ab", "-aba", "-aa,bb", "-ab,ba", "ab*", "-aab", "a|-aa", "ab|-aa", "abc")
                 for s in ("0", "a", "a,b", "a,a", "b,a")]
    + [(k, s) for k in ("a.b", "a.b.c", "ab.c", "a.b-bb") for s in ("0", "a", "a,b", "a,a")]
    + [("dyck", "0"), ("dyck", "d"), ("dyck", "d,d")],
}
OFFERS = ("same", "nest", "hop", "quo", "nesthop", "again")
DBS = ("rule", "forget", "forest", "forest0")


def start_configs(tier):
    for start, stats in STARTS[tier]:
        for base in BASES[tier]:
            if base.startswith("sym") and U.KINDS[start][0] != "lang":
                continue
            if tier == "quick" and stats != "0" and base not in ("std", "retag", "retagE"):
                continue
            for policy in ("keep",) if stats == "0" else ("keep", "drop") if tier == "quick" else kit.POLICIES:
                if "one" in base and policy == "swap":
                    continue
                yield {"start": start, "stats": stats, "base": base, "policy": policy}


def candidates(cfg):
    """The (kind, tag) of the classes met by the search itself."""
    start = U.start_class(cfg["start"], cfg["stats"])
    out = []
    for db in ("forest", "rule"):
        searcher, spec = U.run_search(None, searcher=U.searcher_for(start, cfg["base"], db, cfg["policy"]))
        if spec is None:
            continue
        for c in sorted(spec.comb_classes(), key=repr):
            key = (c.kind, c.tag)
            if key not in out and not kit.kind_empty(c.kind) and not kit.kind_atom(c.kind):
                out.append(key)
    root = (start.kind, start.tag)
    if root in out:
        out.remove(root)
        out.append(root)
    return out


LIMITS = {"quick": (5, 4), "thorough": (10, 30)}


def subsets(cfg, tier):
    cands = candidates(cfg)
    singles, pairs = LIMITS[tier]
    for c in cands[:singles] + cands[singles:][-1:]:
        yield (c,)
    several = list(itertools.combinations(cands[: 6 if tier == "quick" else 8], 2))
    if tier == "thorough":
        several += list(itertools.combinations(cands[:6], 3))
    else:
        several += list(itertools.combinations(cands[:3], 3))[:1]
    step = max(1, len(several) // pairs)
    yield from several[::step]


def make_searcher(cfg):
    start = U.start_class(cfg["start"], cfg["stats"])
    base = U.make_pack(cfg["base"], cfg["policy"])
    ver = list(base.ver_strats)
    offer = f"{cfg['offer']}:{cfg['base']}:{cfg['policy']}"
    split = 1 if cfg.get("split") else len(cfg["these"])
    ver.append(VerifyThese(cfg["these"][:split], offer))
    if cfg["these"][split:]:
        # the others by another strategy, that has another pack, or none
        other = {"same": "nest", "nest": "", "hop": "same", "quo": "hop", "nesthop": "same", "again": "same"}[cfg["offer"]]
        ver.append(VerifyThese(cfg["these"][split:], other and f"{other}:{cfg['base']}:{cfg['policy']}"))
    pack = StrategyPack(
        base.initial_strats, base.inferral_strats, base.expansion_strats, ver, "verifying", symmetries=base.symmetries
    )
    return CombinatorialSpecificationSearcher(
        start, pack, ruledb=U.DBS[cfg["db"]](), classqueue=U.HookQueue(pack), debug=False
    )


# ----------------------------------------------------------------------------------
# Oracle
# ----------------------------------------------------------------------------------


def rule_objects(spec):
    """The rules of a specification, those inside the equivalence paths included."""
    for rule in spec:
        yield rule
        if isinstance(rule, EquivalencePathRule):
            yield from rule.rules


def offers(spec):
    """The classes with a pack, and the packs: [(class, pack)]"""
    out = []
    for rule in spec:
        if isinstance(rule, VerificationRule):
            try:
                out.append((rule.comb_class, rule.strategy.pack(rule.comb_class)))
            except InvalidOperationError:
                pass
    return out


class Kept:
    """What a specification was, to compare with later."""

    def __init__(self, spec, tier, low):
        self.spec = spec
        self.sigs = {c: rule_sig(r) for c, r in spec.rules_dict.items()}
        self.order = list(spec.rules_dict)
        self.ids = [id(r) for r in rule_objects(spec)]
        self.labels = {c: spec.get_label(c) for c in spec.comb_classes()}
        self.top = 5 if tier == "quick" else 7
        # used a little before, the rest comes after the expansion
        for n in range(low):
            spec.get_terms(n)

    def unchanged(self, bound):
        spec = self.spec
        now = {c: rule_sig(r) for c, r in spec.rules_dict.items()}
        if now != self.sigs or list(spec.rules_dict) != self.order:
            raise Violation(f"the original was changed: {now} instead of {self.sigs}")
        if [id(r) for r in rule_objects(spec)] != self.ids:
            raise Violation("the original has other rule objects")
        if {c: spec.get_label(c) for c in spec.comb_classes()} != self.labels:
            raise Violation("the original has other labels")
        U.check_enumeration(spec, spec.root, bound)


def check_objects(spec, n):
    reverse = any(isinstance(r, ReverseRule) for r in rule_objects(spec))
    names = spec.root.extra_parameters
    for key, want in spec.root.true_objects(n).items():
        try:
            got = sorted(map(str, spec.generate_objects_of_size(n, **dict(zip(names, key)))))
        except NotImplementedError:
            if reverse:
                return  # complements and quotients do not generate objects
            raise
        if got != sorted(map(str, want)):
            raise Violation(f"objects of size {n}: {got}, expected {sorted(map(str, want))}\n{spec}")


def check_expanded(new, olds, packs, tier, finished):
    start = olds[0].spec.root
    U.check_valid(new, start, packs)
    mine = {id(r): r for r in rule_objects(new)}
    for old in olds:
        for r in rule_objects(old.spec):
            if id(r) in mine:
                raise Violation(f"shares the rule of {r.comb_class!r} with the original\n{r}")
    if finished:
        left = offers(new)
        if left:
            raise Violation(f"still contains verified classes that offer a pack: {[c for c, _ in left]}\n{new}")
    top = 5 if tier == "quick" else 7
    U.check_enumeration(new, start, top)
    for n in range(4):
        check_objects(new, n)
    for old in olds:
        old.unchanged(top)
    U.check_enumeration(new, start, top + 1)


class Finder:
    """Can a pack find a specification for a class?  By a search from scratch."""

    known = {}

    @classmethod
    def finds(cls, comb_class, pack):
        key = (comb_class, repr(pack))
        if key not in cls.known:
            searcher = CombinatorialSpecificationSearcher(
                comb_class, pack, ruledb=RuleDBForest(reverse=True), classqueue=U.HookQueue(pack), debug=False
            )
            _, spec = U.run_search(None, searcher=searcher)
            cls.known[key] = spec is not None
        return cls.known[key]


def timed(step, f):
    clock = Clock(0.0)
    clock.step = step
    with clock, RandomSeam(Chooser()):
        return f()


CAP = 1500


def closure(spec):
    """Every class with an offered pack that expanding the specification can meet.

    None if the classes one of the packs meets have no end."""
    pairs, met, used = [], sorted(spec.comb_classes(), key=repr), []
    todo = list(offers(spec))

    def verify(c, p):
        for s in p.ver_strats:
            try:
                if not c.is_empty() and s.verified(c):
                    todo.append((c, s.pack(c)))
            except InvalidOperationError:
                pass

    while todo:
        c, p = todo.pop()
        if any(c == d and p == q for d, q in pairs):
            continue
        pairs.append((c, p))
        # every class the pack meets, and every class that is there already
        queue = U.HookQueue(p, CAP)
        searcher = CombinatorialSpecificationSearcher(c, p, classqueue=queue, expand_verified=True, debug=False)
        U.run_search(None, searcher=searcher)
        if queue.packets >= CAP:
            return None
        if p not in used:
            used.append(p)
            for old in met:
                verify(old, p)
        for label in list(searcher.classdb):
            new = searcher.classdb.get_class(label)
            if new not in met:
                met.append(new)
                for q in used:
                    verify(new, q)
    return pairs


def distinct(packs):
    out = []
    for p in packs:
        if p not in out:
            out.append(p)
    return out


# ----------------------------------------------------------------------------------
# Exploration
# ----------------------------------------------------------------------------------


def explore(cfg, tier, res):
    searcher = make_searcher(cfg)
    _, spec = U.run_search(None, searcher=searcher)
    res.add("executions")
    if spec is None:
        res.outcome((cfg["db"], "no specification"))
        return
    todo = offers(spec)
    pairs = closure(spec)
    if pairs is None:
        res.outcome((cfg["db"], "unbounded"))
        return
    packs = distinct([searcher.strategy_pack] + [p for _, p in pairs])
    able = all(Finder.finds(c, p) for c, p in pairs)
    # everything at once
    for step in (0.0, 1000.0):
        old = Kept(spec, tier, 3)
        try:
            new = timed(step, spec.expand_verified)
        except SpecificationNotFound as e:
            if able:
                raise Violation(f"no expansion found although every pack finds a specification: {e}\n{spec}")
            res.outcome((cfg["db"], "not found"))
            continue
        res.add("executions")
        res.add("states")
        if not todo:
            if new is not spec:
                check_expanded(new, [old], packs, tier, True)
            continue
        check_expanded(new, [old], packs, tier, True)
        res.outcome((cfg["db"], cfg["offer"], len(cfg["these"]), "reverse" if any(isinstance(r, ReverseRule) for r in new) else "plain"))
        again = timed(step, new.expand_verified)
        if again is not new:
            check_expanded(again, [Kept(new, tier, 0)], packs, tier, True)
        if step == 0.0:
            # the original can be expanded again
            second = timed(step, spec.expand_verified)
            check_expanded(second, [old, Kept(new, tier, 0)], packs, tier, True)
    if able and todo:
        one_by_one(spec, packs, cfg, tier, res)


def options(tier):
    return [(False, False), (True, True)] if tier == "quick" else list(itertools.product((False, True), repeat=2))


def one_by_one(spec, packs, cfg, tier, res):
    """Every order of expanding the classes one by one."""
    seen = set()
    budget = [10 if tier == "quick" else 120]
    by_label = [False]

    def go(olds):
        cur = olds[-1].spec
        for c, pack in offers(cur):
            for reverse, more in options(tier):
                if budget[0] <= 0:
                    return
                budget[0] -= 1
                by_label[0] = not by_label[0]
                target = cur.get_label(c) if by_label[0] else c
                try:
                    new = timed(0.0, lambda: cur.expand_comb_class(target, pack, reverse, more))
                except SpecificationNotFound:
                    if reverse:
                        raise Violation(f"expand_comb_class({c!r}, reverse=True) found nothing\n{cur}")
                    res.outcome((cfg["db"], cfg["offer"], "needs reverse"))
                    olds[-1].unchanged(5)
                    continue
                res.add("transitions")
                check_expanded(new, olds, packs, tier, False)
                rule = new.rules_dict.get(c)
                if isinstance(rule, VerificationRule) and rule.strategy == cur.rules_dict[c].strategy:
                    raise Violation(f"{c!r} is verified in the same way after its expansion\n{new}")
                sig = U.spec_signature(new)
                if sig in seen:
                    continue
                seen.add(sig)
                res.add("states")
                if len(olds) < 6:
                    go(olds + [Kept(new, tier, 2)])

    go([Kept(spec, tier, 2)])


def block_configs(b):
    cfg, tier = b["cfg"], b["tier"]
    for these in subsets(cfg, tier):
        for offer in OFFERS:
            for db in DBS:
                for split in (False, True) if len(these) > 1 else (False,):
                    yield dict(cfg, these=these, offer=offer, db=db, split=split)


def gen(tier):
    for cfg in start_configs(tier):
        for part in range(2 if tier == "quick" else 8):
            yield {"cfg": cfg, "part": part, "of": 2 if tier == "quick" else 8, "tier": tier}


def run(b):
    res = Result()
    if "one" in b:
        todo = [dict(b["one"], these=kit.tuplify(b["one"]["these"]))]
    else:
        todo = list(block_configs(b))[b["part"] :: b["of"]]
        if b["tier"] == "quick":
            todo = [c for i, c in enumerate(todo) if c["offer"] in ("same", "hop") or i % 2]
    for cfg in todo:
        case = {"one": cfg, "tier": b["tier"]}
        try:
            explore(cfg, b["tier"], res)
        except Violation as e:
            res.violation("expand", f"{cfg}: {e}", case)
        except Exception as e:
            if not in_library(e):
                raise
            res.violation("crash:expand", f"{cfg}: {short_tb(e)}", case)
        if len(res.violations) > 4:
            break
    res.sample(b.get("cfg") or b["one"])
    return res


SUBCHECKS = {"expansions": SubCheck(gen, run, run, 600)}
