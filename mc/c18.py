"""C18: JSON round trips of specifications, rules, packs, strategies and bijections.

searches    every distinct specification found by the searches (and its expansion, if it
            has classes to expand): equality both ways, the same rule for every class, the
            same counts, objects and equations, before and after it was used.
rules       every form of every rule of `rulebase`, and every equivalence path.
strategies  every kind with every combination of settings, created in every way: equal
            when and only when kind and settings are the same.
packs       every pack of the menu, and all packs over a small set of strategies.
bijections  all pairs of grammars of small families, and of searched specifications.
"""

import copy
import itertools
import json
import pickle

import sympy

from comb_spec_searcher import (
    CombinatorialSpecification,
    CombinatorialSpecificationSearcher,
    StrategyPack,
    specification,
)
from comb_spec_searcher.exception import InvalidOperationError, ObjectMappingError, SpecificationNotFound
from comb_spec_searcher.isomorphism import Bijection
from comb_spec_searcher.strategies import AtomStrategy, EmptyStrategy
from comb_spec_searcher.strategies.rule import (
    AbstractRule,
    EquivalencePathRule,
    EquivalenceRule,
    ReverseRule,
    VerificationRule,
)
from comb_spec_searcher.strategies.strategy import AbstractStrategy, StrategyFactory

from mc import c12
from mc import grammar as GR
from mc import kit, searches
from mc import rulebase as R
from mc import universe as U
from mc.common import Chooser, Clock, RandomSeam, Result, SubCheck, Violation, in_library, short_tb

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of specifications, rule forms, strategies x settings x ways of creation, packs and "
             "bijections within bounds; the real dump and load compared with the original")
NOTE = "Every object within the bounds goes through json.dumps and json.loads; equality and behaviour are compared."
RULE = "every object of every family; outcome = its form"
ASSUMPTIONS = ["the classes and strategies of the user round trip themselves (to_jsonable and from_dict as documented)"]


def through_json(x):
    return json.loads(json.dumps(x.to_jsonable()))


def equal(a, b, what):
    """Equal both ways."""
    if not (a == b):
        raise Violation(f"{what}: not equal to the original")
    if not (b == a):
        raise Violation(f"{what}: the original is not equal to it")
    if a != b or b != a:
        raise Violation(f"{what}: both equal and unequal")


# ----------------------------------------------------------------------------------
# Signatures
# ----------------------------------------------------------------------------------


def strategy_sig(s):
    settings = tuple((k, getattr(s, k)) for k in sorted(set(getattr(s, "SETTINGS", ()))))
    flags = tuple(getattr(s, k) for k in kit._Settings.FLAGS) if isinstance(s, AbstractStrategy) else ()
    extra = repr(s)
    return (type(s).__module__, type(s).__qualname__, settings, flags, extra)


def rule_sig(r):
    out = (
        type(r).__qualname__, r.comb_class, r.children, strategy_sig(r.strategy), r.formal_step,
        r.ignore_parent, r.inferrable, r.possibly_empty, r.workable,
    )
    if isinstance(r, EquivalencePathRule):
        return out + (tuple(rule_sig(x) for x in r.rules),)
    if isinstance(r, ReverseRule):
        return out + (r.idx, rule_sig(r.original_rule))
    if isinstance(r, EquivalenceRule):
        return out + (r.child_idx, r.actual_children, rule_sig(r.original_rule))
    return out


def pack_sig(p):
    return (
        p.name, p.iterative, *(tuple(map(strategy_sig, x)) for x in (p.initial_strats, p.inferral_strats, p.ver_strats, p.symmetries)),
        tuple(tuple(map(strategy_sig, x)) for x in p.expansion_strats),
    )


def equations(spec):
    """The equations, with functions named after the classes."""
    classes = sorted(spec.comb_classes() | set(spec.rules_dict), key=repr)
    number = {c: i for i, c in enumerate(classes)}
    rename = {}
    for c in classes:
        rename[spec.get_function(c).func] = sympy.Function(f"G_{number[c]}")
    out = set()
    try:
        for eq in spec.get_equations():
            out.add(str(eq.replace(lambda e: getattr(e, "func", None) in rename, lambda e: rename[e.func](*e.args))))
    except NotImplementedError:
        return "not implemented"
    return out


def objects(spec, n, names):
    out = {}
    for key in spec.root.true_terms(n):
        out[key] = list(spec.generate_objects_of_size(n, **dict(zip(names, key))))
    return out


def behaviour(spec, tier):
    """What the specification answers."""
    top = 4 if tier == "quick" else 6
    out = {"terms": [spec.get_terms(n) for n in range(top + 2)], "labels": len(spec.comb_classes())}
    names = spec.root.extra_parameters
    out["counts"] = [
        {k: spec.count_objects_of_size(n, **dict(zip(names, k))) for k in spec.root.true_terms(n)} for n in range(top)
    ]
    try:
        out["objects"] = [objects(spec, n, names) for n in range(top)]
    except (NotImplementedError, ObjectMappingError):
        out["objects"] = None
    out["equations"] = equations(spec)
    out["class terms"] = {c: [rule.get_terms(n) for n in range(top)] for c, rule in spec.rules_dict.items()}
    out["rules"] = spec.number_of_rules()
    return out


def check_spec(spec, tier, behave=True):
    dumped = through_json(spec)
    text = json.dumps(dumped)
    before = {c: rule_sig(r) for c, r in spec.rules_dict.items()}
    again = CombinatorialSpecification.from_dict(dumped)
    same_spec(again, spec, before, "loaded")
    if not behave:
        return again
    a, b = behaviour(spec, tier), behaviour(again, tier)
    for k in a:
        if a[k] != b[k]:
            raise Violation(f"{k} of the loaded specification: {b[k]}, original {a[k]}\n{spec}")
    # after use, and a dump that was taken before
    same_spec(again, spec, before, "both used")
    same_spec(CombinatorialSpecification.from_dict(json.loads(text)), spec, before, "original used")
    same_spec(CombinatorialSpecification.from_dict(through_json(again)), spec, before, "dumped, loaded, used, dumped and loaded")
    return again


def same_spec(again, spec, sigs, what):
    if again.root != spec.root:
        raise Violation(f"{what}: root {again.root!r} instead of {spec.root!r}")
    loaded = {c: rule_sig(r) for c, r in again.rules_dict.items()}
    for c in sigs.keys() | loaded.keys():
        if sigs.get(c) != loaded.get(c):
            raise Violation(f"{what}: the rule of {c!r} is {loaded.get(c)}, originally {sigs.get(c)}")
    equal(again, spec, what)
    for c, r in spec.rules_dict.items():
        equal(again.rules_dict[c], r, f"{what}: rule of {c!r}")


def expanded(spec):
    with Clock(), RandomSeam(Chooser()):
        return spec.expand_verified()


def check_search(searcher, spec, cfg, tier):
    check_spec(spec, tier)
    if next(spec.unexpanded_verified_classes(), None) is not None:
        try:
            more = expanded(spec)
        except SpecificationNotFound:
            return
        check_spec(more, tier)


# ----------------------------------------------------------------------------------
# Rules
# ----------------------------------------------------------------------------------


def check_rule(make, down):
    """`make` builds the rule anew."""
    rule = make()
    if down:
        use(rule)
    again = AbstractRule.from_dict(through_json(rule))
    sig = rule_sig(make())
    if rule_sig(rule) != sig:
        raise Violation(f"using the rule changed it: {rule_sig(rule)} instead of {sig}")
    if rule_sig(again) != sig:
        raise Violation(f"loaded {rule_sig(again)}, originally {sig}")
    equal(again, rule, "rule")
    a, b = use(rule), use(again)
    for x, y in zip(a, b):
        if x != y:
            raise Violation(f"the loaded rule answers {y}, the original {x}")
    twice = AbstractRule.from_dict(through_json(again))
    if rule_sig(twice) != sig:
        raise Violation(f"dumped, loaded, dumped and loaded: {rule_sig(twice)}, originally {sig}")
    equal(twice, rule, "rule loaded twice")


def use(rule):
    out = []
    if isinstance(rule, VerificationRule):
        return [rule.get_terms(n) for n in range(4)]
    R.attach(rule)
    out.append([U.nonzero(rule.get_terms(n)) for n in range(4)])
    out.append(rule.shifts())
    names = {}
    for c in (rule.comb_class, *rule.children):
        names.setdefault(c, len(names))
    try:
        eq = rule.get_equation(lambda c: c.get_function(lambda c: names.setdefault(c, len(names))))
        out.append(str(eq))
    except NotImplementedError:
        out.append(None)
    maps = []
    for n in range(4):
        for word in rule.comb_class.words(n):
            try:
                image = rule.forward_map(kit.Word(word))
                maps.append((word, image, list(rule.backward_map(image))))
            except (NotImplementedError, ObjectMappingError) as e:
                maps.append((word, type(e).__name__))
    out.append(maps)
    return out


def one_rule(make, case, label, res, down=False):
    try:
        check_rule(make, down)
    except Violation as e:
        res.violation("rule", f"{label}: {e}", case)
    except Exception as e:
        if not in_library(e):
            raise
        res.violation("crash:rule", f"{label}: {short_tb(e)}", case)
    res.add("executions")


def rules_gen(tier):
    specs = R.rule_specs(tier, limit=20 if tier == "quick" else 200)
    n = max(1, len(specs) // 40)
    for i in range(n):
        yield {"specs": specs[i::n], "tier": tier}
    for length in (1, 2) if tier == "quick" else (1, 2, 3):
        todo = list(R.paths("quick", length))
        step = {1: 1, 2: 11 if tier == "quick" else 1, 3: 97}[length]
        todo = todo[::step]
        for i in range(0, len(todo), 60):
            yield {"paths": todo[i : i + 60], "tier": tier}


def rules_run(b):
    res = Result()
    for j, spec in enumerate(b.get("specs", ())):
        for form in R.forms(spec):
            form = tuple(form)
            one_rule(lambda: R.make_form(spec, form), dict(b, specs=[spec]), f"{form} of {spec}", res, j % 2)
            res.outcome((spec["type"], form))
        res.add("states")
        if len(res.violations) > 8:
            break
    for edges in b.get("paths", ()):
        edges = kit.tuplify(edges)
        if R.make_path(edges) is None:
            continue
        res.add("states")
        one_rule(lambda: R.make_path(edges), dict(b, paths=[edges]), f"path {edges}", res)
        res.outcome(("path", len(edges)))
        if len(res.violations) > 8:
            break
    res.sample(str(b)[:200])
    return res


# ----------------------------------------------------------------------------------
# Strategies
# ----------------------------------------------------------------------------------

FLAGS = kit._Settings.FLAGS


def kinds():
    """(class, names of its boolean settings, values of its other settings)"""
    word = kit.lang("ab", "aa")
    other = kit.lang("ab", "", ("ab", "ba"))
    policy = {"policy": ("keep", "merge")}
    return [
        (kit.Expand, FLAGS, {"policy": ("keep", "merge", "drop"), "order": ("fwd", "rev")}),
        (kit.ExpandTight, FLAGS, dict(policy)),
        (kit.Factor, FLAGS, {"policy": ("keep", "merge"), "extra": (0, 1), "order": ("fwd", "rev")}),
        (kit.Retag, FLAGS, {"old": ("", "x"), "new": ("x", "y"), "two_way": (True, False)}),
        (kit.RetagWithEmpty, FLAGS, {"old": ("", "x"), "first": (True, False)}),
        (kit.SwapLetters, FLAGS, {}),
        (kit.DropLetters, FLAGS, policy),
        (kit.DropPatterns, FLAGS, policy),
        (kit.DropStats, FLAGS, policy),
        (kit.Atom, ("ignore_parent",), {}),
        (kit.VerifyIf, ("ignore_parent",), {"kinds": ((), (word,), (word, other), (other, word)), "packname": ("", "keep")}),
        (kit.VerifyLib, ("ignore_parent",), {"kinds": ((), (word,)), "packname": ("plain", "keep")}),
        (kit.VerifyTagged, ("ignore_parent",), {"vtag": ("v", "w")}),
        (kit.VerifyWith, ("ignore_parent",), {"prefixes": (("a",), ("ab", "a")), "cuts": ((0,), (0, 0)), "to": ("", "x")}),
        (AtomStrategy, (), {}),
        (EmptyStrategy, (), {}),
        (kit.FactorFactory, (), {"policy": ("keep", "merge"), "ready": (False, True)}),
        (kit.ParentFactory, (), {"policy": ("keep", "merge"), "mode": ("expand", "factor")}),
        (kit.StatsParentFactory, (), {"mode": ("merge", "drop"), "only": ("", "x")}),
    ]


def menu():
    """(class, settings) of every strategy."""
    out = []
    for cls, flags, values in kinds():
        names = list(values) + list(flags)
        for combo in itertools.product(*(list(values.values()) + [(False, True)] * len(flags))):
            out.append((cls, dict(zip(names, combo))))
    return out


def accepts(cls, settings):
    """Some kinds of the harness have no use for some flags."""
    try:
        return cls(**settings)
    except TypeError:
        return None


TEST_CLASSES = [
    kit.K(U.KINDS[k], U.STATS[s], t)
    for k, s, t in (("-aa", "0", ""), ("a|-aa", "a", "x"), ("ab|-aa", "0", ""), ("a!", "0", "v"), ("empty", "0", ""), ("a.b", "0", ""))
]


def used(s):
    """Let the strategy answer everything it can."""
    for c in TEST_CLASSES:
        if isinstance(s, StrategyFactory):
            list(s(c))
            continue
        try:
            rule = s(c)
            rule.children, rule.shifts(), str(rule), rule.is_equivalence(), rule.is_two_way(), rule.is_reversible()
            if isinstance(rule, VerificationRule):
                for n in range(3):
                    rule.get_terms(n)
                rule.pack()
            else:
                rule.constructor
        except (InvalidOperationError, NotImplementedError):
            continue
        except Exception as e:  # the strategy does not apply, or not to this class
            if type(e).__name__ not in ("StrategyDoesNotApply", "AssertionError", "KeyError", "ValueError"):
                raise
    repr(s), str(s)
    if isinstance(s, AbstractStrategy):
        s.formal_step(), s.can_be_equivalent()
        for f in FLAGS:
            getattr(s, f)
    s.to_jsonable()
    return s


def generic(cls):
    """cls[...] when cls is generic."""
    from comb_spec_searcher.combinatorial_class import CombinatorialClass, CombinatorialObject

    n = len(getattr(cls, "__parameters__", ()))
    if not n:
        return None
    return cls[(CombinatorialClass, CombinatorialObject)[:n]]


def creations(cls, settings):
    """name -> the same strategy, created in another way."""
    make = lambda: cls(**settings)
    yield "keywords", make()
    yield "keywords in another order", cls(**dict(reversed(list(settings.items()))))
    yield "copy", copy.copy(make())
    yield "deep copy", copy.deepcopy(make())
    yield "pickle", pickle.loads(pickle.dumps(make()))
    yield "used", used(make())
    yield "copy of a used one", copy.copy(used(make()))
    base = StrategyFactory if issubclass(cls, StrategyFactory) else AbstractStrategy
    yield "json", base.from_dict(through_json(make()))
    yield "json of a used one", base.from_dict(through_json(used(make())))
    yield "json, by the other base class", (AbstractStrategy if base is StrategyFactory else StrategyFactory).from_dict(through_json(make()))
    yield "json twice", base.from_dict(through_json(base.from_dict(through_json(make()))))
    yield "used after json", used(base.from_dict(through_json(make())))
    g = generic(cls)
    if g is not None:
        yield "generic alias", g(**settings)
        yield "json of a generic alias", base.from_dict(through_json(g(**settings)))
        yield "pickled generic alias", pickle.loads(pickle.dumps(g(**settings)))
    if base is AbstractStrategy:
        for c in TEST_CLASSES:
            try:
                rule = make()(c)
                dumped = through_json(rule)
            except Exception as e:
                if type(e).__name__ not in ("StrategyDoesNotApply", "AssertionError", "KeyError", "ValueError"):
                    raise
                continue
            yield "of a rule", rule.strategy
            yield "of a rule from json", AbstractRule.from_dict(dumped).strategy
    pack = StrategyPack([make()], [], [], [], "p")
    yield "of a pack from json", StrategyPack.from_dict(through_json(pack)).initial_strats[0]


def already_verified(res, b):
    """The strategy of the library that lists classes."""
    kind = getattr(specification, "AlreadyVerified", None)
    if kind is None:
        return
    made = []
    for n in range(3):
        for listed in itertools.permutations(TEST_CLASSES[:4], n):
            made.append((frozenset(listed), kind(listed)))
            made.append((frozenset(listed), kind(iter(listed))))
            made.append((frozenset(listed), AbstractStrategy.from_dict(through_json(kind(list(listed))))))
    for (l1, s1), (l2, s2) in itertools.product(made, repeat=2):
        res.add("executions")
        if (s1 == s2) != (l1 == l2) or (s1 != s2) != (l1 != l2):
            raise Violation(f"AlreadyVerified of {l1} and of {l2}: equal is {s1 == s2}")
    for listed, s in made:
        for c in TEST_CLASSES:
            if s.verified(c) != (c in listed):
                raise Violation(f"AlreadyVerified of {listed} says {s.verified(c)} for {c!r}")


def strategies_gen(tier):
    yield {"library": True, "range": [0, 0], "tier": tier}
    n = len(menu())
    for i in range(0, n, 12):
        yield {"range": [i, min(n, i + 12)], "tier": tier}


def strategies_run(b):
    res = Result()
    everything = [(cls, st, accepts(cls, st)) for cls, st in menu()]
    if "library" in b:
        try:
            already_verified(res, b)
        except Violation as e:
            res.violation("strategy", str(e), b)
        return res
    for i in range(*b["range"]):
        cls, settings, strat = everything[i]
        if strat is None:
            continue
        res.add("states")
        case = {"range": [i, i + 1], "tier": b["tier"]}
        label = f"{cls.__name__}({settings})"
        try:
            made = list(creations(cls, settings))
            for how, s in made:
                res.add("executions")
                res.outcome((cls.__name__, how))
                if type(s) is not cls:
                    raise Violation(f"{how}: a {type(s).__name__}")
                for k, v in settings.items():
                    if getattr(s, k) != v:
                        raise Violation(f"{how}: {k} is {getattr(s, k)!r}, created with {v!r}")
                if strategy_sig(s) != strategy_sig(strat):
                    raise Violation(f"{how}: {strategy_sig(s)}, created as {strategy_sig(strat)}")
                for how2, s2 in made:
                    equal(s, s2, f"{how} against {how2}")
            # everything else is different, however it was created
            for cls2, st2, other in everything:
                if other is None or (cls is cls2 and settings == st2):
                    continue
                res.add("transitions")
                for how, s in (made[0], made[-1]):
                    if s == other or other == s or not s != other or not other != s:
                        raise Violation(f"{how}: equal to {cls2.__name__}({st2})")
        except Violation as e:
            res.violation("strategy", f"{label}: {e}", case)
        except Exception as e:
            if not in_library(e):
                raise
            res.violation("crash:strategy", f"{label}: {short_tb(e)}", case)
        if len(res.violations) > 8:
            break
    res.sample(f"{everything[b['range'][0]][:2]}")
    return res


# ----------------------------------------------------------------------------------
# Packs
# ----------------------------------------------------------------------------------


def pack_names():
    import inspect
    import re

    return sorted(set(re.findall(r'name == "(\w+)"', inspect.getsource(U.make_pack))))


def some_strategies():
    return [kit.Expand("keep"), kit.Factor("merge", workable=True), kit.FactorFactory("keep"), kit.Expand("keep", ignore_parent=True)]


def tuples(items, top):
    return [t for n in range(top + 1) for t in itertools.permutations(items, n)]


def packs_gen(tier):
    for name in pack_names():
        yield {"name": name, "tier": tier}
    yield {"small": True, "tier": tier}


def small_packs(tier):
    a, f, g, h = some_strategies()
    vers = [(), (kit.Atom(),), (AtomStrategy(), kit.VerifyIf((kit.lang("ab", "aa"),), "keep"))]
    syms = [(), (kit.SwapLetters(),)]
    sets = [(), ((a,),), ((a,), (f,)), ((f,), (a,)), ((a, f),), ((f, a),), ((g, h), (a,)), ((a,), (), (f,))]
    lists = tuples((a, f, g), 2)
    for init, inf in itertools.product(lists, tuples((h, f), 2)):
        for exp in sets:
            for ver, sym, it in itertools.product(vers, syms, (False, True)):
                yield StrategyPack(init, inf, exp, ver, f"pack {len(init)}", symmetries=sym, iterative=it)


def variants(pack):
    """The pack, and packs derived from it."""
    yield pack
    new = kit.RetagWithEmpty("", "zz")
    derive = [
        lambda: pack.add_initial(new, "i"),
        lambda: pack.add_inferral(new, "f"),
        lambda: pack.add_verification(kit.VerifyTagged("q"), "v", apply_first=True),
        lambda: pack.add_symmetry(kit.SwapLetters(ignore_parent=True), "s"),
        lambda: pack.make_iterative("iter"),
        *(lambda s=s: pack.remove_strategy(s) for s in list(pack)[:2]),
    ]
    for f in derive:
        try:
            yield f()
        except ValueError:  # a strategy of the same kind is in the pack
            continue


def check_pack(pack):
    sig = pack_sig(pack)
    again = StrategyPack.from_dict(through_json(pack))
    if pack_sig(again) != sig:
        raise Violation(f"loaded {pack_sig(again)}, originally {sig}")
    equal(again, pack, "pack")
    if type(again) is not type(pack):
        raise Violation(f"loaded a {type(again).__name__}")
    twice = StrategyPack.from_dict(through_json(again))
    if pack_sig(twice) != sig:
        raise Violation("loaded twice it is another pack")
    equal(twice, pack, "pack loaded twice")
    if list(again) != list(pack) or len(list(again)) != len(list(pack)):
        raise Violation("other strategies when iterated over")
    for s in pack:
        if s not in again:
            raise Violation(f"{s} is not in the loaded pack")
    return again


def packs_run(b):
    res = Result()
    todo = []
    if "small" in b:
        todo = list(small_packs(b["tier"]))
        if "index" in b:
            todo = [todo[b["index"]]]
    else:
        for policy, it in itertools.product(("keep", "merge", "drop"), (False, True)):
            todo.extend(variants(U.make_pack(b["name"], policy, it)))
    for i, pack in enumerate(todo):
        case = dict(b, index=i) if "small" in b else b
        try:
            check_pack(pack)
        except Violation as e:
            res.violation("pack", f"{pack!r}: {e}", case)
        except Exception as e:
            if not in_library(e):
                raise
            res.violation("crash:pack", f"{pack!r}: {short_tb(e)}", case)
        res.add("states")
        res.add("executions")
        res.outcome((len(pack.initial_strats), len(pack.inferral_strats), len(pack.expansion_strats), len(pack.symmetries), pack.iterative))
        if len(res.violations) > 8:
            break
    if "name" in b:
        same_search(b, res)
    res.sample(str(b))
    return res


class Recorder(U.HookQueue):
    def __init__(self, pack):
        super().__init__(pack)
        self.trace = []

    def __next__(self):
        wp = super().__next__()
        self.trace.append((wp.label, tuple(map(strategy_sig, wp.strategies)), wp.inferral))
        return wp


def same_search(b, res):
    """A search with the loaded pack is the search with the pack."""
    for kind in ("-aa", "a.b"):
        try:
            out = []
            for load in (False, True):
                pack = U.make_pack(b["name"])
                if load:
                    pack = StrategyPack.from_dict(through_json(pack))
                start = U.start_class(kind, "0")
                searcher = CombinatorialSpecificationSearcher(
                    start, pack, ruledb=U.DBS["rule"](), classqueue=Recorder(pack), debug=False
                )
                trace = searcher.classqueue.trace
                _, spec = U.run_search(None, searcher=searcher)
                out.append((trace, None if spec is None else U.spec_signature(spec)))
            res.add("executions", 2)
            if out[0] != out[1]:
                raise Violation(f"{kind}: the search with the loaded pack is another one: {out[1]} instead of {out[0]}")
        except Violation as e:
            res.violation("pack:search", str(e), b)
        except Exception as e:
            if not in_library(e):
                raise
            res.violation("crash:pack:search", short_tb(e), b)


# ----------------------------------------------------------------------------------
# Bijections
# ----------------------------------------------------------------------------------


def check_bijection(bij, objects1, objects2, top, cap, specs):
    sigs = [{c: rule_sig(r) for c, r in s.rules_dict.items()} for s in specs]
    first = Bijection.from_dict(through_json(bij))
    second = Bijection.from_dict(through_json(first))
    for again in (first, second):
        same_spec(again.domain, specs[0], sigs[0], "domain")
        same_spec(again.codomain, specs[1], sigs[1], "codomain")
    total = 0
    for n in range(top + 1):
        for o in objects1(n):
            want = bij.map(o)
            for again in (first, second):
                if again.map(o) != want:
                    raise Violation(f"{o!r} is mapped to {again.map(o)!r}, by the original to {want!r}")
            total += 1
        for o in objects2(n):
            want = bij.inverse_map(o)
            for again in (first, second):
                if again.inverse_map(o) != want:
                    raise Violation(f"{o!r} is mapped back to {again.inverse_map(o)!r}, by the original to {want!r}")
        if total > cap:
            break
    # a dump after use
    last = Bijection.from_dict(through_json(bij))
    for n in range(3):
        for o in objects1(n):
            if last.map(o) != bij.map(o):
                raise Violation(f"dumped after use: {o!r} is mapped to {last.map(o)!r}")


def grammar_families(tier):
    def every(name, step):
        return c12.family(name, tier)[::step]

    step = 1 if tier == "thorough" else 2
    return {
        "two": every("two", step), "three": every("three", 4 * step), "empty": every("empty", step), "double": every("double", step),
        "wide": every("wide", step),
    }


def bijections_gen(tier):
    for name, fam in grammar_families(tier).items():
        step = max(1, len(fam) // 40)
        for i in range(0, len(fam), step):
            yield {"family": name, "range": [i, min(len(fam), i + step)], "tier": tier}
    n = 24 if tier == "quick" else 200
    for i in range(n):
        yield {"words": [i, n], "tier": tier}


def one_bijection(s1, s2, objects1, objects2, top, label, case, res):
    try:
        bij = Bijection.construct(s1, s2)
        res.add("executions")
        if bij is None:
            return
        res.add("bijections")
        res.outcome((len(s1.rules_dict), len(s2.rules_dict)))
        check_bijection(bij, objects1, objects2, top, 40, (s1, s2))
    except Violation as e:
        res.violation("bijection", f"{label}: {e}", case)
    except Exception as e:
        if not in_library(e):
            raise
        res.violation("crash:bijection", f"{label}: {short_tb(e)}", case)


def bijections_run(b):
    res = Result()
    tier = b["tier"]
    if "words" in b:
        specs = c12.word_specs(tier)
        i, n = b["words"]
        pairs = [(j, k) for j in range(i, len(specs), n) for k in range(len(specs))]
        if "pair" in b:
            names = [name for name, _, _ in specs]
            pairs = [tuple(names.index(x) for x in b["pair"])]
        for j, k in pairs:
            (name1, start1, s1), (name2, start2, s2) = specs[j], specs[k]
            if tier == "quick" and j != k and (j + k) % 3:
                continue
            one_bijection(
                s1, s2, lambda n: map(kit.Word, start1.words(n)), lambda n: map(kit.Word, start2.words(n)), 5,
                f"{name1} and {name2}", dict(b, pair=[name1, name2]), res,
            )
            if len(res.violations) > 5:
                break
        res.add("states", len(set(j for j, _ in pairs)))
        return res
    if "pair" in b:
        pairs = [tuple(map(GR.tuplify, b["pair"]))]
    else:
        fam = grammar_families(tier)[b["family"]]
        pairs = [(fam[i], g) for i in range(*b["range"]) for g in fam]
        res.add("states", b["range"][1] - b["range"][0])
    for g1, g2 in pairs:
        one_bijection(
            c12.gspec(g1), c12.gspec(g2), lambda n: map(GR.Tree, GR.trees(g1, 0, n)), lambda n: map(GR.Tree, GR.trees(g2, 0, n)), 5,
            f"{g1} and {g2}", {"pair": [g1, g2], "tier": tier}, res,
        )
        if len(res.violations) > 5:
            break
    res.sample(str(b))
    return res


SUBCHECKS = {
    "searches": searches.make_subcheck(check_search, "spec", share=True),
    "rules": SubCheck(rules_gen, rules_run, rules_run, 300),
    "strategies": SubCheck(strategies_gen, strategies_run, strategies_run, 300),
    "packs": SubCheck(packs_gen, packs_run, packs_run, 300),
    "bijections": SubCheck(bijections_gen, bijections_run, bijections_run, 600),
}
