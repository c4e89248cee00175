"""C12: a constructed bijection is a size-preserving bijection with a true inverse.

grammars  all pairs out of all small grammars (each grammar is a specification).
words     all pairs out of the specifications that searches find for a menu of languages
          and packs, under every rule database, plus their JSON reloads.

Every pair goes through the isomorphism test both ways (symmetry; reflexivity on the
diagonal); every bijection constructed is applied to every object up to a size, both ways,
against the harness's own enumeration of the two start classes.
"""

import itertools
import json
from functools import lru_cache

from comb_spec_searcher import CombinatorialSpecification
from comb_spec_searcher.isomorphism import Bijection, Isomorphism
from comb_spec_searcher.strategies import EmptyStrategy
from comb_spec_searcher.strategies.rule import VerificationRule

from mc import grammar as GR
from mc import kit
from mc import universe as U
from mc.common import Clock, Result, SubCheck, Violation, in_library, short_tb

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of all pairs of small grammars and of searched specifications; every object up to "
             "a size mapped forth and back on the real code")
NOTE = ("All pairs of specifications within the bounds are put through the real isomorphism test and bijection; maps "
        "are compared on every object with brute force enumerations that do not use the library.")
RULE = "every ordered pair of specifications; outcome = (isomorphic, bijection checked up to size)"

CAP = {"quick": 60, "thorough": 400}


def check_bijection(bij, objects1, objects2, cap, top):
    """`objects(n)`: the objects of the two start classes."""
    total = 0
    for n in range(top + 1):
        a, b = list(objects1(n)), list(objects2(n))
        if len(a) != len(b):
            raise Violation(f"a bijection between {len(a)} and {len(b)} objects of size {n}")
        total += len(a)
        if total > cap and n > 2:
            return n - 1
        images = [bij.map(o) for o in a]
        if len(set(images)) != len(images) or set(images) != set(b):
            raise Violation(f"size {n}: {a} is mapped to {images}, expected {b}")
        back = [bij.inverse_map(o) for o in images]
        if back != a:
            raise Violation(f"size {n}: the inverse sends {images} to {back}, not {a}")
        again = [bij.map(bij.inverse_map(o)) for o in b]
        if again != b:
            raise Violation(f"size {n}: map after inverse sends {b} to {again}")
    return top


def only_atoms(spec):
    """Are all verified classes atoms?  (Nothing is matched with an empty root.)"""
    return not spec.root.is_empty() and all(
        rule.comb_class.is_atom()
        for rule in spec
        if isinstance(rule, VerificationRule) and not isinstance(rule.strategy, EmptyStrategy)
    )


def check_pair(s1, s2, objects1, objects2, res, cap, top, same=False, both=True):
    iso = Isomorphism.check(s1, s2)
    res.add("executions")
    if both and Isomorphism.check(s2, s1) != iso:
        raise Violation(f"isomorphic one way only ({iso} from the first to the second)")
    if same and not iso and only_atoms(s1):
        raise Violation("not isomorphic to itself")
    bij = Bijection.construct(s1, s2)
    if bij is not None:
        size = check_bijection(bij, objects1, objects2, cap, top)
        res.add("bijections")
        res.add("transitions", size)
        res.outcome(("bijection", size))
    else:
        res.outcome(("none", iso))
    return iso, bij


# ----------------------------------------------------------------------------------
# Grammars
# ----------------------------------------------------------------------------------


def rule_menu(tier):
    """name -> one list of rules per nonterminal."""
    r = GR.rules_over
    fam = {}
    s = (0, 1, "x", "e")
    two = r(s, (("+", 1), ("+", 2), ("*", 2)), True)
    fam["two"] = [two, two]
    three = r((0, 1, 2, "x"), (("+", 1), ("+", 2), ("*", 2)), False)
    fam["three"] = [
        [x for x in three if x[1] != ("x", "x")],
        three,
        r(("x", 0, 1, "e"), (("+", 2), ("*", 2)), False) + [("+", (0,)), ("+", (1,))],
    ]
    one = r((0, 1, "x", "e", "0"), (("+", 3),), False)
    fam["empty"] = [
        [x for x in one if "0" in x[1]],
        r((0, "x", "e", "xx", "0"), (("+", 2),), True) + r((0, "x", "xx"), (("*", 2),), True) + [("+", ("x",))],
    ]
    fam["double"] = [
        r((1, "x", "e"), (("+", 2), ("*", 2), ("2", 1)), False),
        r((0, 2, "x"), (("+", 2), ("*", 2), ("2", 1), ("+", 1)), False),
        [("2", ("x",)), ("2", (0,)), ("+", ("e", "x")), ("*", (0, "x")), ("+", ("x", "y")), ("2", (1,))],
    ]
    fam["double, equivalences"] = [
        [("2", (1,)), ("*", (1, "x")), ("*", ("x", 1)), ("+", (1, "e")), ("+", (1,)), ("+", ("e", 1))],
        [("2", (2,)), ("2", ("x",)), ("2", (0,)), ("*", (2, "x")), ("*", ("x", 2)), ("+", (2,))],
        [("2", ("x",)), ("+", ("x",)), ("2", (0,)), ("+", ("e", "x")), ("+", ("x", "e"))],
    ]
    # classes that are verified without being atoms
    leaf = [("+", ("x",)), ("+", ("s",)), ("+", ("w",)), ("+", ("xx",))]
    fam["leaves"] = [
        r((1, "x", "e", "s", "w"), (("+", 1), ("+", 2), ("*", 2)), False) + [("+", ("s", 1)), ("*", ("s", 1))],
        leaf + r((0, "x", "s", "w"), (("+", 2), ("*", 2)), False),
    ]
    # repeated and permuted children of larger rules
    fam["wide"] = [
        r((1, "x", "e"), (("+", 3), ("*", 3)), True),
        r((0, "x", "e"), (("+", 2), ("*", 2)), False),
    ]
    # pairs that match only provisionally: two loops A -> X -> A, B -> Y -> B below a root
    loops = {
        "quick": ([("+", (2, "x"))], [("*", ("x", 1))], [("+", (4, "xx")), ("+", (4, "x"))], [("*", ("x", 3))]),
        "thorough": (
            [("+", (2, "x")), ("*", (2, "e")), ("+", ("x", 2))], [("*", ("x", 1)), ("+", ("x", 1)), ("*", (1, "x"))],
            [("+", (4, "xx")), ("+", (4, "x")), ("+", (4, "x", 2)), ("+", (4, 1))],
            [("*", ("x", 3)), ("*", ("xx", 3)), ("*", (1, 3))],
        ),
    }[tier]
    roots = r((1, 2, 3, 4), (("+", 3),), True)
    fam["provisional"] = [[x for x in roots if len(set(x[1])) == 3], *loops]
    fam["provisional, deep"] = [
        r((1, 2, 3), (("+", 2),), True), [("+", (4, 3)), ("*", (4, 3)), ("+", (4, "x"))], [("*", (3, "x")), ("+", (4, 1))],
        [("+", (4, "xx")), ("+", (4, "x"))], [("*", ("x", 3)), ("*", ("x", 1))],
    ]
    # an empty root, against itself and against everything that is small
    none = [("+", ("0", "0")), ("+", ("0",)), ("*", ("x", "0")), ("*", ("0", "x", "x")), ("*", ("0",)), ("*", ("0", "0"))]
    some = [("+", ("x",)), ("+", ("x", "e")), ("*", ("x", "x")), ("+", ("x", "0")), ("+", ("xx",)), ("+", ("s",)), ("*", ("x", "s"))]
    fam["empty root"] = (
        [none + some],
        [[("*", (1, "0")), ("*", ("0", 1)), ("*", (1, "0", 1)), ("+", (1,)), ("*", (1, "x"))], some],
    )
    if tier == "thorough":
        fam["two"] = [r((0, 1, "x", "e", "y"), (("+", 1), ("+", 2), ("*", 2)), True)] * 2
    return fam


@lru_cache(maxsize=None)
def family(name, tier):
    menu = rule_menu(tier)[name]
    return tuple(g for choices in (menu if isinstance(menu, tuple) else (menu,)) for g in GR.grammars(choices))


@lru_cache(maxsize=20000)
def gspec(g):
    return GR.spec(g)


def grammar_gen(tier):
    for name in rule_menu(tier):
        n = len(family(name, tier))
        step = max(1, n // 96)
        for i in range(0, n, step):
            yield {"family": name, "tier": tier, "range": [i, min(n, i + step)]}


def one_grammar_pair(g1, g2, res, tier, both=True):
    case = {"pair": [g1, g2], "tier": tier}
    try:
        check_pair(
            gspec(g1), gspec(g2), lambda n: GR.G(g1).objects_of_size(n), lambda n: GR.G(g2).objects_of_size(n),
            res, CAP[tier], 6, g1 == g2, both,
        )
    except Violation as e:
        res.violation("bijection", f"{g1} and {g2}: {e}", case)
    except Exception as e:
        if not in_library(e):
            raise
        res.violation("crash:bijection", f"{g1} and {g2}: {short_tb(e)}", case)


def grammar_run(b):
    res = Result()
    tier = b["tier"]
    if "pair" in b:
        g1, g2 = map(GR.tuplify, b["pair"])
        one_grammar_pair(g1, g2, res, tier)
        return res
    fam = family(b["family"], tier)
    for i in range(*b["range"]):
        res.add("states")
        for g2 in fam[i:]:
            one_grammar_pair(fam[i], g2, res, tier)
        # the other way round for the maps
        for g2 in fam[:i]:
            if Isomorphism.check(gspec(fam[i]), gspec(g2)):
                one_grammar_pair(fam[i], g2, res, tier, False)
        if len(res.violations) > 5:
            break
    res.sample(f"{b['family']}: {fam[b['range'][0]]} against {len(fam)} grammars")
    return res


# ----------------------------------------------------------------------------------
# Searched specifications
# ----------------------------------------------------------------------------------

WORD_KINDS = {
    "quick": {
        "-aa": U.KINDS["-aa"], "-bb": kit.lang("ab", "", ("bb",)), "-ab": U.KINDS["-ab"],
        "-ba": kit.lang("ab", "", ("ba",)), "-aa,bb": U.KINDS["-aa,bb"], "-ab,ba": U.KINDS["-ab,ba"],
        "a|-aa": U.KINDS["a|-aa"], "b|-bb": kit.lang("ab", "b", ("bb",)), "dyck": U.KINDS["dyck"],
        "a.b": U.KINDS["a.b"], "c.b": ("blocks", kit.lang("c"), kit.lang("b")), "-b": U.KINDS["-b"],
        "a*": U.KINDS["a*"], "-aa@cd": kit.lang("cd", "", ("cc",)), "empty": U.KINDS["empty"],
    },
}
WORD_KINDS["thorough"] = dict(
    WORD_KINDS["quick"],
    **{k: U.KINDS[k] for k in ("ab*", "-aab", "-aba", "-aa,ab", "ab.c", "abc", "a.b.c", "a.b-bb", "-aab,bb", "a!")},
    **{
        "-bba": kit.lang("ab", "", ("bba",)), "-bab": kit.lang("ab", "", ("bab",)),
        "-bb,aba": kit.lang("ab", "", ("bb", "aba")), "-aa,bab": kit.lang("ab", "", ("aa", "bab")),
        "b.a.c": ("blocks", kit.lang("b"), kit.lang("a"), kit.lang("c")),
    },
)
WORD_PACKS = {
    "quick": ("std", "lib", "tight", "rev", "both", "infer", "retag", "retagE", "retagEonly", "parent", "parentonly",
              "sym", "syminf", "fact", "vertag", "verdep", "verdep2"),
    "thorough": ("std", "lib", "tight", "rev", "twosets", "both", "noignore", "infer", "infer2", "retag", "retagonly",
                 "retag1back", "cycle3", "cyclemix", "retagE", "retagEf", "retagEonly", "parent", "parentonly",
                 "parentf", "sym", "syminf", "symtight", "fact", "vertag", "many", "ver", "verdep", "verdep2"),
}
_SPECS = {}


def word_specs(tier):
    """All distinct specifications, in a fixed order: [(name, objects, spec)]."""
    if tier in _SPECS:
        return _SPECS[tier]
    out, seen = [], set()
    for kind_name, kind in WORD_KINDS[tier].items():
        start = kit.K(kind, ())
        for pack in WORD_PACKS[tier]:
            for db in ("rule", "forest", "forget") if tier == "thorough" else ("rule", "forest"):
                searcher, spec = U.run_search(None, searcher=U.searcher_for(start, pack, db))
                if spec is None:
                    continue
                sig = (kind, U.spec_signature(spec))
                if sig in seen:
                    continue
                seen.add(sig)
                out.append((f"{kind_name}/{pack}/{db}", start, spec))
    # tracked statistics: only the sizes count
    for kind_name, stats in (("-aa", (("k", "a"),)), ("-aa", (("k", "b"),)), ("-bb", (("q", "b"),)), ("-aa", (("k", "a"), ("l", "a")))):
        start = kit.K(WORD_KINDS[tier][kind_name], stats)
        for pack in ("std", "retag", "infer"):
            searcher, spec = U.run_search(None, searcher=U.searcher_for(start, pack, "rule"))
            if spec is not None:
                out.append((f"{kind_name}{stats}/{pack}", start, spec))
    # statistics that are merged, dropped or exchanged on the way
    two = {"a,b": (("k", "a"), ("l", "b")), "b,a": (("k", "b"), ("l", "a")), "a,a": (("k", "a"), ("l", "a")), "ab,a": (("k", "ab"), ("l", "a"))}
    for kind_name in ("-aa", "-bb", "a.b") if tier == "quick" else ("-aa", "-bb", "-ab", "a.b", "c.b", "a|-aa"):
        for stats_name, stats in two.items():
            start = kit.K(WORD_KINDS[tier][kind_name], stats)
            for pack, policy in itertools.product(("std", "dropstats", "retag"), ("merge", "drop", "swap")):
                searcher, spec = U.run_search(None, searcher=U.searcher_for(start, pack, "rule", policy))
                if spec is None:
                    continue
                sig = (start, U.spec_signature(spec))
                if sig not in seen:
                    seen.add(sig)
                    out.append((f"{kind_name}:{stats_name}/{pack}:{policy}", start, spec))
    # reloads
    for name, start, spec in list(out)[:: 4 if tier == "quick" else 1]:
        again = CombinatorialSpecification.from_dict(json.loads(json.dumps(spec.to_jsonable())))
        out.append((name + "/json", start, again))
    _SPECS[tier] = out
    return out


def word_gen(tier):
    n = 48 if tier == "quick" else 200
    for i in range(n):
        yield {"tier": tier, "part": [i, n]}


def word_run(b):
    res = Result()
    tier = b["tier"]
    specs = word_specs(tier)
    if "pair" in b:
        names = [name for name, _, _ in specs]
        pairs = [tuple(names.index(n) for n in b["pair"])]
    else:
        part, n = b["part"]
        pairs = [(i, j) for i in range(part, len(specs), n) for j in range(len(specs))]
        res.add("states", len(range(part, len(specs), n)))
    for i, j in pairs:
        (name1, start1, s1), (name2, start2, s2) = specs[i], specs[j]
        try:
            check_pair(
                s1, s2, lambda k: map(kit.Word, start1.words(k)), lambda k: map(kit.Word, start2.words(k)), res,
                CAP[tier] * 2, 8, i == j,
            )
        except Violation as e:
            res.violation("words", f"{name1} and {name2}: {e}", {"tier": tier, "pair": [name1, name2]})
        except Exception as e:
            if not in_library(e):
                raise
            res.violation("crash:words", f"{name1} and {name2}: {short_tb(e)}", {"tier": tier, "pair": [name1, name2]})
        if len(res.violations) > 5:
            break
    res.sample(f"{specs[pairs[0][0]][0]} against {len(specs)} specifications")
    return res


SUBCHECKS = {
    "grammars": SubCheck(grammar_gen, grammar_run, grammar_run, 600),
    "words": SubCheck(word_gen, word_run, word_run, 600),
}
