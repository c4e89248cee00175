"""C20: equations and generating functions agree with the true enumeration.

Equations are evaluated exactly (truncated series in x, polynomial coefficients) with every class function replaced by the true series of its class: for
every rule, derived form and path of `rulebase` and for every specification the
searches of `universe` return.  Closed forms are expanded far beyond the coefficients
used to select them.
"""

import sympy

from comb_spec_searcher.exception import IncorrectGeneratingFunctionError
from comb_spec_searcher.strategies.rule import EquivalenceRule, ReverseRule, VerificationRule

from mc import c07, c09, kit, series
from mc import rulebase as R
from mc import searches
from mc import universe as U
from mc.common import Chooser, Clock, RandomSeam, Result, SubCheck, Violation, in_library, short_tb

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of rules, statistics maps, derived forms, equivalence paths and returned specifications; the "
             "equations emitted by the real code evaluated exactly on the true series, closed forms expanded beyond the selecting order")
NOTE = ("Every equation within the bounds is evaluated coefficient by coefficient; every generating function returned for the "
        "menu of classes x selecting orders is compared with brute force counts.")
RULE = "every (decomposition, statistics, map, form), every returned specification, every (class, pack, check); outcome = (form, kind of answer)"
ASSUMPTIONS = ["orders up to the bound", "series without a closed form (NOTIMPLEMENTED in the equation) are skipped where the form has none"]
LENGTH = {"quick": {"rules": 6, "spec": 8, "genf": 14}, "thorough": {"rules": 8, "spec": 10, "genf": 20}}


class Labels:
    def __init__(self):
        self.classes = {}

    def get_function(self, comb_class):
        return comb_class.get_function(self.label)

    def label(self, comb_class):
        if comb_class not in self.classes:
            self.classes[comb_class] = len(self.classes)
        return self.classes[comb_class]

    def functions(self):
        return {f"F_{i}": c for c, i in self.classes.items()}


def supports_equation(rule):
    if isinstance(rule, EquivalenceRule) and isinstance(rule.original_rule, ReverseRule):
        return not any(c.stats for c in rule.children + (rule.comb_class,))
    return not isinstance(rule, VerificationRule)


def rule_error(rule, length):
    labels = Labels()
    eq = rule.get_equation(labels.get_function)
    functions = labels.functions()
    low = length - 1 - sum(kit.kind_min(c.kind) for c in rule.children if not kit.kind_empty(c.kind))
    return series.equation_error(eq, functions, length, max(2, min(length, low)))


def judge(what, make, length, res, key, case):
    try:
        rule = make()
        if rule is None:
            return
        try:
            msg = rule_error(rule, length)
            res.outcome(f"{type(rule).__name__}/{type(rule.constructor).__name__}")
        except NotImplementedError as e:
            res.add("unsupported")
            msg = None
            if supports_equation(rule):
                msg = "no equation: " + short_tb(e)
    except NotImplementedError:
        res.add("unsupported")
        return
    except Exception as e:
        if not in_library(e):
            raise
        msg = short_tb(e)
    res.add("executions")
    if msg:
        res.violation(key, f"{what}: {msg}", case)


def gen_rules(tier):
    for b in c09.gen_rules(tier):
        b["bound"] = LENGTH[tier]["rules"]
        yield b


def run_rules(b):
    res = Result()
    if "spec" in b:
        spec, form = b["spec"], tuple(b["form"])
        judge(f"{form} of {spec}", lambda: R.make_form(spec, form), b["bound"], res, f"{spec['type']}:{form[0]}", b)
        return res
    for spec in b["specs"]:
        for form in R.forms(spec):
            case = {"spec": spec, "form": form, "bound": b["bound"]}
            judge(f"{form} of {spec}", lambda: R.make_form(spec, form), b["bound"], res, f"{spec['type']}:{form[0]}", case)
        if len(res.violations) > 8:
            break
    res.sample(f"{b['specs'][0]}")
    return res


def gen_paths(tier):
    for b in c09.gen_paths(tier):
        b["bound"] = LENGTH[tier]["rules"]
        yield b


def run_paths(b):
    res = Result()
    if "edges" in b:
        edges = R.tuplify(b["edges"])
        judge(edges, lambda: R.make_path(edges), b["bound"], res, "path", b)
        return res
    for j, edges in enumerate(R.paths(b["tier"], b["length"])):
        if j % b["n"] == b["i"]:
            case = {"edges": edges, "bound": b["bound"]}
            judge(edges, lambda: R.make_path(edges), b["bound"], res, "path", case)
            if len(res.violations) > 8:
                break
    return res


# ----------------------------------------------------------------------------------
# Whole specifications
# ----------------------------------------------------------------------------------


def has_marker(eq):
    return hasattr(eq, "atoms") and any(
        f.func.__name__ == "NOTIMPLEMENTED" for f in eq.atoms(sympy.core.function.AppliedUndef)
    )


def has_series(rule):
    """Does the strategy of a verification rule have a series?"""
    try:
        rule.strategy.get_genf(rule.comb_class)
    except NotImplementedError:
        return False
    return True


def check(searcher, spec, cfg, tier):
    length = LENGTH[tier]["spec"]
    eqs = list(spec.get_equations())
    functions = {f"F_{spec.get_label(c)}": c for c in list(spec.comb_classes())}
    for rule in spec:
        for c in rule.children:
            functions[f"F_{spec.get_label(c)}"] = c
    seen = set()
    for eq in eqs:
        if has_marker(eq):
            lhs = eq.lhs.func.__name__
            rule = spec.get_rule(functions[lhs])
            if supports_equation(rule) or (isinstance(rule, VerificationRule) and has_series(rule)):
                raise Violation(f"no equation for {rule}")
        else:
            msg = series.equation_error(eq, functions, length, 4)
            if msg:
                raise Violation(f"{msg}\n{functions}\n{spec}")
        if hasattr(eq, "atoms"):
            seen.update(f.func.__name__ for f in eq.atoms(sympy.core.function.AppliedUndef))
    want = {f"F_{spec.get_label(r.comb_class)}" for r in spec}
    if want - seen:
        raise Violation(f"no equation mentions {[functions[k] for k in want - seen]}")


# ----------------------------------------------------------------------------------
# Closed forms
# ----------------------------------------------------------------------------------


def a_power(letter, m):
    return kit.lang(letter, letter * m, (), True)


def genf_kinds(tier):
    out = dict(U.KINDS)
    for m in range(0, 10):
        out[f"a{m}.dyck"] = ("blocks", a_power("a", m), ("dyck", False))
        out[f"a{m}.bal"] = ("blocks", a_power("a", m), ("bal", ""))
        out[f"a{m}.b*"] = ("blocks", a_power("a", m), kit.lang("b"))
    for m in (0, 3, 7, 8):
        out[f"a{m}.bal("] = ("blocks", a_power("a", m), ("bal", "("))
        out[f"dyck+.a{m}"] = ("blocks", ("dyck", True), a_power("a", m))
        out[f"a{m}.b-bb.dyck"] = ("blocks", a_power("a", m), kit.lang("b", "", ("bb",)), ("dyck", False))
    out["a*.dyck"] = ("blocks", kit.lang("a"), ("dyck", False))
    out["-aa.dyck"] = ("blocks", kit.lang("ab", "", ("aa",)), ("dyck", False))
    if tier == "thorough":
        for n in (3, 4, 5, 6):
            out[f"-b{n}"] = kit.lang("ab", "", ("b" * n,))
            out[f"a*-a{n}"] = kit.lang("a", "", ("a" * n,))
        out["-aabb"] = kit.lang("ab", "", ("aabb",))
    return out


PACKS_G = {"quick": ("std", "tight"), "thorough": ("std", "tight", "both", "infer", "retag", "verpack", "verlib")}
CHECKS = {"quick": (0, 1, 3, 6), "thorough": (0, 1, 2, 3, 4, 6, 9)}


def gen_genf(tier):
    for name, kind in genf_kinds(tier).items():
        for pack in PACKS_G[tier]:
            for db in ("rule", "forest"):
                yield {"name": name, "kind": kind, "pack": pack, "db": db, "tier": tier}


def run_genf(b):
    res = Result()
    tier = b["tier"]
    kind = kit.tuplify(b["kind"])
    start = kit.K(kind, ())
    searcher = U.searcher_for(start, b["pack"], b["db"])
    searcher, spec = U.run_search(None, searcher=searcher)
    if spec is None:
        res.add("no_specification")
        return res
    for chk in (b["check"],) if "check" in b else CHECKS[tier]:
        res.add("executions")
        length = LENGTH[tier]["genf"]
        case = dict(b, check=chk)
        try:
            with Clock(), RandomSeam(Chooser()):
                genf = spec.get_genf(check=chk)
        except (IncorrectGeneratingFunctionError, NotImplementedError) as e:
            res.outcome(type(e).__name__)
            res.add("no_closed_form")
            continue
        except Exception as e:
            if not in_library(e):
                raise
            res.violation("crash:genf", f"{b['name']} {b['pack']} {b['db']} check={chk}: {short_tb(e)}", case)
            continue
        want = [len(start.words(n)) for n in range(length)]
        try:
            ser = series.Evaluator({}, length + 8)(sympy.sympify(genf))
            got = [ser.at(n) for n in range(min(ser.v, 0), 0)] + [ser.at(n) for n in range(min(length, ser.prec()))]
            if ser.v < 0 and any(ser.at(n) for n in range(ser.v, 0)):
                got = "a pole at 0"
            elif ser.v < 0:
                got = got[-ser.v:]
        except series.Unsupported:
            res.add("expanded_by_sympy")
            ser = sympy.series(genf, sympy.Symbol("x"), 0, length).removeO()
            got = [ser.coeff(sympy.Symbol("x"), n) for n in range(length)]
        res.add("transitions", length)
        res.outcome("closed form")
        if len(got) < 10:
            res.add("short_expansions")
        if got != want[: len(got)]:
            res.violation("genf", f"{b['name']} {b['pack']} {b['db']} check={chk}: {genf} expands to {got}, counts {want}", case)
    return res


SUBCHECKS = {
    "rules": SubCheck(gen_rules, run_rules, None, 300),
    "paths": SubCheck(gen_paths, run_paths, None, 300),
    "specifications": searches.make_subcheck(check, "equations", share=True),
    "genf": SubCheck(gen_genf, run_genf, None, 300),
}
BOUNDS = {t: f"orders {LENGTH[t]}, paths of length {c09.LENGTHS[t]}; {searches.LIMITS[t]}; selecting orders {CHECKS[t]}" for t in LENGTH}
