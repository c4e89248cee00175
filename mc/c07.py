"""C07: object generation yields exactly the objects of the class, each once.

Rules: every rule, derived form and equivalence path of `rulebase` with its children
bound to brute force; objects of every size, and the forward / backward maps on every
object.  Specifications: everything the searches of `universe` return.
"""

from collections import Counter

from comb_spec_searcher.strategies.rule import EquivalenceRule, ReverseRule, VerificationRule

from mc import c09
from mc import kit
from mc import rulebase as R
from mc import searches
from mc import universe as U
from mc.common import Result, SubCheck, Violation, in_library, short_tb

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of rules, statistics maps, derived forms, equivalence paths and of the specifications "
             "returned by the explored searches; objects generated by the real code compared with brute force")
NOTE = ("All objects of every size up to the bound and every parameter value are generated and compared as multisets; "
        "forward and backward maps are run on every object of the parent.")
RULE = "every (decomposition, statistics, map, form), every returned specification; outcome = (form, supported)"
ASSUMPTIONS = ["sizes up to the bound"]
SIZES = {"quick": {"u": 4, "p": 5, "path": 3, "spec": 5}, "thorough": {"u": 6, "p": 7, "path": 5, "spec": 7}}


def canon(objects):
    """Multiset of the objects per parameter value."""
    return {p: Counter(map(str, objs)) for p, objs in objects.items() if objs}


def counts(objects):
    return {p: len(objs) for p, objs in objects.items() if objs}


def part_ok(child, part, want=None):
    return part in child


def check_maps(rule, bound):
    """Forward and backward maps on every object of the parent."""
    parent = rule.comb_class
    for n in range(bound + 1):
        for params, objs in parent.true_objects(n).items():
            for obj in objs:
                for fwd, back in (
                    (lambda o: rule.forward_map(o), lambda ps: list(rule.backward_map(ps))),
                    (
                        lambda o: rule.indexed_forward_map(o),
                        lambda pi: [rule.indexed_backward_map(pi[0], pi[1])],
                    ),
                ):
                    img = fwd(obj)
                    parts = img[0] if isinstance(img[-1], int) else img
                    if not isinstance(parts, tuple) or len(parts) != len(rule.children):
                        return f"{obj} has the parts {parts} for {len(rule.children)} children"
                    if all(p is None for p in parts):
                        return f"{obj} has no part"
                    for part, child in zip(parts, rule.children):
                        if part is not None and part not in child:
                            return f"part {part} of {obj} is not in {child!r}"
                    got = back(img)
                    if list(map(str, got)) != [str(obj)]:
                        return f"{obj} -> {parts} -> {got}"
    return None


def check_objects(rule, bound, down):
    parent = rule.comb_class
    R.attach(rule)
    for n in c09.sizes(bound, down):
        want = canon(parent.true_objects(n))
        got = canon(rule.get_objects(n))
        if got != want:
            return f"objects of size {n} are {got}, should be {want}"
        if counts(rule.get_objects(n)) != U.nonzero(rule.get_terms(n)):
            return f"{counts(rule.get_objects(n))} objects of size {n} but the terms are {rule.get_terms(n)}"
        for params in want:
            kw = dict(zip(parent.extra_parameters, params))
            if Counter(map(str, rule.generate_objects_of_size(n, **kw))) != want[params]:
                return f"generate_objects_of_size({n}, {kw}) is wrong"
    return None


def supports_maps(rule):
    """The forms for which the maps are there."""
    if isinstance(rule, EquivalenceRule):
        return supports_maps(rule.original_rule)
    if isinstance(rule, ReverseRule):
        return sum(not kit.kind_empty(c.kind) for c in rule.original_rule.children) == 1
    return True


def supports_objects(rule):
    if isinstance(rule, EquivalenceRule):
        return supports_objects(rule.original_rule)
    return not isinstance(rule, ReverseRule)


def judge(what, make, bound, down, res, key, case):
    for name, supports, check in (
        ("maps", supports_maps, lambda r: check_maps(r, bound)),
        ("objects", supports_objects, lambda r: check_objects(r, bound, down)),
    ):
        try:
            rule = make()
            if rule is None:
                return
            try:
                msg = check(rule)
                res.outcome(f"{type(rule).__name__}/{name}/done")
            except NotImplementedError as e:
                msg = None
                res.add("unsupported")
                if supports(rule):
                    msg = "not supported: " + short_tb(e)
        except NotImplementedError:
            res.add("unsupported")
            continue
        except Exception as e:
            if not in_library(e):
                raise
            msg = short_tb(e)
        res.add("executions")
        if msg:
            res.violation(f"{key}:{name}", f"{what}: {msg}", case)


def gen_rules(tier):
    for b in c09.gen_rules(tier):
        b["bound"] = SIZES[tier]
        yield b


def run_rules(b):
    res = Result()
    if "spec" in b:
        spec, form = b["spec"], tuple(b["form"])
        judge(f"{form} of {spec}", lambda: R.make_form(spec, form), b["bound"], b["down"], res, form[0], b)
        return res
    for j, spec in enumerate(b["specs"]):
        bound = b["bound"][spec["type"]]
        for form in R.forms(spec):
            case = {"spec": spec, "form": form, "bound": bound, "down": bool(j % 2)}
            judge(f"{form} of {spec}", lambda: R.make_form(spec, form), bound, bool(j % 2), res, form[0], case)
        if len(res.violations) > 8:
            break
    res.sample(f"{b['specs'][0]}")
    return res


def gen_paths(tier):
    for b in c09.gen_paths(tier):
        b["bound"] = SIZES[tier]["path"]
        yield b


def run_paths(b):
    res = Result()
    if "edges" in b:
        edges = R.tuplify(b["edges"])
        judge(edges, lambda: R.make_path(edges), b["bound"], b["down"], res, "path", b)
        return res
    for j, edges in enumerate(R.paths(b["tier"], b["length"])):
        if j % b["n"] == b["i"]:
            case = {"edges": edges, "bound": b["bound"], "down": bool(j % 2)}
            judge(edges, lambda: R.make_path(edges), b["bound"], bool(j % 2), res, "path", case)
            if len(res.violations) > 8:
                break
    return res


# ----------------------------------------------------------------------------------
# Whole specifications
# ----------------------------------------------------------------------------------


def check(searcher, spec, cfg, tier):
    start = searcher.start_class
    bound = SIZES[tier]["spec"]
    names = start.extra_parameters
    generates = not any(isinstance(r, ReverseRule) or (isinstance(r, EquivalenceRule) and not supports_objects(r)) for r in spec)
    try:
        for n in [bound] + list(range(bound + 1)):
            want = canon(start.true_objects(n))
            got = canon(spec.get_objects(n))
            if got != want:
                raise Violation(f"get_objects({n}) = {got}, true objects {want}\n{spec}")
            values = set(want) | {tuple(v + 1 for v in p) for p in want} | {(0,) * len(names)}
            for p in sorted(values):
                kw = dict(zip(names, p))
                objs = list(spec.generate_objects_of_size(n, **kw))
                if Counter(map(str, objs)) != want.get(p, Counter()):
                    raise Violation(f"generate_objects_of_size({n}, {kw}) = {objs}, true objects {want.get(p)}\n{spec}")
                if len(objs) != spec.count_objects_of_size(n, **kw):
                    raise Violation(f"{len(objs)} objects of size {n}, {kw}, but another count\n{spec}")
    except NotImplementedError:
        if generates:
            raise
    # every rule used, on its own class
    for rule in list(spec):
        if not rule.children or isinstance(rule, VerificationRule) or not supports_maps(rule):
            continue
        msg = check_maps(rule, min(bound, 4))
        if msg:
            raise Violation(f"{rule}: {msg}")
        if generates:
            for n in range(min(bound, 4) + 1):
                if canon(rule.get_objects(n)) != canon(rule.comb_class.true_objects(n)):
                    raise Violation(f"objects of size {n} of {rule.comb_class!r} are {rule.get_objects(n)}")


SUBCHECKS = {
    "rules": SubCheck(gen_rules, run_rules, None, 300),
    "paths": SubCheck(gen_paths, run_paths, None, 300),
    "specifications": searches.make_subcheck(check, "objects", share=True),
}
BOUNDS = {t: f"sizes up to {SIZES[t]}, paths of length {c09.LENGTHS[t]}; {searches.LIMITS[t]}" for t in SIZES}
