"""C09: every rule form counts its parent correctly from its children.

Every rule of `rulebase` (decompositions x statistics x every valid map of statistics),
every form the library derives from it, every equivalence path up to a length; the
children are bound to brute force enumerations and the terms of the parent compared.
"""

from mc import rulebase as R
from mc import universe as U
from mc.common import Result, SubCheck, in_library, short_tb

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of rules, statistics maps, derived forms and equivalence paths within bounds, executed on the real code against brute force enumeration"
NOTE = "Every rule form within the bounds is evaluated by the real constructors on true child terms and compared with the true parent terms."
RULE = "every (decomposition, statistics, map, form); outcome = (decomposition, form)"
ASSUMPTIONS = [
    "a statistic dropped by a child vanishes on it, and statistics mapped to one statistic coincide on the child",
    "every statistic of a child is the image of a statistic of the parent",
]
SIZES = {"quick": {"u": 5, "p": 5}, "thorough": {"u": 7, "p": 7}}


def sizes(bound, down):
    """Sizes in the order they are asked for (the answer must not depend on it)."""
    return range(bound, -1, -1) if down else range(bound + 1)


def check_terms(rule, bound, down=False):
    """A message, or None."""
    parent = rule.comb_class
    R.attach(rule)
    for n in sizes(bound, down):
        got = U.nonzero(rule.get_terms(n))
        want = U.nonzero(parent.true_terms(n))
        if got != want:
            return f"terms of size {n} are {got}, should be {want}"
    return None


def judge(spec, form, bound, res, down=False):
    msg = None
    try:
        rule = R.make_form(spec, form)
        msg = check_terms(rule, bound, down)
    except Exception as e:
        if not in_library(e):
            raise
        msg = short_tb(e)
    res.add("executions")
    res.add("transitions", bound + 1)
    res.outcome(f"{spec['type']}/{spec['dec']}/{form}")
    if msg:
        strat, parent = R.build(spec)
        res.violation(
            f"{spec['type']}:{form[0]}", f"{form} of {strat!r}: {msg}", {"spec": spec, "form": form, "bound": bound, "down": down}
        )


def gen_rules(tier):
    specs = R.rule_specs(tier)
    n = max(1, len(specs) // 25)
    for i in range(n):
        yield {"specs": specs[i::n], "bound": SIZES[tier], "tier": tier}


def run_rules(b):
    res = Result()
    if "spec" in b:
        judge(b["spec"], tuple(b["form"]), b["bound"], res, b["down"])
        return res
    for j, spec in enumerate(b["specs"]):
        for form in R.forms(spec):
            judge(spec, form, b["bound"][spec["type"]], res, bool(j % 2))
        if len(res.violations) > 8:
            break
    res.sample(f"{b['specs'][0]}")
    return res


def judge_path(edges, bound, res):
    msg = None
    try:
        rule = R.make_path(edges)
        if rule is None:
            res.add("no_path")
            return
        msg = check_terms(rule, bound)
    except NotImplementedError:
        res.add("unsupported")
        return
    except Exception as e:
        if not in_library(e):
            raise
        msg = short_tb(e)
    res.add("executions")
    res.outcome("/".join(e[2] + e[4] for e in edges))
    if msg:
        res.violation("path", f"{edges}: {msg}", {"edges": edges, "bound": bound})


LENGTHS = {"quick": (1, 2, 3), "thorough": (1, 2, 3)}
BLOCKS = 64


def gen_paths(tier):
    for length in LENGTHS[tier]:
        for i in range(BLOCKS):
            yield {"length": length, "i": i, "n": BLOCKS, "tier": tier}


def run_paths(b):
    res = Result()
    if "edges" in b:
        judge_path(R.tuplify(b["edges"]), b["bound"], res)
        return res
    for j, edges in enumerate(R.paths(b["tier"], b["length"])):
        if j % b["n"] == b["i"]:
            judge_path(edges, 4, res)
            if len(res.violations) > 8:
                break
    return res


SUBCHECKS = {
    "rules": SubCheck(gen_rules, run_rules, None, 300),
    "paths": SubCheck(gen_paths, run_paths, None, 300),
}
BOUNDS = {t: f"sizes up to {SIZES[t]}, paths of length {LENGTHS[t]}" for t in SIZES}
