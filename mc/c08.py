"""C08: random sampling is exactly uniform.

The random source is replaced by an enumerating one: every sequence of answers is
executed and weighted exactly (a fraction), so the distribution is computed, not
estimated.

* rules, full: children sampled uniformly by the harness (also enumerated); the
  distribution of the object must be exactly uniform;
* rules, compositions: one answer of the children; the probability of every vector of
  (size, parameters) requested from the children must be the number of objects with
  parts of those sizes and parameters over the count of the parent;
* specifications: the whole recursion enumerated for small sizes, every rule of the
  specification checked by compositions with the counting functions it is wired to, and
  the documented error for every size and parameter value without objects.
"""

from collections import Counter, defaultdict
from fractions import Fraction

from comb_spec_searcher.exception import InvalidOperationError
from comb_spec_searcher.strategies.rule import EquivalenceRule, ReverseRule, VerificationRule

from mc import c07, c09
from mc import rulebase as R
from mc import searches
from mc import universe as U
from mc.common import (
    Clock,
    RandomSeam,
    Result,
    SubCheck,
    Violation,
    explore_choices,
    in_library,
    short_tb,
)

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of all answers of the random source (exact rational weights) over enumerated rules, forms, "
             "paths and the specifications returned by the explored searches, on the real code")
NOTE = ("For every size and parameter value up to the bound every sequence of random answers is executed; the exact "
        "distribution must be uniform over the brute force objects.")
RULE = "every (decomposition, statistics, map, form), every returned specification; outcome = number of answers per sample"
ASSUMPTIONS = [
    "randint, randrange, choice, choices, sample and shuffle of the random module are themselves uniform",
    "sizes up to the bound",
]
SIZES = {
    "quick": {"full": 3, "comp": 5, "path": 3, "spec": 3, "leaves": 600},
    "thorough": {"full": 4, "comp": 7, "path": 4, "spec": 4, "leaves": 20000},
}


class Capped(Exception):
    pass


def distribution(sample, cap=None):
    """Exact distribution of sample(chooser); the number of executions."""
    dist = defaultdict(Fraction)
    n = 0
    for _, points, value in explore_choices(sample):
        w = Fraction(1)
        for p in points:
            w /= p
        dist[value] += w
        n += 1
        if cap is not None and n > cap:
            raise Capped()
    return dict(dist), n


def uniform_error(dist, want):
    """A message, or None; want: list of distinct objects."""
    if sum(dist.values()) != 1:
        return f"weights sum to {sum(dist.values())}"
    target = {str(o): Fraction(1, len(want)) for o in want}
    if dist != target:
        return f"distribution {show(dist)}, should be uniform over {sorted(target)}"
    return None


def show(dist):
    return {str(k): str(v) for k, v in sorted(dist.items(), key=str)}


def full(rule, bound, res=None):
    parent = rule.comb_class
    for n in range(bound + 1):
        for params, objs in parent.true_objects(n).items():
            kw = dict(zip(parent.extra_parameters, params))

            def sample(chooser):
                R.attach(rule, choose=chooser.choose)
                with RandomSeam(chooser):
                    return str(rule.random_sample_object_of_size(n, **kw))

            dist, leaves = distribution(sample)
            if res is not None:
                res.add("samples", leaves)
                res.outcome(leaves)
            msg = uniform_error(dist, objs)
            if msg:
                return f"size {n}, {kw}: {msg}"
    return None


def compositions(rule, bound, res=None, subrecs=None, own_counts=False):
    """Probabilities of the vectors of requests to the children.  With `subrecs`, the
    rule keeps the counting functions it is wired to."""
    parent = rule.comb_class
    for n in range(bound + 1):
        for params, objs in parent.true_objects(n).items():
            kw = dict(zip(parent.extra_parameters, params))
            want = defaultdict(Fraction)
            for o in objs:
                parts = rule.forward_map(o)
                key = tuple(
                    None if p is None else (len(p), c.get_parameters(p))
                    for p, c in zip(parts, rule.children)
                )
                want[key] += Fraction(1, len(objs))
            request = [None] * len(rule.children)

            def sample(chooser):
                if not own_counts:
                    R.attach(rule)
                request[:] = [None] * len(rule.children)
                rule.subsamplers = tuple(spy(i, c) for i, c in enumerate(rule.children))
                with RandomSeam(chooser):
                    obj = rule.random_sample_object_of_size(n, **kw)
                if obj not in objs:
                    raise Violation(f"size {n}, {kw}: sampled {obj}, which is no such object")
                return tuple(request)

            def spy(i, c):
                def sampler(n, **parameters):
                    p = tuple(parameters[k] for k in c.extra_parameters)
                    request[i] = (n, p)
                    got = c.true_objects(n).get(p)
                    if not got:
                        raise Violation(f"child {i} is asked for an object of size {n}, {parameters}: there is none")
                    return got[0]

                return sampler

            try:
                dist, leaves = distribution(sample)
            except Violation as e:
                return str(e)
            if res is not None:
                res.add("samples", leaves)
            if dist != dict(want):
                return f"size {n}, {kw}: parts of sizes {show(dist)}, should be {show(want)}"
    return None


def judge(what, make, jobs, res, key, case):
    for name, job in jobs:
        try:
            rule = make()
            if rule is None:
                return
            try:
                msg = job(rule, res)
            except NotImplementedError as e:
                msg = None
                res.add("unsupported")
                if c07.supports_objects(rule):
                    msg = "not supported: " + short_tb(e)
        except NotImplementedError:
            res.add("unsupported")
            continue
        except Exception as e:
            if not in_library(e):
                raise
            msg = short_tb(e)
        res.add("executions")
        if msg:
            res.violation(f"{key}:{name}", f"{what}: {msg}", case)


def jobs_for(sizes, path=False):
    if path:
        return [("full", lambda r, res: full(r, sizes["path"], res)), ("comp", lambda r, res: compositions(r, sizes["path"], res))]
    return [("full", lambda r, res: full(r, sizes["full"], res)), ("comp", lambda r, res: compositions(r, sizes["comp"], res))]


SAMPLED = ("rule", "eqv")


def gen_rules(tier):
    for b in c09.gen_rules(tier):
        b["bound"] = SIZES[tier]
        yield b


def run_rules(b):
    res = Result()
    jobs = jobs_for(b["bound"])
    if "spec" in b:
        spec, form = b["spec"], tuple(b["form"])
        judge(f"{form} of {spec}", lambda: R.make_form(spec, form), jobs, res, form[0], b)
        return res
    for spec in b["specs"]:
        for form in R.forms(spec):
            if form[0] not in SAMPLED:
                continue
            case = {"spec": spec, "form": form, "bound": b["bound"]}
            judge(f"{form} of {spec}", lambda: R.make_form(spec, form), jobs, res, form[0], case)
        if len(res.violations) > 8:
            break
    res.sample(f"{b['specs'][0]}")
    return res


def gen_paths(tier):
    for b in c09.gen_paths(tier):
        b["bound"] = SIZES[tier]
        yield b


def run_paths(b):
    res = Result()
    jobs = jobs_for(b["bound"], True)
    if "edges" in b:
        edges = R.tuplify(b["edges"])
        judge(edges, lambda: R.make_path(edges), jobs, res, "path", b)
        return res
    for j, edges in enumerate(R.paths(b["tier"], b["length"])):
        if j % b["n"] == b["i"]:
            case = {"edges": edges, "bound": b["bound"]}
            judge(edges, lambda: R.make_path(edges), jobs, res, "path", case)
            if len(res.violations) > 8:
                break
    return res


# ----------------------------------------------------------------------------------
# Whole specifications
# ----------------------------------------------------------------------------------


def check(searcher, spec, cfg, tier):
    start = searcher.start_class
    lim = SIZES[tier]
    names = start.extra_parameters
    samples = not any(
        (isinstance(r, (ReverseRule, EquivalenceRule)) and not c07.supports_objects(r)) for r in spec
    )
    # counts are cached: fill the caches before the enumeration
    with Clock(), RandomSeam(_First()):
        spec.get_terms(lim["spec"])
    try:
        for n in range(lim["spec"] + 1):
            true = start.true_objects(n)
            for p, objs in sorted(true.items()):
                kw = dict(zip(names, p))

                def sample(chooser):
                    with Clock(), RandomSeam(chooser):
                        return str(spec.random_sample_object_of_size(n, **kw))

                try:
                    dist, _ = distribution(sample, lim["leaves"])
                except Capped:
                    continue
                msg = uniform_error(dist, objs)
                if msg:
                    raise Violation(f"size {n}, {kw}: {msg}\n{spec}")
            none = {tuple(v + 1 for v in p) for p in true} | {(n + 1,) * len(names), (0,) * len(names)}
            for p in sorted(none - set(true)):
                kw = dict(zip(names, p))
                try:
                    with Clock(), RandomSeam(_First()):
                        obj = spec.random_sample_object_of_size(n, **kw)
                except InvalidOperationError:
                    continue
                raise Violation(f"sampled {obj} of size {n}, {kw}, where there is none\n{spec}")
    except NotImplementedError:
        if samples:
            raise
    for rule in list(spec):
        if isinstance(rule, VerificationRule) or not rule.children or not c07.supports_objects(rule):
            continue
        saved = rule.subsamplers
        try:
            msg = compositions(rule, min(5, lim["spec"] + 1), own_counts=True)
        finally:
            rule.subsamplers = saved
        if msg:
            raise Violation(f"{rule}: {msg}\n{spec}")


class _First:
    def choose(self, n):
        return 0


SUBCHECKS = {
    "rules": SubCheck(gen_rules, run_rules, None, 300),
    "paths": SubCheck(gen_paths, run_paths, None, 300),
    "specifications": searches.make_subcheck(check, "uniform", share=True),
}
BOUNDS = {t: f"{SIZES[t]}, paths of length {c09.LENGTHS[t]}; {searches.LIMITS[t]}" for t in SIZES}
