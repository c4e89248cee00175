"""C10: declared shifts bound what a rule reads when counting.

Every rule, form and path of `rulebase`, and every rule of every specification the
searches of `universe` return, is made to compute its terms size by size while every
request it makes is recorded.
"""

from comb_spec_searcher.strategies.rule import VerificationRule

from mc import c09
from mc import rulebase as R
from mc import searches
from mc.common import Result, SubCheck, Violation, in_library, short_tb

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of rules, forms, paths and of the rules of all specifications returned by the explored "
             "searches, executed on the real code with every request to a term provider monitored")
NOTE = ("Each request (child, size) made while the terms of size n are computed is checked against n minus the declared "
        "shift; own terms only below n; in specifications no (class, size) is requested while it is being computed.")
RULE = "every (decomposition, statistics, map, form), every returned specification; outcome = (form, shifts, requests)"
ASSUMPTIONS = ["sizes up to the bound", "requests through the term providers and the rule's own get_terms"]


def monitor(rule, bound, res=None):
    """A message, or None."""
    try:
        shifts = tuple(rule.shifts())
    except NotImplementedError:
        if res is not None:
            res.add("no_shifts")
        return None
    if len(shifts) != len(rule.children):
        return f"{len(shifts)} shifts for {len(rule.children)} children"
    seen = []
    current = [None]
    bad = []

    def log(i, size):
        seen.append((i, current[0] - size))
        if size > current[0] - shifts[i] and not bad:
            bad.append(f"size {size} of child {i} (shift {shifts[i]}) is read for size {current[0]}")

    real = rule.get_terms

    def own(size):
        seen.append(("own", current[0] - size))
        if size >= current[0]:
            if not bad:
                bad.append(f"own terms of size {size} are read for size {current[0]}")
            raise _Stop
        return real(size)

    R.attach(rule, log=log)
    rule.get_terms = own
    try:
        for n in range(bound + 1):
            current[0] = n
            try:
                real(n)
            except _Stop:
                pass
            if bad:
                return bad[0]
    finally:
        del rule.get_terms
    if res is not None:
        res.add("requests", len(seen))
        res.outcome(f"{type(rule).__name__}/{type(rule.constructor).__name__}/{shifts}/{sorted(set(seen), key=repr)}")
    return None


class _Stop(Exception):
    pass


def judge(what, rule, bound, res, key, case):
    try:
        msg = monitor(rule, bound, res)
    except NotImplementedError:
        res.add("unsupported")
        return
    except Exception as e:
        if not in_library(e):
            raise
        msg = "crash: " + short_tb(e)
        key = "crash:" + key
    res.add("executions")
    res.add("transitions", bound + 1)
    if msg:
        res.violation(key, f"{what}: {msg}", case)


def run_rules(b):
    res = Result()
    if "spec" in b:
        spec, form = b["spec"], tuple(b["form"])
        judge(f"{form} of {spec}", R.make_form(spec, form), b["bound"], res, f"{spec['type']}:{form[0]}", b)
        return res
    for spec in b["specs"]:
        bound = b["bound"][spec["type"]]
        for form in R.forms(spec):
            case = {"spec": spec, "form": form, "bound": bound}
            judge(f"{form} of {spec}", R.make_form(spec, form), bound, res, f"{spec['type']}:{form[0]}", case)
        if len(res.violations) > 8:
            break
    res.sample(f"{b['specs'][0]}")
    return res


def run_paths(b):
    res = Result()
    if "edges" in b:
        judge(b["edges"], R.make_path(R.tuplify(b["edges"])), b["bound"], res, "path", b)
        return res
    for j, edges in enumerate(R.paths(b["tier"], b["length"])):
        if j % b["n"] == b["i"]:
            rule = R.make_path(edges)
            if rule is None:
                continue
            judge(edges, rule, 4, res, "path", {"edges": edges, "bound": 4})
            if len(res.violations) > 8:
                break
    return res


# ----------------------------------------------------------------------------------
# Whole specifications
# ----------------------------------------------------------------------------------


class Spy:
    """Stands between a rule and the rule of one of its children."""

    def __init__(self, watch, parent, index, rule):
        self.watch, self.parent, self.index, self.rule = watch, parent, index, rule

    def get_terms(self, n):
        self.watch.request(self.parent, self.index, self.rule, n)
        with self.watch.computing(self.rule, n):
            return self.rule.get_terms(n)

    def __getattr__(self, name):
        return getattr(self.rule, name)


class Watch:
    """What is being computed, and on whose behalf."""

    def __init__(self):
        self.stack = []  # [class, next size to compute]
        self.known = {}  # class -> number of sizes computed
        self.requests = 0

    def computing(self, rule, n):
        return _Frame(self, rule.comb_class, n)

    def request(self, parent, index, rule, n):
        self.requests += 1
        frame = self.stack[-1]
        current = self.current(frame)
        shift = parent.shifts()[index]
        if n > current - shift:
            raise Violation(
                f"size {n} of child {index} (shift {shift}) read for size {current} of {parent}"
            )
        for f in self.stack:
            if f[0] == rule.comb_class and n >= self.current(f):
                raise Violation(
                    f"terms of size {n} of {rule.comb_class!r} are needed to compute its terms of size {self.current(f)}"
                )

    def current(self, frame):
        return frame[1]()


class _Frame:
    def __init__(self, watch, comb_class, n):
        self.watch = watch
        self.c = comb_class
        self.n = n

    def __enter__(self):
        self.watch.stack.append((self.c, lambda: self.n))

    def __exit__(self, *exc):
        self.watch.stack.pop()
        return False


def check(searcher, spec, cfg, tier):
    bound = 6 if tier == "thorough" else 4
    # every rule alone, on true terms (a copy: the specification keeps its own)
    for rule in spec:
        if isinstance(rule, VerificationRule) or not rule.children:
            continue
        saved = rule.subrecs, rule.subsamplers, rule.subobjects, rule.subterms, rule.terms_cache
        rule.terms_cache = []
        try:
            msg = monitor(rule, bound)
        except NotImplementedError:
            msg = None
        finally:
            rule.subrecs, rule.subsamplers, rule.subobjects, rule.subterms, rule.terms_cache = saved
        if msg:
            raise Violation(f"{rule}: {msg}")
    # all together: sizes in increasing order, every class asked at the top level
    watch = Watch()
    for rule in spec:
        index = {}

        def get(child, rule=rule, index=index):
            kids = rule.children
            i = index.get(child, 0)
            index[child] = i + 1
            places = [j for j, c in enumerate(kids) if c == child]
            return Spy(watch, rule, places[i % len(places)], spec.get_rule(child))

        rule.set_subrecs(get)
    for n in range(bound + 1):
        for rule in list(spec):
            with watch.computing(rule, n):
                rule.get_terms(n)


SUBCHECKS = {
    "rules": SubCheck(c09.gen_rules, run_rules, None, 300),
    "paths": SubCheck(c09.gen_paths, run_paths, None, 300),
    "specifications": searches.make_subcheck(check, "shifts"),
}
BOUNDS = {t: f"sizes up to {c09.SIZES[t]}, paths of length {c09.LENGTHS[t]}; {searches.LIMITS[t]}" for t in c09.SIZES}
