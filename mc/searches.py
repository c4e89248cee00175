"""Enumeration of everything a search can hand back, over the configurations of
`universe`: every stop point, every choice of the random source, every option."""

from comb_spec_searcher.exception import SpecificationNotFound
from comb_spec_searcher.rule_db.base import RuleDBBase

from mc import universe as U
from mc.common import Chooser, Clock, RandomSeam, Result, SubCheck, Violation, explore_choices, in_library, short_tb

LIMITS = {
    # packets explored as single stop points, deviations of the random source
    "quick": {"stops": 12, "dev": 1, "specs": 24},
    "thorough": {"stops": 80, "dev": 2, "specs": 400},
}


def stop_plan(packets, limit):
    """Single stop points: all of them, or the first `limit` ones."""
    return list(range(1, min(packets, limit) + 1))


def returned_specs(cfg, tier, brief=False):
    """Yield (how, searcher, spec) for every execution; spec is None when the search
    ends without one."""
    lim = LIMITS[tier]
    searcher, spec = U.run_search(cfg)
    packets = searcher.classqueue.packets
    yield {"stops": []}, searcher, spec
    # the same searcher again: other choices, other options
    if spec is not None:
        yield from more_specs(cfg, searcher, lim)
    # every look at the clock is late: a specification is searched after each packet
    s2, spec2 = U.run_search(cfg, stops=lambda k: True)
    yield {"stops": "all"}, s2, spec2
    if spec2 is not None:
        for how, s, sp in more_specs(cfg, s2, lim):
            how["stops"] = "all"
            yield how, s, sp
    if brief:
        return
    for k in stop_plan(packets, lim["stops"]):
        s3, spec3 = U.run_search(cfg, stops={k})
        yield {"stops": [k]}, s3, spec3


def more_specs(cfg, searcher, lim):
    if not isinstance(searcher.ruledb, RuleDBBase):
        return

    def run(chooser):
        with Clock(), RandomSeam(chooser):
            return searcher.get_specification(minimization_time_limit=0)

    n = 0
    if cfg.get("iterative"):
        gen = [((), (), run(Chooser()))]
    else:
        gen = explore_choices(run, max_deviations=lim["dev"])
    for choices, _, spec in gen:
        n += 1
        if n > lim["specs"]:
            break
        yield {"stops": [], "choices": list(choices)}, searcher, spec
    if not cfg.get("iterative"):
        with Clock(), RandomSeam(Chooser()):
            spec = searcher.get_specification(minimization_time_limit=0, smallest=True)
        yield {"stops": [], "smallest": True}, searcher, spec


def replay_one(case):
    """The execution named by a violation."""
    cfg, how = case["cfg"], case["how"]
    stops = (lambda k: True) if how["stops"] == "all" else how["stops"]
    searcher, spec = U.run_search(cfg, stops=stops)
    if "choices" in how or how.get("smallest"):
        with Clock(), RandomSeam(Chooser(tuple(how.get("choices", ())))):
            spec = searcher.get_specification(
                minimization_time_limit=0, smallest=bool(how.get("smallest"))
            )
    return searcher, spec


def explore(cfgs, tier, check, res, key, share=False):
    """Run `check(searcher, spec)` on every distinct specification of every cfg (or,
    with `share`, of all of them together, without the single stop points in the quick
    tier: for the properties that concern the rules, not how they were found)."""
    seen = set()
    for cfg in cfgs:
        if not share:
            seen = set()
        how = {"stops": []}
        try:
            for how, searcher, spec in returned_specs(cfg, tier, share and tier == "quick"):
                res.add("executions")
                if spec is None:
                    res.add("no_specification")
                    continue
                res.add("specifications")
                sig = U.spec_signature(spec)
                if sig in seen:
                    continue
                seen.add(sig)
                res.add("states")
                for form, m in U.rule_forms(spec).items():
                    res.outcome(form)
                try:
                    check(searcher, spec, cfg, tier)
                except Violation as e:
                    res.violation(key, f"{cfg} {how}: {e}", {"cfg": cfg, "how": how})
                except Exception as e:
                    if not in_library(e):
                        raise
                    res.violation("crash:" + key, f"{cfg} {how}: {short_tb(e)}", {"cfg": cfg, "how": how})
        except Exception as e:
            if not in_library(e):
                raise
            res.violation("crash:search", f"{cfg} after {how}: {short_tb(e)}", {"cfg": cfg, "how": how})
    return res


def make_subcheck(check, key, block=12, timeout=300, share=False):
    def gen(tier):
        cfgs = U.configs(tier)
        if share:
            # configurations that only differ in how they search find the same rules
            groups = {}
            for cfg in cfgs:
                groups.setdefault(tuple(cfg.get(k) for k in ("kind", "stats", "pack", "policy", "compress")), []).append(cfg)
            for group in groups.values():
                yield {"cfgs": group, "tier": tier}
            return
        # interleave so that blocks have comparable cost
        n = (len(cfgs) + block - 1) // block
        for i in range(n):
            yield {"cfgs": cfgs[i::n], "tier": tier}

    def run(b):
        res = Result()
        explore(b["cfgs"], b["tier"], check, res, key, share)
        res.sample(b["cfgs"][0])
        return res

    def replay(case):
        res = Result()
        if "cfgs" in case:
            return run(case)
        try:
            searcher, spec = replay_one(case)
            if spec is not None:
                check(searcher, spec, case["cfg"], "thorough")
        except Exception as e:
            res.violation(key, f"{type(e).__name__}: {e}", case)
        return res

    return SubCheck(gen, run, replay, timeout)
