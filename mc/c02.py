"""C02: returned specifications are closed, one rule per class, genuine and productive.

Same exploration as C01; the oracle re-applies the strategies of the pack with an
independent interpreter and computes a naive least fixed point of the specification.
"""

from mc import searches
from mc import universe as U

LEVEL = "model_checking"
TECHNIQUE = ("stateless exhaustive exploration of searches on the real code; every returned specification judged by an "
             "independent pack interpreter and an independent least fixed point")
NOTE = ("All executions of the controlled searcher inside a menu of universes, packs, databases, options, stop points "
        "and bounded-deviation random choices.")
RULE = "one execution = one search; outcome = a rule form occurring in a returned specification"
ASSUMPTIONS = ["universes longer than 80 work packets are cut"]
BOUNDS = {t: str(v) for t, v in searches.LIMITS.items()}


def check(searcher, spec, cfg, tier):
    U.check_valid(spec, searcher.start_class, [searcher.strategy_pack])


SUBCHECKS = {"searches": searches.make_subcheck(check, "valid")}
