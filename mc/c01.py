"""C01: the specification a search returns enumerates the start class.

Alphabet: packets of work of the search, looks at the clock (early / late), choices of
the random source.  Bound: the configuration menu of `universe.configs`, every single
stop point up to LIMITS, every choice sequence with a bounded number of deviations.
Oracle: brute force enumeration of the start class.
"""

from mc import searches
from mc import universe as U

LEVEL = "model_checking"
TECHNIQUE = ("stateless exhaustive exploration of searches (configurations x stop points x random choices) on the "
             "real code, every returned specification compared with brute force enumeration")
NOTE = ("All executions of the controlled searcher inside a menu of universes, packs, databases, options, stop points "
        "and bounded-deviation random choices; sizes compared up to a bound.")
RULE = "one execution = one search; outcome = a rule form occurring in a returned specification"
ASSUMPTIONS = ["universes longer than 80 work packets are cut", "sizes compared up to 5 (quick) / 8 (thorough)"]
BOUNDS = {t: str(v) for t, v in searches.LIMITS.items()}


def check(searcher, spec, cfg, tier):
    U.check_enumeration(spec, searcher.start_class, 8 if tier == "thorough" else 5)


SUBCHECKS = {"searches": searches.make_subcheck(check, "enumeration")}
