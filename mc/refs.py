"""Boring reference models."""

import itertools

INF = None


def lfp(rules, labels=None):
    """Least fixed point of the 'terms computable' operator.

    `rules`: iterable of (parent, children, shifts).  A rule can give parent `m` terms
    when every child i has at least m - shift_i terms.  Returns a dict label -> number
    of terms (None = all), for every label mentioned.

    The iteration is the naive one.  A value above `cap` is infinite: with n classes
    and shifts of absolute value at most S the finite values of the least fixed point
    are at most n*S, because otherwise the value set has a gap of length S below it,
    which no class can cross a finite number of times.
    """
    rules = list(set(rules))
    labs = set(labels or ())
    smax = 1
    for p, cs, ss in rules:
        labs.add(p)
        labs.update(cs)
        for s in ss:
            smax = max(smax, abs(s))
    cap = 3 * (len(labs) + 1) * smax + 5
    f = dict.fromkeys(labs, 0)
    changed = True
    while changed:
        changed = False
        for p, cs, ss in rules:
            cur = f[p]
            if cur is INF:
                continue
            best = INF
            for c, s in zip(cs, ss):
                v = f[c]
                if v is not INF and (best is INF or v + s < best):
                    best = v + s
            if best is INF or best > cur:
                if best is not INF and best > cap:
                    best = INF
                f[p] = best
                changed = True
    return f


def productive(rules, label):
    return lfp(rules).get(label, 0) is INF


def reachable(n, edges):
    """Reflexive transitive closure as a list of sets."""
    reach = [{i} for i in range(n)]
    changed = True
    while changed:
        changed = False
        for a, b in edges:
            for i in range(n):
                if a in reach[i] and b not in reach[i]:
                    reach[i].add(b)
                    changed = True
    return reach


def scc(n, edges):
    """same[i][j]: i and j reach each other."""
    r = reachable(n, edges)
    return [[j in r[i] and i in r[j] for j in range(n)] for i in range(n)]


def gfp_prune(rules):
    """rules: iterable of (start, ends).  Labels surviving the greatest fixed point:
    the largest set S such that every label of S has a rule with all ends in S."""
    rules = set(rules)
    alive = {s for s, _ in rules}
    while True:
        new = {s for s, ends in rules if s in alive and all(e in alive for e in ends)}
        if new == alive:
            return alive
        alive = new


def bottom_up(rules, root):
    """Labels derivable bottom up when recursion is allowed only to the root.
    Returns (derivable labels, root derivable)."""
    rules = set(rules)
    done = set()
    while True:
        new = {
            s
            for s, ends in rules
            if s not in done and all(e in done or e == root for e in ends)
        }
        if not new:
            return done, root in done
        done |= new


def proof_trees(rules, root):
    """All assignments label -> rule that form a closed rule set reachable from root:
    every label reachable from root has exactly one rule.  Yields dicts."""
    by = {}
    for s, ends in sorted(set(rules)):
        by.setdefault(s, []).append(ends)

    def rec(assigned, todo):
        while todo and todo[0] in assigned:
            todo = todo[1:]
        if not todo:
            yield dict(assigned)
            return
        lab = todo[0]
        for ends in by.get(lab, ()):
            assigned[lab] = ends
            yield from rec(assigned, todo[1:] + [e for e in ends if e not in assigned])
            del assigned[lab]

    yield from rec({}, [root])


def multisets(items, k):
    return itertools.combinations_with_replacement(items, k)
