"""Reference definitions for multi-objective checks."""
import itertools
from math import inf
import numpy as np
from .common import dominates, depth_ranks


def _gap_options(keys):
    """All tuples of neighbour gaps (inf at the ends) that some order sorting `keys` gives.

    Within a group of equal keys only the first and the last member see another value, so an
    order is determined, as far as gaps go, by choosing those two in every group.
    """
    groups = {}
    for i, k in enumerate(keys):
        groups.setdefault(k, []).append(i)
    values = sorted(groups)
    per_group = []
    for j, v in enumerate(values):
        before = v - values[j - 1] if j else inf
        after = values[j + 1] - v if j + 1 < len(values) else inf
        g = groups[v]
        if len(g) == 1:
            per_group.append([{g[0]: before + after}])
        else:
            per_group.append([{**{i: 0.0 for i in g}, a: before, b: after} for a in g for b in g if a != b])
    seen = set()
    for combo in itertools.product(*per_group):
        d = {}
        for c in combo:
            d.update(c)
        t = tuple(d[i] for i in range(len(keys)))
        if t not in seen:
            seen.add(t)
            yield t


def crowding_options(vectors):
    """Set of distance tuples allowed by the textbook definition (ties broken arbitrarily)."""
    n = len(vectors)
    if n == 0:
        return {()}
    m = len(vectors[0])
    acc = {tuple([0.0] * n)}
    for ob in range(m):
        keys = [v[ob] for v in vectors]
        rng = max(keys) - min(keys)
        if rng == 0:
            continue
        new = set()
        for gaps in _gap_options(keys):
            for base in acc:
                new.add(tuple(b + (g if g == inf else g / rng) for b, g in zip(base, gaps)))
        acc = new
    return acc


def matches(dist, options, tol=1e-9):
    for o in options:
        if all((a == b) or abs(a - b) <= tol for a, b in zip(dist, o)):
            return True
    return False


def droppable(vectors):
    """Indices that may be the least-crowding-distance member of this front."""
    out = set()
    for o in crowding_options(vectors):
        mn = min(o)
        out |= {i for i, d in enumerate(o) if d <= mn + 1e-12}
    return out


def valid_survivors(vectors, maximize, chosen, size):
    """None if `chosen` (indices) is a legal NSGA-II truncation of vectors to `size`, else a reason."""
    n = len(vectors)
    ranks = depth_ranks(vectors, maximize)
    if len(chosen) != min(size, n):
        return "kept %d of %d, should keep %d" % (len(chosen), n, min(size, n))
    if not chosen:
        return None
    worst = max(ranks[i] for i in chosen)
    for i in range(n):
        if i not in chosen and ranks[i] < worst:
            return "individual with rank %d discarded while rank %d kept" % (ranks[i], worst)
    front = [i for i in range(n) if ranks[i] == worst]
    kept = [i for i in front if i in chosen]
    if len(kept) == len(front):
        return None
    for o in crowding_options([vectors[i] for i in front]):
        d = dict(zip(front, o))
        if min(d[i] for i in kept) >= max(d[i] for i in front if i not in chosen) - 1e-12:
            return None
    return "rank tie not broken by crowding distance: kept %r of front %r" % (
        [vectors[i] for i in kept], [vectors[i] for i in front])
