"""C12: survival selection keeps exactly the best of everyone eligible."""
import itertools
from math import inf, nan
import numpy as np
from mc.engine import S, require, check_distribution
from leap_ec import ops
from leap_ec.individual import Individual
from .common import Table, isnan, inds_with_fitness

BOUNDS = {"quick": "0-4 offspring and 0-3 parents with every assignment of 3 fitness levels (or failed), every size and elite count, "
                   "both directions, fitness or custom key, list and curried use; insertion with every contestant sequence and exact probabilities; "
                   "populations of 9-12 in every rotation of several fitness patterns; 260 individuals in 5 patterns; equal genomes; fitnesses 1e-7 apart (LEAP treats fitnesses within 1e-9, relatively, as equal)"}


def score(f, maximize):
    return -inf if isnan(f) else (f if maximize else -f)


def value_of(p, maximize):
    """The criterion the operator is asked to use: larger is better."""
    if p["key"] is None:
        return lambda x: score(x.fitness, maximize)
    return KEYS[p["key"]]


KEYS = {"gene": lambda x: (x.genome[0] * 7) % 5, "neg": lambda x: -x.genome[0], "const": lambda x: 1}


def setup(ctx, p, no, np_):
    maximize = p["maximize"]
    problem = Table(lambda ph: 0, maximize)
    fits = [ctx.pick(p["levels"]) for _ in range(no + np_)] if "fits" not in p else ctx.pick(p["fits"])
    every = inds_with_fitness(fits, problem)
    if p.get("same"):               # everybody carries the same genome
        for x in every:
            x.genome = np.array([4])
    off, par = every[:no], every[no:]
    return every, off, par, value_of(p, maximize)


def check_untouched(lst, before, what):
    require(len(lst) == len(before) and all(a is b for a, b in zip(lst, before)), "%s list was modified", what)


def truncation(ctx, p):
    no, npar = p["n"]
    every, off, par, val = setup(ctx, p, no, npar)
    use_parents = p["parents"]
    pool = every if use_parents else off
    size = ctx.pick(range(len(pool) + 1) if not p.get("few") else sorted({0, 1, 50, 101, len(pool) // 2, len(pool) - 1, len(pool)}))
    fit_before = [x.fitness for x in every]
    kw = {} if p["key"] is None else dict(key=KEYS[p["key"]])
    if use_parents:
        kw["parents"] = par
    o2, p2 = list(off), list(par)
    res = ops.truncation_selection(size=size, **kw)(off) if p.get("curry") else ops.truncation_selection(off, size, **kw)
    require(isinstance(res, list), "no list returned")
    check_untouched(par, p2, "parents'")
    check_untouched(off, o2, "offspring")
    require(all(a is b or a == b for a, b in zip([x.fitness for x in every], fit_before)), "fitness changed")
    require(len(res) == size, "%d survivors instead of %d", len(res), size)
    members(res, pool)
    want = sorted((val(x) for x in pool), reverse=True)[:size]
    got = sorted((val(x) for x in res), reverse=True)
    require(got == want, "survivors are worth %r, the best %d of %r are worth %r", got, size, [val(x) for x in pool], want)
    return tuple(sorted(got))


def members(res, pool):
    ids = [id(x) for x in res]
    require(len(set(ids)) == len(ids), "the same individual survives twice")
    ok = {id(x) for x in pool}
    require(all(i in ok for i in ids), "a survivor is not one of the individuals given")


def elitist(ctx, p):
    no, npar = p["n"]
    every, off, par, val = setup(ctx, p, no, npar)
    k = ctx.pick(range(npar + 2) if not p.get("few") else sorted({0, 1, 60, npar, npar + 1}))
    p2, given = list(par), list(off)
    kw = {} if p["key"] is None else dict(key=KEYS[p["key"]])
    res = ops.elitist_survival(parents=par, k=k, **kw)(off) if p.get("curry") else ops.elitist_survival(off, par, k, **kw)
    check_untouched(par, p2, "parents'")
    require(len(res) == no, "%d survivors for %d offspring", len(res), no)
    members(res, given + p2)
    elites = sorted((val(x) for x in p2), reverse=True)[:k]
    want = sorted([val(x) for x in given] + elites, reverse=True)[:no]
    got = sorted((val(x) for x in res), reverse=True)
    require(got == want, "survivors are worth %r; offspring %r with elites %r should give %r", got, [val(x) for x in given], elites, want)
    pid = {id(x) for x in p2}
    kept = [val(x) for x in res if id(x) in pid]
    for v in set(kept):
        require(kept.count(v) <= elites.count(v), "more parents survive than there are elites")
    return tuple(got)


def insertion(ctx, p):
    no, npar = p["n"]
    every, off, par, val = setup(ctx, p, no, npar)
    p2, o2 = list(par), list(off)
    kw = {} if p["key"] is None else dict(key=KEYS[p["key"]])
    res = ops.insertion_selection(parents=par, **kw)(off) if p.get("curry") else ops.insertion_selection(off, par, **kw)
    check_untouched(par, p2, "parents'")
    check_untouched(off, o2, "offspring")
    require(res is not par, "the parents' own list was returned")
    require(len(res) == npar, "%d survivors from %d parents", len(res), npar)
    members(res, o2 + p2)
    for i, x in enumerate(res):
        require(x is p2[i] or any(x is c for c in o2), "parent %d moved or was replaced by a stranger", i)
    return (tuple(val(x) for x in o2), tuple(val(x) for x in p2), tuple(repr(x.fitness) for x in every)), tuple(val(x) for x in res)


def insertion_post(p, group, dist):
    kids, parents, _ = group
    want = {parents: 1.0}
    for c in kids:
        nxt = {}
        for st, pr in want.items():
            for i in range(len(st)):
                s = list(st)
                s[i] = max(s[i], c)
                nxt[tuple(s)] = nxt.get(tuple(s), 0.0) + pr / len(st)
        want = nxt
    check_distribution(dist, want, "offspring %r challenging parents %r" % (kids, parents))


def scenarios(tier):
    big = tier == "thorough"
    out = []

    def add(kind, fn, n, levels, maximize=True, key=None, post=None, weight=1, **p):
        p.update(n=n, levels=levels, maximize=maximize, key=key)
        name = "-".join(str(x) for x in (kind, n, len(levels), "nan" if any(isnan(v) for v in levels) else "real", maximize, key, sorted(p.get("tag", ""))))
        out.append(S(name + ("-curry" if p.get("curry") else "") + ("-par" if p.get("parents") else "") + p.get("tag", ""), fn, p, post=post, weight=weight))
    L2, L3, LN = (1, 2), (0.5, 1.5, 2.5), (1.0, 2.0, nan)
    for maximize in (True, False):
        for key in (None, "gene", "neg", "const"):
            for n in range(0, (6 if big else 5)):
                add("trunc", truncation, (n, 2), L3, maximize, key, parents=False, weight=10)
            for n in [(1, 1), (2, 1), (1, 2), (2, 2), (0, 2), (2, 0), (3, 2), (2, 3)] + ([(3, 3), (4, 2)] if big else []):
                add("trunc", truncation, n, L3 if sum(n) < 5 else L2, maximize, key, parents=True, weight=20)
                add("elite", elitist, n, L3 if sum(n) < 5 else L2, maximize, key, weight=20)
            for n in [(1, 1), (2, 1), (1, 2), (2, 2), (0, 2), (3, 2), (2, 3)] + ([(3, 3), (4, 2)] if big else []):
                add("ins", insertion, n, L3 if sum(n) < 5 else L2, maximize, key, post=insertion_post, weight=30)
        add("trunc", truncation, (3, 2), LN, maximize, parents=True, weight=30)
        add("elite", elitist, (2, 2), LN, maximize, weight=30)
        add("ins", insertion, (2, 2), LN, maximize, post=insertion_post, weight=30)
        add("ins", insertion, (4, 2), (1, 2), maximize, post=insertion_post, weight=30, curry=True)
        add("trunc", truncation, (2, 2), L3, maximize, parents=True, curry=True)
        add("elite", elitist, (2, 2), L3, maximize, curry=True)
        # longer populations: every rotation of a few patterns
        base = [[3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8], list(range(12)), [0] * 6 + [1] * 6, [2, 2, 2, 1, 1, 1, 1, 3, 3, 2, 1, 2]]
        rots = [b[i:] + b[:i] for b in base for i in range(12)]
        add("trunc", truncation, (7, 5), (0,), maximize, parents=True, fits=rots, tag="long", weight=20)
        add("trunc", truncation, (12, 0), (0,), maximize, parents=False, fits=rots, tag="long", weight=20)
        add("elite", elitist, (7, 5), (0,), maximize, fits=rots, tag="long", weight=20)
        add("trunc", truncation, (2, 2), L3, maximize, parents=True, same=True, tag="same", weight=20)
        add("trunc", truncation, (4, 0), L3, maximize, parents=False, same=True, tag="same", weight=20)
        add("elite", elitist, (2, 2), L3, maximize, same=True, tag="same", weight=20)
        add("ins", insertion, (2, 2), L3, maximize, same=True, tag="same", post=insertion_post, weight=20)
        wide = [[(k * 37) % 331 for k in range(260)], [k % 3 for k in range(260)], list(range(260)), list(range(260))[::-1], [1 + k * 1e-7 for k in range(260)]]
        for no in (260, 130, 60):
            add("trunc", truncation, (no, 260 - no), (0,), maximize, parents=True, fits=wide, few=True, tag="wide", weight=20)
            add("elite", elitist, (no, 260 - no), (0,), maximize, fits=wide, few=True, tag="wide", weight=20)
        add("trunc", truncation, (260, 0), (0,), maximize, parents=False, fits=wide, few=True, tag="wide", weight=20)
        close = (1.0, 1.0 + 1e-7, 1.0 + 1e-6)
        add("trunc", truncation, (2, 2), close, maximize, parents=True, tag="close", weight=20)
        add("elite", elitist, (2, 2), close, maximize, tag="close", weight=20)
        add("ins", insertion, (2, 2), close, maximize, tag="close", post=insertion_post, weight=20)
        out.append(S("ins-wide-%s" % maximize, insertion, dict(n=(1, 150), levels=(0,), maximize=maximize, key=None, fits=[[77] + [(k * 37) % 151 for k in range(150)]]),
                     post=insertion_post, big_choice=500, weight=20))
    for s in out:
        s.kw.setdefault("unit_bins", 12 if s.fn is insertion else 2)     # a fair index among 1-4 however it is drawn; coin tosses between failed individuals
    return out
