"""C05: crowding distances, dominance sorting and the whole NSGA-II generation loop."""
import itertools
from math import inf
import numpy as np
from mc.engine import S, require, fresh_context, close
from leap_ec import ops
from leap_ec.individual import Individual
from leap_ec.representation import Representation
from leap_ec.multiobjective.ops import (fast_nondominated_sort, rank_ordinal_sort, crowding_distance_calc,
                                        sort_by_dominance, per_rank_crowding_calc)
from leap_ec.multiobjective.nsga2 import generalized_nsga_2
from .common import MOTable, depth_ranks, dominates, same_members
from .mo import crowding_options, matches, valid_survivors
from .c04 import make, mixes

BOUNDS = {"quick": "crowding: every list of 1-4 vectors over {0,1,2}^2 and 1-3 over {0,1}^3, every direction mix, populations of several "
          "ranks; whole NSGA-II runs: population 1-3, 1-2 generations, every assignment of offspring vectors from a 4-6 vector "
          "pool; single scenarios: objective ranges from tiny to huge"}


def check_crowding(everyone, vecs, ranks):
    for r in set(ranks):
        idx = [i for i in range(len(vecs)) if ranks[i] == r]
        opts = crowding_options([tuple(map(float, vecs[i])) for i in idx])
        got = [everyone[i].distance for i in idx]
        require(matches(got, opts), "rank %d front %r: crowding distances %r, textbook %r",
                r, [vecs[i] for i in idx], got, sorted(opts)[:4])


def crowd(ctx, p):
    vecs = [ctx.pick(p["grid"]) for _ in range(p["n"])]
    problem = MOTable(None, p["maximize"])
    everyone = make(vecs, problem, p.get("dtype", float))
    if p["ranks"] == "one":
        ranks = [1] * p["n"]
    elif p["ranks"] == "any":
        ranks = [ctx.pick((1, 2)) for _ in vecs]
    else:
        ranks = depth_ranks(vecs, p["maximize"])
    for x, r in zip(everyone, ranks):
        x.rank = r
        if p.get("stale"):
            x.distance = 5.0
    given = list(everyone)
    res = list(crowding_distance_calc(given))
    require(same_members(res, everyone), "crowding distance assignment returned %d individuals for %d given (or replaced some)",
            len(res), len(everyone))
    require([x.rank for x in everyone] == ranks, "crowding distance assignment changed ranks")
    for x, v in zip(everyone, vecs):
        require(tuple(x.fitness.tolist()) == tuple(v), "a fitness was changed")
    check_crowding(everyone, vecs, ranks)
    srt = list(sort_by_dominance(res))
    require(same_members(srt, everyone), "sorting by dominance lost or duplicated somebody")
    keys = [(x.rank, -x.distance) for x in srt]
    require(keys == sorted(keys), "sort by dominance is out of order: %r", keys)
    return tuple((x.rank, round(x.distance, 6)) for x in everyone)


def near(ctx, p):
    """Longer fronts: interior gaps."""
    vecs = [ctx.pick([b] + [g for g in p["grid"] if g != b]) for b in p["base"]]
    problem = MOTable(None, p["maximize"])
    everyone = make(vecs, problem)
    ranks = depth_ranks(vecs, p["maximize"])
    for x, r in zip(everyone, ranks):
        x.rank = r
    res = list(crowding_distance_calc(list(everyone)))
    require(same_members(res, everyone), "somebody was lost in crowding distance assignment")
    check_crowding(everyone, vecs, ranks)
    return tuple(round(x.distance, 6) for x in everyone)


def whole(ctx, p):
    maximize = p["maximize"]
    ids = itertools.count()
    vec_of = {}

    def objective(ph):
        return np.array(vec_of[int(ph[0])], dtype=float)
    problem = MOTable(objective, maximize)

    def fresh():
        i = next(ids)
        g, k = p["grid"], (3 * i) % len(p["grid"]) if p.get("spread") else 0
        opts = g[k:] + g[:k]
        vec_of[i] = ctx.pick(opts[:p["alts"]] if p.get("alts") else opts)
        return np.array([i])
    rep = Representation(initialize=fresh)
    state = dict(off=[], pops=[], gens=[])
    context = fresh_context()

    def look(pop):
        state["pops"].append(list(pop))
        state["gens"].append(context["leap"]["generation"])
        return pop

    def breed(it):
        while True:
            ind = next(it)
            ind.genome = fresh()
            yield ind

    def record(off):
        state["off"].append(list(off))
        return off
    kw = {}
    if p["rank"] is not None:
        kw["rank_func"] = dict(fast=fast_nondominated_sort, ordinal=rank_ordinal_sort)[p["rank"]]
    final = generalized_nsga_2(max_generations=p["gens"], pop_size=p["size"], problem=problem, representation=rep,
                               pipeline=[look, ops.naive_cyclic_selection, ops.clone, breed, ops.evaluate,
                                         ops.pool(size=p["off"]), record], context=context, **kw)
    require(len(state["pops"]) == p["gens"], "pipeline ran %d times in %d generations", len(state["pops"]), p["gens"])
    require(state["gens"] == list(range(p["gens"])), "generation numbers %r", state["gens"])
    seq = state["pops"] + [list(final)]
    for g in range(p["gens"]):
        cand = state["off"][g] + seq[g]
        after = seq[g + 1]
        require(len(after) == p["size"], "population has %d members after generation %d, requested %d", len(after), g, p["size"])
        require(len(set(map(id, after))) == len(after), "an individual occurs twice in the population")
        require(set(map(id, after)) <= set(map(id, cand)), "a stranger survived")
        vecs = [tuple(x.fitness.tolist()) for x in cand]
        for x, v in zip(cand, vecs):
            require(tuple(float(a) for a in vec_of[int(x.genome[0])]) == v, "fitness does not belong to the genome")
        chosen = {i for i, x in enumerate(cand) if any(x is y for y in after)}
        why = valid_survivors(vecs, maximize, chosen, p["size"])
        require(why is None, "generation %d: %s; candidates %r", g, why, vecs)
        ranks = depth_ranks(vecs, maximize)
        if g == p["gens"] - 1:      # earlier ranks have been replaced since
            require([x.rank for x in cand] == ranks, "ranks after survival %r, should be %r", [x.rank for x in cand], ranks)
    return tuple(sorted(tuple(x.fitness.tolist()) for x in final))


def scenarios(tier):
    big = tier == "thorough"
    out = []
    g2 = list(itertools.product((0, 1, 2), repeat=2))
    g3 = list(itertools.product((0, 1), repeat=3))

    def add(name, fn, weight=1, **p):
        dev = p.pop("dev", None)
        out.append(S(name + "-" + "".join("Mm"[not m] for m in p["maximize"]), fn, p, deviations=dev, weight=weight))
    for mx in mixes(2):
        for n in (1, 2, 3):
            add("crowd-one-%d" % n, crowd, maximize=mx, n=n, grid=g2, ranks="one", weight=9 ** n)
            add("crowd-any-%d" % n, crowd, maximize=mx, n=n, grid=g2 if n < 3 else g2[:5] + g2[8:], ranks="any", stale=True, weight=9 ** n)
        add("crowd-depth-4", crowd, maximize=mx, n=4, grid=g2, ranks="depth", weight=9 ** 4)
        front = [(k, 8 - k) for k in range(9)]
        add("near-front", near, maximize=mx, base=front, grid=[(2, 6), (4, 4), (0, 8), (8, 0), (5, 5), (2.5, 3)], dev=2, weight=2000)
        add("near-two", near, maximize=mx, base=[(k, 4 - k) for k in range(5)] + [(k + 3, 8 - k) for k in range(5)],
            grid=[(2, 2), (4, 4), (0, 8), (9, 9)], dev=2, weight=2000)
        add("int", crowd, maximize=mx, n=3, grid=g2[:6], ranks="one", dtype=int, weight=200)
        add("wide", crowd, maximize=mx, n=4, grid=[(0, 100.5), (-50, 3), (1e6, 0.001), (7, 7), (-50, 200)], ranks="one", weight=600)
    for mx in mixes(3):
        add("crowd3", crowd, maximize=mx, n=3, grid=g3, ranks="one", weight=500)
        add("crowd3d", crowd, maximize=mx, n=4, grid=[(0, 1, 2), (2, 0, 1), (1, 2, 0), (1, 1, 1), (0, 0, 0)], ranks="depth", weight=700)
    for mx in mixes(1):
        add("crowd1", crowd, maximize=mx, n=4, grid=[(0,), (1,), (2,), (5,)], ranks="any" if big else "one", weight=300)
    pool = [(0, 2), (1, 1), (2, 0), (0, 0), (2, 2)]
    for mx in mixes(2):
        for rank in (None, "fast", "ordinal") if big or mx == (True, True) else ((None, "fast") if mx[0] else ("fast", None)):
            add("run-1-2-%s" % rank, whole, maximize=mx, rank=rank, size=1, off=1, gens=3, grid=pool, weight=600)
            add("run-2-2-%s" % rank, whole, maximize=mx, rank=rank, size=2, off=2, gens=1, grid=pool, weight=600)
            add("run-2-2g-%s" % rank, whole, maximize=mx, rank=rank, size=2, off=2, gens=2, grid=pool[:3] if not big else pool[:4], weight=2000)
            add("run-3-3-%s" % rank, whole, maximize=mx, rank=rank, size=3, off=3, gens=1, grid=[(0, 3), (1, 1), (3, 0), (1, 2)], weight=4096)
            add("run-3-1-%s" % rank, whole, maximize=mx, rank=rank, size=3, off=1, gens=2, grid=pool[:4], weight=1024)
        add("run-0-gens", whole, maximize=mx, rank=None, size=2, off=2, gens=0, grid=pool)
        add("run-long", whole, maximize=mx, rank=None, size=5, off=5, gens=3,
            grid=[(2, 3), (3, 2), (5, 0), (0, 5), (1, 4), (4, 1), (4, 4), (0, 0)], spread=True, dev=2 if big else 1, weight=3000)
    # long fronts, many ranks, many objectives, values and ranges close together
    for mx in mixes(2):
        sg = [1 if m else -1 for m in mx]

        def signed(vs, sg=sg):
            return [tuple(float(a * b) for a, b in zip(v, sg)) for v in vs]
        for n in (70, 150):
            arc = signed([(k + (k * k % 7) / 9, (n - k) - (k * 5 % 11) / 13) for k in range(n)])
            add("front-%d" % n, near, maximize=mx, base=arc, grid=signed([(n / 2 + 0.01, n / 2 - 0.3)]), dev=1, weight=2000)
        chains = signed([v for k in range(40) for v in ((-k, 100 - k), (100 - k, -k), (50 - k, 50 - k), (51 - k - 0.5, 48.5 - k))])
        add("ranks-40", near, maximize=mx, base=chains, grid=signed([(52, 52)]), dev=1, weight=2000)
        spec = signed([(1e-14 * (k * 3 % 8), -1e-14 * (k * 3 % 8) - (k * k % 5) * 1e-16) for k in range(8)])
        add("speck", near, maximize=mx, base=spec, grid=signed([(0.5e-14, -0.4e-14)]), dev=2, weight=200)
        for e in (1e-5, 1e-8):
            tiny = signed([(5 + e * (k * 3 % 8), 3 - e * (k * 3 % 8)) for k in range(8)])
            add("tiny-%s" % e, near, maximize=mx, base=tiny, grid=signed([(5 + e / 2, 3 - e / 3)]), dev=2, weight=200)
            mixed = signed([(k, 3 - e * k) for k in range(8)] + [(5.0 + e / 3, 3 - 5.5 * e)])
            add("mixed-%s" % e, near, maximize=mx, base=mixed, grid=signed([(3.0 + e / 2, 3 - 3.5 * e)]), dev=2, weight=200)
        pts = signed([(k + (k * k % 5) / 30, 30 - k - (k * 7 % 11) / 40) for k in range(31)])
        lots = signed([(k + (k * k % 5) / 30, 190 - k - (k * 7 % 11) / 40) for k in range(181)])
        deep = signed([v for k in range(14) for v in ((-k, 100 - k), (100 - k, -k))])
        for rank in (None, "fast"):
            add("run-close-%s" % rank, whole, maximize=mx, rank=rank, size=12, off=12, gens=1, grid=pts, spread=True, alts=3, dev=2 if mx[0] else 1, weight=3000)
            add("run-deep-%s" % rank, whole, maximize=mx, rank=rank, size=10, off=8, gens=2, grid=deep[::-1], spread=True, alts=5, dev=1, weight=3000)
            add("run-many-%s" % rank, whole, maximize=mx, rank=rank, size=90, off=90, gens=1, grid=lots, spread=True, alts=1, dev=0, weight=3000)
    for m in (4, 5, 6):
        for mx in ((True,) * m, (False,) * m, tuple(k % 2 == 0 for k in range(m))):
            pts = [tuple(float((k * (2 * j + 3) + j) % 11 + k / 100) for j in range(m)) for k in range(7)]
            pts13 = [tuple(float((k * (2 * j + 3) + j) % 13 + k / 100 + j * k / 1000) for j in range(m)) for k in range(13)]
            add("objectives-%d" % m, near, maximize=mx, base=pts, grid=[tuple(5.5 + j / 7 for j in range(m)), tuple(0.5 + j for j in range(m))], dev=2, weight=200)
            add("run-objectives-%d" % m, whole, maximize=mx, rank=None, size=4, off=4, gens=1, grid=pts13, spread=True, alts=4, dev=1, weight=500)
    for mx in ((True, True, True), (False, True, False)):
        add("run3", whole, maximize=mx, rank=None, size=2, off=2, gens=1, grid=g3[1:7], weight=1300)
        add("run3f", whole, maximize=mx, rank="fast", size=2, off=3, gens=1, grid=[(0, 1, 2), (2, 0, 1), (1, 2, 0), (1, 1, 1)], weight=1300)
    return out
