"""C08: parent selection operators - who is returned, with what probability."""
import itertools
import math
from math import nan
import numpy as np
from mc.engine import S, require, check_distribution, Violation
from leap_ec import ops
from .common import Table, inds_with_fitness, isnan, better

BOUNDS = {"quick": "populations of 1-5, tournaments of 1-4 (and 8, 9) contestants, populations of 70-300 for single steps, 1-3 consecutive draws, every draw outcome; exact selection "
                   "probabilities for proportional selection and exact expected copies for stochastic universal sampling"}


class Watch:
    """Remembers a population and verifies nothing about it changed."""
    def __init__(self, pop):
        self.pop, self.members = pop, list(pop)
        self.fits = [x.fitness for x in pop]
        self.genomes = [tuple(x.genome.tolist()) for x in pop]
        self.ids = [(x.uuid, frozenset(x.parents)) for x in pop]

    def check(self):
        require(len(self.pop) == len(self.members) and all(a is b for a, b in zip(self.pop, self.members)),
                "selection altered the population list")
        for x, f, g, u in zip(self.members, self.fits, self.genomes, self.ids):
            require((x.fitness == f or (isnan(x.fitness) and isnan(f))) and tuple(x.genome.tolist()) == g
                    and (x.uuid, frozenset(x.parents)) == u, "selection altered an individual")


def pull(sel, pop, count, indices=None):
    w = Watch(pop)
    got = []
    for _ in range(count):
        ind = next(sel)
        pos = [i for i, x in enumerate(w.members) if x is ind]
        require(len(pos) >= 1, "selected somebody who is not in the population")
        if indices is not None:
            require(len(indices) == 1 and w.members[int(indices[0])] is ind, "reported index %r is not that of the selected individual", indices)
        got.append(pos[0])
        w.check()
    return got


def mk(fits, maximize=True):
    return inds_with_fitness(list(fits), Table(None, maximize))


def tournament(ctx, p):
    fits = ctx.pick(p["pops"])
    pop = mk(fits, p["maximize"])
    idx = [9, 9] if p["indices"] else None
    kw = {}
    if p["k"] is not None:
        kw["k"] = p["k"]
    if p["worst"]:
        kw["select_worst"] = True
    if p["indices"]:
        kw["indices"] = idx
    if p.get("key"):
        kw["key"] = lambda x: -int(x.genome[0])       # opposite of position
    sel = ops.tournament_selection(pop, **kw) if not p.get("curry") else ops.tournament_selection(**kw)(pop)
    got = pull(sel, pop, p["pulls"], idx)
    return fits, tuple(str(fits[i]) if not p.get("key") else str(i) for i in got)


def tournament_post(p, fits, dist):
    n, k = len(fits), p["k"] or 2
    if n > 20:              # distinct fitnesses in order: the j-th of n is the best of k with probability (j/n)^k - ((j-1)/n)^k
        up = p["maximize"] != p["worst"]
        want = {(str(f),): ((j + 1) / n) ** k - (j / n) ** k for j, f in enumerate(fits if up else fits[::-1])}
        return check_distribution(dist, want, "tournament of %d from %d" % (k, n))

    def rank(i):
        if p.get("key"):
            return -i
        f = fits[i]
        if isnan(f):
            return -math.inf
        return f if p["maximize"] else -f
    single = {}
    for draw in itertools.product(range(n), repeat=k):
        best = (min if p["worst"] else max)(draw, key=rank)
        lab = str(best) if p.get("key") else str(fits[best])
        single[lab] = single.get(lab, 0) + n ** -k
    want = {}
    for combo in itertools.product(single.items(), repeat=p["pulls"]):
        want[tuple(c[0] for c in combo)] = math.prod(c[1] for c in combo)
    check_distribution(dist, want, "tournament of %d from %r" % (k, fits))


def uniform(ctx, p):
    n = ctx.pick(p.get("sizes", (1, 2, 3, 5)))
    f = ctx.pick(p["fits"])
    pop = mk([f] * n)
    idx = [] if p["indices"] else None
    sel = ops.random_selection(pop, indices=idx) if p["indices"] else ops.random_selection(pop)
    return (n, str(f)), tuple(pull(sel, pop, p.get("pulls", 2), idx))


def uniform_post(p, group, dist):
    n = group[0]
    check_distribution(dist, {t: float(n) ** -p.get("pulls", 2) for t in itertools.product(range(n), repeat=p.get("pulls", 2))}, "random selection from %d" % n)


def values(fits, offset, exponent):
    o = -min(fits) if offset == "pop-min" else offset
    return [(f + o) ** exponent for f in fits]


def proportional(ctx, p):
    c = ctx.pick(p["cases"])
    fits, kw = c
    pop = mk(fits)
    kw = dict(kw)
    if p.get("key"):
        kw["key"] = lambda x: x.shadow
        for x, f in zip(pop, fits):
            x.shadow, x.fitness = f, -99.0
    sel = ops.proportional_selection(pop, **kw) if not p.get("curry") else ops.proportional_selection(**kw)(pop)
    return c, tuple(pull(sel, pop, p["pulls"]))


def proportional_post(p, c, dist):
    fits, kw = c
    v = values(fits, dict(kw).get("offset", 0), dict(kw).get("exponent", 1))
    t = sum(v)
    want = {}
    for tup in itertools.product(range(len(v)), repeat=p["pulls"]):
        pr = math.prod(v[i] / t for i in tup)
        if pr > 0:
            want[tup] = pr
    check_distribution(dist, want, "proportional selection from %r %r" % (fits, kw))


def sus(ctx, p):
    c = ctx.pick(p["cases"])
    fits, kw = c
    pop = mk(fits)
    kw = dict(kw)
    if p.get("key"):
        kw["key"] = lambda x: x.shadow
        for x, f in zip(pop, fits):
            x.shadow, x.fitness = f, -99.0
    v = values(fits, kw.get("offset", 0), kw.get("exponent", 1))
    if p.get("n") is not None:
        kw["n"] = p["n"]
    if p.get("shuffle") is not None:
        kw["shuffle"] = p["shuffle"]
    n = p["n"] or len(fits)
    sel = ops.sus_selection(pop, **kw)
    passes = []
    for _ in range(p["passes"]):
        got = pull(sel, pop, n)
        for i, x in enumerate(v):
            e = n * x / sum(v)
            m = got.count(i)
            require(math.floor(e + 1e-9) <= m <= math.ceil(e - 1e-9), "universal sampling: individual %d of %r got %d copies in a pass of %d, expectation %.3f",
                    i, fits, m, n, e)
        passes.append(tuple(sorted(got)))
    if p.get("shuffle") is False:
        require(len(set(passes)) == 1, "without resampling, passes differ: %r", passes)
    return (c, "x"), tuple(passes)


def sus_post(p, group, dist):
    c, _ = group
    fits, kw = c
    v = values(fits, dict(kw).get("offset", 0), dict(kw).get("exponent", 1))
    n = p["n"] or len(fits)
    for k in range(p["passes"]):
        for i in range(len(v)):
            e = sum(pr * o[k].count(i) for o, pr in dist.items())
            w = n * v[i] / sum(v)
            if abs(e - w) > 1e-6:
                raise Violation("universal sampling from %r %r: individual %d gets %.4f copies per pass on average, should be %.4f" % (fits, kw, i, e, w))
    if p.get("shuffle") is not False and p["passes"] == 2:  # every pass is sampled anew, independently of the one before
        marg = [{}, {}]
        for o, pr in dist.items():
            for k in (0, 1):
                marg[k][o[k]] = marg[k].get(o[k], 0.0) + pr
        check_distribution(dist, {(a, b): x * y for a, x in marg[0].items() for b, y in marg[1].items()}, "two passes of universal sampling from %r %r" % (fits, kw))


def refuse(ctx, p):
    fits, kw = ctx.pick([((-1, 2, 3), {}), ((5, -0.5), {}), ((1, 2), dict(offset=-1.5)), ((-3, -3, 1), dict(offset=2)), ((0, 4, -1e-3), {})])
    for nm, fn in (("proportional", ops.proportional_selection), ("sus", ops.sus_selection)):
        pop = mk(fits)
        try:
            next(fn(pop, **kw))
        except ValueError:
            continue
        raise Violation("%s selection accepted negative values %r %r" % (nm, fits, kw))
    for n in (0, -1):
        try:
            next(ops.sus_selection(mk((1, 2)), n=n))
        except ValueError:
            continue
        raise Violation("universal sampling accepted %d points" % n)
    return "refused"


def cyclic(ctx, p):
    n = ctx.pick(p["sizes"])
    pop = mk(range(1, n + 1))
    if p["naive"]:
        idx = [] if p["indices"] else None
        sel = ops.naive_cyclic_selection(pop, indices=idx) if p["indices"] else ops.naive_cyclic_selection(pop)
        got = pull(sel, pop, 3 * n + 1, idx)
        require(got == [i % n for i in range(3 * n + 1)], "cyclic order %r", got)
        return n, tuple(got)
    sel = ops.cyclic_selection(pop)
    tours = [pull(sel, pop, n) for _ in range(p["tours"])]
    require(tours[0] == list(range(n)), "first tour %r is not in order", tours[0])
    for t in tours:
        require(sorted(t) == list(range(n)), "tour %r does not visit everyone once", t)
    return n, tuple(map(tuple, tours[1:]))


def cyclic_post(p, n, dist):
    if not p["naive"]:
        perms = list(itertools.permutations(range(n)))
        want = {t: len(perms) ** -float(p["tours"] - 1) for t in itertools.product(perms, repeat=p["tours"] - 1)}
        check_distribution(dist, want, "order of tours over %d" % n)


def interleave(ctx, p):
    """Two selectors of the same kind used alternately do not disturb each other."""
    pops = [mk((1, 2, 1)), mk((3, 5))]
    f = dict(naive=ops.naive_cyclic_selection, cyclic=ops.cyclic_selection, sus=ops.sus_selection)[p["kind"]]
    sels = [f(pops[0]), f(pops[1])]
    got = [[], []]
    for _ in range(6):
        w = ctx.pick((0, 1))
        got[w] += pull(sels[w], pops[w], 1)
    for w, n in ((0, 3), (1, 2)):
        for k in range(0, len(got[w]) - n + 1, n):
            tour = got[w][k:k + n]
            if p["kind"] == "naive":
                require(tour == list(range(n)), "interleaved selectors disturb each other: %r", got)
            elif p["kind"] == "cyclic":
                require(sorted(tour) == list(range(n)), "interleaved selectors disturb each other: %r", got)
            else:
                v = (1, 2, 1) if w == 0 else (3, 5)
                for i, x in enumerate(v):
                    e = n * x / sum(v)
                    require(math.floor(e) <= tour.count(i) <= math.ceil(e), "interleaved selectors disturb each other: %r", got)
    return tuple(map(tuple, got))


def scenarios(tier):
    big = tier == "thorough"
    out = []
    pops = [(1,), (1, 2), (2, 1), (1, 1), (3, 1, 2), (2, 2, 1), (1.5, -4, 1.5), (5, 4, 3, 2)]
    for mx in (True, False):
        for worst in (False, True):
            for k in (None, 1, 2, 3, 4, 5) if big else (None, 1, 3, 4):
                out.append(S("tour-%s-%s-%s" % (mx, worst, k), tournament, dict(maximize=mx, worst=worst, k=k, pops=pops, pulls=1, indices=True), post=tournament_post, weight=5))
        out.append(S("tour-joint-%s" % mx, tournament, dict(maximize=mx, worst=False, k=2, pops=[(3, 1, 2), (1, 2)], pulls=2 if not big else 3, indices=False), post=tournament_post, weight=9))
        out.append(S("tour-nan-%s" % mx, tournament, dict(maximize=mx, worst=False, k=2, pops=[(1, nan), (nan, 1, 2)], pulls=1, indices=True), post=tournament_post))
        out.append(S("tour-curry-%s" % mx, tournament, dict(maximize=mx, worst=False, k=2, pops=pops, pulls=1, indices=True, curry=True), post=tournament_post))
        for worst in (False, True):
            out.append(S("tour-key-%s-%s" % (mx, worst), tournament, dict(maximize=mx, worst=worst, k=2, pops=pops, pulls=1, indices=True, key=True), post=tournament_post))
    out.append(S("tour-big", tournament, dict(maximize=True, worst=False, k=3, pops=[(4, 1, 9, 9, 2, 7, 3, 5, 8, 6, 0, 10)], pulls=1, indices=True), post=tournament_post, weight=5))
    for mx, worst in itertools.product((True, False), repeat=2):
        out.append(S("tour-many-%s-%s" % (mx, worst), tournament, dict(maximize=mx, worst=worst, k=9, pops=[(1, 2), (2, 2), (2, 1)], pulls=1, indices=True), post=tournament_post, weight=5))
        out.append(S("tour-wide-%s-%s" % (mx, worst), tournament, dict(maximize=mx, worst=worst, k=2, pops=[tuple(range(70))], pulls=1, indices=True), post=tournament_post, weight=9, big_choice=500))
        out.append(S("tour-single-%s-%s" % (mx, worst), tournament, dict(maximize=mx, worst=worst, k=1, pops=[tuple(range(300))], pulls=1, indices=True), post=tournament_post, weight=9, big_choice=500))
    out.append(S("tour-many3", tournament, dict(maximize=True, worst=False, k=8, pops=[(1, 3, 2)], pulls=1, indices=True), post=tournament_post, weight=9))
    out.append(S("random-wide", uniform, dict(fits=(1.0,), indices=True, sizes=(130, 300), pulls=1), post=uniform_post, big_choice=500, weight=5))
    for i in (True, False):
        out.append(S("random-%s" % i, uniform, dict(fits=(1.0, -1.0, nan), indices=i), post=uniform_post))
    cases = [((1, 2, 5), ()), ((0, 3, 5), ()), ((4, 4), ()), ((7,), ()), ((1, 1, 2, 4), ()), ((0.5, 0.25, 0.25), ()), ((8, 0), ()),
             ((0, 1, 4), (("offset", 1),)), ((-3, -1, 3), (("offset", "pop-min"),)), ((5, 6, 7, 10), (("offset", "pop-min"),)), ((3, 2), (("offset", -1.5),)),
             ((1, 1, 1, 1, 2), (("exponent", 2),)), ((2, 0, 2), (("exponent", 2),)), ((1, 2, 3), (("offset", -1), ("exponent", 2))) if False else ((0, 1, 1), (("offset", -0.0), ("exponent", 3))),
             ((-2, 0), (("offset", "pop-min"), ("exponent", 2))), ((np.float64(6.0), np.float64(2.0)), ())]
    for key in (False, True):
        out.append(S("prop-key%s" % key, proportional, dict(cases=cases, pulls=1, key=key), post=proportional_post, unit_bins=8))
    out.append(S("prop-wide", proportional, dict(cases=[((1, 1023), ()), ((1022, 0, 1, 1), ())], pulls=1), post=proportional_post, unit_bins=1024))
    out.append(S("prop-close", proportional, dict(cases=[((2 ** 25 + 1, 2 ** 25 + 3, 2 ** 25 + 2, 2 ** 25 + 6), (("offset", "pop-min"),)), ((1e9 + 0.5, 1e9 + 1, 1e9 + 2), (("offset", "pop-min"),)),
                                                         ((1e-12, 3e-12), ()), ((3e15, 1e15), ()), ((2 ** 40 + 1, 2 ** 40 + 4), (("offset", -2 ** 40),))], pulls=1),
                 post=proportional_post, unit_bins=40))
    for n in (129, 300):
        out.append(S("prop-many-%d" % n, proportional, dict(cases=[((2,) * n, ())], pulls=1), post=proportional_post, unit_bins=n, weight=9))
    out.append(S("prop-joint", proportional, dict(cases=cases[:10], pulls=2), post=proportional_post, unit_bins=8, weight=3))
    out.append(S("prop-curry", proportional, dict(cases=cases, pulls=1, curry=True), post=proportional_post, unit_bins=8))
    # cumulative sums times n / total are multiples of 1/8, so eight start points represent all
    scases = [((1, 2, 5), ()), ((0, 3, 5), ()), ((4, 4), ()), ((7,), ()), ((1, 1, 2, 4), ()), ((8, 0), ()), ((2, 2, 4), ()), ((0, 0, 5, 3), ()),
              ((0, 1, 4), (("offset", 1),)), ((-3, -1, 3), (("offset", "pop-min"),)), ((1, 1, 1, 1, 2), (("exponent", 2),)),
              ((2, 0, 2), (("exponent", 2),)), ((-2, 0), (("offset", "pop-min"), ("exponent", 2)))]
    for n in (None, 1, 2, 3, 5, 8):
        for sh in (None, True, False):
            if sh is None and n not in (None, 3):
                continue
            out.append(S("sus-%s-%s" % (n, sh), sus, dict(cases=scases, n=n, shuffle=sh, passes=2), post=sus_post, unit_bins=8, weight=3))
    out.append(S("sus-key", sus, dict(cases=scases, n=None, passes=2, key=True), post=sus_post, unit_bins=8))
    out.append(S("sus-long", sus, dict(cases=[((1, 3, 2, 6, 4), ()), ((5, 5, 6), ())], n=16, passes=3), post=sus_post, unit_bins=8, weight=4))
    out.append(S("sus-fractions", sus, dict(cases=[((0.1,) * 10, ()), ((0.1, 0.7, 0.3, 1e-3, 12.7), ()), ((1 / 3, 1 / 7, 1e6), ())], n=None, passes=2),
                 unit_bins=(1e-6, 0.3, 0.5, 0.71, 0.999999), weight=2))
    out.append(S("sus-many", sus, dict(cases=[(tuple(1 + k % 5 for k in range(150)), ()), (tuple(range(300)), ())], n=None, passes=2), unit_bins=(0.01, 0.5, 0.99), weight=2))
    out.append(S("refuse", refuse))
    for i in (True, False):
        out.append(S("naive-%s" % i, cyclic, dict(naive=True, indices=i, sizes=(1, 2, 3, 7, 300), tours=0), post=cyclic_post))
    out.append(S("cyclic", cyclic, dict(naive=False, sizes=(1, 2, 3), tours=3), post=cyclic_post, weight=2))
    out.append(S("cyclic4", cyclic, dict(naive=False, sizes=(4,), tours=2), post=cyclic_post))
    out.append(S("cyclic-wide", cyclic, dict(naive=False, sizes=(40, 150), tours=3), deviations=1, weight=5))
    for k in ("naive", "cyclic", "sus"):
        out.append(S("inter-" + k, interleave, dict(kind=k), weight=5))
    return out
