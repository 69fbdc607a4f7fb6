"""C27: initialisers produce legal genomes that can reach the whole space."""
import itertools
import numpy as np
from mc.engine import S, require
from leap_ec import ops
from leap_ec.individual import Individual, RobustIndividual, WholeEvaluatedIndividual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.decoder import IdentityDecoder
from leap_ec.representation import Representation
from leap_ec.binary_rep.initializers import create_binary_sequence
from leap_ec.int_rep.initializers import create_int_vector
from leap_ec.real_rep.initializers import create_real_vector
from leap_ec.segmented_rep.initializers import create_segmented_sequence
from .common import Table

BOUNDS = {"quick": "binary lengths 0-5, integer bounds over every ordered pair from 4 ends for 1-2 genes (plus 3 genes), real bounds "
          "likewise with unit draws in 3 bins, segment counts 0-3 fixed or drawn, each initialiser called 1-3 times over all draws "
          "with exact probabilities; populations of 0-3 of 4 individual classes made in 3 ways; single scenarios: 130-150 segments "
          "and empty segments, wide integer ranges"}


def binary(ctx, p):
    n, calls = p["n"], p["calls"]
    init = create_binary_sequence(n)
    out = [init() for _ in range(calls)]
    for g in out:
        require(isinstance(g, np.ndarray) and g.shape == (n,), "%r is not a vector of %d bits", g, n)
        require(all(b in (0, 1) for b in g.tolist()), "genes %r", g)
    for a, b in itertools.combinations(out, 2):
        require(not np.shares_memory(a, b) or n == 0, "two genomes share storage")
    return n, tuple(tuple(int(b) for b in g) for g in out)


def uniform(total):
    def post(p, group, dist):
        want = total(p, group)
        require(len(dist) == want, "%d of %d possible results can be produced for %r", len(dist), want, group)
        ps = list(dist.values())
        require(max(ps) - min(ps) < 1e-9, "results are not equally likely for %r: %r", group, dict(dist))
    return post


def bernoulli(ctx, p):
    prob = ctx.pick((0.0, 0.25, 0.5, 1.0))
    shape = ctx.pick((1, 2, (2,), (1, 2), (2, 1)))
    v = ops.random_bernoulli_vector(shape, p=prob)
    sh = (shape,) if isinstance(shape, int) else shape
    require(v.shape == sh and v.dtype == bool, "shape %r type %r", v.shape, v.dtype)
    return (prob, shape), tuple(bool(b) for b in v.ravel())


def bernoulli_post(p, group, dist):
    prob = group[0]
    for o, pr in dist.items():
        want = 1.0
        for b in o:
            want *= prob if b else 1 - prob
        require(abs(pr - want) < 1e-9, "%r with p=%r has probability %r instead of %r", o, prob, pr, want)
    require(abs(sum(dist.values()) - 1) < 1e-9, "probabilities")


ENDS = (-3, 0, 1, 2)


def ints(ctx, p):
    pairs = [(a, b) for a in p["ends"] for b in p["ends"] if a <= b]
    bounds = [ctx.pick(pairs) for _ in range(p["n"])]
    kind = ctx.pick(("list", "array", "tuple"))
    given = {"list": [list(b) for b in bounds], "array": np.array(bounds), "tuple": tuple(bounds)}[kind]
    init = create_int_vector(given)
    out = [init() for _ in range(p["calls"])]
    for g in out:
        require(isinstance(g, np.ndarray) and g.shape == (p["n"],) and np.issubdtype(g.dtype, np.integer), "%r is not a vector of %d integers", g, p["n"])
        for v, (lo, hi) in zip(g.tolist(), bounds):
            require(lo <= v <= hi, "gene %r outside its bounds %r (genome %r)", v, (lo, hi), g)
    for a, b in itertools.combinations(out, 2):
        require(not np.shares_memory(a, b), "two genomes share storage")
    require(np.array_equal(np.array(given), np.array(bounds)), "bounds changed")
    return (tuple(bounds), kind), tuple(tuple(int(v) for v in g) for g in out)


def ints_total(p, group):
    t = 1
    for lo, hi in group[0]:
        t *= hi - lo + 1
    return t ** p["calls"]


RENDS = (-1.5, 0.0, 2.5, 4)


def reals(ctx, p):
    pairs = [(a, b) for a in p["ends"] for b in p["ends"] if a <= b]
    bounds = [ctx.pick(pairs) for _ in range(p["n"])]
    kind = ctx.pick(("list", "array", "tuple"))
    given = {"list": [list(b) for b in bounds], "array": np.array(bounds), "tuple": tuple(bounds)}[kind]
    init = create_real_vector(given)
    out = [init() for _ in range(p["calls"])]
    rel = []
    for g in out:
        require(isinstance(g, np.ndarray) and g.shape == (p["n"],) and np.issubdtype(g.dtype, np.floating), "%r is not a vector of %d reals", g, p["n"])
        for v, (lo, hi) in zip(g.tolist(), bounds):
            require(lo <= v <= hi, "gene %r outside its bounds %r (genome %r)", v, (lo, hi), g)
            rel.append(0.0 if lo == hi else round((v - lo) / (hi - lo), 9))
    for a, b in itertools.combinations(out, 2):
        require(not np.shares_memory(a, b), "two genomes share storage")
    require(np.array_equal(np.array(given), np.array(bounds)), "bounds changed")
    return (tuple(bounds), kind), tuple(rel)


def reals_post(p, group, dist):
    bins, free = p["bins"], [k for c in range(p["calls"]) for k, (lo, hi) in enumerate(group[0]) if lo < hi]
    require(len(dist) == bins ** len(free), "%d values for %d independent uniform genes", len(dist), len(free))
    ps = list(dist.values())
    require(max(ps) - min(ps) < 1e-9, "not uniform")
    want = {round((k + 0.5) / bins, 9) for k in range(bins)}
    for o in dist:
        require(all(v in want or v == 0.0 for v in o), "gene values %r of the interval", o)


def segmented(ctx, p):
    how = ctx.pick(("fixed", "drawn"))
    inner = ctx.pick(("binary", "int", "real"))
    seq = {"binary": create_binary_sequence(2), "int": create_int_vector([(0, 1), (5, 6)]), "real": create_real_vector([(0.0, 1.0), (5.0, 6.0)])}[inner]
    wants = []
    if how == "fixed":
        k = ctx.pick(p.get("counts") or ((0, 1, 2, 3) if p["calls"] == 1 else (0, 1, 2)))
        init = create_segmented_sequence(k, seq)
    else:
        def length():
            wants.append(ctx.pick(p.get("counts") or (0, 1, 2)))
            return wants[-1]
        init = create_segmented_sequence(length, seq)
    out = []
    for c in range(p["calls"]):
        g = init()
        want = k if how == "fixed" else wants[-1]
        require(how == "fixed" or len(wants) == c + 1, "the number of segments is drawn once per genome")
        require(isinstance(g, list) and len(g) == want, "%d segments instead of %d", len(g), want)
        for s in g:
            require(isinstance(s, np.ndarray) and s.shape == (2,), "segment %r", s)
            lo = (0, 0) if inner == "binary" else (0, 5)
            require(all(a <= v <= a + 1 for v, a in zip(s.tolist(), lo)), "segment %r outside its bounds", s)
        out.append(g)
    segs = [s for g in out for s in g]
    for a, b in itertools.combinations(segs, 2):
        require(not np.shares_memory(a, b), "two segments share storage")
    for a, b in itertools.combinations(out, 2):
        require(a is not b, "two genomes are the same list")
    return (how, inner, tuple(len(g) for g in out)), tuple(tuple(float(v) for v in s) for s in segs)


def segmented_total(p, group):
    return 4 ** sum(group[2])


class Dec(IdentityDecoder):
    pass


def wide(ctx, p):
    """Long genomes: every gene is drawn from its own whole range (each single departure from one draw is explored)."""
    n = p["n"]
    kind = p["kind"]
    if kind == "bits":
        init, bounds = create_binary_sequence(n), [(0, 1)] * n
    elif kind == "int":
        bounds = [(k % 5 - 2, k % 5 - 2 + k % 3) for k in range(n)]
        init = create_int_vector(bounds)
    elif kind == "bigint":
        bounds = [(-10 ** 9 * (k % 2), 10 ** 12 + k) for k in range(n)]
        init = create_int_vector(bounds)
    else:
        bounds = [(k % 5 - 2.0, k % 5 + k % 3 * 10.0) for k in range(n)]
        init = create_real_vector(bounds)
    g, h = init(), init()
    for v in (g, h):
        require(isinstance(v, np.ndarray) and v.shape == (n,), "%r is not a vector of %d genes", v, n)
        require(all(lo <= x <= hi for x, (lo, hi) in zip(v.tolist(), bounds)), "a gene is outside its bounds")
    require(not np.shares_memory(g, h), "two genomes share storage")
    if kind == "bits":
        rel = [int(x) for x in g]
    elif kind in ("int", "bigint"):
        rel = [int(x) - lo for x, (lo, hi) in zip(g.tolist(), bounds)]
    else:
        rel = [round((x - lo) / (hi - lo), 9) for x, (lo, hi) in zip(g.tolist(), bounds)]
    return "wide", tuple(rel)


def wide_post(p, group, dist):
    """Reachable one at a time: each gene takes all of its values, while the others stay."""
    n = p["n"]
    seen = [set() for _ in range(n)]
    for o in dist:
        for k, v in enumerate(o):
            seen[k].add(v)
    for k in range(n):
        want = {"bits": 2, "int": k % 3 + 1, "real": p.get("bins", 3), "bigint": 2}[p["kind"]]
        if p["kind"] == "bigint":
            require(len(seen[k]) >= want, "gene %d only takes the values %r", k, seen[k])
            require(min(seen[k]) == 0 and max(seen[k]) == 10 ** 12 + k + 10 ** 9 * (k % 2), "gene %d never takes its lowest or its highest value: %r", k, sorted(seen[k]))
        else:
            require(len(seen[k]) == want, "gene %d takes %d values %r, should be %d", k, len(seen[k]), sorted(seen[k]), want)


def population(ctx, p):
    n = ctx.pick(p.get("sizes", (0, 1, 2, 3)))
    cls = ctx.pick((Individual, RobustIndividual, WholeEvaluatedIndividual, DistributedIndividual))
    kind = ctx.pick(("bits", "int", "segments"))
    init = {"bits": create_binary_sequence(2), "int": create_int_vector([(0, 1)]), "segments": create_segmented_sequence(2, create_binary_sequence(1))}[kind]
    how = ctx.pick(("class", "representation", "one by one"))
    problem, dec = Table(lambda ph: 1.0), Dec()
    calls = []

    def counted():
        g = init()
        calls.append(g)
        return g
    if how == "class":
        pop = cls.create_population(n, initialize=counted, decoder=dec, problem=problem)
    else:
        rep = Representation(initialize=counted, decoder=dec, individual_cls=cls)
        pop = rep.create_population(n, problem) if how == "representation" else [rep.create_individual(problem) for _ in range(n)]
    require(len(pop) == n and len(calls) == n, "%d individuals, %d genomes made, %d asked for", len(pop), len(calls), n)
    for x, g in zip(pop, calls):
        require(type(x) is cls and x.problem is problem and x.decoder is dec, "individual of the wrong kind, problem or decoder: %r", x)
        require(x.fitness is None, "a new individual has fitness %r", x.fitness)
        require(x.genome is g or all(np.array_equal(a, b) for a, b in zip(x.genome, g)), "genome %r instead of %r", x.genome, g)
    require(problem.log == [], "the problem was evaluated")
    if n > 50:
        require(len({id(x) for x in pop}) == len({id(x.genome) for x in pop}) == len({x.uuid for x in pop}) == n, "individuals, genomes or identities shared")
        return (n, cls.__name__, how, kind), None
    for a, b in itertools.combinations(pop, 2):
        require(a is not b and a.genome is not b.genome, "individuals or genomes shared")
        for s in (a.genome if isinstance(a.genome, list) else [a.genome]):
            for t in (b.genome if isinstance(b.genome, list) else [b.genome]):
                require(not np.shares_memory(s, t), "genomes share storage")
        require(a.uuid != b.uuid, "same uuid")
    return (n, cls.__name__, how, kind), tuple(str([np.array(s).tolist() for s in x.genome]) for x in pop)


def population_total(p, group):
    return {"bits": 4, "int": 2, "segments": 4}[group[3]] ** group[0]


def scenarios(tier):
    T = tier == "thorough"
    out = []
    for n in (0, 1, 2, 3, 4, 5) + ((8, 12) if T else ()):
        out.append(S("binary-%d" % n, binary, {"n": n, "calls": 1}, unit_bins=2, post=uniform(lambda p, g: 2 ** p["n"])))
    for n in (1, 2) + ((3,) if T else ()):
        for c in (2, 3):
            out.append(S("binary-%d-x%d" % (n, c), binary, {"n": n, "calls": c}, unit_bins=2, post=uniform(lambda p, g: 2 ** (p["n"] * p["calls"]))))
    out.append(S("bernoulli", bernoulli, {}, unit_bins=4, post=bernoulli_post))
    for n, c, ends in ((1, 1, (-3, -1, 0, 1, 2, 7)), (1, 3, ENDS), (2, 1, ENDS), (2, 2, (-1, 0, 1)), (3, 1, (0, 2) if not T else (-1, 0, 2))):
        out.append(S("int-%d-x%d" % (n, c), ints, {"n": n, "calls": c, "ends": ends}, post=uniform(ints_total), big_choice=16))
    for n, c, ends, bins in ((1, 1, RENDS + (1e6,), 5), (1, 3, RENDS, 3), (2, 1, RENDS, 3), (2, 2, RENDS[:3], 2), (3, 1, (0.0, 2.5), 3)):
        out.append(S("real-%d-x%d" % (n, c), reals, {"n": n, "calls": c, "ends": ends, "bins": bins}, unit_bins=bins, post=reals_post))
    for c in (1, 2):
        out.append(S("segmented-x%d" % c, segmented, {"calls": c}, unit_bins=2, post=uniform(segmented_total)))
    out.append(S("segmented-many", segmented, {"calls": 2, "counts": (20, 70)}, unit_bins=2, deviations=1))
    out.append(S("population", population, {}, unit_bins=2, post=uniform(population_total)))
    out.append(S("population-large", population, {"sizes": (70, 300, 1100)}, unit_bins=2, deviations=0, dev_kinds=("r",), weight=50))
    for n in (40, 150, 300):
        for kind in ("bits", "int", "real", "bigint"):
            out.append(S("wide-%s-%d" % (kind, n), wide, dict(n=n, kind=kind), deviations=1, unit_bins=2 if kind == "bits" else 3, big_choice=16, post=wide_post, weight=20))
    return out
