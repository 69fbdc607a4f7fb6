"""C03: incremental non-dominated ranking (asynchronous NSGA-II insertion)."""
DASK = True
import itertools
import numpy as np
from mc.engine import S, FakeClient, require, fresh_context
from leap_ec import ops
from leap_ec.individual import Individual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.representation import Representation
from leap_ec.multiobjective.asynchronous import ENLUInserter, enlu_inds_rank, steady_state_nsga_2
from .common import MOTable, depth_ranks, multiset
from .mo import crowding_options, matches, droppable

BOUNDS = {"quick": "sequences of 4-6 insertions over {0,1,2}^2, {0,1}^3, selected {0,1,2}^3 vectors; capacities 1-4 and unbounded; single "
          "scenarios: near-equal objective values and displacement chains of single histories"}


def judge_insert(before, after, new, cap, maximize):
    both = before + [new]
    require(len(set(map(id, after))) == len(after), "an individual occurs twice among the survivors")
    require(set(map(id, after)) <= set(map(id, both)), "a stranger survived")
    vec_b = [tuple(float(v) for v in x.fitness) for x in both]
    ranks_b = depth_ranks(vec_b, maximize)
    require(len(after) == min(len(both), cap), "population has %d members, capacity %d, %d candidates",
            len(after), cap, len(both))
    gone = [i for i, x in enumerate(both) if not any(x is y for y in after)]
    for g in gone:
        last = max(ranks_b)
        require(ranks_b[g] == last, "dropped %r of rank %d although rank %d exists (%r)", vec_b[g], ranks_b[g], last, vec_b)
        front = [i for i in range(len(both)) if ranks_b[i] == last]
        ok = droppable([vec_b[i] for i in front])
        require(front.index(g) in ok, "dropped %r is not the most crowded of %r", vec_b[g], [vec_b[i] for i in front])
    vec = [tuple(float(v) for v in x.fitness) for x in after]
    want = depth_ranks(vec, maximize)
    have = [x.rank for x in after]
    require(have == want, "ranks %r, should be %r for %r", have, want, vec)
    for r in set(want):
        front = [x for x, k in zip(after, want) if k == r]
        fv = [tuple(float(v) for v in x.fitness) for x in front]
        require(matches([x.distance for x in front], crowding_options(fv)),
                "crowding distances %r are not those of front %r", [x.distance for x in front], fv)


def seq(ctx, p):
    problem = MOTable(None, p["maximize"])
    ins = ENLUInserter()
    pop = []
    cap = p["cap"]
    for k in range(p["n"]):
        new = Individual(np.array([k]), problem=problem)
        if p.get("defaults"):
            opts = [p["defaults"][k]] + [v for v in p["grid"] if v != p["defaults"][k]] if k >= p.get("fixed", 0) else [p["defaults"][k]]
        else:
            opts = p["grid"]
        new.fitness = np.array(ctx.pick(opts), dtype=p.get("dtype", float))
        before = list(pop)
        ins(new, pop, cap)
        if k >= p.get("fixed", 0) - 1:
            judge_insert(before, pop, new, cap, p["maximize"])
        ctx.step()
    return tuple((tuple(x.fitness), x.rank) for x in pop)


def rank_only(ctx, p):
    """The ranking step alone, without capacity: layers hold exactly the individuals of each depth."""
    problem = MOTable(None, p["maximize"])
    layers, everyone = [], []
    for k in range(p["n"]):
        new = Individual(np.array([k]), problem=problem)
        new.fitness = np.array(ctx.pick(p["grid"]), dtype=float)
        enlu_inds_rank(new, layers)
        everyone.append(new)
        vec = [tuple(float(v) for v in x.fitness) for x in everyone]
        want = depth_ranks(vec, p["maximize"])
        require([x.rank for x in everyone] == want, "ranks %r, should be %r for %r", [x.rank for x in everyone], want, vec)
        where = {}
        for d, lp in enumerate(layers):
            for x in lp:
                require(id(x) not in where, "individual in two layers")
                where[id(x)] = d + 1
        require([where.get(id(x)) for x in everyone] == want, "layers do not match ranks")
    return tuple((tuple(x.fitness), x.rank) for x in everyone)


def two(ctx, p):
    """Two inserters in turn: each keeps its own population."""
    problem = MOTable(None, p["maximize"])
    I = [ENLUInserter(), ENLUInserter()]
    pops = [[], []]
    for k in range(p["n"]):
        w = ctx.pick((0, 1))
        new = Individual(np.array([k]), problem=problem)
        new.fitness = np.array(ctx.pick(p["grid"]), dtype=float)
        other = list(pops[1 - w])
        before = list(pops[w])
        I[w](new, pops[w], p["cap"])
        judge_insert(before, pops[w], new, p["cap"], p["maximize"])
        require([id(x) for x in other] == [id(x) for x in pops[1 - w]], "the other population changed")
    return tuple(tuple(x.fitness) for x in pops[0])


def whole(ctx, p):
    ids = itertools.count()
    vecs = p["grid"]
    problem = MOTable(lambda ph: np.array(ctx.pick(vecs), dtype=float), p["maximize"])
    rep = Representation(initialize=lambda: np.array([next(ids)]), individual_cls=DistributedIndividual)
    hist = []

    def evald(ind):
        hist.append(ind)

    prev = [[]]

    def pop_probe(pop):
        judge_insert(prev[0], pop, hist[-1], p["cap"], p["maximize"])
        prev[0] = list(pop)
    final = steady_state_nsga_2(client=FakeClient(), max_births=p["births"], init_pop_size=p["init"], pop_size=p["cap"],
                                problem=problem, representation=rep,
                                offspring_pipeline=[ops.naive_cyclic_selection, ops.clone, ops.pool(size=1)],
                                evaluated_probe=evald, pop_probe=pop_probe, context=fresh_context())
    require([id(x) for x in final] == [id(x) for x in prev[0]], "returned population is not the surviving one")
    return tuple(tuple(x.fitness) for x in final)


def scenarios(tier):
    big = tier == "thorough"
    out = []
    g2 = [(a, b) for a in (0, 1, 2) for b in (0, 1, 2)]
    g3 = [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]
    g3b = [(a, b, c) for a in (0, 1, 2) for b in (0, 1, 2) for c in (0, 1, 2)]
    anti = [(0, 3), (1, 2), (2, 1), (3, 0), (1, 1), (2, 2)]

    def add(name, fn=seq, **p):
        w = len(p["grid"]) ** (p.get("n", 4))
        dev = p.pop("dev", None)
        out.append(S(name, fn, p, deviations=dev, weight=w))
    for mx in ((True, True), (True, False), (False, True), (False, False)):
        t = "".join("M" if m else "m" for m in mx)
        for cap in ((1, 2, 3, 99) if big or mx == (True, True) else (2, 99) if mx[0] else (3,)):
            add("g2-%s-%d" % (t, cap), maximize=mx, cap=cap, n=4, grid=g2)
        for cap in ((3, 4) if big else (3,) if mx[1] else (4,)):
            add("anti-%s-%d" % (t, cap), maximize=mx, cap=cap, n=5, grid=anti)
        if mx[0] != mx[1] or big:
            add("rank2-%s" % t, fn=rank_only, maximize=mx, n=4, grid=g2)
        # long histories near structured sequences
        diag = [(k, k) for k in range(9)]
        zig = [(k, 8 - k) if k % 2 else (8 - k, k) for k in range(9)]
        stair = [(8 - k, 8 - k) for k in range(9)]
        lay = [(0, 4), (2, 2), (4, 0), (1, 5), (3, 3), (5, 1), (0, 0), (6, 6), (2, 4)]
        pool = [(0, 0), (8, 8), (4, 4), (0, 8), (8, 0), (3, 5), (2, 2), (5, 3)]
        for nm, d in (("diag", diag), ("zig", zig), ("stair", stair), ("lay", lay)):
            for cap in ((4, 7, 99) if big else (4, 99) if mx[0] else (7,)):
                add("long-%s-%s-%d" % (nm, t, cap), maximize=mx, cap=cap, n=9, grid=pool, defaults=d, dev=2)
        if big:
            for cap in (2, 3, 4, 99):
                add("g2n5-%s-%d" % (t, cap), maximize=mx, cap=cap, n=5, grid=g2)
    for mx in ((True, True, True), (False, True, False)):
        t = "".join("M" if m else "m" for m in mx)
        for cap in (2, 3, 99):
            add("g3-%s-%d" % (t, cap), maximize=mx, cap=cap, n=4, grid=g3)
        add("g3b-%s" % t, maximize=mx, cap=99, n=3, grid=g3b)
        mid = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 1, 1), (0, 0, 2), (0, 2, 0), (2, 0, 0), (2, 1, 2)]
        sgn = [1 if m else -1 for m in mx]
        # points whose componentwise maximum covers more than they dominate together
        zen = [tuple(a * b for a, b in zip(v, sgn)) for v in
               ((2, 0, 0), (0, 2, 0), (1, 1, 2), (1, 1, 0), (2, 2, 1), (0, 0, 1))]
        add("zenith-%s" % t, maximize=mx, cap=99, n=5, grid=zen)
        add("zenith-c-%s" % t, maximize=mx, cap=4, n=5, grid=zen)
        if mx[0] or big:
            add("mid3-%s" % t, maximize=mx, cap=99, n=4 if not big else 6, grid=mid)
            add("mid3c-%s" % t, maximize=mx, cap=3, n=4 if not big else 5, grid=mid)
        add("rank3-%s" % t, fn=rank_only, maximize=mx, n=4, grid=mid + [(0, 1, 1), (1, 0, 1)])
        if big:
            add("g3bn4-%s" % t, maximize=mx, cap=99, n=4, grid=g3b)
    # many layers: one arrival at the top of a chain pushes a whole chain of individuals down, layer by layer
    for layers in (8, 14):
        for third in (False, True):
            pts = [v for k in range(1, layers) for v in ([(-k, 100 - k), (100 - k, -k)] + ([(50 - k, 40 - k)] if third else []))]
            top = [(0, 100), (100, 0), (50, 40)]
            for mx in ((True, True), (False, True)):
                sg = [1 if m else -1 for m in mx]
                vs = [tuple(float(a * b) for a, b in zip(v, sg)) for v in pts + top]
                grid = [tuple(float(a * b) for a, b in zip(v, sg)) for v in top + [(101, 101), (-50, -50), (99.5, 0.5), (50, 39.5)]]
                for cap in (999, len(pts) - 1, len(pts) + 1):
                    add("chains-%d-%s-%s-%d" % (layers, third, mx, cap), maximize=mx, cap=cap, n=len(vs), fixed=len(pts), grid=grid, defaults=vs, dev=None if layers == 8 else 2)
    # a wide layer whose crowding distances are close to each other
    for eps in (1e-4, 1e-6):
        wide = [(float(i) + (eps if i % 3 == 1 else 0), 20.0 - i) for i in range(20)]
        add("close-%s" % eps, maximize=(True, True), cap=18, n=22, fixed=20, grid=[(5.5, 14.25), (30.0, 30.0), (7.0 + 2 * eps, 12.5)], defaults=wide + [(25.0, 25.0), (26.0, 26.0)])
        add("close2-%s" % eps, maximize=(False, True), cap=17, n=20, fixed=18, grid=[(-5.5, 14.25), (-30.0, 30.0), (-7.0 - 2 * eps, 12.5)], defaults=[(-a, b) for a, b in wide])
    # objective values that differ only slightly, everywhere on the number line
    for base, eps in ((1.0, 1e-7), (0.0, 1e-10), (1e9, 0.5), (-300.0, 1e-6)):
        near = [(base + a * eps, base - b * eps) for a, b in ((0, 0), (1, 1), (1, 0), (0, 1), (2, 1), (2, 2), (1, 3))]
        for mx, cap in (((True, True), 99), ((True, False), 3), ((False, True), 99), ((False, False), 3)):
            add("near-%r-%s-%d" % (base, mx, cap), maximize=mx, cap=cap, n=4, grid=near)
    add("one", maximize=(True,), cap=2, n=5, grid=[(0,), (1,), (2,)])
    add("one-min", maximize=(False,), cap=3, n=5, grid=[(0,), (1,), (2,)])
    add("two-inserters", fn=two, maximize=(True, True), cap=2, n=4, grid=[(0, 1), (1, 0), (1, 1)])
    add("frac", maximize=(True, False), cap=3, n=5, grid=[(0.1, 0.2), (0.3, 0.7), (-1.5, 2.5), (0.3, 0.2), (-0.5, -3)])
    add("whole-a", fn=whole, maximize=(True, True), cap=2, init=2, births=2, grid=anti[:5], n=5)
    add("whole-b", fn=whole, maximize=(False, False), cap=3, init=1, births=4, grid=[(0, 1), (1, 0), (1, 1), (0, 0)], n=5)
    add("whole-c", fn=whole, maximize=(True, False), cap=2, init=3, births=1 if not big else 2, grid=[(0, 1), (1, 0), (1, 1)], n=5)
    return out
