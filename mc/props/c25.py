"""C25: ready-made algorithms honour their budgets and return the best they found."""
DASK = True
import io
import itertools
from math import inf, nan
import numpy as np
from mc.engine import S, require, FakeClient, fresh_context
from leap_ec import ops
from leap_ec.algorithm import multi_population_ea, random_search, stop_at_generation
from leap_ec.decoder import IdentityDecoder
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.problem import FunctionProblem
from leap_ec.representation import Representation
from leap_ec.simple import ea_solve
from leap_ec.global_vars import context as global_context
from .common import Table, isnan

BOUNDS = {"quick": "ea_solve: population 1-3, 0-3 generations (10 with one deviation), every objective value sequence over 2-3 levels or a failure, both "
                   "directions, 1-2 dimensions, hard and soft bounds, serial and dask with every completion order (random draws within a deviation bound); "
                   "random_search: 1-6 evaluations with every fitness and mutation outcome; multi_population_ea: 1-3 islands of 1-2, 0-3 generations, "
                   "every stop decision, own and shared pipelines, per-island problems and representations"}


def better(a, b, maximize):
    if isnan(b):
        return not isnan(a)
    return not isnan(a) and (a > b if maximize else a < b)


def solve(ctx, p):
    maximize, gens, size = p["maximize"], p["gens"], p["size"]
    bounds = p["bounds"]
    evals = []

    def f(x):
        # dask may hand the same individual object around, but each evaluation is one call
        v = ctx.pick(p["levels"])
        pt = tuple(float(t) for t in np.ravel(x))
        evals.append((pt, nan if v == "fail" else v))
        if v == "fail":
            raise ValueError("injected")
        return v
    kw = dict(p.get("kw", {}))
    client = None
    if p.get("dask"):
        client = FakeClient(serialise=p["dask"] == "copy", keep=[global_context])
        client_kw = dict(dask_client=client)
    else:
        client_kw = {}
    stream = io.StringIO()
    kept = [tuple(b) for b in bounds]
    best = ea_solve(f, bounds=bounds, generations=gens, pop_size=size, maximize=maximize, stream=stream, **kw, **client_kw)
    require(len(evals) == size * (gens + 1), "%d evaluations for population %d and %d generations", len(evals), size, gens)
    require([tuple(b) for b in bounds] == kept, "the bounds were modified")
    hard = kw.get("hard_bounds", True)
    for k, (pt, v) in enumerate(evals):
        require(len(pt) == len(bounds), "a point with %d coordinates", len(pt))
        if hard or k < size:
            require(all(lo <= x <= hi for x, (lo, hi) in zip(pt, bounds)), "evaluation %d at %r outside %r", k, pt, bounds)
    if client is not None:
        require(client.submitted >= size * gens, "only %d of the %d offspring were evaluated on the given client", client.submitted, size * gens)
    if gens == 1:
        std = kw.get("mutation_std", 1.0)
        for pt, v in evals[size:]:
            for d, (x, (lo, hi)) in enumerate(zip(pt, bounds)):
                legal = [q[0][d] + std * z for q in evals[:size] for z in p["z"]]
                if hard:
                    legal = [min(max(t, lo), hi) for t in legal]
                require(any(abs(x - t) < 1e-9 for t in legal), "offspring gene %r is no mutation (std %r) of a parent's gene", x, std)
    top = nan
    for pt, v in evals:
        if better(v, top, maximize):
            top = v
    got = tuple(float(t) for t in best)
    at = [v for pt, v in evals if pt == got]
    require(at, "returned point %r was never evaluated", got)
    if not isnan(top):
        require(top in at, "returned %r worth %r, the best evaluated is worth %r", got, at, top)
    rows = stream.getvalue().split()
    require(rows[0] == "step,bsf" and len(rows) == gens + 1, "reported %r for %d generations", rows, gens)
    off = nan
    overall = nan
    for pt, v in evals[:size]:
        if better(v, overall, maximize):
            overall = v
    for g, row in enumerate(rows[1:]):
        step, val = row.split(",")
        for pt, v in evals[size * (g + 1):size * (g + 2)]:
            if better(v, off, maximize):
                off = v
            if better(v, overall, maximize):
                overall = v
        require(int(step) == g, "row %d is labelled %s", g, step)
        val = float(val)
        ok = [off, overall]
        require(any(val == o or (isnan(val) and isnan(o)) for o in ok), "reported best so far %r, it is %r", val, overall)
    return (len(evals), repr(top))


def search(ctx, p):
    n = p["n"]
    maximize = p["maximize"]
    evals = []

    def f(x):
        evals.append(tuple(np.ravel(x).tolist()))
        return ctx.pick((1.0, 2.0))
    problem = Table(f, maximize)
    ids = itertools.count(1)
    c = None if p.get("glob") else {"leap": {"x": 1}}
    use = global_context if c is None else c
    created, gens, inputs = [], [], []

    def look(population):
        require(isinstance(population, list) and len(population) == 1, "pipeline was given %r", population)
        inputs.append(population[0])
        gens.append(use["leap"]["generation"])
        return population

    def move(stream):
        while True:
            ind = next(stream)
            ind.genome = np.array([next(ids)])
            yield ind

    def init():
        created.append(1)
        return np.array([0])
    rep = Representation(initialize=init, decoder=IdentityDecoder(), individual_cls=RobustIndividual if p.get("robust") else Individual)
    kw = {} if c is None else {"context": c}
    sel = ctx.pick((ops.cyclic_selection, ops.naive_cyclic_selection, ops.random_selection))
    walk = random_search(evaluations=n, problem=problem, representation=rep,
                         pipeline=[look, sel, ops.clone, move, ops.evaluate, ops.pool(size=1)], **kw)
    require(isinstance(walk, list) and len(walk) == n, "walk of %d points for %d evaluations", len(walk), n)
    require(len(evals) == n and len(created) == 1, "%d evaluations, %d starting points", len(evals), len(created))
    require([tuple(x.genome) for x in walk] == [(k,) for k in range(n)], "walk is %r", [tuple(x.genome) for x in walk])
    require([e for e in evals] == [(k,) for k in range(n)], "evaluated %r", evals)
    require(len({id(x) for x in walk}) == n, "the same individual appears twice")
    require(all(a is b for a, b in zip(inputs, walk)), "a step did not start from the previous point")
    for a, b in zip(walk, walk[1:]):
        require(b.parents == {a.uuid}, "a step's parent is not the previous point")
    require(all(x.fitness in (1.0, 2.0) for x in walk), "unevaluated point in the walk")
    require(gens == list(range(1, n)), "steps were counted as %r", gens)
    require(use["leap"]["generation"] == n, "count after the run is %r", use["leap"]["generation"])
    if c is not None:
        require("generation" not in global_context["leap"], "the global context was written to")
    return tuple(x.fitness for x in walk)


def multi(ctx, p):
    n, size, gens = p["n"], p["size"], p["gens"]
    c = {"leap": {}} if not p.get("glob") else global_context
    kw = {} if p.get("glob") else {"context": c}
    ids = itertools.count()
    log = []
    fit = {}

    def objective(k):
        def f(x):
            i = int(np.ravel(x)[0])
            require(i not in fit, "individual %d evaluated twice", i)
            fit[i] = k
            return float(k)
        return f
    if p["problems"] == "each":
        problem = [Table(objective(k), True) for k in range(n)]
    else:
        problem = Table(objective(7), True)
    inits = []

    def rep(k):
        def init():
            inits.append(k)
            return np.array([next(ids), k])
        return Representation(initialize=init, decoder=IdentityDecoder())
    representation = [rep(k) for k in range(n)] if p["reps"] == "each" else rep(9)
    snapshot = []

    def op(name):
        def g(population):
            i = c["leap"]["current_subpopulation"]
            pops = c["leap"]["subpopulations"]
            require(isinstance(population, list), "operator was given a %s", type(population))
            log.append((name, i, c["leap"]["generation"], list(population), [list(q) for q in pops]))
            require(len(pops) == n, "%d populations visible, there are %d", len(pops), n)
            return population
        return g
    made = []

    def breed(population):
        out = []
        for x in population[:p.get("grow", size)]:
            y = x.clone()
            y.genome = np.array([next(ids), x.genome[1]])
            y.evaluate()
            out.append(y)
        made.append(out)
        return out
    shared = [op("shared0"), breed, op("shared1")]
    own = [[op("own%d" % k), op("last%d" % k)][:1 + k % 2] for k in range(n)] if p["own"] else None
    if p["own"] == "tuple":
        own, shared = tuple(tuple(x) for x in own), tuple(shared)
    stops = []
    if p.get("stop") == "pick":
        def stop(pops):
            require(len(pops) == n, "stop condition sees %d populations", len(pops))
            stops.append(ctx.pick((False, True)))
            return ((True, 1, np.True_) if stops[-1] else (False, np.False_, None, 0))[len(stops) % (3 if stops[-1] else 4)]
        kw["stop"] = stop
    elif p.get("stop"):
        kw["stop"] = stop_at_generation(p["stop"], context=c)
    if p.get("init"):
        seen_init = []

        def init_evaluate(pop):
            seen_init.append(list(pop))
            for x in pop:
                x.fitness = -1.0
                fit[int(x.genome[0])] = "init"
            return pop
        kw["init_evaluate"] = init_evaluate
    pops = multi_population_ea(max_generations=gens, num_populations=n, pop_size=size, problem=problem, representation=representation,
                               shared_pipeline=shared, subpop_pipelines=own, **kw)
    if p.get("stop") == "pick":
        due = len(stops) - 1 if stops and stops[-1] else len(stops)
        due = min(due, gens)
        require(True not in stops[:-1], "the run went on after the stop condition held")
        if not (stops and stops[-1]):
            require(due == gens, "%d generations although nothing said stop", due)
    elif p.get("stop"):
        due = min(gens, p["stop"])
    else:
        due = gens
    # initial populations
    require(len(inits) == n * size, "%d individuals initialised for %d islands of %d", len(inits), n, size)
    if p["reps"] == "each":
        require(inits == [k for k in range(n) for _ in range(size)] or sorted(inits) == sorted([k for k in range(n) for _ in range(size)]),
                "representations used: %r", inits)
    # order of operators
    want = []
    for g in range(due):
        for i in range(n):
            want += [("shared0", i, g), ("shared1", i, g)]
            if own:
                want += [(name, i, g) for name in ["own%d" % i, "last%d" % i][:1 + i % 2]]
    require([e[:3] for e in log] == want, "operators ran as %r instead of %r", [e[:3] for e in log], want)
    require(len(pops) == n, "%d populations returned", len(pops))
    require(c["leap"]["generation"] == due, "generation %r published after %d", c["leap"]["generation"], due)
    # each island breeds from its own previous population; visible populations are current
    cur = None
    for e in log:
        name, i, g, pop, vis = e
        if name == "shared0":
            require(len(vis[i]) == len(pop) and all(a is b for a, b in zip(vis[i], pop)), "island %d starts from another population than its own", i)
            if cur is not None:
                require(all(len(a) == len(b) and all(x is y for x, y in zip(a, b)) for a, b in zip(vis, cur)), "the visible populations are out of date")
            else:
                cur = [list(q) for q in vis]
        else:
            mine = made[g * n + i]
            require(len(pop) == len(mine) and all(a is b for a, b in zip(pop, mine)), "%s was given something else than island %d's offspring", name, i)
            lastname = "shared1" if not own else ["own%d" % i, "last%d" % i][:1 + i % 2][-1]
            if name == lastname:
                cur[i] = list(pop)
    for i, q in enumerate(pops):
        if due:
            require(len(q) == len(cur[i]) and all(a is b for a, b in zip(q, cur[i])), "island %d returns a stale population", i)
        else:
            require(len(q) == size, "island %d holds %d", i, len(q))
        for x in q:
            k = fit[int(x.genome[0])]
            require(x.fitness == (-1.0 if k == "init" else k), "fitness %r", x.fitness)
            if p["problems"] == "each":
                require(x.problem is problem[i] and (k in ("init", i)), "island %d holds an individual of another problem", i)
            if p["reps"] == "each":
                require(x.genome[1] == i, "island %d holds an individual of representation %d", i, x.genome[1])
    if p.get("init"):
        require(len(seen_init) == n and all(len(q) == size for q in seen_init), "initial evaluation given %r", [len(q) for q in seen_init])
    if not p.get("glob"):
        require(set(global_context["leap"]) == {"distrib"}, "the global context was written to: %r", global_context["leap"])
    return (due, tuple(len(q) for q in pops))


def stopping(ctx, p):
    own = ctx.pick((0, 1))
    c = {"leap": {}} if own else global_context
    if own:
        global_context["leap"]["generation"] = ctx.pick((0, 1000))
    m = ctx.pick((0, 1, 2, 5))
    stop = stop_at_generation(m, context=c) if own else stop_at_generation(m)
    for g in list(range(8)) + [3, 0, 5]:
        c["leap"]["generation"] = g
        r = stop([] if g % 2 else [1, 2])
        require(bool(r) == (g >= m), "stop at %d says %r in generation %d", m, r, g)
        require(c["leap"]["generation"] == g, "asking changed the generation")
    return m


def scenarios(tier):
    big = tier == "thorough"
    out = []
    B1, B2, B3 = [(0.0, 8.0)], [(-1.0, 1.0), (2.0, 6.0)], [(-4.0, -2.0), (0.0, 16.0)]

    def add(name, fn, p, **kw):
        full = name + "-" + "-".join("%s%s" % (k, v) for k, v in sorted(p.items())).replace(" ", "")
        if fn is solve:
            kw.setdefault("z", (-2.0, -0.5, 0.25, 1.5))
            p = dict(p, z=kw["z"])
        if all(s.name != full for s in out):
            out.append(S(full, fn, p, **kw))
    RNG = ("r",)
    for mx in (True, False):
        for size, gens, levels, dev in ((1, 0, (1, 2), 1), (2, 0, (1, 2, 3), 1), (1, 2, (1, 2, 3), 1), (2, 1, (1, 2, 3), 2), (2, 2, (1, 2), 1), (3, 1, (1, 2), 1),
                                        (2, 1, (1.5, "fail", -2.0), 1), (1, 3, (1, 2, "fail"), 1), (3, 2, (1, 2), 0)) + (
                                        ((2, 2, (1, 2, 3), 1), (3, 1, (1, 2, 3), 1), (2, 1, (1, 2, 3), 3)) if big else ()):
            add("solve", solve, dict(maximize=mx, size=size, gens=gens, levels=levels, bounds=B1 if gens == 2 else B2),
                deviations=dev, dev_kinds=RNG, unit_bins=4, z=(-1.0, 0.5, 6.0), weight=500 * (1 + dev * dev))
        add("solve", solve, dict(maximize=mx, size=2, gens=1, levels=(1, 2), bounds=B3, kw=dict(hard_bounds=False, mutation_std=0.5)),
            deviations=2, dev_kinds=RNG, z=(-1.0, 0.5, 6.0), weight=100)
        add("solve", solve, dict(maximize=mx, size=2, gens=1, levels=(1, 2), bounds=B3, kw=dict(mutation_std=5.0)),
            deviations=2, dev_kinds=RNG, z=(-9.0, 0.5, 6.0), weight=100)
        add("solve", solve, dict(maximize=mx, size=3, gens=30 if big else 10, levels=(2, 1, 3), bounds=B2), deviations=1, z=(-1.0, 6.0), weight=500, limit=20000)
        add("solve", solve, dict(maximize=mx, size=2, gens=1, levels=(1, 2), bounds=B1, kw=dict(viz=True, viz_ylim=(0, 4))), deviations=0, dev_kinds=RNG, weight=400)
        for d in ("same", "copy"):
            add("solve", solve, dict(maximize=mx, size=2, gens=1, levels=(1, 2, "fail"), bounds=B1, dask=d), deviations=1, dev_kinds=RNG,
                z=(-1.0, 0.5, 6.0), weight=300)
            add("solve", solve, dict(maximize=mx, size=3, gens=1, levels=(1, 2), bounds=B1, dask=d), deviations=0, dev_kinds=RNG, weight=300)
        for n in range(1, 7):
            for glob in (0, 1):
                add("search", search, dict(n=n, maximize=mx, glob=glob, robust=n % 2))
    for n, size, gens in ((1, 1, 0), (1, 2, 2), (2, 1, 0), (2, 2, 1), (2, 1, 3), (3, 2, 2), (3, 1, 1)):
        for own in (None, "list", "tuple"):
            for problems in ("one", "each"):
                for reps in ("one", "each"):
                    for glob in (0, 1):
                        add("multi", multi, dict(n=n, size=size, gens=gens, own=own, problems=problems, reps=reps, glob=glob))
                    add("multi", multi, dict(n=n, size=size, gens=gens, own=own, problems=problems, reps=reps, init=1))
        for glob in (0, 1):
            add("multi", multi, dict(n=n, size=size, gens=4, own="list", problems="each", reps="one", stop="pick", glob=glob))
            add("multi", multi, dict(n=n, size=size, gens=gens, own=None, problems="each", reps="one", stop=2, glob=glob))
            add("multi", multi, dict(n=n, size=size, gens=inf, own=None, problems="each", reps="one", stop=3, glob=glob))
        add("multi", multi, dict(n=n, size=size, gens=3, own="list", problems="each", reps="each", grow=1))
    # many islands, long runs, large populations, many dimensions
    for n, size, gens in ((20, 2, 2), (3, 70, 2), (2, 1, 60)):
        for own in (None, "list"):
            add("multi", multi, dict(n=n, size=size, gens=gens, own=own, problems="each", reps="each", glob=0))
    add("multi", multi, dict(n=2, size=1, gens=inf, own=None, problems="each", reps="one", stop=300, glob=0))
    for mx in (True, False):
        add("search", search, dict(n=300, maximize=mx, glob=0, robust=0), deviations=1)
        add("search", search, dict(n=1100, maximize=mx, glob=1, robust=1), deviations=0)
        wide = [(-1.0 - k % 3, 1.0 + k % 5) for k in range(30)]
        add("solve", solve, dict(maximize=mx, size=2, gens=1, levels=(1, 2), bounds=wide), deviations=1, z=(-9.0, 9.0), weight=500, limit=20000)
        add("solve", solve, dict(maximize=mx, size=80, gens=1, levels=(2, 1, 3), bounds=B1), deviations=1, z=(-1.0,), unit_bins=2, weight=80000, limit=20000)
        add("solve", solve, dict(maximize=mx, size=2, gens=110, levels=(2, 1, 3) if mx else (2, 3), bounds=B1), deviations=1, z=(-1.0,), unit_bins=1, weight=90000, limit=20000)
    add("stopping", stopping, {})
    return out
