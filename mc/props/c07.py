"""C07: generational_ea - number of generations, population handed on, elitism."""
import itertools
from math import inf, nan
import numpy as np
from mc.engine import S, require, fresh_context
from leap_ec import ops
from leap_ec.algorithm import generational_ea, stop_at_generation
from leap_ec.global_vars import context as global_context
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.multiobjective.nsga2 import generalized_nsga_2
from leap_ec.representation import Representation
from .common import Table, MOTable, Boom, isnan, better, multiset

BOUNDS = {"quick": "population 1-3, pool 1-4, elites 0-4, 0-4 generations, every fitness assignment from 2-4 levels (failed included), every"
          " stop decision, both directions, own or global context; 12-generation runs within 2 deviations; single scenarios: multi-"
          "objective generational runs (generalized_nsga_2) with every stop decision, and stop answers of other truthy/falsy types"}


def key(f, maximize):
    return -inf if (f is None or isnan(f)) else (f if maximize else -f)


def answer(r, k):
    """A condition may answer with anything that is true or false."""
    return ((True, 1, np.True_, "yes") if r else (False, np.False_, None, 0))[k % 4]


def run(ctx, p):
    ids = itertools.count()
    maximize = p["maximize"]
    fit = {}

    def objective(ph):
        i = int(ph[0])
        require(i not in fit, "individual %d evaluated twice", i)
        f = ctx.pick(p["levels"])
        if p.get("vary") and f is not None:
            f = f * 100 + (i * 37 % 101) / 10
        fit[i] = nan if f is None else f
        if f is None:
            raise Boom("x")
        return f
    problem = Table(objective, maximize)
    rep = Representation(initialize=lambda: np.array([next(ids)]), individual_cls=RobustIndividual if p.get("robust") else Individual)
    context = global_context if p.get("global") else fresh_context()
    other = None if p.get("global") else global_context
    if other is not None:
        other["leap"]["generation"] = "untouched"
    log = []       # events

    def look(pop):
        log.append(("gen", context["leap"].get("generation"), list(pop), [x.fitness for x in pop]))
        require(all(x.fitness is not None for x in pop), "generation started with unevaluated individuals")
        return pop

    def breed(it):
        while True:
            ind = next(it)
            ind.genome = np.array([next(ids)])
            yield ind

    def record(off):
        log.append(("off", list(off)))
        return off

    def stop(pop):
        r = (ctx.pick((False, True)) if p.get("stop") == "pick" else False)
        log.append(("stop", list(pop), r, context["leap"].get("generation")))
        return answer(r, len(log))
    kw = {}
    if p.get("stop") == "at":
        kw["stop"] = stop_at_generation(p["at"], context=context)
    elif p.get("stop"):
        kw["stop"] = stop
    if p.get("elites") is not None:
        kw["k_elites"] = p["elites"]
    if p.get("start"):
        kw["start_generation"] = p["start"]
    if not p.get("global"):
        kw["context"] = context
    init = []
    if p.get("own_init"):
        def init_evaluate(pop):
            init.extend(pop)
            return [x for x in Individual.evaluate_population(pop)]
        kw["init_evaluate"] = init_evaluate
    final = generational_ea(max_generations=p["gens"], pop_size=p["size"], problem=problem, representation=rep,
                            pipeline=[look, ops.naive_cyclic_selection, ops.clone, breed, ops.evaluate, ops.pool(size=p["pool"]), record],
                            **kw)
    start = p.get("start", 0)
    gens = [e for e in log if e[0] == "gen"]
    offs = [e for e in log if e[0] == "off"]
    stopped = [i for i, e in enumerate(log) if e[0] == "stop" and e[2]]
    if p.get("stop") == "at":
        limit = min(p["gens"], p["at"])
    else:
        limit = p["gens"]
    due = max(0, limit - start)
    if stopped:
        require(len(stopped) == 1 and stopped[0] == len(log) - 1, "the run went on after the stop condition held")
        require(len(gens) <= due, "more generations than the limit")
    else:
        require(len(gens) == due, "%d generations run, limit %s from %d", len(gens), limit, start)
    if p.get("stop") == "pick":
        pops_seen = [e for e in log if e[0] == "stop"]
        require(len(pops_seen) >= len(gens), "a generation ran without asking the stop condition")
    require([g[1] for g in gens] == [start + i for i in range(len(gens))], "generation numbers published: %r", [g[1] for g in gens])
    require(context["leap"]["generation"] == start + len(gens), "generation %r published after %d generations",
            context["leap"]["generation"], len(gens))
    if other is not None:
        require(other["leap"]["generation"] == "untouched", "another context was written to")
    k = p["elites"] if p.get("elites") is not None else 1
    series = [g[2] for g in gens] + [list(final)]
    require(len(series[0]) == p["size"], "initial population has %d members", len(series[0]))
    for e in log:
        if e[0] == "stop":
            require(any(len(e[1]) == len(s) and all(a is b for a, b in zip(e[1], s)) for s in series), "stop condition saw a foreign population")
    for s in series:
        for x in s:
            f = fit[int(x.genome[0])]
            require(x.fitness == f or (isnan(f) and isnan(x.fitness)), "fitness %r of genome %r should be %r", x.fitness, x.genome, f)
    for g in range(len(gens)):
        before, off, after = series[g], offs[g][1], series[g + 1]
        require(len(off) == p["pool"], "pool holds %d", len(off))
        require(len(after) == len(off), "generation %d: %d survivors from %d offspring", g, len(after), len(off))
        require(len(set(map(id, after))) == len(after), "an individual survives twice")
        kb = sorted([key(x.fitness, maximize) for x in before], reverse=True)[:k]
        want = sorted([key(x.fitness, maximize) for x in off] + kb, reverse=True)[:len(off)]
        got = sorted([key(x.fitness, maximize) for x in after], reverse=True)
        require(got == want, "generation %d: survivors %r, should be %r (elites %d)", g, got, want, k)
        own = set(map(id, off))
        outsiders = [x for x in after if id(x) not in own]
        require(all(any(x is b for b in before) for x in outsiders), "a stranger survived")
        require(len(outsiders) <= k, "%d parents survived with %d elites", len(outsiders), k)
    n = p["size"] + len(gens) * p["pool"]
    require(len(fit) == n, "%d evaluations, should be %d", len(fit), n)
    if p.get("own_init"):
        require(len(init) == p["size"], "custom initial evaluation not used")
    return (len(gens), tuple(sorted(key(x.fitness, maximize) for x in final)))


def nsga(ctx, p):
    """The multi-objective generational run: the same generations, the same stop condition, the same context."""
    context = fresh_context() if p["own"] else global_context
    if p["own"]:
        global_context["leap"]["generation"] = "untouched"
    problem = MOTable(lambda ph: np.array([float(ph[0]), -float(ph[0])]), (True, True))
    ids = itertools.count()
    rep = Representation(initialize=lambda: np.array([next(ids)]))
    seen, asked, last = [], [], [None]

    def look(pop):
        seen.append((context["leap"]["generation"], list(pop)))
        return pop

    def fresh(it):
        while True:
            x = next(it)
            x.genome = np.array([next(ids)])
            yield x

    def stop(pop):
        r = ctx.pick((False, True))
        asked.append((list(pop), r))
        return answer(r, len(asked))

    def first(pop):
        last[0] = pop = Individual.evaluate_population(pop)
        return pop
    kw = dict(stop=stop) if p["stop"] else {}
    if p["start"]:
        kw["start_generation"] = p["start"]
    if p["init"]:
        kw["init_evaluate"] = first
    final = generalized_nsga_2(p["gens"], p["size"], problem, rep, [look, ops.naive_cyclic_selection, ops.clone, fresh, ops.evaluate, ops.pool(size=p["size"])], context=context, **kw)
    due = max(0, p["gens"] - p["start"])
    if p["stop"]:
        require(not any(r for _, r in asked[:-1]), "the run went on after the stop condition held")
        if asked and asked[-1][1]:
            due = len(asked) - 1
        for (g, pop), (q, _) in zip(seen, asked):
            require(len(pop) == len(q) and all(a is b for a, b in zip(pop, q)), "the stop condition saw another population")
    require([g for g, _ in seen] == list(range(p["start"], p["start"] + due)), "generations %r, should be %d from %d", [g for g, _ in seen], due, p["start"])
    require(context["leap"]["generation"] == p["start"] + due, "context says generation %r at the end", context["leap"]["generation"])
    if p["own"]:
        require(global_context["leap"]["generation"] == "untouched", "the global context was touched")
    require(all(len(pop) == p["size"] for _, pop in seen) and len(final) == p["size"], "population size changed")
    require(len(problem.log) == p["size"] * (1 + due), "%d evaluations in %d generations of %d", len(problem.log), due, p["size"])
    if p["init"]:
        require(not seen or all(a is b for a, b in zip(seen[0][1], last[0])), "the first generation did not start from the evaluated population")
    return due


def scenarios(tier):
    big = tier == "thorough"
    out = []

    def add(dev=None, weight=1, **p):
        p = dict(dict(size=2, pool=2, gens=2, maximize=True, levels=(1, 2)), **p)
        name = "-".join("%s%s" % (k, v) for k, v in sorted(p.items())).replace(" ", "")
        out.append(S(name, run, p, deviations=dev, weight=weight))
    for mx in (True, False):
        for k in (None, 0, 1, 2, 3, 5):
            add(elites=k, maximize=mx, levels=(1, 2, 3), gens=1, weight=80)
            add(elites=k, maximize=mx, levels=(1.0, -2.5), gens=3, weight=256)
            if k in (None, 0, 2):
                add(elites=k, maximize=mx, levels=(1, 2, 3), size=3, pool=3, gens=1, weight=729)
                add(elites=k, maximize=mx, size=3, pool=1, gens=3, weight=64)
                add(elites=k, maximize=mx, size=1, pool=4, gens=2, levels=(3, 5), weight=512)
                add(elites=k, maximize=mx, size=2, pool=2, gens=2, levels=(1, None, 2), robust=True, weight=4000)
        for st in ("pick", "at"):
            add(maximize=mx, stop=st, at=2, gens=4, size=1, pool=1, weight=64)
            add(maximize=mx, stop=st, at=3, gens=2, size=2, pool=1)
        add(maximize=mx, stop="pick", gens=3, start=1, size=1, pool=2)
        add(maximize=mx, stop="at", gens=inf, at=3, size=1, pool=2)
        add(maximize=mx, gens=0)
        add(maximize=mx, gens=2, start=2)
        add(maximize=mx, gens=3, start=2, own_init=True)
        add(maximize=mx, gens=2, **{"global": True})
        add(maximize=mx, gens=12, size=3, pool=3, levels=(2, 1, 3), dev=2, weight=3000)
        add(maximize=mx, gens=12, size=4, pool=4, levels=(2, 1, 3), elites=2, dev=2, weight=5000)
        add(maximize=mx, gens=12, size=2, pool=2, levels=(2, None, 3), elites=1, dev=2, weight=3000, robust=True)
        for k in (0, 1, 20, 45):
            add(elites=k, maximize=mx, size=40, pool=40, gens=2, levels=(1, 2, 0), vary=1, dev=1, weight=600)
        add(elites=10, maximize=mx, size=15, pool=12, gens=6, levels=(1, 2, None), vary=1, robust=True, dev=1, weight=600)
        add(maximize=mx, size=150, pool=300, gens=1, levels=(1, 2), vary=1, dev=0)
        add(maximize=mx, size=2, pool=2, gens=120, levels=(1, 2), vary=1, dev=1, weight=600)
        add(maximize=mx, size=1, pool=1, gens=1100, levels=(1, 2), vary=1, dev=0)
        add(maximize=mx, size=1, pool=1, gens=300, at=257, stop="at", levels=(1, 2), vary=1, dev=0)
        add(maximize=mx, size=2, pool=3, gens=2, levels=(1.0, 1.0 + 1e-7, 1.0 - 1e-7), weight=600)
        if big:
            add(elites=2, maximize=mx, levels=(1, 2, 3), size=3, pool=3, gens=2, weight=19683)
            add(elites=1, maximize=mx, levels=(1, 2, 3), size=2, pool=2, gens=4, weight=59049)
            add(maximize=mx, gens=30, size=3, pool=3, levels=(2, 1, 3), dev=2, weight=9000)
    for s in out:
        s.kw.setdefault("unit_bins", 2)     # the only draws here are the coin tosses between failed individuals
    for own in (True, False):
        for init in (True, False):
            for gens, start in ((0, 0), (1, 0), (3, 0), (4, 2), (2, 2), (2, 5)):
                out.append(S("nsga-%s-%s-%d-%d" % (own, init, gens, start), nsga, dict(own=own, init=init, gens=gens, start=start, size=2, stop=False), limit=200000))
                out.append(S("nsga-stop-%s-%s-%d-%d" % (own, init, gens, start), nsga, dict(own=own, init=init, gens=gens, start=start, size=3, stop=True), limit=200000))
    return out
