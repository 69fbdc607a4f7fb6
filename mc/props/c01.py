"""C01: asynchronous steady-state birth budget, under every completion order and failure pattern."""
DASK = True
import itertools
import numpy as np
from mc.engine import S, FakeClient, require, fresh_context
from leap_ec import ops
from leap_ec.decoder import IdentityDecoder
from leap_ec.representation import Representation
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.distrib.asynchronous import steady_state, greedy_insert_into_pop, tournament_insert_into_pop
from leap_ec.multiobjective.asynchronous import steady_state_nsga_2
from .common import Table, MOTable, Boom, isnan, multiset

ASSUMPTIONS = ["dask delivers every submitted task exactly once; the explorer decides the order",
               "a worker either returns the evaluated individual or the evaluation raises"]
BOUNDS = {"quick": "initial population 1-3, population 1-3, births 0-4, brood 1-3, <=2-3 failures, every completion order"}

FITS = [3.0, 1.0, 2.0, 2.0, 5.0, 4.0, 0.0]
VECS = [(1.0, 2.0), (2.0, 1.0), (1.0, 1.0), (2.0, 2.0), (0.0, 3.0), (3.0, 0.0), (2.0, 2.0)]


def run(ctx, p):
    ids = itertools.count()
    faults = [0]
    evals, failed = [], []
    boom_types = (Boom, ValueError, ZeroDivisionError)

    def objective(phenome):
        i = int(np.ravel(phenome)[0])
        evals.append(i)
        if faults[0] < p["faults"] and ctx.fault():
            faults[0] += 1
            failed.append(i)
            raise boom_types[faults[0] % 3]("injected")
        if p["mo"]:
            return np.array(VECS[i % len(VECS)])
        return FITS[i % len(FITS)]

    problem = MOTable(objective, (True, True)) if p["mo"] else Table(objective, p.get("maximize", True))
    rep = Representation(initialize=lambda: np.array([next(ids)]), decoder=IdentityDecoder(),
                         individual_cls=DistributedIndividual)
    my_ctx = fresh_context()
    client = FakeClient(serialise=p["serialise"], keep=[problem, my_ctx], window=p.get("window"))
    seen_probe, seen_ins, pops = [], [], []
    born = []

    def label(next_individual):
        while True:
            ind = next(next_individual)
            ind.genome = np.array([next(ids)])
            born.append(int(ind.genome[0]))
            yield ind

    def probe(ind):
        seen_probe.append(int(ind.genome[0]))
        i = int(ind.genome[0])
        require(i in evals, "individual %d handed back before it was evaluated", i)
        require(isnan(ind.fitness) == (i in failed), "individual %d: fitness %r does not match its evaluation", i, ind.fitness)
        require(bool(ind.is_viable) == (i not in failed), "individual %d: wrong viability", i)

    current = [None]

    def pop_probe(pop):
        if current[0] is not None:
            require([id(x) for x in pop] == current[0], "the population probe was not shown the %d current survivors", len(current[0]))
        pops.append(tuple(int(x.genome[0]) for x in pop))
        require(len(pop) <= p["pop"], "population grew to %d > %d", len(pop), p["pop"])

    sel = ops.random_selection if p.get("rand") else ops.naive_cyclic_selection
    pipeline = [sel, ops.clone, label, ops.pool(size=p["brood"])]
    kw = dict(client=client, max_births=p["births"], init_pop_size=p["init"], pop_size=p["pop"],
              representation=rep, problem=problem, offspring_pipeline=pipeline,
              evaluated_probe=probe, pop_probe=pop_probe, context=my_ctx)
    if p["cnv"]:
        kw["count_nonviable"] = True
    if p["mo"]:
        final = steady_state_nsga_2(**kw)
        seen_ins = None
    else:
        inner = dict(greedy=greedy_insert_into_pop, tournament=tournament_insert_into_pop)[p["inserter"]]

        def inserter(ind, pop, max_size):
            seen_ins.append(int(ind.genome[0]))
            require(max_size == p["pop"], "insertion step got size %r, configured %r", max_size, p["pop"])
            inner(ind, pop, max_size)
            current[0] = [id(x) for x in pop]
        final = steady_state(inserter=inserter, **kw)

    n = len(evals)
    dup = [k for k, c in multiset(evals).items() if c > 1]
    require(not dup, "individuals %s were evaluated more than once", dup)
    require(client.in_flight == 0, "%d evaluations still in flight when the run returned", client.in_flight)
    require(client.submitted == n, "%d submitted but %d evaluated", client.submitted, n)
    require(sorted(seen_probe) == sorted(evals), "evaluated %s but handed to the probe %s", sorted(evals), sorted(seen_probe))
    if seen_ins is not None:
        require(sorted(seen_ins) == sorted(evals), "evaluated %s but inserted %s", sorted(evals), sorted(seen_ins))
    require(len(pops) == n, "population probe called %d times for %d completions", len(pops), n)
    init_ids = set(range(p["init"]))
    require(init_ids <= set(evals), "initial population not completely evaluated")
    require(set(evals) - init_ids == set(born), "offspring made %s, evaluated %s", born, sorted(set(evals) - init_ids))
    counted = n if p["cnv"] else n - len(failed)
    lo, hi = p["init"] + p["births"], p["init"] + p["births"] + (p["brood"] - 1 if (p["births"] or failed) else 0)
    require(lo <= counted <= hi,
            "budget: init %d + births %d, but %d evaluations counted (%d failed, brood %d, counting failures: %s)",
            p["init"], p["births"], counted, len(failed), p["brood"], p["cnv"])
    require(len(final) <= p["pop"] and set(int(x.genome[0]) for x in final) <= set(evals), "wrong final population")
    return (tuple(client.order), tuple(sorted(failed)), tuple(int(x.genome[0]) for x in final))


def scenarios(tier):
    out = []
    big = tier == "thorough"

    def add(**p):
        p = dict(dict(mo=False, init=1, pop=2, births=2, brood=1, cnv=False, faults=2, serialise=False,
                      inserter="greedy"), **p)
        name = "-".join("%s%s" % (k, v) for k, v in sorted(p.items()))
        dev = p.pop("dev", None)
        out.append(S(name, run, p, deviations=dev, weight=(p["init"] + p["births"]) * (1 + p["faults"])))
    for cnv in (False, True):
        for init in (1, 2, 3):
            for births in (0, 1, 2, 3):
                add(init=init, births=births, cnv=cnv, faults=3 if init + births < 5 else 2)
        for brood in (2, 3):
            for births in (1, 2, 3):
                add(init=1, births=births, brood=brood, cnv=cnv, faults=2 if brood == 2 else 1)
        add(init=2, births=1, brood=2, cnv=cnv)
        for pop in (1, 3):
            add(init=2, births=2, pop=pop, cnv=cnv, serialise=True)
        add(init=2, births=2, inserter="tournament", cnv=cnv, faults=1)
        add(init=1, births=2, rand=True, cnv=cnv)
        add(init=2, births=2, pop=2, cnv=cnv, maximize=False)
        for init, births in ((1, 2), (2, 0), (2, 2), (3, 1)):
            add(mo=True, init=init, births=births, cnv=cnv)
        add(mo=True, init=1, births=3, pop=1, cnv=cnv)
        add(mo=True, init=2, births=2, brood=2, cnv=cnv, faults=1)
        add(init=2, births=12, cnv=cnv, faults=0, pop=4)
        add(init=1, births=15, cnv=cnv, faults=2, pop=4)
        add(init=1, births=9, brood=1, cnv=cnv, faults=3, pop=3)
        add(init=24, births=6, cnv=cnv, faults=2, pop=18, dev=1)
        add(init=5, births=60, cnv=cnv, faults=2, pop=40, dev=1, window=3)
        add(init=60, births=20, cnv=cnv, faults=1, pop=50, brood=7, dev=1, window=2, inserter="tournament")
        add(init=12, births=9, cnv=cnv, faults=2, pop=10, mo=True, dev=1, window=3, serialise=True)
        if big:
            add(init=4, births=3, cnv=cnv, faults=1)
            add(init=3, births=4, cnv=cnv, faults=2)
            add(init=2, births=6, cnv=cnv, faults=3)
            add(init=2, births=3, brood=2, cnv=cnv, faults=2)
            add(mo=True, init=3, births=3, cnv=cnv, faults=2)
            add(mo=True, init=2, births=4, cnv=cnv, faults=3)
            add(init=3, births=3, inserter="tournament", cnv=cnv, faults=1)
    return out
