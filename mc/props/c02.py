"""C02: survival in the asynchronous steady-state algorithm."""
DASK = True
import itertools
from math import nan
import numpy as np
from mc.engine import S, FakeClient, require, fresh_context, check_distribution
from leap_ec import ops
from leap_ec.decoder import IdentityDecoder
from leap_ec.representation import Representation
from leap_ec.individual import Individual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.distrib.asynchronous import steady_state, greedy_insert_into_pop, tournament_insert_into_pop
from .common import Table, Boom, isnan, better, multiset

BOUNDS = {"quick": "capacity 1-4, up to capacity+3 arrivals, 4-5 fitness levels incl. failed, both directions; "
                   "whole runs with <=6 evaluations, every completion order and fitness assignment"}
INS = dict(greedy=greedy_insert_into_pop, tournament=tournament_insert_into_pop)


def arrival(problem, f, n, genome=None):
    ind = DistributedIndividual(np.array([n] if genome is None else genome), decoder=IdentityDecoder(), problem=problem)
    if f is None:
        ind.fitness, ind.is_viable, ind.exception = nan, False, Boom("x")
    else:
        ind.fitness, ind.is_viable = f, True
    return ind


def judge(before, after, new, size, maximize, greedy, everyone):
    """Checks one insertion step; returns the displaced individual or None."""
    def viable(x):
        return not isnan(x.fitness)
    ids_b, ids_a = set(map(id, before)), set(map(id, after))
    require(len(ids_a) == len(after), "an individual occurs twice in the population")
    require(len(after) == min(len(before) + 1, size), "population size %d after %d arrivals, capacity %d",
            len(after), len(everyone), size)
    require(ids_a <= ids_b | {id(new)}, "a stranger appeared in the population")
    gone = [x for x in before if id(x) not in ids_a]
    if len(before) < size:
        require(not gone and id(new) in ids_a, "somebody was displaced although there was room")
        return None
    require(len(gone) <= 1, "%d individuals displaced by one arrival", len(gone))
    if gone:
        x = gone[0]
        require(id(new) in ids_a, "an individual was removed without replacement")
        require(not viable(x) or better(new.fitness, x.fitness, maximize),
                "arrival with fitness %r displaced one with %r (maximise=%s)", new.fitness, x.fitness, maximize)
    best = None
    for e in everyone:
        if viable(e) and (best is None or better(e.fitness, best, maximize)):
            best = e.fitness
    if best is not None:
        require(any(viable(a) and not better(best, a.fitness, maximize) for a in after),
                "best viable fitness %r was lost; survivors %r", best, [a.fitness for a in after])
    if greedy:
        vs = sorted([e.fitness for e in everyone if viable(e)], reverse=maximize)[:size]
        have = sorted([a.fitness for a in after if viable(a)], reverse=maximize)
        require(have == vs, "survivors %r are not the best of everything seen %r", have, vs)
    return gone[0] if gone else None


def sequence(ctx, p):
    problem = Table(lambda x: 0, p["maximize"])
    pop, everyone = [], []
    levels = p["levels"]
    for n in range(p["n"]):
        if p.get("series"):                         # a long history; only the last arrivals are free
            f = p["series"][n] if n < p["n"] - p["free"] else ctx.pick(levels)
        else:
            f = ctx.pick(levels)
        new = arrival(problem, f, n, p.get("genome"))
        before = list(pop)
        everyone.append(new)
        r = INS[p["inserter"]](new, pop, p["size"])
        if not p.get("series") or n >= p["n"] - p["free"] - 3:
            judge(before, pop, new, p["size"], p["maximize"], p["inserter"] == "greedy", everyone)
    return tuple(str(x.fitness) for x in pop)


def contest(ctx, p):
    """One arrival at a full population under the tournament rule: exact displacement probabilities."""
    problem = Table(lambda x: 0, p["maximize"])
    fits = tuple(p["fits"]) if "fits" in p else tuple(ctx.pick(p["levels"]) for _ in range(p["size"]))
    f = ctx.pick(p["levels"])
    pop = [arrival(problem, x, i) for i, x in enumerate(fits)]
    before = list(pop)
    new = arrival(problem, f, 99)
    tournament_insert_into_pop(new, pop, p["size"])
    gone = judge(before, pop, new, p["size"], p["maximize"], False, before + [new])
    return (fits, f), (None if gone is None else [i for i, b in enumerate(before) if b is gone][0])


def contest_post(params, group, dist):
    fits, f = group
    n = len(fits)
    want = {}
    for i, x in enumerate(fits):
        wins = x is None or (f is not None and better(f, x, params["maximize"]))
        k = i if wins else None
        want[k] = want.get(k, 0.0) + 1.0 / n
    check_distribution(dist, want, "arrival %r at population %r" % (f, fits))


def plain(ctx, p):
    """Insertion rules also serve ordinary individuals without a viability flag."""
    problem = Table(lambda x: 0, p["maximize"])
    pop, everyone = [], []
    for n in range(p["n"]):
        new = Individual(np.array([n]), problem=problem)
        new.fitness = ctx.pick((1, 2, 3))
        before = list(pop)
        everyone.append(new)
        INS[p["inserter"]](new, pop, p["size"])
        judge(before, pop, new, p["size"], p["maximize"], p["inserter"] == "greedy", everyone)
    return tuple(x.fitness for x in pop)


def whole(ctx, p):
    """Inside a whole run: every completion order, failures and fitness assignment."""
    ids = itertools.count()
    faults = [0]

    def objective(ph):
        if faults[0] < p["faults"] and ctx.fault():
            faults[0] += 1
            raise Boom("injected")
        return ctx.pick(p["levels"])
    problem = Table(objective, p["maximize"])
    rep = Representation(initialize=lambda: np.array([next(ids)]), individual_cls=DistributedIndividual)
    client = FakeClient(serialise=p["serialise"], keep=[problem])
    everyone = []
    inner = INS[p["inserter"]]
    track = {}

    def inserter(ind, pop, size):
        before = list(pop)
        if "pop" in track:
            require([id(x) for x in track["pop"]] == [id(x) for x in before], "population changed between insertions")
        everyone.append(ind)
        inner(ind, pop, size)
        judge(before, pop, ind, size, p["maximize"], p["inserter"] == "greedy", everyone)
        track["pop"] = list(pop)

    def label(it):
        while True:
            ind = next(it)
            ind.genome = np.array([next(ids)])
            yield ind
    final = steady_state(client=client, max_births=p["births"], init_pop_size=p["init"], pop_size=p["size"],
                         representation=rep, problem=problem,
                         offspring_pipeline=[ops.naive_cyclic_selection, ops.clone, label, ops.pool(size=1)],
                         inserter=inserter, count_nonviable=True, context=fresh_context())
    require([id(x) for x in final] == [id(x) for x in track["pop"]], "returned population is not the surviving one")
    return tuple(sorted(str(x.fitness) for x in final))


def default_whole(ctx, p):
    """The default insertion rule (none named by the caller) keeps the best as well."""
    ids = itertools.count()
    faults = [0]
    seen = []

    def objective(ph):
        if faults[0] < 1 and ctx.fault():
            faults[0] += 1
            raise Boom("injected")
        seen.append(ctx.pick((1, 2, 3)))
        return seen[-1]
    problem = Table(objective, p["maximize"])
    rep = Representation(initialize=lambda: np.array([next(ids)]), individual_cls=DistributedIndividual)
    final = steady_state(client=FakeClient(), max_births=p["births"], init_pop_size=p["init"], pop_size=p["size"],
                         representation=rep, problem=problem,
                         offspring_pipeline=[ops.naive_cyclic_selection, ops.clone, ops.pool(size=1)],
                         count_nonviable=True, context=fresh_context())
    have = sorted([x.fitness for x in final if not isnan(x.fitness)], reverse=p["maximize"])
    want = sorted(seen, reverse=p["maximize"])[:p["size"]]
    require(have == want, "final population %r, best seen %r", have, want)
    return tuple(have)


def scenarios(tier):
    out = []
    big = tier == "thorough"
    L = (None, 1.0, 2.0, 3.0)
    for mx in (True, False):
        for ins in INS:
            for size, n in ((1, 4), (2, 5), (3, 5 if ins == "greedy" else 5)):
                out.append(S("seq-%s-%d-%d-%s" % (ins, size, n, mx), sequence,
                             dict(inserter=ins, size=size, n=n, maximize=mx, levels=L), weight=n))
            out.append(S("seq2-%s-%s" % (ins, mx), sequence,
                         dict(inserter=ins, size=4, n=6, maximize=mx, levels=(2.0, None, 1.0)), weight=9))
            if big:
                out.append(S("seqL-%s-%s" % (ins, mx), sequence,
                             dict(inserter=ins, size=3, n=7, maximize=mx, levels=L), weight=20))
            out.append(S("plain-%s-%s" % (ins, mx), plain, dict(inserter=ins, size=2, n=5, maximize=mx)))
            out.append(S("neg-%s-%s" % (ins, mx), sequence,
                         dict(inserter=ins, size=2, n=4, maximize=mx, levels=(0.0, -1.5, 1e9, float("inf"), -float("inf"), None)), weight=5))
            # long histories with few departures from an improving / worsening / constant series
            out.append(S("long-%s-%s" % (ins, mx), sequence,
                         dict(inserter=ins, size=5, n=12, maximize=mx, levels=(1.0, None, 2.0, 3.0)), deviations=3 if ins == "greedy" else 2, weight=8))
            for init, births, size, faults in ((2, 3, 2, 1) if ins == "greedy" or big else (2, 2, 2, 1), (3, 2, 2, 2) if big else (3, 2, 2, 1) if ins == "greedy" else (3, 1, 2, 1), (1, 4, 2, 2) if big else (1, 4, 2, 1)):
                out.append(S("run-%s-%d-%d-%d-%s" % (ins, init, births, size, mx), whole,
                             dict(inserter=ins, init=init, births=births, size=size, maximize=mx, faults=faults,
                                  levels=(1.0, 2.0), serialise=(init == 2)), weight=12))
        for size in (1, 2, 3, 4):
            out.append(S("contest-%d-%s" % (size, mx), contest, dict(size=size, maximize=mx, levels=L if size < 4 else (None, 1.0, 2.0)), post=contest_post))
        for size in (20, 70, 300):
            up = [float(i) for i in range(size + 4)]
            for nm, fits in (("up", up), ("down", up[::-1]), ("zig", [float(-i if i % 2 else i) for i in range(size + 4)]), ("flat", [2.0] * (size + 4))):
                for ins in INS:
                    if ins == "greedy" or size < 300:
                        out.append(S("many-%s-%s-%d-%s" % (ins, nm, size, mx), sequence,
                                     dict(inserter=ins, size=size, n=size + 4, free=2, maximize=mx, levels=(size / 2 - 0.25, None, 2 * size + 0.5, -2.0 * size), series=fits,
                                          genome=[7] if nm == "flat" else None), deviations=None if ins == "greedy" else 2, big_choice=512, weight=9))
                if size == 70 or (size == 20 and nm == "flat"):
                    out.append(S("contest-%d-%s-%s" % (size, nm, mx), contest, dict(size=size, maximize=mx, fits=fits[:size], levels=(None, size / 2 + 0.25, 1e3, -1e3)), post=contest_post, big_choice=512, weight=3))
        for ins in INS:
            near = (1.0, 1.0 + 1e-7, 1.0 - 1e-7, None)
            out.append(S("near-%s-%s" % (ins, mx), sequence, dict(inserter=ins, size=2, n=5, maximize=mx, levels=near), weight=3))
            out.append(S("same-%s-%s" % (ins, mx), sequence, dict(inserter=ins, size=2, n=5, maximize=mx, levels=(1.0, 2.0, None), genome=[0, 1]), weight=3))
        out.append(S("default-%s" % mx, default_whole, dict(init=2, births=3 if big else 2, size=2, maximize=mx), weight=6))
    return out
