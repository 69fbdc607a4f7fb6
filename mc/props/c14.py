"""C14: cooperative evaluation."""
import csv
import io
import itertools
import numpy as np
from toolz import pipe
from mc.engine import S, require, fresh_context, check_distribution, close
from leap_ec import ops
from leap_ec.algorithm import multi_population_ea
from leap_ec.decoder import IdentityDecoder
from leap_ec.global_vars import context as global_context
from leap_ec.individual import Individual, WholeEvaluatedIndividual
from leap_ec.problem import CooperativeProblem
from leap_ec.representation import Representation
from .common import Table

BOUNDS = {"quick": "1-3 subpopulations of 1-2 members with parts of 1-2 genes, every current position, 1-3 trials, every collaborator "
          "choice, operator and problem form (streamed, grouped), custom combination and decoder, with and without log; 12 "
          "subpopulations, 24 trials or 30 members within 1-2 deviations; multi-population runs of 1-3 generations within 3 "
          "deviations; exact collaborator probabilities for random selection; single scenarios: parts of mixed element types"}


def worth(ph):
    """Depends on every gene and its position."""
    t = 0.0
    for k, v in enumerate(np.ravel(ph)):
        t += float(v) * (k + 1) ** 2 + (k % 2) * 0.25 * float(v) ** 2 + float(v) / 7
    return t


class Twice(IdentityDecoder):
    def decode(self, genome, *args, **kwargs):
        return np.asarray(genome) * 2 + 1


def build(p, problem, cls, decoder):
    pops, k = [], 1
    for i in range(p["islands"]):
        pop = []
        for j in range(p["size"]):
            ln = 1 + (i % 2 if p.get("uneven") else 0)
            dt = p.get("dtypes", (int,))
            ind = cls(np.array([k * 3 + t + 0.5 for t in range(ln)] if p.get("dtypes") else [k * 3 + t for t in range(ln)]).astype(dt[i % len(dt)]), decoder=decoder, problem=problem)
            ind.fitness = k + 1 / 3
            k += 1
            pop.append(ind)
        pops.append(pop)
    return pops


def snapshot(ind):
    return (id(ind.genome), tuple(ind.genome), ind.fitness, ind.uuid, frozenset(ind.parents), id(ind.problem), id(ind.decoder))


def run(ctx, p):
    dec = Twice() if p.get("decoder") else IdentityDecoder()
    whole_problem = Table(worth, p.get("maximize", True))
    context = global_context if p.get("global") else fresh_context()
    buf = io.StringIO() if p.get("log") else None
    chosen = []
    pops = None

    def selector(population, *a, **k):
        isl = [i for i, q in enumerate(pops) if q is population]
        require(len(isl) == 1, "collaborators are chosen from something that is not a subpopulation")
        while True:
            j = ctx.pick(range(len(population)))
            chosen.append((isl[0], population[j]))
            yield population[j]
    sel = ops.random_selection if p.get("real") else selector
    if p["form"] == "op":
        kw = {}
        if p.get("combine"):
            def comb(collabs):
                c = collabs[0].clone()
                c.genome = np.concatenate([x.genome for x in reversed(collabs)])
                return c
            kw["combine"] = comb
        ev = ops.CooperativeEvaluate(num_trials=p["trials"], collaborator_selector=sel, log_stream=buf, context=context, **kw)
        pops = build(p, whole_problem, Individual, dec)
    else:
        kw = {}
        if p.get("combine"):
            kw["combine_genomes"] = lambda gs: np.concatenate(list(reversed(gs)))
        prob = CooperativeProblem(whole_problem, num_trials=p["trials"], collaborator_selector=sel, combined_decoder=dec, log_stream=buf, context=context, **kw)
        pops = build(p, prob, WholeEvaluatedIndividual, IdentityDecoder())
    cur = ctx.pick(range(p["islands"]))
    context["leap"]["subpopulations"] = pops
    context["leap"]["current_subpopulation"] = cur
    context["leap"]["generation"] = 5
    newcomers = []
    for j in range(p["inds"]):
        m = pops[cur][0].clone()
        m.genome = np.array([90 + 7 * j + t for t in range(len(m.genome))], dtype=m.genome.dtype)
        newcomers.append(m)
    lists = [list(q) for q in pops]
    before = [[snapshot(x) for x in q] for q in pops]
    mine = [snapshot(x) for x in newcomers]
    if p["form"] == "op":
        got = list(itertools.islice(ev(iter(newcomers)), len(newcomers)))
    elif p["form"] == "problem":
        got = list(itertools.islice(ops.evaluate(iter(newcomers)), len(newcomers)))
    else:
        got = ops.grouped_evaluate(list(newcomers), max_individuals_per_chunk=p.get("chunk", 2))
    require(len(got) == len(newcomers) and all(a is b for a, b in zip(got, newcomers)), "other individuals came back")
    require(all(len(a) == len(b) and all(x is y for x, y in zip(a, b)) for a, b in zip(pops, lists)), "a subpopulation was changed")
    require([[snapshot(x) for x in q] for q in pops] == before, "a collaborator was changed")
    for a, b in zip(mine, [snapshot(x) for x in newcomers]):
        require(a[:2] + a[3:] == b[:2] + b[3:], "the evaluated individual was changed")
    n, T = p["islands"], p["trials"]
    if p.get("real"):
        return (cur,), tuple(whole_problem.log)
    # model: the recorded choices, in order, give each trial's whole
    require(len(chosen) == (n - 1) * T * len(newcomers), "%d collaborators chosen for %d trials of %d individuals", len(chosen), T, len(newcomers))
    want_log, rows = [], []
    it = iter(chosen)
    for ind in newcomers:
        fits = []
        for t in range(T):
            parts = []
            for i in range(n):
                if i == cur:
                    parts.append(ind)
                else:
                    isl, c = next(it)
                    require(isl == i, "collaborator for position %d came from subpopulation %d", i, isl)
                    parts.append(c)
            order = list(reversed(parts)) if p.get("combine") else parts
            g = np.concatenate([x.genome for x in order])
            ph = dec.decode(g)
            want_log.append(tuple(ph.tolist()))
            fits.append(worth(ph))
            for i, c in enumerate(parts):
                rows.append(["5", str(cur), "Collaborator", str(i), str(c.genome), None if c is ind else str(c.fitness)])
            rows.append(["5", str(cur), "Combined Individual", "", str(g), str(worth(ph))])
        require(close(float(ind.fitness), sum(fits) / T), "fitness %r is not the mean of %r", ind.fitness, fits)
    require(whole_problem.log == want_log, "wholes evaluated: %r, should be %r", whole_problem.log, want_log)
    if buf is not None:
        got_rows = list(csv.reader(io.StringIO(buf.getvalue())))
        require(got_rows[0] == ["generation", "subpopulation", "individual_type", "collaborator_subpopulation", "genome", "fitness"], "log header %r", got_rows[0])
        got_rows = got_rows[1:]
        require(len(got_rows) == len(rows), "%d log rows, should be %d", len(got_rows), len(rows))
        for a, b in zip(got_rows, rows):
            require(a[:5] == b[:5] and (b[5] is None or a[5] == b[5]), "log row %r, should be %r", a, b)
    return tuple(x.fitness for x in newcomers)


def real_post(p, group, dist):
    (cur,) = group
    pops = build(p, None, Individual, IdentityDecoder())
    me = np.array([90 + t for t in range(len(pops[cur][0].genome))])
    one = {}
    others = [[x.genome for x in q] if i != cur else [me] for i, q in enumerate(pops)]
    combos = list(itertools.product(*others))
    for c in combos:
        one[tuple(np.concatenate(c).tolist())] = 1.0 / len(combos)
    want = {(): 1.0}
    for _ in range(p["trials"]):
        want = {a + (b,): pa * pb for a, pa in want.items() for b, pb in one.items()}
    check_distribution(dist, want, "wholes assembled at position %d" % cur)


def whole_run(ctx, p):
    """Several generations of a cooperative run; the evaluated wholes must use the islands' current members."""
    n = p["islands"]
    context = fresh_context()
    whole_problem = Table(worth, True)
    pops_now = {}
    ids = itertools.count(1)
    trials = []

    def selector(population, *a, **k):
        require(any(list(map(id, population)) == list(map(id, q)) for q in pops_now.values()), "collaborators chosen from a population that is not current")
        isl = [i for i, q in pops_now.items() if list(map(id, q)) == list(map(id, population))]
        while True:
            x = population[ctx.pick(range(len(population)))]
            trials.append((isl[0], x))
            yield x
    ev = ops.CooperativeEvaluate(num_trials=p["trials"], collaborator_selector=selector, context=context)

    def fresh(it):
        while True:
            x = next(it)
            x.genome = np.array([next(ids)])
            yield x
    order = []

    def init(pop):
        i = len(pops_now)
        pops_now[i] = list(pop)
        for x in pop:
            x.fitness = -100.0
        return pop

    def start(pop):
        i = context["leap"]["current_subpopulation"]
        require(list(map(id, pop)) == list(map(id, pops_now[i])), "island %d was handed another population", i)
        del trials[:], whole_problem.log[:]
        order.append((context["leap"]["generation"], i))
        return pop

    def done(off):
        i = context["leap"]["current_subpopulation"]
        it = iter(trials)
        wl = []
        for x in off:
            fits = []
            for _ in range(p["trials"]):
                parts = []
                for k in range(n):
                    if k == i:
                        parts.append(x)
                    else:
                        isl, c = next(it)
                        require(isl == k, "position %d filled from island %d", k, isl)
                        parts.append(c)
                g = tuple(np.concatenate([q.genome for q in parts]).tolist())
                wl.append(g)
                fits.append(worth(g))
            require(close(x.fitness, sum(fits) / len(fits)), "fitness %r, trials %r", x.fitness, fits)
        require(wl == whole_problem.log, "wholes %r, should be %r", whole_problem.log, wl)
        pops_now[i] = list(off)
        return off
    rep = Representation(initialize=lambda: np.array([next(ids)]))
    res = multi_population_ea(max_generations=p["gens"], num_populations=n, pop_size=p["size"], problem=whole_problem, representation=rep, init_evaluate=init,
                              shared_pipeline=[start, ops.naive_cyclic_selection, ops.clone, fresh, ev, ops.pool(size=p["size"]), done], context=context)
    require(order == [(g, i) for g in range(p["gens"]) for i in range(n)], "islands took turns %r", order)
    return tuple(tuple(x.fitness for x in q) for q in res)


def scenarios(tier):
    big = tier == "thorough"
    out = []

    def add(kind, fn, dev=None, post=None, weight=1, **p):
        name = kind + "-" + "-".join("%s=%s" % kv for kv in sorted(p.items())) + ("" if dev is None else "-dev%d" % dev)
        out.append(S(name, fn, p, deviations=dev, post=post, weight=weight))
    for form in ("op", "problem", "grouped"):
        for islands in (1, 2, 3):
            for size in (1, 2):
                for trials in (1, 2, 3):
                    if size == 2 and islands == 3 and trials == 3 and not big:
                        continue
                    for extra in (dict(), dict(log=True), dict(uneven=True, log=True), dict(combine=True), dict(decoder=True, uneven=True)):
                        add("one", run, form=form, islands=islands, size=size, trials=trials, inds=1, weight=20, **extra)
                if size == 2:
                    add("two", run, form=form, islands=islands, size=size, trials=2, inds=2, log=True, weight=40, dev=None if islands < 3 else 4)
                    add("three", run, form=form, islands=islands, size=size, trials=1, inds=3, chunk=1, weight=40)
        add("many", run, form=form, islands=2, size=2, trials=24, inds=1, log=True, weight=9, dev=2)
        add("many", run, form=form, islands=12, size=2, trials=2, inds=2, log=True, uneven=True, weight=9, dev=1)
        add("many", run, form=form, islands=3, size=30, trials=1, inds=2, weight=9, dev=2)
        for ts in ((int, float), (float, int), (np.int8, float, int), (bool, np.float32)):     # parts of different kinds
            for log in (False, True):
                add("kinds", run, form=form, islands=3, size=2, trials=1, inds=1, dtypes=ts, log=log, uneven=True)
        add("glob", run, form=form, islands=2, size=2, trials=2, inds=1, **{"global": True})
        add("min", run, form=form, islands=2, size=2, trials=2, inds=1, maximize=False)
        for n, t in ((2, 1), (3, 1), (2, 2), (3, 2)):
            add("real", run, form=form, islands=n, size=2, trials=t, inds=1, real=True, uneven=True, post=real_post, weight=20)
    for n in (1, 2, 3):
        for t in (1, 2):
            add("run", whole_run, islands=n, size=2, trials=t, gens=3, dev=2 if n * t == 6 and not big else 3, weight=60)
    return out
