"""C13: island migration."""
import io
import csv
import itertools
import numpy as np
import networkx as nx
from mc.engine import S, require, fresh_context, check_distribution
from leap_ec import ops
from leap_ec.algorithm import multi_population_ea
from leap_ec.global_vars import context as global_context
from leap_ec.individual import Individual
from leap_ec.representation import Representation
from leap_ec.decoder import IdentityDecoder
from .common import Table

BOUNDS = {"quick": "2-4 islands (complete, ring, directed ring, star, path; 7-12 islands within 1 deviation), populations of 1-3, migration "
          "gaps 1-3, 1-4 generations of turns in order or 4 turns in any order, every emigrant, destination and contestant choice, "
          "fitness from 2 levels, both directions, customs stamps that keep, change or replace the arrival; whole multi-population "
          "runs within 2 deviations; single scenarios: late generations (counter starts above 100)"}
TOPO = {"k2": lambda: nx.complete_graph(2), "k3": lambda: nx.complete_graph(3), "ring4": lambda: nx.cycle_graph(4),
        "dring3": lambda: nx.cycle_graph(3, create_using=nx.DiGraph), "star3": lambda: nx.star_graph(2), "star4": lambda: nx.star_graph(3),
        "k7": lambda: nx.complete_graph(7), "star9": lambda: nx.star_graph(8), "ring12": lambda: nx.cycle_graph(12), "path3": lambda: nx.path_graph(3), "dpair": lambda: nx.DiGraph([(0, 1), (0, 2), (1, 0), (2, 1)])}


def val(f, maximize):
    return f if maximize else -f


def atleast(a, b, maximize):
    return val(a, maximize) >= val(b, maximize)


def matching(rows):
    """Assign a distinct element to every row, or None (augmenting paths)."""
    owner = {}

    def place(i, seen):
        for c in rows[i]:
            if c not in seen:
                seen.add(c)
                if c not in owner or place(owner[c], seen):
                    owner[c] = i
                    return True
        return False
    for i in range(len(rows)):
        if not place(i, set()):
            return None
    return owner


class Monitor:
    """Follows every emigrant from its source to its arrival."""

    def __init__(self, p, topo, ctx):
        self.p, self.topo, self.ctx = p, topo, ctx
        self.outstanding = []     # dicts
        self.turn = 0
        self.turns_of = {i: [] for i in topo.nodes}
        self.arrivals = []
        self.dests = []
        self.metric_rows = []
        self.stamped = []
        self.stray = []


def make_op(ctx, p, topo, mon, context):
    maximize = p["maximize"]

    def stamp(ind, island):
        sent = [o for o in mon.outstanding if o["genome"] == tuple(ind.genome) and ind.parents == {o["sponsor"].uuid}]
        require(sent, "an individual arrived that nobody sent: genome %r", tuple(ind.genome))
        o = sent[0]
        require(all(ind is not x["sponsor"] for x in sent), "the source's own individual was sent instead of a copy")
        require(ind.fitness == o["fitness"], "a copy arrived with fitness %r instead of %r", ind.fitness, o["fitness"])
        require(not np.shares_memory(ind.genome, o["sponsor"].genome), "the copy shares genome storage with its original")
        require(island == mon.current, "customs stamp told about island %r instead of %r", island, mon.current)
        sent = [o for o in sent if island in set(topo.neighbors(o["source"]))]
        require(sent, "an emigrant arrived at %r, not a neighbour of its source", island)
        sent = [o for o in sent if o["turn"] < mon.turn and not any(o["turn"] < t < mon.turn for t in mon.turns_of[island])]
        require(sent, "an emigrant arrived at island %r in the wrong turn", island)
        mon.arrivals.append([o["seq"] for o in sent])
        require(matching(mon.arrivals) is not None, "an emigrant arrived twice")
        mon.dests.append((sent[0]["seq"], island))
        out = ind
        if p.get("stamp") == "boost":
            ind.fitness = ind.fitness + (2 if maximize else -2)
        elif p.get("stamp") == "replace":
            out = Individual(ind.genome.copy(), decoder=IdentityDecoder(), problem=ind.problem)
            out.fitness = ind.fitness - (1 if maximize else -1)
        mon.stamped.append(out)
        return out

    def replacement(population, indices=None):
        require(population is mon.population or list(map(id, population)) == list(map(id, mon.expect)), "contestants drawn from another population")
        while True:
            i = ctx.pick(range(len(population)))
            if indices is not None:
                indices.clear()
                indices.append(i)
            mon.contestants.append((i, population[i]))
            yield population[i]

    def emigrant(population, indices=None):
        require(list(map(id, population)) == list(map(id, mon.expect_now())), "emigrant drawn from another population")
        while True:
            i = ctx.pick(range(len(population)))
            mon.sponsors.append(population[i])
            yield population[i]

    def metric(generation, ind, contestant, success):
        mon.metric_rows.append((generation, ind, contestant, success))
    op = ops.migrate(topology=topo, emigrant_selector=emigrant, replacement_selector=replacement, migration_gap=p["gap"],
                     customs_stamp=stamp, metric=metric, context=context)
    return op


def turn(ctx, p, op, mon, context, island, pop, generation):
    maximize = p["maximize"]
    context["leap"]["generation"] = generation
    context["leap"]["current_subpopulation"] = island
    mon.turn += 1
    mon.current = island
    mon.population = pop
    mon.expect = list(pop)
    mon.contestants, mon.sponsors, mon.stamped, mon.metric_rows = [], [], [], []
    start = list(pop)

    def expect_now():
        cur = list(start)
        for (i, c), imm in zip(mon.contestants, mon.stamped):
            if atleast(imm.fitness, c.fitness, maximize):
                cur[i] = imm
        return cur
    mon.expect_now = expect_now
    fits = [x.fitness for x in pop]
    res = op(pop)
    require(len(mon.contestants) == len(mon.stamped), "%d arrivals but %d contestants chosen", len(mon.stamped), len(mon.contestants))
    want = expect_now()
    require(len(res) == len(start), "island size changed from %d to %d", len(start), len(res))
    require(all(a is b for a, b in zip(res, want)), "island %d holds %r, should hold %r", island, [x.fitness for x in res], [x.fitness for x in want])
    require([x.fitness for x in start] == fits, "a member's fitness was changed")
    require(len(mon.metric_rows) == len(mon.stamped), "%d arrivals, %d reported", len(mon.stamped), len(mon.metric_rows))
    for (g, imm, c, ok), (i, c2), imm2 in zip(mon.metric_rows, mon.contestants, mon.stamped):
        require(g == generation and imm is imm2 and c is c2 and bool(ok) == atleast(imm2.fitness, c2.fitness, maximize),
                "a migration attempt was misreported: %r", (g, imm.fitness, c.fitness, ok))
    due = generation % p["gap"] == 0
    require(len(mon.sponsors) == (1 if due else 0), "%d emigrants selected in generation %d with gap %d", len(mon.sponsors), generation, p["gap"])
    if due:
        s = mon.sponsors[0]
        require(any(x is s for x in res), "the source lost its member")
        mon.outstanding.append(dict(sponsor=s, genome=tuple(s.genome), fitness=s.fitness, source=island, turn=mon.turn, seq=len(mon.outstanding)))
    mon.turns_of[island].append(mon.turn)
    return res


def make_pops(ctx, p, topo, problem):
    ids = itertools.count()
    pops = []
    for i in range(topo.number_of_nodes()):
        pop = []
        for k in range(p["size"]):
            ind = Individual(np.array([next(ids)]), decoder=IdentityDecoder(), problem=problem)
            ind.fitness = ctx.pick(p["levels"]) if not p.get("fixed") else (i * 2 + k * 3) % 4
            pop.append(ind)
        if p.get("twice") and i == p["twice"] - 1:
            pop.append(pop[0])
        pops.append(pop)
    return pops


def turns(ctx, p):
    topo = TOPO[p["topo"]]()
    problem = Table(lambda ph: 0, p["maximize"])
    pops = make_pops(ctx, p, topo, problem)
    context = global_context if p.get("global") else fresh_context()
    if not p.get("global"):
        global_context["leap"]["generation"] = "untouched"
    mons = [Monitor(p, topo, ctx) for _ in range(p.get("ops", 1))]
    op = [make_op(ctx, p, topo, m, context) for m in mons]
    n = topo.number_of_nodes()
    if p.get("anyorder"):
        plan = [(ctx.pick(range(n)), ctx.pick(range(p["gap"] + 1))) for _ in range(p["turns"])]
    else:
        plan = [(i, p.get("from", 0) + g) for g in range(p["gens"]) for i in range(n)]
    for t, (i, g) in enumerate(plan):
        for m, o in zip(mons, op):
            pops[i] = turn(ctx, p, o, m, context, i, pops[i], g)
    # one more quiet turn everywhere: everybody must have arrived
    quiet = p.get("from", 0) // p["gap"] * p["gap"] + 1 if p["gap"] > 1 else None
    if quiet is not None:
        for i in range(n):
            for m, o in zip(mons, op):
                pops[i] = turn(ctx, p, o, m, context, i, pops[i], quiet)
        for m in mons:
            require(len(m.arrivals) == len(m.outstanding), "%d emigrants sent, %d arrived", len(m.outstanding), len(m.arrivals))
    else:
        # every turn sends somebody; an emigrant may only be missing while some neighbour has not had its next turn
        for m in mons:
            must = [o["seq"] for o in m.outstanding if not any(
                not any(t > o["turn"] for t in m.turns_of[d]) for d in topo.neighbors(o["source"]))]
            rows = [[i for i, a in enumerate(m.arrivals) if s in a] for s in must]
            require(matching(rows) is not None, "an emigrant never arrived")
    if p.get("dist"):
        m = mons[0]
        d = dict(m.dests)
        return ("dest",), tuple(d.get(i) for i in range(1))
    return tuple(tuple(x.fitness for x in pop) for pop in pops)


def dest_post(p, group, dist):
    topo = TOPO[p["topo"]]()
    nb = list(topo.neighbors(0))
    check_distribution(dist, {(d,): 1.0 / len(nb) for d in nb}, "destination of island 0's emigrant")


def far(ctx, p):
    """Island 0 of a large topology sends once; who receives?"""
    topo = TOPO[p["topo"]]()
    problem = Table(lambda ph: 0, p["maximize"])
    context = fresh_context()
    got = []

    def stamp(ind, island):
        got.append(island)
        return ind

    def first(population, indices=None):
        while True:
            if indices is not None:
                indices[:] = [0]
            yield population[0]
    op = ops.migrate(topo, first, first, 5, customs_stamp=stamp, context=context)
    for t, i in [(0, 0)] + [(1, k) for k in range(topo.number_of_nodes())]:
        ind = Individual(np.array([i]), decoder=IdentityDecoder(), problem=problem)
        ind.fitness = 1.0
        context["leap"].update(generation=t, current_subpopulation=i)
        op([ind])
    require(len(got) == 1, "%d arrivals of one emigrant", len(got))
    return ("dest",), tuple(got)


def whole(ctx, p):
    """The operator inside multi_population_ea with LEAP's own selectors, recording arrivals through the public hooks."""
    topo = TOPO[p["topo"]]()
    n = topo.number_of_nodes()
    problem = Table(lambda ph: float(ph[0] % 3), p["maximize"])
    ids = itertools.count()
    context = fresh_context()
    buf = io.StringIO()
    mm = ops.migration_metric(buf, header=p.get("header", True), notes={"run": 7} if p.get("notes") else None)
    arrivals, sent = [], []

    def stamp(ind, island):
        arrivals.append((ind, island, context["leap"]["generation"]))
        return ind
    calls = []

    def metric(g, imm, c, s):
        calls.append((g, imm.fitness, c.fitness, bool(s)))
        mm(g, imm, c, s)

    def emi(population, indices=None):
        it = (ops.tournament_selection if p["emi"] == "tournament" else ops.random_selection)(population)
        while True:
            x = next(it)
            sent.append((x, context["leap"]["current_subpopulation"], context["leap"]["generation"]))
            yield x
    op = ops.migrate(topology=topo, emigrant_selector=emi,
                     replacement_selector=ops.random_selection if p["rep"] == "random" else ops.tournament_selection(select_worst=True),
                     migration_gap=p["gap"], customs_stamp=stamp, metric=metric, context=context)
    before = {}

    def note(pop):
        before[context["leap"]["current_subpopulation"]] = list(pop)
        return pop

    def after(pop):
        i = context["leap"]["current_subpopulation"]
        require(len(pop) == p["size"], "island size changed to %d", len(pop))
        old = before[i]
        newc = [x for x in pop if not any(x is y for y in old)]
        arr = [a for a, isl, g in arrivals if isl == i and g == context["leap"]["generation"]]
        require(all(any(x is a for a in arr) for x in newc), "a stranger entered island %d", i)
        b, a = max([val(x.fitness, p["maximize"]) for x in old]), max([val(x.fitness, p["maximize"]) for x in pop])
        require(a >= min(b, a) and (a >= b or len(arr) > 0), "island lost its best member to nobody")
        for x, y in zip(old, pop):
            require(x is y or val(y.fitness, p["maximize"]) >= val(x.fitness, p["maximize"]), "a better member was replaced by a worse arrival")
        return pop
    rep = Representation(initialize=lambda: np.array([next(ids)]))
    pops = multi_population_ea(max_generations=p["gens"], num_populations=n, pop_size=p["size"], problem=problem, representation=rep,
                               shared_pipeline=[note, op, after], context=context)
    require(len(pops) == n and all(len(x) == p["size"] for x in pops), "populations have the wrong shape")
    due = [g for g in range(p["gens"]) if g % p["gap"] == 0]
    require(len(sent) == len(due) * n, "%d emigrants selected, %d due", len(sent), len(due) * n)
    require(len(calls) == len(arrivals), "%d attempts reported for %d arrivals", len(calls), len(arrivals))
    rows = list(csv.reader(io.StringIO(buf.getvalue())))
    if p.get("header", True):
        want = (["run"] if p.get("notes") else []) + ["generation", "migrant_fitness", "contestant_fitness", "success"]
        require(rows[:1] == [want], "metric header is %r", rows[:1])
        rows = rows[1:]
    require(rows == [(["7"] if p.get("notes") else []) + [str(v) for v in c] for c in calls], "metric rows %r, attempts %r", rows, calls)
    for x, src, g in sent:
        got = [a for a in arrivals if a[0].parents == {x.uuid} and a[1] in set(topo.neighbors(src)) and a[2] in (g, g + 1)]
        if g + 1 < p["gens"]:
            require(got, "the emigrant of island %d in generation %d never arrived", src, g)
    return tuple(tuple(int(x.genome[0]) for x in pop) for pop in pops)


def bare(ctx, p):
    """Two islands, nothing optional given (or a metric without a stream): predict the islands exactly."""
    problem = Table(lambda ph: 0, p["maximize"])
    topo = TOPO["k2"]()
    pops = make_pops(ctx, p, topo, problem)
    context = fresh_context()
    chosen, sent = [], []

    def replacement(population, indices=None):
        while True:
            i = ctx.pick(range(len(population)))
            indices.clear()
            indices.append(i)
            chosen.append(i)
            yield population[i]

    def emigrant(population):
        while True:
            x = ctx.pick(population)
            sent.append(x)
            yield x
    kw = dict(metric=ops.migration_metric(None)) if p["nostream"] else {}
    op = ops.migrate(topo, emigrant, replacement, p["gap"], context=context, **kw)
    waiting = {0: [], 1: []}
    for g in range(p["gens"]):
        for i in (0, 1):
            context["leap"].update(generation=g, current_subpopulation=i)
            chosen.clear()
            sent.clear()
            old = list(pops[i])
            res = op(pops[i])
            require(len(res) == len(old), "island size changed from %d to %d", len(old), len(res))
            require(len(chosen) == len(waiting[i]), "%d contestants for %d arrivals", len(chosen), len(waiting[i]))
            want = [(x.uuid, x.fitness) for x in old]
            for k, s in zip(chosen, waiting[i]):
                if val(s.fitness, p["maximize"]) >= val(want[k][1], p["maximize"]):
                    want[k] = ({s.uuid}, s.fitness)
            got = [(x.uuid, x.fitness) for x in res]
            for (a, b), w, x in zip(got, want, res):
                require(b == w[1] and (a == w[0] or x.parents == w[0]), "island %d holds fitnesses %r, should hold %r", i, [v for _, v in got], [v for _, v in want])
            waiting[i] = []
            require(len(sent) == (1 if g % p["gap"] == 0 else 0), "%d emigrants in generation %d, gap %d", len(sent), g, p["gap"])
            waiting[1 - i] += sent
            pops[i] = res
    return tuple(tuple(x.fitness for x in pop) for pop in pops)


def scenarios(tier):
    big = tier == "thorough"
    out = []

    def add(kind, fn, topo, size, gap, maximize=True, dev=None, post=None, weight=1, **p):
        p.update(topo=topo, size=size, gap=gap, maximize=maximize)
        p.setdefault("levels", (1, 2))
        extra = "-".join("%s=%s" % (k, v) for k, v in sorted(p.items()) if k not in ("topo", "size", "gap", "maximize", "levels"))
        name = "%s-%s-%d-%d-%s-%s%s" % (kind, topo, size, gap, maximize, extra, "" if dev is None else "-dev%d" % dev)
        out.append(S(name, fn, p, deviations=dev, post=post, weight=weight))
    for maximize in (True, False):
        for stamp in ("keep", "boost", "replace"):
            add("turns", turns, "k2", 1, 2, maximize, gens=3, stamp=stamp, levels=(1, 2, 3), weight=20)
            add("turns", turns, "k2", 2, 2, maximize, gens=2, stamp=stamp, weight=50)
        add("turns", turns, "k2", 1, 1, maximize, gens=3, stamp="keep", levels=(1, 2, 3), weight=20)
        add("any", turns, "k2", 1, 2, maximize, anyorder=True, turns=4, stamp="keep", weight=60)
        add("any", turns, "k3", 1, 2, maximize, anyorder=True, turns=3, stamp="keep", weight=60)
        for t in ("k3", "dring3", "star3", "path3", "dpair"):
            add("turns", turns, t, 1, 2, maximize, gens=2 if not big else 3, stamp="keep", weight=30)
            add("turns", turns, t, 1, 3, maximize, gens=4, stamp="keep", weight=30)
            add("turns", turns, t, 2, 2, maximize, gens=3, stamp="keep", fixed=True, dev=3 if not big else 4, weight=80)
        add("turns", turns, "ring4", 1, 2, maximize, gens=2, stamp="keep", fixed=True, weight=30)
        add("turns", turns, "star4", 2, 2, maximize, gens=4, stamp="replace", fixed=True, dev=3, weight=80)
        add("turns", turns, "k3", 3, 1, maximize, gens=5, stamp="boost", fixed=True, dev=2, weight=80)
        add("turns", turns, "k2", 2, 2, maximize, gens=2, stamp="keep", twice=2, fixed=True, weight=10)
        add("turns", turns, "k2", 1, 2, maximize, gens=2, stamp="keep", ops=2, weight=30)
        add("turns", turns, "k2", 1, 2, maximize, gens=2, stamp="keep", **{"global": True})
        add("turns", turns, "ring12", 1, 2, maximize, gens=3, stamp="keep", fixed=True, dev=1, weight=40)
        add("turns", turns, "k7", 2, 2, maximize, gens=3, stamp="keep", fixed=True, dev=1, weight=40)
        add("turns", turns, "k2", 2, 7, maximize, gens=16, stamp="keep", fixed=True, dev=2, weight=40)
        add("tied", turns, "k2", 1, 2, maximize, gens=3, stamp="keep", levels=(0.3, 0.3 + 1e-6, 0.3 - 1e-7), weight=20)
        for frm, gap in ((4094, 4), (100000, 3), (2 ** 31, 2), (999, 1000)):
            add("turns", turns, "k2", 1, gap, maximize, gens=3, stamp="keep", fixed=True, weight=5, **{"from": frm})
        for t in ("k3", "star4", "ring4", "dring3", "dpair"):
            add("dest", turns, t, 1, 9, maximize, gens=2, stamp="keep", fixed=True, dist=True, post=dest_post, weight=20)
        for t in ("k7", "star9"):       # the first emigrant, all destinations; everything else at its default
            out.append(S("far-%s-%s" % (t, maximize), far, dict(topo=t, maximize=maximize), post=dest_post))
        for nostream in (False, True):
            add("bare", bare, "k2", 2, 1, maximize, gens=2, nostream=nostream, weight=20)
            add("bare", bare, "k2", 1, 2, maximize, gens=4, nostream=nostream, weight=20)
        for emi, rep in (("random", "random"), ("tournament", "tournament")):
            add("whole", whole, "k2", 1, 1, maximize, gens=2, emi=emi, rep=rep, weight=20)
            add("whole", whole, "k3", 2, 2, maximize, gens=3, emi=emi, rep=rep, dev=2, notes=True, weight=40)
            add("whole", whole, "ring4", 2, 1, maximize, gens=4, emi=emi, rep=rep, dev=2, header=False, weight=40)
    return out
