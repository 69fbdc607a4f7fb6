"""C19: probes - no interference, true entries."""
import csv
import io
import itertools
import math
import numpy as np
from matplotlib import pyplot as plt
from matplotlib.figure import Figure
from gymnasium import spaces
from mc.engine import S, require, close
from leap_ec import probe
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import ScalarProblem
from leap_ec.global_vars import context as global_context
from leap_ec.distrib import probe as dprobe
from leap_ec.multiobjective.probe import ParetoPlotProbe2D
from leap_ec.executable_rep.rules import PlotPittRuleProbe, PittRulesDecoder
from .common import Table, better

BOUNDS = {"quick": "every history of 3 calls (4 for intervals) with populations of 1-2 (3) individuals over 3 fitness values, both "
          "directions, with all reporting options; reporting intervals 1-4 with start generations 0-2; plots: histories of 3 calls "
          "over 3 populations; diversity metrics on every population of up to 3 genomes over 3 values; single scenarios: "
          "populations of hundreds, 1300-point plots, Pareto plots"}

plt.pause = lambda *a, **k: None


def axes():
    f = Figure()
    ax = f.add_subplot()
    f.canvas.draw = lambda *a, **k: None
    plt.sca = lambda *a: None
    return ax


plt.title = lambda *a, **k: None      # acts on the current figure; none is open here


class Fit(ScalarProblem):
    def evaluate(self, phenome, *a, **k):
        return float(np.sum(phenome))


def people(ctx, p, t, sizes):
    """One generation's population; everybody is new."""
    prob = p["problem"]
    if "large" in p:
        n, genes = p["large"], p.get("genes", 2)
        pop = []
        at = ctx.pick_int(n) if t == 0 and p.get("spot", True) else (7 * t) % n
        for i in range(n):
            ind = Individual(np.array([(10 * t + i) / 7 + k / 3 for k in range(genes)]), decoder=IdentityDecoder(), problem=prob)
            best_one = (i == at)
            ind.fitness = (1e6 + 1 / 7 + t / 3 if prob.maximize else -1e6 - 1 / 7 - t / 3) if best_one else ((31 * i + 17 * t) % n) / 7 + t / 1000003
            ind.foo = "foo%d,%d" % (t, i)
            ind.bar = 10 * t + i
            pop.append(ind)
        return pop
    n = ctx.pick(sizes)
    pop = []
    for i in range(n):
        ind = Individual(np.array([10 * t + i, i]), decoder=IdentityDecoder(), problem=prob)
        ind.fitness = ctx.pick(p["values"])
        ind.foo = "foo%d%d" % (t, i)
        ind.bar = 10 * t + i
        pop.append(ind)
    return pop


def snap(pop):
    return [(id(x), id(x.genome), repr(x.genome), repr(x.fitness), x.uuid, frozenset(x.parents), x.foo, x.bar, id(x.problem), id(x.decoder)) for x in pop]


def called(ctx, op, pop, context):
    """Call a probe on a population; nothing may change, no randomness may be consumed."""
    before, order = snap(pop), list(pop)
    keep = repr(context)
    draws = len(ctx.run.trace)
    r = op(pop)
    if not any(np.any(np.isnan(np.asarray(x.fitness, dtype=float))) for x in order):  # comparing two failed individuals tosses a coin
        require(len(ctx.run.trace) == draws, "the probe draws random numbers")
    require(isinstance(r, list) and len(r) == len(order) and all(a is b for a, b in zip(r, order)), "the probe does not hand on the population it was given")
    require(len(pop) == len(order) and all(a is b for a, b in zip(pop, order)), "the probe rearranged the population")
    require(snap(pop) == before, "the probe changed an individual")
    require(repr(context) == keep, "the probe changed the context")
    require(str(np.array([1, 2])) == "[1 2]" and repr(np.array([1.5])) == "array([1.5])", "the probe changed how arrays print")
    return r


def contexts(p):
    if p.get("global"):
        global_context["leap"]["generation"] = 0
        return global_context, {}
    return {"leap": {"generation": 0}}, None


def best(fits, maximize):
    b = fits[0]
    for f in fits:
        if better(f, b, maximize):
            b = f
    return b


def same(a, b):
    return a == b or (a != a and b != b)


def bsf(ctx, p):
    p = dict(p, problem=Fit(p["max"]))
    c, _ = contexts(p)
    out = io.StringIO()
    kw = {} if p.get("global") else dict(context=c)
    op = probe.BestSoFarProbe(stream=out, header=p["header"], **kw)
    seen, want = [], []
    for t in range(p["calls"]):
        c["leap"]["generation"] = p["start"] + t
        pop = people(ctx, p, t, p["sizes"])
        called(ctx, op, pop, c)
        seen += [x.fitness for x in pop]
        want.append((p["start"] + t, best(seen, p["max"])))
        require(same(op.bsf.fitness, want[-1][1]), "bsf is %r", op.bsf.fitness)
    rows = list(csv.reader(out.getvalue().splitlines()))
    if p["header"]:
        require(rows[0] == ["step", "bsf"], "header %r", rows[:1])
        rows = rows[1:]
    require(len(rows) == len(want) and all(int(a) == g and same(float(b), f) for (a, b), (g, f) in zip(rows, want)),
            "best-so-far rows %r, should be %r", rows, want)
    return tuple((g, repr(f)) for g, f in want)


def bsf_iter(ctx, p):
    p = dict(p, problem=Fit(p["max"]))
    c, _ = contexts(p)
    out = io.StringIO()
    op = probe.BestSoFarIterProbe(stream=out, header=p["header"], context=c)
    seen, want = [], []
    for t in range(p["calls"]):
        c["leap"]["generation"] = p["start"] + t
        pop = people(ctx, p, t, p["sizes"])
        before = snap(pop)
        pulled = []

        def src():
            for x in pop:
                pulled.append(x)
                yield x
        stream = op(src())
        take = ctx.pick(range(len(pop) + 1))
        for k in range(take):
            c["leap"]["generation"] = p["start"] + t + (100 if k else 0)
            x = next(stream)
            require(x is pop[k] and len(pulled) == k + 1, "the stream is not passed through one by one")
            seen.append(x.fitness)
            want.append((c["leap"]["generation"], best(seen, p["max"])))
        require(snap(pop) == before, "the probe changed an individual")
    rows = list(csv.reader(out.getvalue().splitlines()))[1 if p["header"] else 0:]
    require(len(rows) == len(want) and all(int(a) == g and same(float(b), f) for (a, b), (g, f) in zip(rows, want)),
            "best-so-far rows %r, should be %r", rows, want)
    return tuple((g, repr(f)) for g, f in want)


def stats(ctx, p):
    p = dict(p, problem=Fit(p["max"]))
    c, _ = contexts(p)
    out = io.StringIO()
    kw = {} if p.get("global") else dict(context=c)
    o = p["options"]
    op = probe.FitnessStatsCSVProbe(stream=out, header=p["header"], modulo=p["modulo"],
                                    job=7 if "job" in o else None, notes={"note": "abc", "more": 3} if "notes" in o else None,
                                    extra_metrics={"total": lambda pop: sum(x.fitness for x in pop), "size": len} if "extra" in o else None,
                                    comment="one\ntwo" if "comment" in o else None, **kw)
    seen, want = [], []
    texts = []
    for t in range(p["calls"]):
        gen = p["start"] + t
        c["leap"]["generation"] = gen
        pop = people(ctx, p, t, p["sizes"])
        called(ctx, op, pop, c)
        fits = [x.fitness for x in pop]
        seen += fits
        require(out.getvalue().startswith(texts[-1] if texts else ""), "an earlier entry changed")
        texts.append(out.getvalue())
        if gen % p["modulo"] == 0:
            m = sum(fits) / len(fits)
            sd = math.sqrt(sum((f - m) ** 2 for f in fits) / len(fits))
            row = (["7"] if "job" in o else []) + (["abc", "3"] if "notes" in o else []) + [gen, best(seen, p["max"]), m, sd, min(fits), max(fits)] + \
                ([sum(fits), len(fits)] if "extra" in o else [])
            want.append(row)
    lines = out.getvalue().splitlines()
    if p["header"]:
        if "comment" in o:
            require(lines[:2] == ["# one", "# two"], "comment lines %r", lines[:2])
            lines = lines[2:]
        names = (["job"] if "job" in o else []) + (["note", "more"] if "notes" in o else []) + ["step", "bsf", "mean_fitness", "std_fitness", "min_fitness", "max_fitness"] + \
            (["total", "size"] if "extra" in o else [])
        require([x.strip() for x in lines[0].split(",")] == names, "header %r", lines[0])
        lines = lines[1:]
    require(len(lines) == len(want), "%d rows for %d due calls", len(lines), len(want))
    for line, row in zip(lines, want):
        got = [x.strip() for x in line.split(",")]
        require(len(got) == len(row), "row %r, should be %r", got, row)
        for g, w in zip(got, row):
            require(g == w if isinstance(w, str) else close(float(g), float(w)), "row %r, should be %r", got, row)
    return tuple(map(tuple, want))


def stats_many(ctx, p):
    """Populations of many sizes, with every individual in turn the odd one out."""
    n = ctx.pick((7, 16, 31, 40, 64, 101))
    odd = ctx.pick_int(n)
    out = io.StringIO()
    prob = Fit(p["max"])
    c = {"leap": {"generation": 4}}
    pop = []
    for i in range(n):
        ind = Individual(np.array([i]), decoder=IdentityDecoder(), problem=prob)
        ind.fitness = 50.0 if i == odd else float((i * 7) % 11) - 3
        ind.foo, ind.bar = i, i
        pop.append(ind)
    op = probe.FitnessStatsCSVProbe(stream=out, context=c)
    called(ctx, op, pop, c)
    fits = [x.fitness for x in pop]
    m = sum(fits) / n
    want = [4, best(fits, p["max"]), m, math.sqrt(sum((f - m) ** 2 for f in fits) / n), min(fits), max(fits)]
    got = [float(v) for v in out.getvalue().splitlines()[1].split(",")]
    require(len(got) == 6 and all(close(a, b) for a, b in zip(got, want)), "statistics %r of %d individuals, should be %r", got, n, want)
    return (n, odd)


def attributes(ctx, p):
    p = dict(p, problem=Fit(p["max"]))
    c, _ = contexts(p)
    o = p["options"]
    out = io.StringIO() if p["stream"] else None
    attrs = {"none": (), "foo": ("foo",), "both": ("bar", "foo")}[p["attrs"]]
    op = probe.AttributesCSVProbe(attributes=attrs, stream=out, do_dataframe=p["frame"], best_only=p["best"], header=p["header"],
                                  do_fitness="fitness" in o, do_genome="genome" in o, notes={"note": "x"} if "notes" in o else None,
                                  job=4 if "job" in o else None, context=c)
    names = (["job"] if "job" in o else []) + (["note"] if "notes" in o else []) + ["step"] + list(attrs) + (["fitness"] if "fitness" in o else []) + (["genome"] if "genome" in o else [])
    want = []
    for t in range(p["calls"]):
        c["leap"]["generation"] = p["start"] + t
        pop = people(ctx, p, t, p["sizes"])
        called(ctx, op, pop, c)
        who = pop
        if p["best"]:
            b = best([x.fitness for x in pop], p["max"])
            who = [x for x in pop if x.fitness == b]
        rows = [dict(job=4, note="x", step=p["start"] + t, foo=x.foo, bar=x.bar, fitness=x.fitness, genome=x.genome.tolist()) for x in who]
        want.append([[r[n] for n in names] for r in rows])

    def match(rows, conv):
        rows = list(rows)
        k = 0
        for gen in want:
            need = 1 if p["best"] else len(gen)
            part = rows[k:k + need]
            k += need
            if p["best"]:
                require(len(part) == 1 and part[0] in [conv(r) for r in gen], "rows %r, should be one of %r", part, gen)
            else:
                require(part == [conv(r) for r in gen], "rows %r, should be %r", part, [conv(r) for r in gen])
        require(k == len(rows), "%d rows, should be %d", len(rows), k)
    if p["stream"]:
        rows = list(csv.reader(out.getvalue().splitlines()))
        if p["header"]:
            require(rows[0] == names, "header %r", rows[:1])
            rows = rows[1:]
        match(rows, lambda r: [str(x) for x in r])
    if p["frame"]:
        df = op.dataframe
        require(list(df.columns) == names, "columns %r", list(df.columns))
        match([[v.tolist() if hasattr(v, "tolist") else v for v in row] for row in df.itertuples(index=False)], lambda r: r)
    return len(want), str(want)


def missing(ctx, p):
    ind = Individual(np.array([1]), problem=Fit(True))
    ind.fitness = 1.0
    c = {"leap": {"generation": 0}}
    try:
        probe.AttributesCSVProbe(attributes=("nope",), stream=io.StringIO(), context=c)([ind])
    except ValueError:
        pass
    else:
        require(False, "a missing attribute went unreported")
    try:
        probe.AttributesCSVProbe(stream=None, do_dataframe=False, context=c)
    except ValueError:
        pass
    else:
        require(False, "a probe that records nowhere was accepted")
    # a stream that breaks leaves the way arrays print alone
    class Broken:
        def write(self, s):
            if "99" in s:
                raise OSError("disk full")
    op = probe.AttributesCSVProbe(attributes=("x",), stream=Broken(), context=c)
    ind.x = 99
    try:
        op([ind])
    except OSError:
        pass
    require(str(np.array([1, 2])) == "[1 2]", "a failing stream leaves array printing changed")
    return True


def printing(ctx, p):
    p = dict(p, problem=Fit(True))
    out = io.StringIO()
    want = ""
    c = {"leap": {"generation": 0}}
    op = probe.print_probe(probe=lambda pop: "<%s>" % ",".join(str(x.bar) for x in pop), stream=out, prefix=p["prefix"])
    out2 = io.StringIO()
    it = probe.print_individual(prefix=p["prefix"], stream=out2)
    want2 = ""
    for t in range(2):
        pop = people(ctx, p, t, p["sizes"])
        called(ctx, op, pop, c)
        want += p["prefix"] + "<%s>" % ",".join(str(x.bar) for x in pop)
        require(out.getvalue() == want, "printed %r, should be %r", out.getvalue(), want)
        k = ctx.pick(range(len(pop) + 1))
        stream = it(iter(pop))
        for x in pop[:k]:
            require(next(stream) is x, "print_individual does not pass the individual on")
            want2 += p["prefix"] + str(x) + "\n"
            require(out2.getvalue() == want2, "printed %r, should be %r", out2.getvalue(), want2)
    return want


def plot(ctx, p):
    """The plotting probes show what they were given, when due."""
    pp = dict(p, problem=Fit(p["max"]))
    c = {"leap": {"generation": 0}}
    kind = p["kind"]
    ax = axes()
    if p.get("noax"):           # the probe opens its own figure
        mine = ax
        plt.subplots = lambda *a, **k: (mine.figure, mine)
        ax = None
    if kind == "metrics":
        op = probe.PopulationMetricsPlotProbe(ax=ax, metrics=[lambda pop: sum(x.fitness for x in pop), len], modulo=p["modulo"], context=c,
                                              **({} if not p.get("xval") else dict(x_axis_value=lambda: 50 + c["leap"]["generation"])))
    elif kind == "fitness":
        op = probe.FitnessPlotProbe(ax=ax, modulo=p["modulo"], context=c)
    elif kind == "cartesian":
        op = probe.CartesianPhenotypePlotProbe(ax=ax, modulo=p["modulo"], context=c)
    elif kind == "sum":
        op = probe.SumPhenotypePlotProbe(ax=ax, modulo=p["modulo"], context=c)
    elif kind == "hist":
        op = probe.HistPhenotypePlotProbe(ax=ax, modulo=p["modulo"], context=c)
    elif kind == "heat":
        op = probe.HeatMapPhenotypeProbe(ax=ax, modulo=p["modulo"], context=c)
    ax = op.ax
    shown, xs, ys = None, [], [[], []]
    for t in range(p["calls"]):
        gen = p["start"] + t
        c["leap"]["generation"] = gen
        pop = people(ctx, pp, t, p["sizes"])
        called(ctx, op, pop, c)
        if gen % p["modulo"] == 0:
            shown = pop
            xs.append(gen + (50 if p.get("xval") else 0))
            ys[0].append(best([x.fitness for x in pop], p["max"]) if kind == "fitness" else sum(x.fitness for x in pop))
            ys[1].append(len(pop))
        if kind in ("metrics", "fitness") and (t < 300 or t % 200 == 0 or t == p["calls"] - 1):
            for i in range(2 if kind == "metrics" else 1):
                line = ax.lines[i]
                require(list(line.get_xdata()) == xs and [float(v) for v in line.get_ydata()] == [float(v) for v in ys[i]],
                        "line %d shows %r / %r, should be %r / %r", i, list(line.get_xdata()), list(line.get_ydata()), xs, ys[i])
        elif kind in ("cartesian", "sum"):
            want = [] if shown is None else [(float(x.genome[0]), float(x.genome[1])) if kind == "cartesian" else (float(sum(x.genome)), float(x.fitness)) for x in shown]
            got = [tuple(map(float, r)) for r in np.asarray(op.sc.get_offsets())]
            require(got == want, "the plot shows %r, should show %r", got, want)
        elif kind == "hist" and shown is not None:
            total = sum(r.get_height() for r in ax.patches)
            require(total == p.get("genes", 2) * len(shown), "the histogram counts %r of %d genes", total, p.get("genes", 2) * len(shown))
    return tuple(xs)


class Many:
    """Any multi-objective problem will do: the probe only looks at recorded fitnesses."""
    maximize = np.array([1, -1])

    def worse_than(self, a, b):
        return tuple(a) < tuple(b)

    def equivalent(self, a, b):
        return tuple(a) == tuple(b)


def pareto(ctx, p):
    """The front plot shows the first two objectives of everybody, at the steps that are due."""
    key = p["key"]
    c = {"leap": {key: 0}}
    ax = axes()
    if p["noax"]:
        plt.subplots = lambda *a, **k: (ax.figure, ax)
    kw = {} if p["step"] == 1 else dict(step=p["step"])
    op = ParetoPlotProbe2D(ax=None if p["noax"] else ax, context=c, **kw)
    shown = []
    steps = []
    for t in range(p["calls"]):
        gen = p["start"] + t
        c["leap"][key] = gen
        pop = []
        for i in range(p.get("large") or ctx.pick((1, 2, 3))):
            ind = Individual(np.array([t, i]), decoder=IdentityDecoder(), problem=Many())
            f = [(ctx.pick((1 / 3, 2.0)) if not p.get("large") else i / 7 + t), 5.0 + i / 7 - t] + [99.0 + k for k in range(p["obj"] - 2)]
            ind.fitness = np.array(f) if i % 2 else f
            ind.foo = ind.bar = 0
            pop.append(ind)
        called(ctx, op, pop, c)
        if gen % p["step"] == 0:
            shown = [(float(x.fitness[0]), float(x.fitness[1])) for x in pop]
            steps.append(gen)
        got = [tuple(map(float, r)) for r in np.asarray(op.scatterplot.get_offsets())]
        require(got == shown, "the plot shows %r, should show %r", got, shown)
    return tuple(steps), tuple(shown)


def rules(ctx, p):
    """The rule plot shows the best individual's conditions."""
    n = p["inputs"]
    c = {"leap": {"generation": 0}}
    dec = PittRulesDecoder(spaces.Box(low=np.zeros(n), high=np.ones(n) * 9, dtype=np.float64), spaces.Discrete(2))
    ax = axes()
    kw = dict(plot_dimensions=p["dims"]) if p.get("dims") else {}
    op = PlotPittRuleProbe(dec, ax=ax, xlim=(-1, 11), ylim=(-2, 12), modulo=p["modulo"], context=c, **kw)
    d = p.get("dims") or (0, 1)
    prob = Fit(p["max"])
    shown = []
    for t in range(3):
        gen = p["start"] + t
        c["leap"]["generation"] = gen
        pop = []
        for i in range(2):
            g = [[(t + i + r + k) % 5 for k in range(2 * n)] + [r % 2] for r in range(1 + i)]
            ind = Individual(g, decoder=dec, problem=prob)
            ind.fitness = ctx.pick((1.0, 2.0))
            ind.foo = ind.bar = 0
            pop.append(ind)
        called(ctx, op, pop, c)
        if gen % p["modulo"] == 0:
            b = best([x.fitness for x in pop], p["max"])
            shown = [x for x in pop if x.fitness == b]
        want = []
        for s in shown:
            rects = []
            for r in s.genome:
                x0, x1, y0, y1 = r[2 * d[0]], r[2 * d[0] + 1], r[2 * d[1]], r[2 * d[1] + 1]
                if x0 > x1:
                    x0, x1 = -1, 11
                if y0 > y1:
                    y0, y1 = -2, 12
                rects.append((x0, y0, x1 - x0, y1 - y0))
            want.append(sorted(rects))
        got = sorted((r.get_x(), r.get_y(), r.get_width(), r.get_height()) for r in ax.patches)
        require(got in want or (not want and not got), "the plot shows %r, should show %r", got, want)
    return gen


def squared(genomes):
    return sum(2 * len(col) * sum((x - math.fsum(col) / len(col)) ** 2 for x in col) for col in zip(*genomes))


def metrics(ctx, p):
    n, L = p["n"], p["L"]
    prob = Fit(True)
    if p.get("near"):
        # one gene differs in one individual only, by little; the others vary around a large mean
        who, gene, by = ctx.pick_int(n), ctx.pick_int(L), ctx.pick((0.0, 0.06, -3.0, 0.5))
        off = ctx.pick((0.0, 1e4))
        genomes = [tuple(off + (by if (i, k) == (who, gene) else 0.0) + (0.0 if k == gene or k % 3 == 0 else ((5 * i + k) % 7) / 8) for k in range(L)) for i in range(n)]
    else:
        genomes = [tuple(ctx.pick(p["grid"]) for _ in range(L)) for _ in range(n)]
    pop = [Individual(np.array(g), problem=prob) for g in genomes]
    d = sum(sum((a - b) ** 2 for a, b in zip(x, y)) for x in genomes for y in genomes) if n < 20 else squared(genomes)
    require(close(float(probe.pairwise_squared_distance_metric(pop)), d, 1e-7), "pairwise distance of %r", genomes)
    var, fixed = 0.0, 0
    for i in range(L):
        col = [g[i] for g in genomes]
        m = sum(col) / n
        var += sum((x - m) ** 2 for x in col) / n
        fixed += len(set(col)) == 1
    require(close(float(probe.sum_of_variances_metric(pop)), var, 1e-7), "sum of variances of %r", genomes)
    require(int(probe.num_fixated_metric(pop)) == fixed, "fixated genes of %r", genomes)
    require([tuple(x.genome) for x in pop] == genomes, "a metric changed a genome")
    return tuple(genomes)


class Worker(Individual):
    pass


def workers(ctx, p):
    out, out2 = io.StringIO(), io.StringIO()
    rec = dprobe.log_worker_location(out, header=p["header"])
    popl = dprobe.log_pop(p["interval"], out2, header=p["header"])
    want, want2 = [], []
    pop = []
    for t in range(p["calls"]):
        ind = Individual(np.array([t]), problem=Fit(True))
        ind.fitness = ctx.pick((1.0, math.nan, 3)) if not p.get("long") else t / 7
        ind.hostname, ind.pid, ind.birth_id, ind.start_eval_time, ind.stop_eval_time = "h%d" % t, 40 + t, t, 100 + t, 200 + t
        rec(ind)
        want.append([ind.hostname, str(ind.pid), str(ind.uuid), str(t), str(100 + t), str(200 + t), str(ind.fitness)])
        if p.get("long"):
            pop[:] = (pop + [ind])[-3:]
        elif ctx.pick((0, 1)) or not pop:
            pop.append(ind)
        else:
            pop[ctx.pick(range(len(pop)))] = ind
        order = list(pop)
        popl(pop)
        require(len(pop) == len(order) and all(a is b for a, b in zip(pop, order)), "the population probe changed the population")
        if t % p["interval"] == 0:
            want2 += [[str(t), str(x.uuid), str(x.birth_id), str(x.start_eval_time), str(x.stop_eval_time), str(x.fitness)] for x in pop]
        if p.get("long") and t < p["calls"] - 1:
            continue
        rows, rows2 = list(csv.reader(out.getvalue().splitlines())), list(csv.reader(out2.getvalue().splitlines()))
        if p["header"]:
            require(rows[0] == ['hostname', 'pid', 'uuid', 'birth_id', 'start_eval_time', 'stop_eval_time', 'fitness'], "header %r", rows[0])
            require(rows2[0] == ['interval', 'uuid', 'birth_id', 'start_eval_time', 'stop_eval_time', 'fitness'], "header %r", rows2[0])
            rows, rows2 = rows[1:], rows2[1:]
        require(rows == want, "worker log %r, should be %r", rows, want)
        require(rows2 == want2, "population log %r, should be %r", rows2, want2)
    return len(want), len(want2)


def scenarios(tier):
    big = tier == "thorough"
    out = []
    V = (1.0, 2.0, 3.5)
    for mx in (True, False):
        for start in (0, 1):
            for header in (True, False):
                out.append(S("bsf-%s-%d-%s" % (mx, start, header), bsf, dict(max=mx, start=start, header=header, calls=3, sizes=(1, 2), values=V, **{"global": header}), weight=20))
                out.append(S("bsfiter-%s-%d-%s" % (mx, start, header), bsf_iter, dict(max=mx, start=start, header=header, calls=3 if big else 2, sizes=(1, 2), values=V), weight=20))
        VN = (1.0, -2.0, float("nan"))
        out.append(S("bsf-failed-%s" % mx, bsf, dict(max=mx, start=0, header=True, calls=2, sizes=(1, 2), values=VN), weight=10))
        out.append(S("bsfiter-failed-%s" % mx, bsf_iter, dict(max=mx, start=0, header=True, calls=2, sizes=(1, 2), values=VN), weight=10))
        out.append(S("stats-many-%s" % mx, stats_many, dict(max=mx), weight=10))
        out.append(S("bsf-wide-%s" % mx, bsf, dict(max=mx, start=0, header=True, calls=2, sizes=(3,), values=V), weight=20))
        out.append(S("bsfiter-wide-%s" % mx, bsf_iter, dict(max=mx, start=0, header=True, calls=2, sizes=(1, 2, 3) if big else (3,), values=V), weight=20))
        for opts in ((), ("job",), ("notes",), ("extra",), ("comment", "job", "notes", "extra")):
            out.append(S("stats-%s-%s" % (mx, opts), stats, dict(max=mx, start=0, header=True, modulo=1, calls=2, sizes=(1, 2, 3), values=V, options=opts, **{"global": not opts}), weight=40))
            out.append(S("stats-nohead-%s-%s" % (mx, opts), stats, dict(max=mx, start=3, header=False, modulo=1, calls=2, sizes=(2,), values=V, options=opts), weight=20))
        for modulo in (1, 2, 3, 4):
            for start in (0, 1, 2):
                out.append(S("statsmod-%s-%d-%d" % (mx, modulo, start), stats, dict(max=mx, start=start, header=True, modulo=modulo, calls=5 if big else 4, sizes=(1,) if not big else (1, 2), values=V, options=()), weight=20))
        for bst in (True, False):
            for stream, frame in ((True, True), (True, False), (False, True)):
                for attrs in ("none", "foo", "both"):
                    for o in ((), ("fitness",), ("genome",), ("fitness", "genome", "notes", "job")):
                        out.append(S("attr-%s-%s-%s-%s-%s-%s" % (mx, bst, stream, frame, attrs, o), attributes,
                                     dict(max=mx, best=bst, stream=stream, frame=frame, attrs=attrs, options=o, start=0, header=attrs != "foo", calls=2,
                                          sizes=(1, 2, 3) if (big and not frame) else (1, 2), values=(1.0, 2.0)), weight=20))
        for kind in ("metrics", "fitness", "cartesian", "sum", "hist"):
            for modulo, start in ((1, 0), (2, 0), (2, 1), (3, 1)):
                out.append(S("plot-%s-%s-%d-%d" % (mx, kind, modulo, start), plot, dict(max=mx, kind=kind, modulo=modulo, start=start, calls=3, sizes=(1, 2) if big else (2,), values=(1.0, 2.0)), weight=60))
        out.append(S("plot-x-%s" % mx, plot, dict(max=mx, kind="metrics", modulo=2, start=0, calls=3, sizes=(2,), values=(1.0, 2.0), xval=True), weight=60))
        for n, dims in ((2, None), (3, None), (3, (1, 2)), (3, (2, 0)), (2, (1, 0))):
            for modulo, start in ((1, 0), (2, 1)):
                out.append(S("rules-%s-%d-%s-%d" % (mx, n, dims, modulo), rules, dict(max=mx, inputs=n, dims=dims, modulo=modulo, start=start), weight=30))
    for mx in (True, False):
        L = dict(max=mx, start=0, header=True)
        for n in (160, 300):
            out.append(S("bsf-large-%s-%d" % (mx, n), bsf, dict(L, calls=3, sizes=(), large=n), weight=100))
            out.append(S("bsfiter-large-%s-%d" % (mx, n), bsf_iter, dict(L, calls=1, sizes=(), large=n), deviations=1, weight=100))
            out.append(S("stats-large-%s-%d" % (mx, n), stats, dict(L, modulo=1, calls=2, sizes=(), large=n, options=("extra",)), weight=100))
        for bst in (True, False):
            out.append(S("attr-large-%s-%s" % (mx, bst), attributes, dict(L, best=bst, stream=True, frame=True, attrs="both", options=("fitness", "genome"), calls=2, sizes=(),
                                                                      large=130, spot=bst), weight=100))
            out.append(S("attr-long-%s-%s" % (mx, bst), attributes, dict(L, best=bst, stream=True, frame=True, attrs="foo", options=("genome",), calls=2, sizes=(), large=3, genes=150,
                                                                     spot=False), weight=50))
        for kind in ("metrics", "fitness", "cartesian", "sum", "hist", "heat"):
            out.append(S("plot-large-%s-%s" % (mx, kind), plot, dict(max=mx, kind=kind, modulo=2, start=0, calls=4, sizes=(), large=120, spot=False), weight=100))
            out.append(S("plot-own-%s-%s" % (mx, kind), plot, dict(max=mx, kind=kind, modulo=2, start=1, calls=3, sizes=(2,), values=(1.0, 2.0), noax=1), weight=60))
        out.append(S("bsf-long-%s" % mx, bsf, dict(L, calls=1100, sizes=(), large=2, spot=False), weight=100))
        out.append(S("stats-long-%s" % mx, stats, dict(L, modulo=9, calls=1100, sizes=(), large=2, spot=False, options=("notes",)), weight=100))
        for kind in ("metrics", "fitness"):
            out.append(S("plot-long-%s-%s" % (mx, kind), plot, dict(max=mx, kind=kind, modulo=1, start=0, calls=250 if mx == (kind == "metrics") else 1300, sizes=(), large=2, spot=False), weight=300))
    for noax in (False, True):
        for obj in (2, 3, 5):
            for step, start in ((1, 0), (2, 0), (2, 1)):
                out.append(S("pareto-%s-%d-%d-%d" % (noax, obj, step, start), pareto, dict(noax=noax, obj=obj, step=step, start=start, calls=2, key="generation"), weight=60))
        out.append(S("pareto-births-%s" % noax, pareto, dict(noax=noax, obj=2, step=2, start=0, calls=3, key="births"), deviations=2, weight=60))
        out.append(S("pareto-large-%s" % noax, pareto, dict(noax=noax, obj=3, step=2, start=0, calls=4, key="generation", large=150), weight=60))
    for n, genes in ((5, 4), (40, 3), (150, 3)):
        out.append(S("metric-near-%d-%d" % (n, genes), metrics, dict(n=n, L=genes, near=True), deviations=2 if n > 40 else None, weight=60))
    for interval in (1, 7, 300):
        out.append(S("workers-long-%d" % interval, workers, dict(interval=interval, header=True, calls=1310, long=True), weight=60))
    out.append(S("missing", missing))
    for prefix in ("", "before: "):
        out.append(S("print-%s" % prefix, printing, dict(prefix=prefix, sizes=(1, 2), values=(1.0, 2.0)), weight=20))
    for n, L in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2)) + (((3, 3), (4, 2)) if big else ()):
        out.append(S("metric-%d-%d" % (n, L), metrics, dict(n=n, L=L, grid=(0, 1, 2.5)), weight=20))
        out.append(S("metricint-%d-%d" % (n, L), metrics, dict(n=n, L=L, grid=(0, 1, -3)), weight=20))
    for interval in (1, 2, 3):
        for header in (True, False):
            out.append(S("workers-%d-%s" % (interval, header), workers, dict(interval=interval, header=header, calls=4), weight=20))
    return out
