"""C31: a repertoire transfers exactly the solutions it learned."""
import os
import shutil
import tempfile
import numpy as np
from mc.engine import S, require
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.contrib.transfer.sequential import PopulationSeedingRepertoire, initialize_seeded
from .common import Table

BOUNDS = {"quick": "0-3 training problems with runs of 1-3 steps, every history of 3 operations among train / apply / export-and-reload, "
          "populations of 0-4; genomes of 1-3 values from a grid incl. values with many digits; single scenarios: many training "
          "problems and genomes"}

VALS = (0.0, -1.5, 0.1, 1e-7, 123456.789012345, 2.0 / 3)


class Apart(Table):
    pass


class ZTable(Table):
    pass


KINDS = (ZTable, Apart, Table)


class Algo:
    """A stand-in for an EA with the documented interface: yields (step, best individual)."""

    def __init__(self, ctx):
        self.ctx, self.calls, self.n = ctx, [], 0

    def __call__(self, problem, initialize, **kw):
        log = {"problem": problem, "kw": kw, "pop": None, "best": None, "steps": 0}
        self.calls.append(log)

        def run():
            log["pop"] = [initialize() for _ in range(kw.get("pop", 2))]
            for s in range(kw.get("steps", 1)):
                self.n += 1
                g = np.array([VALS[(self.n * (k + 1)) % len(VALS)] for k in range(2)]) + self.n
                log["best"] = g
                log["steps"] += 1
                x = Individual(g, IdentityDecoder(), problem)
                x.fitness = float(-self.n if problem.maximize else self.n)     # what it reports last is not its best
                yield s, x
        return run()


def history(ctx, p):
    made = []

    def init():
        made.append(np.array([9.0, float(len(made))]))
        return made[-1]
    algo = Algo(ctx)
    rep = PopulationSeedingRepertoire(init, algo)
    model = []
    d = tempfile.mkdtemp(prefix="c31_")
    try:
        for _ in range(p["len"]):
            op = ctx.pick(("train", "apply", "reload"))
            algo.calls.clear()
            del made[:]
            if op == "train":
                k = ctx.pick((0, 1, 2, 3))
                probs = [KINDS[(i + len(model)) % 3](lambda x: 1.0, maximize=(i + len(model)) % 2 == 0) for i in range(k)]
                kws = [{"steps": 1 + (i + ctx.pick_int(2)) % 3} for i in range(k)] if ctx.pick((0, 1)) else None
                rep.build_repertoire(probs, kws)
                require([c["problem"] for c in algo.calls] == probs and len(algo.calls) == k, "trained on the wrong problems")
                for i, c in enumerate(algo.calls):
                    require(c["kw"] == (kws[i] if kws else {}), "problem %d was run with %r", i, c["kw"])
                    require(c["steps"] == c["kw"].get("steps", 1), "training run %d was not run to its end", i)
                    require(len(c["pop"]) == 2 and all(any(g is m for m in made) for g in c["pop"]), "training does not start from random genomes: %r", c["pop"])
                    model.append([float(v) for v in c["best"]])
            elif op == "apply":
                n = ctx.pick((0, 1, 2, 4))
                prob = Table(lambda x: 1.0)
                list(rep.apply(prob, pop=n, steps=1))
                c = algo.calls[-1]
                require(len(algo.calls) == 1 and c["problem"] is prob and c["kw"] == {"pop": n, "steps": 1}, "applied to %r", c)
                got = [[float(v) for v in g] for g in c["pop"]]
                want = model[:n] + [[9.0, float(k)] for k in range(max(0, n - len(model)))]
                require(got == want, "initial population %r, expected %r", got, want)
                require(all(isinstance(g, np.ndarray) for g in c["pop"]), "genomes are %r", [type(g) for g in c["pop"]])
            else:
                path = os.path.join(d, "rep.csv")
                rep.export(path)
                rep = PopulationSeedingRepertoire(init, algo, repfile=path)
            require([[float(v) for v in g] for g in rep.repertoire] == model, "repertoire %r, expected %r after %s", rep.repertoire, model, op)
    finally:
        shutil.rmtree(d)
    return len(model)


def many(ctx, p):
    """Long genomes, many problems, large populations."""
    k, L = p["problems"], p["genes"]
    n = ctx.pick((k - 1, k, k + 7, 3 * k))
    how = ctx.pick((0, 1))
    steps = ctx.pick((1, 2, 9))
    alike = ctx.pick(("all different", "some the same", "some zero"))
    made = []

    def learned(i):
        if alike == "some zero" and i % 3 != 1:
            return np.zeros(L)
        if alike == "some the same":
            i = i * i % 5
        return np.array([(i * L + j * 5 % 11 + 1) / 7 * (-1) ** j for j in range(L)])

    def init():
        made.append(np.full(L, -1.0 - len(made)))
        return made[-1]
    starts = []

    def algo(problem, initialize, pop=2):
        starts.append([initialize() for _ in range(pop)])
        for s in range(steps):
            x = Individual(learned(problem.nr) + (steps - 1 - s), IdentityDecoder(), problem)
            x.fitness = float(-s if problem.maximize else s)
            yield s, x
    rep = PopulationSeedingRepertoire(init, algo)
    probs = []
    for i in range(k):
        q = Table(lambda x: 1.0)
        q.nr = i
        probs.append(q)
    rep.build_repertoire(probs, None)
    if how:
        d = tempfile.mkdtemp(prefix="c31_")
        try:
            rep.export(os.path.join(d, "rep.csv"))
            rep = PopulationSeedingRepertoire(init, algo, repfile=os.path.join(d, "rep.csv"))
        finally:
            shutil.rmtree(d)
    want = [[float(v) for v in learned(i)] for i in range(k)]
    require([[float(v) for v in g] for g in rep.repertoire] == want, "the repertoire of %d problems is not what was learned", k)
    for again in range(2):
        del starts[:], made[:]
        list(rep.apply(probs[0], pop=n))
        got = [[float(v) for v in g] for g in starts[0]]
        require(got == want[:n] + [[-1.0 - i] * L for i in range(max(0, n - k))], "initial population of %d from %d learned solutions is wrong, application %d", n, k, again)
    require([[float(v) for v in g] for g in rep.repertoire] == want, "applying the repertoire changed it")
    return n, how


def seeded(ctx, p):
    k = ctx.pick(p.get("seeds", (0, 1, 2, 3)))
    n = ctx.pick(p.get("pops", (0, 1, 2, 5)))
    seeds = [np.array([float(i)]) for i in range(k)]
    made = []

    def init():
        made.append(np.array([100.0 + len(made)]))
        return made[-1]
    a, b = initialize_seeded(init, seeds), initialize_seeded(init, seeds)
    got_a, got_b = [], []
    for _ in range(n):
        who = ctx.pick((0, 1))
        (got_a if who else got_b).append((a if who else b)())
    for got in (got_a, got_b):
        require([float(g[0]) for g in got[:k]] == [float(i) for i in range(min(k, len(got)))], "seeds %r", got)
        require(all(any(g is m for m in made) for g in got[k:]), "after the seeds: %r", got[k:])
    require(len(made) == max(0, len(got_a) - k) + max(0, len(got_b) - k), "%d random genomes made", len(made))
    require(len({id(g) for g in got_a[k:] + got_b[k:]}) == len(made), "a random genome was used twice")
    require([float(s[0]) for s in seeds] == [float(i) for i in range(k)], "seeds changed")
    return (k, len(got_a))


def scenarios(tier):
    T = tier == "thorough"
    return [S("history", history, {"len": 4 if T else 3}), S("seeded", seeded, {}), S("many-40", many, {"problems": 40, "genes": 3}), S("many-5", many, {"problems": 5, "genes": 8}), S("many-1", many, {"problems": 4, "genes": 1}), S("many-wide", many, {"problems": 12, "genes": 150}),
            S("seeded-many", seeded, {"seeds": (30, 120), "pops": (25, 150)}, deviations=1)]
