"""C22: wrapped and batched evaluation give the same answers as direct evaluation."""
import itertools
import math
import os
from math import nan, inf
import shutil
import tempfile
import numpy as np
from mc.engine import S, require
from leap_ec import ops
from leap_ec.individual import Individual, RobustIndividual
from leap_ec.decoder import Decoder, IdentityDecoder
from leap_ec.problem import (FunctionProblem, ScalarProblem, ExternalProcessProblem, FitnessOffsetProblem, AverageFitnessProblem,
                             AlternatingProblem, ConstantProblem)
from leap_ec.multiobjective.problems import MultiObjectiveProblem
from leap_ec.global_vars import context as global_context
from .common import Table, MOTable

BOUNDS = {"quick": "populations of 1-7 with every chunk size (and none, and larger), every assignment of 3 values per phenome for up to 5, "
          "every noise sequence over 2 levels for averaging n=1-3 of 1-3 phenomes, wrapper nestings to depth 2, 14 generations x "
          "modulo 1-4 x 1-4 problems, every answer of an external program: 12 faulty or correct behaviours x 1-3 phenomes, batches "
          "of 20000; single scenarios: every evaluation route, groups of hundreds, NaN and infinite observations"}


class Doubler(Decoder):
    def __init__(self):
        self.n = 0

    def decode(self, genome, *args, **kwargs):
        self.n += 1
        return [2 * g for g in genome]


class Multi(ScalarProblem):
    """Own evaluate_multiple, as for a GPU; records the batches."""

    def __init__(self, f):
        super().__init__(True)
        self.f = f
        self.batches = []

    def evaluate(self, phenome, *a, **k):
        return self.f(phenome)

    def evaluate_multiple(self, phenomes, *args, **kwargs):
        self.batches.append([tuple(p) for p in phenomes])
        self.individuals = kwargs.get("individuals")
        out = [self.f(p) for p in phenomes]
        return np.array(out) if self.array else out


def grouped(ctx, p):
    n = p["n"]
    chunk = ctx.pick([None, "default"] + list(range(1, n + 3)))
    kind = ctx.pick(("table", "multi", "array"))
    table = [ctx.pick((1.0, 2.0, -3.0)) for _ in range(n)] if n <= p["free"] else [float((7 * k) % 5) for k in range(n)]
    dup = ctx.pick((0, 1)) if n > 1 else 0
    f = lambda ph: table[ph[0] // 2]
    if kind == "table":
        problem = Table(f)
    else:
        problem = Multi(f)
        problem.array = kind == "array"
    dec = Doubler()
    genes = list(range(n))
    if dup:
        genes[-1] = 0
    uneven = ctx.pick((False, True))  # genomes of different lengths, longest first
    stale = ctx.pick((None, 99.0, "phenome"))
    pop = [Individual([g] + ([0] * (n - i) if uneven else []), dec, problem) for i, g in enumerate(genes)]
    for x in pop:
        if stale == "phenome":  # evaluated before with another genome
            x.genome[0], g = 5, x.genome[0]
            x.phenome
            x.genome[0] = g
        x.fitness = 99.0 if stale else None
    genomes = [list(x.genome) for x in pop]
    given = list(pop)
    if chunk == "default":
        res = ops.grouped_evaluate(pop)
    elif p.get("curry"):
        res = ops.grouped_evaluate(max_individuals_per_chunk=chunk)(pop)
    else:
        res = ops.grouped_evaluate(pop, max_individuals_per_chunk=chunk)
    require(len(res) == n and all(a is b for a, b in zip(res, given)), "the population changed")
    for g, gen, x in zip(genes, genomes, given):
        require(x.fitness == table[g], "individual %r has fitness %r, alone it would be %r", x.genome, x.fitness, table[g])
        require(list(x.phenome) == [2 * v for v in gen] and list(x.genome) == gen, "phenome or genome changed")
    want = [tuple(2 * v for v in gen) for gen in genomes]
    if kind == "table":
        require(problem.log == want, "evaluated %r instead of %r", problem.log, want)
    else:
        require([y for b in problem.batches for y in b] == want, "evaluated %r instead of %r", problem.batches, want)
        size = n if chunk in (None, "default") else chunk
        require(all(len(b) <= size for b in problem.batches), "batches %r exceed %r", problem.batches, size)
        require(len(problem.batches) == -(-n // size), "%d batches of at most %d for %d individuals", len(problem.batches), size, n)
    return (kind, chunk, tuple(table))


class Counting(Table):
    """Noisy: every evaluation has a result of its own."""

    def __init__(self, seq, batch):
        super().__init__(None)
        self.seq, self.batch, self.n = seq, batch, 0

    def evaluate(self, phenome, *a, **k):
        self.n += 1
        return self.seq[self.n - 1]

    def evaluate_multiple(self, phenomes, *args, **kwargs):
        return [self.evaluate(x) for x in phenomes] if self.batch else super().evaluate_multiple(phenomes, *args, **kwargs)


def repeats(ctx, p):
    """The same genome several times, noisy results; many individuals: everybody gets the result of its own evaluation."""
    n = p["n"]
    chunk = ctx.pick([None, 1, 2, 7, n - 1, n, n + 5])
    if chunk == 0:
        return None
    same = ctx.pick((0, 1, 2))
    seq = [float((37 * k) % 1009) + k * 1e-7 for k in range(n)]
    prob = Counting(seq, ctx.pick((True, False)))
    dec = Doubler()
    pop = [Individual([k // 2 if same == 1 else 0 if same == 2 else k], dec, prob) for k in range(n)]
    given = list(pop)
    how = ctx.pick(("grouped", "population", "stream")) if chunk is None else "grouped"
    if how == "grouped":
        res = ops.grouped_evaluate(pop, max_individuals_per_chunk=chunk)
    elif how == "population":
        res = Individual.evaluate_population(pop)
    else:
        res = list(itertools.islice(ops.evaluate(iter(pop)), n))
    require(len(res) == n and all(a is b for a, b in zip(res, given)), "the population changed")
    require(all(list(x.phenome) == [2 * x.genome[0]] for x in res), "a phenome does not belong to its genome")
    require(prob.n == n, "%d evaluations of %d individuals", prob.n, n)
    require([x.fitness for x in given] == seq, "fitnesses %r, the evaluations gave %r", [x.fitness for x in given][:9], seq[:9])
    return (n, chunk, same, how)


def mixed(ctx, p):
    """Individuals of different problems cannot be evaluated as one group."""
    n = ctx.pick((2, 3))
    odd = ctx.pick_int(n)
    chunk = ctx.pick((None, 1, 2))
    pa, pb = Table(lambda x: 1.0), Table(lambda x: 2.0)
    pop = [Individual(np.array([i]), IdentityDecoder(), pb if i == odd else pa) for i in range(n)]
    try:
        ops.grouped_evaluate(pop, max_individuals_per_chunk=chunk)
    except Exception:
        require(all(x.fitness is None for x in pop), "some fitness was assigned")
        return "refused"
    require([x.fitness for x in pop] == [2.0 if i == odd else 1.0 for i in range(n)], "fitnesses %r", [x.fitness for x in pop])
    return "done"


class Noisy(ScalarProblem):
    """Every evaluation returns base(phenome) plus the next noise value of the execution."""

    def __init__(self, ctx, base, levels, maximize, batch):
        super().__init__(maximize)
        self.ctx, self.base, self.levels, self.log, self.batch = ctx, base, levels, [], batch

    def evaluate(self, phenome, *a, **k):
        v = self.base(phenome) + self.ctx.pick(self.levels)
        self.log.append((tuple(phenome), v))
        return v

    def evaluate_multiple(self, phenomes, *a, **k):
        self.batches = getattr(self, "batches", 0) + 1
        return [self.evaluate(x) for x in phenomes]


def average(ctx, p):
    n, m = p["n"], p["m"]
    maximize = ctx.pick((True, False))
    how = ctx.pick(("one", "multiple", "grouped", "offset", "inner"))
    base = Noisy(ctx, lambda ph: 10.0 * ph[0], p.get("noise", (0.0, 1.0, 3.0) if n * m < 5 else (0.0, 1.0)), maximize, 0)
    inner = FitnessOffsetProblem(base, 0.5) if how == "inner" else base
    prob = AverageFitnessProblem(inner, n)
    phen = [[k, 1] for k in range(m)]
    if how == "one":
        got = [prob.evaluate(ph) for ph in phen]
    elif how in ("multiple", "inner"):
        got = prob.evaluate_multiple([list(x) for x in phen])
    elif how == "offset":
        outer = FitnessOffsetProblem(prob, 100.0, maximize=maximize)
        got = [outer.evaluate(ph) - 100.0 for ph in phen]
        require(outer.maximize == maximize, "direction lost")
    else:
        pop = [Individual(ph, IdentityDecoder(), prob) for ph in phen]
        chunk = ctx.pick((None, 1, 2))
        ops.grouped_evaluate(pop, max_individuals_per_chunk=chunk)
        got = [x.fitness for x in pop]
    require(len(got) == m, "%d values for %d phenomes", len(got), m)
    for k in range(m):
        mine = [v for ph, v in base.log if ph == (k, 1)]
        require(len(mine) == n, "phenome %d evaluated %d times instead of %d", k, len(mine), n)
        want = sum(mine) / n + (0.5 if how == "inner" else 0.0)
        if not math.isfinite(want):
            require(got[k] == want or (math.isnan(want) and math.isnan(got[k])), "phenome %d got %r, mean of %r is %r", k, got[k], mine, want)
            continue
        require(abs(got[k] - want) < 1e-9, "phenome %d got %r, mean of %r is %r", k, got[k], mine, want)
    require(len(base.log) == n * m, "%d evaluations", len(base.log))
    for a in got if "noise" not in p else ():
        for b in got:
            require(prob.worse_than(a, b) == ((a < b) if maximize else (a > b)), "direction of the wrapped problem not kept")
            require(prob.equivalent(a, b) == (a == b), "equivalence of the wrapped problem not kept")
    return (how, tuple(got))


def average_mo(ctx, p):
    n, m = ctx.pick((1, 2, 3)), ctx.pick((1, 2))
    maximize = [ctx.pick((True, False)), ctx.pick((True, False))]
    log = []

    def f(ph):
        v = (ph[0] + ctx.pick((0.0, 1.0)), 5.0 * ph[0] + ctx.pick((0.0, 4.0)))
        log.append((ph[0], v))
        return np.array(v)
    base = MOTable(f, maximize)
    prob = AverageFitnessProblem(base, n)
    if ctx.pick((0, 1)):
        got = [prob.evaluate([k]) for k in range(m)]
    else:
        got = prob.evaluate_multiple([[k] for k in range(m)])
    for k in range(m):
        mine = [v for i, v in log if i == k]
        require(len(mine) == n, "evaluated %d times", len(mine))
        want = [sum(v[0] for v in mine) / n, sum(v[1] for v in mine) / n]
        require(np.shape(got[k]) == (2,) and np.allclose(got[k], want), "mean fitness vector is %r instead of %r", got[k], want)
    return (n, m)


def offset(ctx, p):
    maximize = ctx.pick((True, False))
    over = ctx.pick((None, True, False))
    c, c2 = ctx.pick((-2.5, 0.0, 7.0)), ctx.pick((None, 1.0, -3.0))
    base = Table(lambda ph: {0: 1.0, 1: -2.0, 2: 0.0, 3: inf}[ph[0]], maximize)
    if ctx.pick((0, 1)):
        base.bounds = (-3, 4)
    prob = FitnessOffsetProblem(base, c) if over is None else FitnessOffsetProblem(base, c, maximize=over)
    if c2 is not None:
        prob = FitnessOffsetProblem(prob, c2)
    d = maximize if over is None else over
    require(prob.maximize == d, "direction is %r instead of %r", prob.maximize, d)
    require(getattr(prob, "bounds", None) == getattr(base, "bounds", None), "bounds are not inherited")
    shift = c + (c2 or 0.0)
    phens = [[0], [1], [2], [3]]
    raw = [1.0, -2.0, 0.0, inf]
    got = prob.evaluate_multiple(phens) if ctx.pick((0, 1)) else [prob.evaluate(x) for x in phens]
    require(got == [r + shift for r in raw], "offset %r gave %r for %r", shift, got, raw)
    require(base.log == [(0,), (1,), (2,), (3,)], "base evaluated %r", base.log)
    require(phens == [[0], [1], [2], [3]], "phenomes changed")
    for a, b in itertools.product(got, repeat=2):
        require(prob.worse_than(a, b) == ((a < b) if d else (a > b)), "wrong sense of better")
    return (maximize, over, c, c2)


def alternating(ctx, p):
    count, modulo = p["count"], p["modulo"]
    own = ctx.pick((0, 1))
    c = {"leap": {}} if own else global_context
    if own:
        global_context["leap"]["generation"] = 1
    probs = [Table(lambda ph, k=k: 10.0 * k + ph[0], maximize=k % 2 == 0) for k in range(count)]
    prob = AlternatingProblem(probs, modulo, context=c) if own else AlternatingProblem(probs, modulo)
    start = ctx.pick((0, 3, 250, 99990, 2 ** 24 - 3, 10 ** 9 + 7))
    step = ctx.pick((1, 2, 5, 97))
    backwards = ctx.pick((0, 1))
    gens = [start + step * k for k in range(8)]
    if backwards:
        gens = gens[::-1]
    for g in gens:
        c["leap"]["generation"] = g
        want = (g // modulo) % count
        for q in probs:
            q.log.clear()
        got = prob.evaluate([3])
        require(got == 10.0 * want + 3, "generation %d of modulo %d over %d problems evaluated as %r", g, modulo, count, got)
        require(prob.get_current_problem() is probs[want], "current problem in generation %d is not number %d", g, want)
        require([len(q.log) for q in probs] == [int(k == want) for k in range(count)], "the wrong problem was evaluated")
        require(prob.evaluate_multiple([[1], [2]]) == [10.0 * want + 1, 10.0 * want + 2], "batch evaluated differently")
        up = want % 2 == 0
        require(prob.worse_than(1.0, 2.0) == up and prob.worse_than(2.0, 1.0) == (not up), "direction in generation %d", g)
        require(prob.equivalent(2.0, 2.0) and not prob.equivalent(2.0, 3.0), "equivalence in generation %d", g)
    return (count, modulo, start, step)


SCRIPT = r'''
mode="$1"; log="$2"
: > "$log"
out=""
case "$mode" in early) exit 0;; earlyfail) exit 3;; signal) kill -9 $$;; esac
while IFS= read -r line || [ -n "$line" ]; do
  printf '%s\n' "$line" >> "$log"
  a=${line%%,*}; b=${line#*,}
  out="$out$((a*10+b)).5
"
done
case "$mode" in
 ok) printf '%s' "$out";;
 nonl) printf '%s' "${out%?}";;
 fail) printf '%s' "$out"; exit 1;;
 noisy) echo problem >&2; printf '%s' "$out";;
 extra) printf '%s99\n' "$out";;
 extranonl) printf '%s99' "$out";;
 missing) printf '%s' "$out" | sed '$d';;
 garble) printf '%s' "$out" | sed '$s/.*/oops/';;
 header) printf 'fitness\n%s' "$out";;
 blank) printf '%s\n\n' "${out%?}";;
esac
'''
GOOD = ("ok", "nonl", "noisy")


def external(ctx, p):
    d = tempfile.mkdtemp(prefix="ext")
    try:
        path, log = os.path.join(d, "prog.sh"), os.path.join(d, "log")
        with open(path, "w") as f:
            f.write(SCRIPT)
        mode = p["mode"]
        m = p["m"]
        maximize = ctx.pick((True, False))
        args = [path, mode, log]
        if p.get("missing"):
            prob = ExternalProcessProblem(os.path.join(d, "no-such-program"), maximize, args=args)
        else:
            prob = ExternalProcessProblem("/bin/sh", maximize, args=args)
        kept = list(args)
        phen = [(k + 1, 7 - k) for k in range(m)]
        phen = [np.array(x) if p.get("array") else list(x) for x in phen]
        want = [(k + 1) * 10 + 7 - k + 0.5 for k in range(m)]
        how = ctx.pick(("multiple", "grouped") + (("one", "individual", "robust") if m == 1 else ()))
        pop = [(RobustIndividual if how == "robust" else Individual)(x, IdentityDecoder(), prob) for x in phen]
        for x in pop:
            x.fitness = -1.0
        err = None
        try:
            if how == "multiple":
                got = prob.evaluate_multiple(phen)
            elif how == "grouped":
                chunk = ctx.pick((None, 1, 2))
                ops.grouped_evaluate(pop, max_individuals_per_chunk=chunk)
                got = [x.fitness for x in pop]
            elif how == "one":
                got = [prob.evaluate(phen[0])]
            else:
                got = [pop[0].evaluate()]
        except Exception as e:
            err = e
        good = mode in GOOD and not p.get("missing")
        if how == "robust":
            require(err is None, "robust evaluation raised %r", err)
            require(pop[0].is_viable == good, "is_viable is %r for a program that %s", pop[0].is_viable, mode)
            if not good:
                require(np.isnan(got[0]), "fitness %r from a program that failed (%s)", got[0], mode)
                err = "nan"
        if good:
            require(err is None, "the program's answer (%s) was refused: %r", mode, err)
            require(list(got) == want, "program reported %r, fitness is %r", want, got)
            if how != "grouped":
                with open(log) as f:
                    lines = f.read().splitlines()
                require(lines == ["%d,%d" % tuple(x) for x in phen], "program was given %r", lines)
        else:
            require(err is not None, "a program that %s was taken as fitness %r", "does not exist" if p.get("missing") else mode, got if err is None else None)
            if how != "robust":
                require(all(x.fitness == -1.0 for x in pop), "fitness assigned although the program failed")
        require(args == kept, "argument list modified")
        require(prob.worse_than(1.0, 2.0) == maximize, "direction")
        return (mode, how, err is None)
    finally:
        shutil.rmtree(d)


def external_args(ctx, p):
    """The argument list is the caller's: later changes do not reach the problem, and none is needed."""
    d = tempfile.mkdtemp(prefix="ext")
    try:
        path, log = os.path.join(d, "prog.sh"), os.path.join(d, "log")
        with open(path, "w") as f:
            f.write(SCRIPT)
        args = [path, "ok", log]
        prob = ExternalProcessProblem("/bin/sh", True, args)
        args[1] = "fail"
        require(prob.evaluate([1, 2]) == 12.5, "changing the caller's list changed the problem")
        require(prob.evaluate([2, 2]) == 22.5, "second evaluation differs")
        prog = os.path.join(d, "plain")
        with open(prog, "w") as f:
            f.write("#!/bin/sh\nwhile IFS= read -r l || [ -n \"$l\" ]; do echo \"$l\"; done\n")
        os.chmod(prog, 0o755)
        require(ExternalProcessProblem(prog, False).evaluate_multiple([[4], [-5.25], [1e-3]]) == [4.0, -5.25, 1e-3], "program without arguments")
        return 0
    finally:
        shutil.rmtree(d)


def external_large(ctx, p):
    """More data than fits in a pipe in both directions at once."""
    d = tempfile.mkdtemp(prefix="ext")
    try:
        prob = ExternalProcessProblem("/bin/cat", True)
        phen = [[float(k) + 0.125] if k % 2 else [k / 7 * 10.0 ** (k % 31 - 15)] for k in range(p["m"])]
        got = prob.evaluate_multiple(phen)
        require(got == [x[0] for x in phen], "answers are mixed up")
        return 0
    finally:
        shutil.rmtree(d)


def scenarios(tier):
    big = tier == "thorough"
    out = [S("repeats-%d" % n, repeats, dict(n=n)) for n in (1, 2, 3, 5, 40, 300)]
    for n in range(1, 8 if not big else 10):
        for curry in (0, 1):
            out.append(S("grouped-%d-%d" % (n, curry), grouped, dict(n=n, free=5 if big else 4, curry=curry), weight=10 * n))
    out.append(S("mixed", mixed, {}))
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            out.append(S("average-%d-%d" % (n, m), average, dict(n=n, m=m), weight=30))
    for n, m in ((50, 2), (10, 30), (130, 1), (1, 150)):
        out.append(S("average-%d-%d" % (n, m), average, dict(n=n, m=m), deviations=2 if n * m < 150 else 1, weight=30))
    for n, m in ((2, 1), (3, 1), (2, 2)):
        out.append(S("average-odd-%d-%d" % (n, m), average, dict(n=n, m=m, noise=(0.1, float("nan"), inf)), weight=30))
    out.append(S("average-mo", average_mo, {}, weight=10))
    out.append(S("offset", offset, {}))
    for count in (1, 2, 3, 4):
        for modulo in (1, 2, 3, 4):
            out.append(S("alternating-%d-%d" % (count, modulo), alternating, dict(count=count, modulo=modulo)))
    for count, modulo in ((20, 1), (20, 7), (3, 100), (300, 1)):
        out.append(S("alternating-%d-%d" % (count, modulo), alternating, dict(count=count, modulo=modulo)))
    for mode in GOOD + ("fail", "extra", "extranonl", "missing", "garble", "header", "early", "earlyfail", "signal"):
        for m in (1, 2, 3):
            out.append(S("external-%s-%d" % (mode, m), external, dict(mode=mode, m=m, array=m == 2), weight=10))
    out.append(S("external-absent", external, dict(mode="ok", m=1, missing=1)))
    out.append(S("external-args", external_args, {}))
    out.append(S("external-large", external_large, dict(m=20000)))
    return out
