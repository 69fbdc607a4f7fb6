"""C30: landscape features, performance-curve summaries and statistical helpers report what the samples say."""
import itertools
import math
import os
import shutil
import tempfile
import warnings
import numpy as np
import pandas as pd
from mc.engine import S, require
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder, Decoder
from leap_ec.representation import Representation
from leap_ec.landscape_features.exploratory import ELAConvexity
from leap_ec.contrib.analysis import CurveAnalyzer, auc, max_value, cat_csv_files
from leap_ec import statistical_helpers as sh
from .common import Table

BOUNDS = {"quick": "convexity features of 5 landscapes x 2 decoders over every pair of 3-4 design points, every weight in 4 bins, 1-3 tests;"
          " curve summaries of every assignment of 2-3 values to 1-2 experiments x 1-2 runs x 1-3 times in several row orders; "
          "files of 0-3 rows with comments in every combination; every count distribution over 2-3 outcomes with up to 6 samples; t"
          " tests of every 2-3 samples from 4 values; single scenarios: long and many curves, gaps and twins in curve tables, 16 "
          "design points, 20011 samples for uniformity"}


class Half(Decoder):
    def decode(self, genome, *a, **k):
        return np.array(genome) / 2.0


LAND = {"linear": lambda x: 2 * x[0] - x[1] + 1, "convex": lambda x: x[0] ** 2 + x[1] ** 2, "concave": lambda x: -x[0] ** 2 - x[1] ** 2,
        "saddle": lambda x: x[0] ** 2 - x[1] ** 2, "kink": lambda x: abs(x[0])}
DESIGN = [np.array(v) for v in ((0.0, 0.0), (4.0, 0.0), (1.0, -2.0), (-3.0, 5.0))]
MANY = [np.array(((7.0 * i) % 11 - 5, (3.0 * i) % 7 - 3)) for i in range(16)]
TWINS = [np.array(v) for v in ((1.0, 2.0), (1.0, 2.0), (4.0, 0.0))]


def ela(ctx, p):
    name = p.get("land") or ctx.pick(list(LAND))
    f = LAND[name]
    points = {"many": MANY, "twins": TWINS}.get(p.get("points"), DESIGN)
    dec = Half() if p.get("half") else IdentityDecoder()
    problem = Table(lambda x: float(f(x)))
    rep = Representation(initialize=lambda: np.zeros(2), decoder=dec)
    design = [Individual(np.array(v), dec, problem) for v in points[:p["design"]]]
    for x in design:
        x.evaluate()
    n = p["tests"]
    problem.log.clear()
    e = ELAConvexity(problem, rep, design_individuals=list(design), num_convexity_tests=n)
    require(len(problem.log) == n, "%d additional samples for %d tests", len(problem.log), n)
    pairs, combos, deltas = e.pairs, e.combinations, e.deltas
    require(len(pairs) == len(combos) == len(deltas) == n, "%d/%d/%d records", len(pairs), len(combos), len(deltas))
    want, key = [], []
    for (x, y), (cf, q), d in zip(pairs, combos, deltas):
        i = [k for k, z in enumerate(design) if z is x]
        j = [k for k, z in enumerate(design) if z is y]
        require(i and j and i != j, "the pair is not of two different design points")
        i, j = i[0], j[0]
        diff = x.genome - y.genome
        k = int(np.argmax(np.abs(diff)))
        a = float((q.genome[k] - y.genome[k]) / diff[k]) if diff[k] else 0.5
        require(0 <= a <= 1 and np.allclose(q.genome, a * x.genome + (1 - a) * y.genome), "the sample %r is not between %r and %r", q.genome, x.genome, y.genome)
        require(abs(cf - (a * x.fitness + (1 - a) * y.fitness)) < 1e-9, "the expected fitness %r is not the same combination (%r) of %r and %r", cf, a, x.fitness, y.fitness)
        ph = q.genome / 2 if p.get("half") else q.genome
        require(q.problem is problem and abs(q.fitness - f(ph)) < 1e-9, "fitness %r of the sample at %r", q.fitness, ph)
        require(abs(d - (f(ph) - cf)) < 1e-9, "delta %r, expected %r", d, f(ph) - cf)
        want.append(f(ph) - (a * f(x.genome / (2 if p.get("half") else 1)) + (1 - a) * f(y.genome / (2 if p.get("half") else 1))))
        key.append((i, j, round(a, 6)))
    tau = -1e-10
    cv, ln = sum(d < tau for d in want) / n, sum(abs(d) < -tau for d in want) / n
    require(abs(e.convex_p() - cv) < 1e-9, "convex_p %r, the deltas are %r", e.convex_p(), want)
    require(abs(e.linear_p() - ln) < 1e-9, "linear_p %r, the deltas are %r", e.linear_p(), want)
    for t in (-1e-3, -3.0):
        require(abs(e.convex_p(threshold=t) - sum(d < t for d in want) / n) < 1e-9, "convex_p(%r) %r of %r", t, e.convex_p(threshold=t), want)
        if all(abs(abs(d) + t) > 1e-6 for d in want):
            require(abs(e.linear_p(threshold=t) - sum(abs(d) < -t for d in want) / n) < 1e-9, "linear_p(%r) %r of %r", t, e.linear_p(threshold=t), want)
    require(abs(e.linear_deviation() - sum(want) / n) < 1e-9, "linear_deviation %r of %r", e.linear_deviation(), want)
    require(abs(e.linear_deviation_abs() - sum(map(abs, want)) / n) < 1e-9, "linear_deviation_abs %r of %r", e.linear_deviation_abs(), want)
    t = e.results_table("f")
    require(list(t.iloc[0][["Function", "P(convex)", "P(linear)"]]) == ["f", e.convex_p(), e.linear_p()]
            and abs(t["Linear_deviation"][0] - e.linear_deviation()) < 1e-12 and abs(t["Linear_deviation_abs"][0] - e.linear_deviation_abs()) < 1e-12 and len(t) == 1,
            "table %r", t.to_dict())
    e.pairs.clear(), e.deltas.clear(), e.combinations.clear()
    require(len(e.deltas) == n == len(e.pairs) == len(e.combinations), "changing a returned list changed the results")
    require([x.fitness for x in design] == [float(f(v / (2 if p.get("half") else 1))) for v in points[:p["design"]]], "design changed")
    return name, tuple(key)


def ela_post(p, group, dist):
    m = p["design"]
    require(len(dist) >= (m * (m - 1) // 2 * p["bins"]) ** p["tests"], "only %d combinations of pairs and weights", len(dist))
    un = {}
    for o, pr in dist.items():
        k = tuple(frozenset(t[:2]) for t in o)
        un[k] = un.get(k, 0) + pr
    require(len(un) == (m * (m - 1) // 2) ** p["tests"] and max(un.values()) - min(un.values()) < 1e-9, "pairs are not equally likely: %r", un)


def curves(ctx, p):
    exps, runs, times = p["exps"], p["runs"], p["times"]
    rows = []
    for e in range(exps):
        for r in range(runs):
            for t in times:
                v = float(ctx.pick(p["values"]))
                rows.append({"experiment": "e%d" % e, "job": r, "step": t, "bsf": v, "mean_fitness": v * 10 + t})
    order = ctx.pick(("given", "reversed", "rotated", "interleaved"))
    rr = {"given": rows, "reversed": rows[::-1], "rotated": rows[1:] + rows[:1], "interleaved": rows[::2] + rows[1::2]}[order]
    df = pd.DataFrame(rr)
    if ctx.pick((0, 1)):
        df.index = [0] * len(df)          # as after concatenating files
    keep = df.copy()
    an = CurveAnalyzer(df, time_col="step", metric_cols=["bsf", "mean_fitness"], experiment_cols=["experiment"], run_col="job")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        avg = an.avg_curves()
        per = an.scalar_metrics_per_run("bsf", scalar_measure=auc)
        mx = an.scalar_metrics_per_run("mean_fitness", scalar_measure=max_value)
        tot = an.avg_scalar_metrics("bsf", scalar_measure=auc)
    near = lambda a, b: (math.isnan(a) and math.isnan(b)) or abs(a - b) < 1e-9

    def std(v):
        if len(v) < 2:
            return float("nan")
        m = sum(v) / len(v)
        return math.sqrt(sum((x - m) ** 2 for x in v) / (len(v) - 1))
    require(len(avg) == exps * len(times), "%d average points", len(avg))
    for _, a in avg.iterrows():
        for col in ("bsf", "mean_fitness"):
            v = [r[col] for r in rows if r["experiment"] == a["experiment"] and r["step"] == a["step"]]
            require(len(v) == runs and near(a[col + "_mean"], sum(v) / runs) and near(a[col + "_std"], std(v)), "average of %s at %r: %r of %r", col, a["step"], a[col + "_mean"], v)
    areas = {}
    require(len(per) == len(mx) == exps * runs, "%d runs summarised", len(per))
    for _, a in per.iterrows():
        c = sorted((r["step"], r["bsf"]) for r in rows if r["experiment"] == a["experiment"] and r["job"] == a["job"])
        w = sum((c[k][0] - c[k - 1][0]) * c[k][1] for k in range(1, len(c)))
        areas.setdefault(a["experiment"], []).append(w)
        require(near(a["auc"], w), "area under %r is %r, expected %r", c, a["auc"], w)
    for _, a in mx.iterrows():
        c = [r["mean_fitness"] for r in rows if r["experiment"] == a["experiment"] and r["job"] == a["job"]]
        require(a["max_value"] == max(c), "max of %r is %r", c, a["max_value"])
    require(len(tot) == exps, "%d experiments summarised", len(tot))
    for _, a in tot.iterrows():
        v = areas[a["experiment"]]
        require(near(a["auc_mean"], sum(v) / len(v)) and near(a["auc_std"], std(v)), "average area %r of %r", a["auc_mean"], v)
    require(df.equals(keep), "the data frame was changed")
    return tuple(r["bsf"] for r in rows)


def curves_many(ctx, p):
    """Long curves of many runs, one odd value at a time."""
    exps, runs, times = p["exps"], p["runs"], p["times"]
    e0, r0 = ctx.pick(sorted({0, exps - 1})), ctx.pick(sorted({0, runs // 2, runs - 1}))
    t0 = ctx.pick(sorted({0, 1, len(times) // 2, len(times) - 1}))
    rows = [{"experiment": "e%d" % e, "job": r, "step": t, "bsf": (5.0 + 1 / 3 ** 8 if (e, r, k) == (e0, r0, t0) else ((3 * r + 7 * k + e) % 13) / 7)}
            for e in range(exps) for r in range(runs) for k, t in enumerate(times)]
    df = pd.DataFrame(rows[1::2] + rows[::2])
    an = CurveAnalyzer(df, time_col="step", metric_cols=["bsf"], experiment_cols=["experiment"], run_col="job")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        avg = an.avg_curves()
        per = an.scalar_metrics_per_run("bsf", scalar_measure=auc)
        mx = an.scalar_metrics_per_run("bsf", scalar_measure=max_value)
        tot = an.avg_scalar_metrics("bsf", scalar_measure=auc)
    val = {(r["experiment"], r["job"], r["step"]): r["bsf"] for r in rows}
    near = lambda a, b: abs(a - b) < 1e-9 * max(1.0, abs(b))
    require(len(avg) == exps * len(times) and len(per) == len(mx) == exps * runs and len(tot) == exps, "%d points, %d and %d runs, %d experiments", len(avg), len(per), len(mx), len(tot))
    for _, a in avg.iterrows():
        require(near(a["bsf_mean"], sum(val[a["experiment"], r, a["step"]] for r in range(runs)) / runs), "average at %r: %r", a["step"], a["bsf_mean"])
    area = {}
    for _, a in per.iterrows():
        w = sum((t - s) * val[a["experiment"], a["job"], t] for s, t in zip(times, times[1:]))
        require(near(a["auc"], w), "area of run %r of %r is %r, expected %r", a["job"], a["experiment"], a["auc"], w)
        area.setdefault(a["experiment"], []).append(w)
    for _, a in mx.iterrows():
        w = max(val[a["experiment"], a["job"], t] for t in times)
        require(near(a["max_value"], w), "max of run %r of %r is %r, expected %r", a["job"], a["experiment"], a["max_value"], w)
    for _, a in tot.iterrows():
        require(near(a["auc_mean"], sum(area[a["experiment"]]) / runs), "average area of %r is %r", a["experiment"], a["auc_mean"])
    return e0, r0, t0


def files_many(ctx, p):
    """Files named in any order, one of them twice, with repeated rows; long files."""
    d = tempfile.mkdtemp(prefix="c30_")
    try:
        paths = []
        for k in range(p["files"]):
            path = os.path.join(d, "f%d.csv" % (p["files"] - k))
            with open(path, "w") as f:
                f.write("job,step,bsf\n")
                for i in range(p["rows"]):
                    f.write("%d,%d,%r\n" % (k // 2, i // 2, i // 2 / 7))
            paths.append((path, k))
        order = ctx.permutation(list(range(p["files"])))
        given = [paths[i] for i in order]
        if ctx.pick((0, 1)):
            given.append(given[0])
        df = cat_csv_files([q for q, _ in given])
        got = list(df.itertuples(index=False, name=None))
        want = [(k // 2, i // 2, i // 2 / 7) for _, k in given for i in range(p["rows"])]
        require(len(got) == len(want), "%d rows from %d", len(got), len(want))
        require([(a, b) for a, b, _ in got] == [(a, b) for a, b, _ in want] and all(abs(a[2] - b[2]) < 1e-12 for a, b in zip(got, want)), "rows lost, changed or reordered")
    finally:
        shutil.rmtree(d)
    return tuple(order)


def uniform_many(ctx, p):
    """Uniformity of counts over many outcomes, whatever the sample size."""
    from scipy.special import gammaincc
    k = p["k"]
    base = ctx.pick((0, 1, 2, 7, 40))
    counts = [base + (j % 3 if ctx.pick((0, 1)) == 0 else 0) for j in range(k)]
    counts[ctx.pick(sorted({0, k // 2, k - 1}))] += ctx.pick((0, 1, 3, 90)) + (base == 0)
    n = sum(counts)
    u = sum((c - n / k) ** 2 / (n / k) for c in counts)
    pu = float(gammaincc((k - 1) / 2, u / 2))
    for thr in (0.01, 0.05, 0.5):
        if abs(pu - thr) > 1e-6:
            got = sh.equals_uniform(dict(enumerate(counts)), p=thr)
            require(bool(got) == (pu >= thr), "uniformity of %r at p=%r is judged %r (p value %r)", counts, thr, got, pu)
    return tuple(counts)


def files(ctx, p):
    d = tempfile.mkdtemp(prefix="c30_")
    try:
        paths, want = [], []
        for k in range(p["files"]):
            n = ctx.pick((0, 1, 2))
            comment = ctx.pick(("", "# made by a run\n"))
            space = ctx.pick((",", ", "))
            path = os.path.join(d, "f%d.csv" % k)
            rows = [(k, i, 10.5 * i + k) for i in range(n)]
            with open(path, "w") as f:
                f.write(comment + space.join(("job", "step", "bsf")) + "\n")
                for r in rows:
                    f.write(space.join(str(v) for v in r) + "\n")
            paths.append(path)
            want += rows
        df = cat_csv_files(paths)
        require(list(df.columns) == ["job", "step", "bsf"], "columns %r", list(df.columns))
        got = [tuple(float(v) for v in r) for r in df.itertuples(index=False)]
        require(got == [tuple(float(v) for v in r) for r in want], "rows %r, expected %r", got, want)
    finally:
        shutil.rmtree(d)
    return len(want)


def distribution(ctx, p):
    if p["n"] < 100:
        seq = [ctx.pick(p.get("values", ("a", "b", 3))) for _ in range(p["n"])]
    else:
        m = ctx.pick((1, 2, 70))
        seq = [i % m for i in range(p["n"] - 1)] + [ctx.pick((0, m - 1, "new"))]
    it = iter(seq)
    got = sh.collect_distribution(lambda: next(it), p["n"])
    require(got == {k: seq.count(k) for k in set(seq)}, "counts %r of %r", got, seq)
    return tuple(seq[-5:])


def chi(ctx, p):
    """stochastic_equals / equals_uniform against a chi-square test computed here."""
    from scipy.special import gammaincc
    k, n = p["k"], p["n"]
    keys = ["x", "y", "z"][:k]
    obs = {}
    left = n
    for key in keys[:-1]:
        c = ctx.pick_int(left + 1)
        obs[key] = c
        left -= c
    obs[keys[-1]] = left
    exp = ctx.pick(p["expected"])
    exp = dict(zip(keys, exp))
    thr = ctx.pick((0.01, 0.05, 0.3, 0.9))
    shuffled = dict(reversed(list(obs.items())))
    if ctx.pick((0, 1)):
        shuffled = {a: b for a, b in shuffled.items() if b}      # outcomes never seen are missing
    stat = sum((obs[a] - exp[a]) ** 2 / exp[a] for a in keys)
    pv = float(gammaincc((k - 1) / 2, stat / 2))
    got = sh.stochastic_equals(dict(exp), dict(shuffled), p=thr)
    if abs(pv - thr) > 1e-6:
        require(bool(got) == (pv >= thr), "observed %r against %r at p=%r: %r (p value %r)", obs, exp, thr, got, pv)
    require(abs(sh.stochastic_chisquare(dict(exp), dict(shuffled)) - pv) < 1e-9, "p value of %r", obs)
    u = sum((obs[a] - n / k) ** 2 / (n / k) for a in keys)
    pu = float(gammaincc((k - 1) / 2, u / 2))
    if abs(pu - thr) > 1e-6:
        require(bool(sh.equals_uniform(dict(obs), p=thr)) == (pu >= thr), "uniformity of %r at p=%r (p value %r)", obs, thr, pu)
    return tuple(obs.values())


def one_outcome(ctx, p):
    """A distribution with a single outcome equals another iff the counts agree."""
    a, b = ctx.pick_int(3) + 1, ctx.pick_int(3) + 1
    got = sh.stochastic_equals({"x": a}, {"x": b}, p=ctx.pick((0.01, 0.5)))
    require(bool(got) == (a == b), "single outcome seen %d times against %d expected: %r", b, a, got)
    require(bool(sh.equals_uniform({"x": a}, p=0.05)), "a single outcome is uniform")
    return a, b


def gaussian(ctx, p):
    """equals_gaussian against a two-sided equal-variance t test computed here."""
    from scipy.special import betainc
    xs = [ctx.pick(p["values"]) for _ in range(p["n"])]
    mean, std = ctx.pick(p["means"]), ctx.pick((0.5, 2.0))
    m = ctx.pick((2, 50))
    thr = ctx.pick((0.01, 0.05, 0.3, 0.9))
    n = len(xs)
    mu = sum(xs) / n
    verdicts = set()
    for ddof in (0, 1):             # either estimate of the sample's variance is acceptable
        var = sum((x - mu) ** 2 for x in xs) / (n - ddof)
        dof = n + m - 2
        pooled = ((n - 1) * var + (m - 1) * std ** 2) / dof
        t = (mu - mean) / math.sqrt(pooled * (1 / n + 1 / m))
        pv = float(betainc(dof / 2, 0.5, dof / (dof + t * t)))
        verdicts |= {pv > thr} if abs(pv - thr) > 1e-6 else {True, False}
    got = sh.equals_gaussian(np.array(xs) if ctx.pick((0, 1)) else list(xs), mean, std, m, p=thr)
    require(bool(got) in verdicts, "sample %r against a Gaussian of mean %r, std %r (%d observations) at p=%r: %r", xs, mean, std, m, thr, got)
    return bool(got)


def scenarios(tier):
    T = tier == "thorough"
    out = []
    for n, m, b in ((1, 3, 7), (1, 4, 4), (2, 3, 2), (3, 3, 1)) + (((2, 4, 3), (3, 3, 2)) if T else ()):
        out.append(S("ela-%dof%d-%d" % (n, m, b), ela, {"tests": n, "design": m, "bins": b}, unit_bins=b, post=ela_post))
    out.append(S("ela-half", ela, {"tests": 1, "design": 3, "bins": 4, "half": True}, unit_bins=4, post=ela_post))
    out.append(S("curves-1x1", curves, {"exps": 1, "runs": 1, "times": (0, 1, 3), "values": (0, 1, -2)}))
    out.append(S("curves-1x2", curves, {"exps": 1, "runs": 2, "times": (1, 2), "values": (0, 3)}))
    out.append(S("curves-2x1", curves, {"exps": 2, "runs": 1, "times": (0, 5), "values": (1, 3)}))
    if T:
        out.append(S("curves-2x2", curves, {"exps": 2, "runs": 2, "times": (0, 5), "values": (1, 3)}))
        out.append(S("curves-1x2-3", curves, {"exps": 1, "runs": 2, "times": (0, 2, 3), "values": (0, 3)}))
    for land in ("saddle", "kink", "concave"):
        out.append(S("ela-many-" + land, ela, {"tests": 40, "design": 4, "bins": 3, "land": land}, unit_bins=3, deviations=1))
    out.append(S("ela-large", ela, {"tests": 1, "design": 16, "bins": 1, "points": "many", "land": "saddle"}, unit_bins=1, post=ela_post))
    out.append(S("ela-twins", ela, {"tests": 2, "design": 3, "bins": 2, "points": "twins"}, unit_bins=2))
    out.append(S("curves-gaps", curves_many, {"exps": 1, "runs": 2, "times": (7, 8, 30, 100, 1000, 123456)}))
    out.append(S("curves-late", curves, {"exps": 1, "runs": 1, "times": (5, 40), "values": (0, 1, -2)}))
    out.append(S("distribution-close", distribution, {"n": 3, "values": (0.5, 0.5 + 1e-13, 0.1 + 0.2, 0.3)}))
    out.append(S("distribution-large", distribution, {"n": 20011}))
    out.append(S("curves-long", curves_many, {"exps": 2, "runs": 2, "times": tuple(range(0, 450, 3))}))
    out.append(S("curves-runs", curves_many, {"exps": 3, "runs": 45, "times": (0, 1, 5)}))
    out.append(S("files-order", files_many, {"files": 3, "rows": 3}))
    out.append(S("files-long", files_many, {"files": 2, "rows": 2300}))
    for k in (3, 6, 10, 11):
        out.append(S("uniform-%d" % k, uniform_many, {"k": k}, deviations=3))
    for k in (1, 2):
        out.append(S("files-%d" % k, files, {"files": k}))
    for n in (1, 4):
        out.append(S("distribution-%d" % n, distribution, {"n": n}))
    out.append(S("chi-2", chi, {"k": 2, "n": 12, "expected": ((6, 6), (3, 9), (11, 1))}))
    out.append(S("one-outcome", one_outcome, {}))
    for n in (2, 3, 4) if T else (2, 3):
        out.append(S("gauss-%d" % n, gaussian, {"n": n, "values": (0.0, 1.0, 1.5, -4.0), "means": (0.0, 1.0, 9.0)}))
    out.append(S("chi-3", chi, {"k": 3, "n": 6, "expected": ((2, 2, 2), (1, 2, 3))}))
    return out
