"""C10: mutation operators - legal values only, exact probabilities, fitness cleared."""
import copy
import itertools
import math
from math import inf, comb
import numpy as np
from mc.engine import S, require, check_distribution, check_upper, threshold
from leap_ec.individual import Individual
from leap_ec.binary_rep.ops import mutate_bitflip, genome_mutate_bitflip
from leap_ec.int_rep.ops import mutate_randint, individual_mutate_randint, mutate_binomial, genome_mutate_binomial
from leap_ec.real_rep.ops import mutate_gaussian, genome_mutate_gaussian
from .common import Table

BOUNDS = {"quick": "genomes of 1-4 genes (streams of up to 3 individuals of different lengths), mutation probabilities 0-1 in steps of 1/4 "
          "and 1/3, normal draws represented by 2-4 values, binomial and integer draws complete; exact outcome distribution; "
          "genomes of 12 genes within 2 deviations; genomes of 150-300 genes within 1 deviation (explored mass against exact "
          "probabilities); 2-13 impossible settings per operator; single scenarios: genomes far outside or at large distance from "
          "the bounds, fractional mutation counts, mirrored and flat Gaussian outcomes"}


def clip(x, b):
    return min(max(x, b[0]), b[1])


def gene_law(p, i, g, length, zs):
    """{new value: probability} for gene i with old value g."""
    if p.get("probability") is not None:
        q = p["probability"]
    elif p["expected"] == "isotropic":
        q = 1.0
    else:
        q = p["expected"] / length
    law = {}

    def put(v, pr):
        if pr > 0:
            v = round(float(v), 9)
            law[v] = law.get(v, 0.0) + pr
    put(g, 1 - q)
    b = bound(p, i)
    if p["op"] == "bitflip":
        put(1 - g, q)
    elif p["op"] == "randint":
        for v in range(b[0], b[1] + 1):
            put(v, q / (b[1] - b[0] + 1))
    elif p["op"] == "binomial":
        n = p["n"]
        s = p["std"][i] if isinstance(p["std"], (list, tuple, np.ndarray)) else p["std"]
        pr = (1 - math.sqrt(max(0.0, 1 - 4 * s * s / n))) / 2
        for k in range(n + 1):
            put(clip(g + k - math.floor(n * pr + 1e-12), b), q * comb(n, k) * pr ** k * (1 - pr) ** (n - k))
    else:
        s = p["std"][i] if isinstance(p["std"], (list, tuple, np.ndarray)) else p["std"]
        for z in zs:
            put(clip(p.get("slope", 1.0) * (g + z * s) + p.get("intercept", 0.0), b), q / len(zs))
    return law


def bound(p, i):
    b = p.get("bounds")
    if b is None:
        return (-inf, inf)
    if np.ndim(b[0]) == 0:
        return b
    return tuple(b[i])


def build(p):
    kw = {}
    if p.get("probability") is not None:
        kw["probability"] = p["probability"]
    if p.get("expected") is not None:
        kw["expected_num_mutations"] = p["expected"]
    if p["op"] == "bitflip":
        return (mutate_bitflip if not p.get("raw") else genome_mutate_bitflip), kw
    kw["bounds"] = p["bounds"] if p.get("bounds") is not None else None
    if kw["bounds"] is None:
        del kw["bounds"]
    if p["op"] == "randint":
        return (mutate_randint if not p.get("raw") else individual_mutate_randint), kw
    kw["std"] = p["std"]
    if p["op"] == "binomial":
        kw["n"] = p["n"]
        return (mutate_binomial if not p.get("raw") else genome_mutate_binomial), kw
    if "slope" in p:
        kw["transform_slope"] = p["slope"]
    if "intercept" in p:
        kw["transform_intercept"] = p["intercept"]
    return (mutate_gaussian if not p.get("raw") else genome_mutate_gaussian), kw


def run(ctx, p):
    genomes = [ctx.pick(p["genomes"]) for _ in range(p.get("stream", 1))] if not p.get("fixed") else list(p["fixed"])
    dt = p.get("dtype", float if p["op"] == "gaussian" else int)
    op, kw = build(p)
    frozen = copy.deepcopy(kw)
    if p.get("raw"):
        arr = [np.array(g, dtype=dt) for g in genomes]
        fn = op(**kw)
        res = [fn(a) for a in arr]
    else:
        inds = [Individual(np.array(g, dtype=dt), problem=Table(None)) for g in genomes]
        for x in inds:
            x.fitness = 3.0
            x.parents = {"mum"}
        uu = [x.uuid for x in inds]
        it = op(**kw)(iter(inds))
        got = [next(it) for _ in genomes]
        require(all(a is b for a, b in zip(got, inds)), "mutation replaced or reordered individuals")
        require(all(x.fitness is None for x in got), "a mutated individual kept its fitness")
        require([x.uuid for x in got] == uu and all(x.parents == {"mum"} for x in got), "mutation changed identity or lineage")
        res = [x.genome for x in got]
    for k in kw:
        require(repr(kw[k]) == repr(frozen[k]), "mutation changed its own parameter %s", k)
    for g, r in zip(genomes, res):
        require(isinstance(r, np.ndarray) and r.dtype == np.dtype(dt) and r.shape == (len(g),),
                "genome of %d %s became %r", len(g), np.dtype(dt), r)
        for i in range(len(g)):
            v = round(float(r[i]), 9)
            law = gene_law(p, i, g[i], len(g), ctx.run.z)
            require(v in law, "gene %d of %r became %r; possible: %r (bounds %r)", i, g, v, sorted(law)[:12], bound(p, i))
    return tuple(genomes), tuple(tuple(round(float(x), 9) for x in r) for r in res)


def post(p, genomes, dist):
    zs = p["z"]
    parts = []
    for g in genomes:
        laws = [gene_law(p, i, g[i], len(g), zs) for i in range(len(g))]
        d = {}
        for combo in itertools.product(*[l.items() for l in laws]):
            k = tuple(c[0] for c in combo)
            d[k] = d.get(k, 0) + math.prod(c[1] for c in combo)
        parts.append(d)
    want = {}
    for combo in itertools.product(*[d.items() for d in parts]):
        want[tuple(c[0] for c in combo)] = math.prod(c[1] for c in combo)
    check_distribution(dist, want, "mutation %s of %r" % ({k: v for k, v in p.items() if k not in ("genomes", "z")}, genomes))


def wide(ctx, p):
    """A long genome: which genes mutated (each gene alone is judged by the same law as in short ones)."""
    n = p["length"]
    dt = float if p["op"] == "gaussian" else int
    g = [p["value"]] * n
    op, kw = build(p)
    if p.get("raw"):
        r = op(**kw)(np.array(g, dtype=dt))
    else:
        ind = Individual(np.array(g, dtype=dt), problem=Table(None))
        ind.fitness = 3.0
        it = op(**kw)(iter([ind]))
        got = next(it)
        require(got is ind and ind.fitness is None, "replaced, or the fitness was kept")
        r = ind.genome
    require(r.shape == (n,) and r.dtype == np.dtype(dt), "genome became %r", r)
    changed = [i for i in range(n) if r[i] != g[i]]
    ctx.state((len(changed), tuple(changed[:2])))
    zs = ctx.run.z
    for i in changed[:3]:
        law = gene_law(p, i, g[i], n, zs)
        require(round(float(r[i]), 9) in law, "gene %d became %r; possible: %r", i, r[i], sorted(law)[:9])
    return "wide", (len(changed), tuple(changed) if len(changed) < 4 else None)


def wide_post(p, group, dist):
    n, q = p["length"], p["q"]
    loss = p.get("stay", 0.0)                   # a mutated gene may come out as before
    m = q * (1 - loss)

    def want(o):
        k, genes = o
        if genes is None:
            return 1.0
        return m ** k * (1 - m) ** (n - k)
    check_upper(dist, want, "%s over %d genes" % (p["op"], n))


def far(ctx, p):
    """Integer ranges far too wide to enumerate: both ends are reached, nothing beyond."""
    bounds = p["bounds"]
    g = [lo for lo, hi in bounds]
    if p["raw"]:
        r = individual_mutate_randint(np.array(g), bounds, probability=1.0)
    else:
        ind = Individual(np.array(g), problem=Table(None))
        ind.fitness = 3.0
        r = next(mutate_randint(bounds=bounds, probability=1.0)(iter([ind]))).genome
    for v, (lo, hi) in zip(r.tolist(), bounds):
        require(lo <= v <= hi, "%r is outside its bounds %r", v, (lo, hi))
    return "far", tuple(int(v) for v in r.tolist())


def far_post(p, group, dist):
    for k, (lo, hi) in enumerate(p["bounds"]):
        seen = {o[k] for o in dist}
        require(min(seen) == lo and max(seen) == hi, "gene %d with bounds %r only ranges over %r..%r", k, (lo, hi), min(seen), max(seen))


def refuse(ctx, p):
    """Contradictory, missing or impossible settings and genomes that are no arrays are refused."""
    raw = ctx.pick((False, True))
    op, kw = build(dict(p["base"], raw=raw))
    bad = ctx.pick(p["bad"])
    g = [1, 0] if bad == "list" else (1, 0) if bad == "tuple" else np.array([1, 0], dtype=float if p["base"]["op"] == "gaussian" else int)
    if isinstance(bad, dict):
        for k in ("probability", "expected_num_mutations"):
            kw.pop(k, None)
        kw.update(bad)
    try:
        if raw:
            r = op(**kw)(g) if p["base"]["op"] == "binomial" else op(g, **kw)
        else:
            r = next(op(**kw)(iter([Individual(g, problem=Table(None))])))
    except Exception:
        return raw, repr(bad)
    require(False, "%s accepted %r and returned %r", op, bad, r)


def scenarios(tier):
    big = tier == "thorough"
    out = []
    Z4, Z2 = (-2.0, -0.5, 0.25, 1.5), (-1.5, 0.75)

    def add(name, weight=1, dev=None, bins=4, z=Z4, dist=True, **p):
        p["z"] = z
        out.append(S(name, run, p, post=post if dist else None, weight=weight, deviations=dev, unit_bins=bins, z=z))
    bits = [g for n in (1, 2, 3) for g in itertools.product((0, 1), repeat=n)]
    for raw in (False, True):
        t = "raw" if raw else "op"
        for pr in (0, 0.25, 0.5, 1):
            add("bit-%s-p%s" % (t, pr), op="bitflip", probability=pr, genomes=bits, raw=raw, weight=9)
        for ex in (0.5, 1):
            add("bit-%s-e%s" % (t, ex), op="bitflip", expected=ex, genomes=[g for g in bits if len(g) <= 2], raw=raw)
        add("bit-%s-third" % t, op="bitflip", expected=1, genomes=[(0, 1, 1), (1, 1, 1)], raw=raw, bins=3)
        add("bit-%s-four" % t, op="bitflip", expected=1, genomes=[(0, 1, 1, 0), (1, 1, 1, 1)], raw=raw, weight=3)
    for dt in (bool, np.uint8, np.int8, float):
        add("bit-%s" % np.dtype(dt), op="bitflip", probability=0.5, genomes=bits[:6], dtype=dt, bins=2)
    add("bit-stream", op="bitflip", expected=1, fixed=((1,), (0, 1), (1, 0, 0, 1)), genomes=None, weight=90)
    add("bit-long", op="bitflip", probability=0.25, fixed=((0, 1) * 6,), genomes=None, dev=2, dist=False, weight=3)

    B3 = [(0, 1), (-2, 0), (5, 7)]
    for raw in (False, True):
        t = "raw" if raw else "op"
        for pr in (0, 0.25, 0.5, 1):
            add("int-%s-p%s" % (t, pr), op="randint", probability=pr, bounds=B3, genomes=[(0, -1, 7), (1, -2, 5), (0, 0, 6)], raw=raw, weight=9)
        add("int-%s-e1" % t, op="randint", expected=1, bounds=[(3, 3), (-1, 1)], genomes=[(3, 1), (3, -1)], raw=raw)
        add("int-%s-e2" % t, op="randint", expected=2, bounds=[(3, 4), (-1, 1)], genomes=[(3, 1), (4, -1)], raw=raw)
        add("int-%s-arr" % t, op="randint", probability=0.5, bounds=np.array([(3, 4), (-1, 1)]), genomes=[(3, 1), (4, -1)], raw=raw, bins=2)
        add("int-%s-third" % t, op="randint", expected=1, bounds=B3, genomes=[(0, -1, 7)], raw=raw, bins=3, weight=2)
    add("int-32", op="randint", probability=0.5, bounds=[(0, 3), (1, 2)], genomes=[(0, 1)], dtype=np.int32, bins=2)
    add("int-stream", op="randint", expected=1, bounds=[(0, 1), (4, 5)], fixed=((1, 4), (0, 5)), genomes=None, bins=2, weight=5)
    add("int-long", op="randint", probability=0.5, bounds=[(i, 2 * i) for i in range(12)], fixed=(tuple(range(12)),), genomes=None, dev=2, dist=False, weight=3)

    for raw in (False, True):
        t = "raw" if raw else "op"
        for pr in (0, 0.25, 1):
            add("bin-%s-p%s" % (t, pr), op="binomial", probability=pr, std=1.0, n=4, bounds=[(0, 10), (-3, 3)], genomes=[(5, 0), (0, 3), (10, -2)], raw=raw, weight=4)
        add("bin-%s-vec" % t, op="binomial", probability=0.5, std=[1.0, 0.9], n=4, bounds=[(0, 10), (-3, 3)], genomes=[(5, 0), (0, 3)], raw=raw, bins=2, weight=4)
        add("bin-%s-vec3" % t, op="binomial", expected=1, std=[0.5, 1.0, 0.9], n=4, bounds=[(0, 10), (-3, 3), (2, 4)], genomes=[(5, 0, 3)], raw=raw, bins=3, weight=9)
        add("bin-%s-exp" % t, op="binomial", expected=1, std=1.0, n=4, bounds=[(0, 4), (2, 6)], genomes=[(2, 2), (1, 6)], raw=raw, weight=2)
    add("bin-tuple", op="binomial", probability=0.5, std=1.0, n=4, bounds=(0, 6), genomes=[(5, 0), (0, 3)], bins=2)
    add("bin-fraction", op="binomial", probability=0.5, std=[0.97, 0.6], n=4, bounds=(-9, 16), genomes=[(5, 0), (0, 3)], bins=2)
    add("bin-zero", op="binomial", probability=0.5, std=0.0, n=4, bounds=(0, 6), genomes=[(5, 0)], bins=2)
    add("bin-32", op="binomial", probability=1, std=1.0, n=4, bounds=[(0, 10), (-3, 3)], genomes=[(5, 0)], dtype=np.int32)
    add("bin-stream", op="binomial", expected=1, std=1.0, n=4, bounds=[(0, 10), (-3, 3)], fixed=((5, 0), (2, -1)), genomes=None, bins=2, weight=9)
    add("bin-long", op="binomial", probability=0.5, std=[0.5 + 0.5 * (i % 2) for i in range(12)], n=4, bounds=[(i, 2 * i) for i in range(12)],
        fixed=(tuple(range(12)),), genomes=None, dev=2, dist=False, weight=5)

    G2 = [(0.0, 1.0), (-2.5, 4.0)]
    for raw in (False, True):
        t = "raw" if raw else "op"
        for ex in ("isotropic", 1, 0.5, 2):
            add("gauss-%s-%s" % (t, ex), op="gaussian", expected=ex, std=0.5, genomes=G2, raw=raw, weight=4)
            add("gauss-%s-%s-vec" % (t, ex), op="gaussian", expected=ex, std=[0.5, 2.0], bounds=[(-1, 1), (0, 4.25)], genomes=[(0.0, 1.0), (1.0, 4.0)], raw=raw, weight=4)
        add("gauss-%s-tuple" % t, op="gaussian", expected=1, std=2.0, bounds=(-1, 1.5), genomes=[(0.0, 1.0), (1.5, -1.0)], raw=raw, weight=3)
        add("gauss-%s-nparr" % t, op="gaussian", expected="isotropic", std=np.array([1.0, 3.0]), bounds=np.array([(-1.0, 1), (0, 4.25)]), genomes=[(0.0, 1.0)], raw=raw)
        add("gauss-%s-affine" % t, op="gaussian", expected=1, std=1.0, slope=2.0, intercept=-1.0, bounds=(-5, 5), genomes=[(0.0, 1.0), (4.0, -2.0)], raw=raw, weight=3)
        add("gauss-%s-flat" % t, op="gaussian", expected=1, std=1.0, slope=0.0, intercept=2.5, bounds=(-5, 5), genomes=[(0.0, 1.0), (4.0, -2.0)], raw=raw, weight=3)
        add("gauss-%s-mirror" % t, op="gaussian", expected="isotropic", std=[1.0, 0.5], slope=-0.5, bounds=[(-5, 1), (-0.25, 5)], genomes=[(0.0, 1.0), (4.0, -2.0)], raw=raw, weight=3)
        add("gauss-%s-3" % t, op="gaussian", expected=1, std=[1.0, 10.0, 100.0], bounds=[(-5, 5), (-50, 5), (-500, 500)], genomes=[(0.0, 1.0, 2.0)], raw=raw, bins=3, z=Z2, weight=4)
        add("gauss-%s-0" % t, op="gaussian", expected=1, std=0.0, genomes=G2, raw=raw, z=Z2)
    add("gauss-4", op="gaussian", expected=1, std=[1.0, 2.0, 4.0, 8.0], bounds=[(-5, 5), (-50, 1.5), (2, 500), (-1, 1)], genomes=[(0.0, 1.0, 2.0, 0.5)], z=Z2, weight=30)
    add("gauss-stream", op="gaussian", expected=1, std=1.0, fixed=((0.5,), (1.0, 2.0)), genomes=None, bins=2, z=Z2, weight=9)
    add("gauss-streamv", op="gaussian", expected="isotropic", std=[1.0, 5.0], bounds=[(-1, 1), (-9, 3)], fixed=((0.5, 0.0), (1.0, 2.0), (-1.0, -9.0)), genomes=None, bins=2, z=Z2, weight=30)
    add("gauss-long", op="gaussian", expected=6, std=[float(i + 1) for i in range(12)], bounds=[(-i - 2, i + 0.5) for i in range(12)],
        fixed=((0.25,) * 12,), genomes=None, dev=2, dist=False, weight=5)
    for n in (150, 300):
        for raw in (False, True):
            for e in (0.25, 1, 3):     # over a long genome a probability too high shows with 0.25, one too low with 3
                q = e / n
                for o, kw in (("bitflip", dict(value=0)), ("randint", dict(value=1, bounds=[(0, 1)] * n, stay=0.5)),
                              ("gaussian", dict(value=0.5, std=[1.0 + i % 7 for i in range(n)], bounds=[(-3.0 - i % 5, 3.0 + i % 3) for i in range(n)]))):
                    if o == "randint" and e == 3:
                        continue
                    out.append(S("wide-%s-%d-%s-%s" % (o, n, raw, e), wide, dict(kw, op=o, length=n, raw=raw, expected=e, q=q), post=wide_post, deviations=1,
                                 unit_bins=threshold(q), z=(1.0,), limit=20000, weight=50))
    for raw in (False, True):
        for k, bs in enumerate(([(0, 2 ** 31)], [(-2 ** 40, 2 ** 40), (0, 1)], [(0, 10 ** 12), (-10 ** 12, -10 ** 11)], [(2 ** 31 - 1, 2 ** 31)], [(0, 70000), (-70000, 70000)])):
            out.append(S("far-%d-%s" % (k, raw), far, dict(bounds=bs, raw=raw), post=far_post))
    EITHER = [dict(probability=0.5, expected_num_mutations=1), dict(probability=0.0, expected_num_mutations=0.5), {}, dict(probability=-0.25), dict(probability=1.25),
              dict(probability=-1), dict(probability=2)]
    for o, base, bad in (("bitflip", {}, EITHER), ("randint", dict(bounds=[(0, 1), (0, 1)]), EITHER),
                         ("binomial", dict(bounds=[(0, 1), (0, 1)], std=0.5, n=4), EITHER + [dict(probability=0.5, std=1.25), dict(probability=0.5, std=3.0), dict(
                             probability=0.5, std=[0.5, 1.5]), dict(probability=0.5, n=0.9)]),
                         ("gaussian", dict(std=1.0), [dict(expected_num_mutations=None)])):
        out.append(S("refuse-" + o, refuse, dict(base=dict(base, op=o, probability=0.5 if o != "gaussian" else None, expected=None if o != "gaussian" else 1),
                                                 bad=["list", "tuple"] + bad)))
    if big:
        add("bit-5", op="bitflip", expected=1, genomes=[(0, 1, 1, 0, 1)], bins=5, weight=100)
        add("int-4", op="randint", expected=2, bounds=B3 + [(0, 2)], genomes=[(0, -1, 7, 2), (1, -2, 5, 0)], bins=2, weight=100)
        add("gauss-z4", op="gaussian", expected=1, std=[1.0, 2.0, 4.0], bounds=[(-5, 5), (-50, 1.5), (2, 500)], genomes=[(0.0, 1.0, 2.0), (5.0, -3.0, 2.0)], bins=3, weight=200)
        add("bit-long3", op="bitflip", probability=0.25, fixed=((0, 1) * 9,), genomes=None, dev=3, dist=False, weight=30)
    return out
