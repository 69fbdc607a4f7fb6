"""C04: both non-dominated sorting operators give exact dominance depth."""
import itertools
import numpy as np
from mc.engine import S, require
from leap_ec.individual import Individual
from leap_ec.multiobjective.ops import fast_nondominated_sort, rank_ordinal_sort
from .common import MOTable, depth_ranks, same_members

BOUNDS = {"quick": "every ordered list of 1-4 vectors over {0,1,2}^2, 1-4 over {0,1}^3, 1-5 in 1-D, 1-3 over {0,1,2}^3, every split into "
          "offspring and parents; lists of 9-10 within 2 changes of structured ones; fixed lists of 24-40; chains, wide fronts and "
          "duplicates of 290; all direction mixes; single scenarios: vectors that differ by 1e-7 to 1e-12 relative",
          "thorough": "one more vector everywhere, all direction mixes in every family"}
SORTERS = dict(fast=fast_nondominated_sort, ordinal=rank_ordinal_sort)


def make(vecs, problem, dtype=float):
    out = []
    for k, v in enumerate(vecs):
        ind = Individual(np.array([k]), problem=problem)
        ind.fitness = np.array(v, dtype=dtype)
        out.append(ind)
    return out


def check(vecs, cut, maximize, style, dtype=float, sorters=SORTERS):
    """Sort vecs[:cut] as offspring with vecs[cut:] as parents (cut=None: no parents argument)."""
    want = depth_ranks(vecs, maximize)
    for name, fn in sorters.items():
        problem = MOTable(None, maximize)
        everyone = make(vecs, problem, dtype)
        if style == "stale":       # leftovers of an earlier ranking
            for i, x in enumerate(everyone):
                x.rank, x.distance, x.dominated_by, x.dominates = 7 - i, 3.0, 2, [x]
        if cut is None:
            given, parents = list(everyone), None
            res = fn(given) if style != "curry" else fn()(given)
        else:
            given, parents = everyone[:cut], everyone[cut:]
            before = list(parents)
            res = fn(given, parents=parents) if style != "curry" else fn(parents=parents)(given)
            require(len(parents) == len(before) and all(a is b for a, b in zip(parents, before)),
                    "%s changed the parents' list", name)
        res = list(res)
        require(same_members(res, everyone), "%s returned %d individuals for %d given (or replaced some)",
                name, len(res), len(everyone))
        got = [x.rank for x in everyone]
        require(got == want, "%s: ranks %r, should be %r for %r (maximise=%r, %s offspring)", name, got, want, vecs, maximize, cut)
        require(all(isinstance(r, (int, np.integer)) for r in got), "%s: ranks are not integers: %r", name, got)
        for x, v in zip(everyone, vecs):
            require(tuple(x.fitness.tolist()) == tuple(float(a) if dtype is float else a for a in v), "%s changed a fitness", name)
    return tuple(want)


def lists(ctx, p):
    n = p["n"]
    vecs = [ctx.pick(p["grid"]) for _ in range(n)]
    cut = ctx.pick([None] + list(range(1, n + 1))) if p["split"] else None
    style = p.get("style", "plain")
    return check(vecs, cut, p["maximize"], style, p.get("dtype", float))


def near(ctx, p):
    base = p["base"]
    vecs = [ctx.pick([b] + [g for g in p["grid"] if g != b]) for b in base]
    return check(vecs, p.get("cut"), p["maximize"], "stale")


def fixed(ctx, p):
    k = ctx.pick(range(p["count"]))
    x = 12345 + 7919 * k
    vecs = []
    for _ in range(p["n"]):
        v = []
        for _ in range(p["m"]):
            x = (1103515245 * x + 12345) % (1 << 31)
            v.append((x >> 16) % p["range"])
        vecs.append(tuple(v))
    return check(vecs, p["n"] // 2 if k % 2 else None, p["maximize"], "plain")


def large(ctx, p):
    """Many fronts / one wide front / many duplicates, in several orders."""
    n, m = p["n"], len(p["maximize"])
    sign = [1 if x else -1 for x in p["maximize"]]
    shape = ctx.pick(("chain", "wide", "dup", "pairs"))
    order = ctx.pick(("up", "down", "mixed"))
    idx = {"up": list(range(n)), "down": list(range(n))[::-1], "mixed": [(k * 7 + 3) % n for k in range(n)]}[order]
    vecs = []
    for k in idx:
        if shape == "chain":
            v = [k] * m
        elif shape == "wide":
            v = [k] + [n - k] * (m - 1)
        elif shape == "dup":
            v = [k % 2] * m
        else:
            v = [k // 2 + k % 2] + [k // 2 + (1 - k % 2)] * (m - 1)
        vecs.append(tuple(float(a * s) for a, s in zip(v, sign)))
    return check(vecs, n // 3 if order == "mixed" else None, p["maximize"], "plain")[:3]


def mixes(m):
    return list(itertools.product((True, False), repeat=m))


def scenarios(tier):
    big = tier == "thorough"
    out = []
    g1 = [(0,), (1,), (2,)]
    g2 = list(itertools.product((0, 1, 2), repeat=2))
    g3 = list(itertools.product((0, 1), repeat=3))
    g3b = list(itertools.product((0, 1, 2), repeat=3))

    def add(name, fn=lists, weight=1, **p):
        dev = p.pop("dev", None)
        out.append(S(name + "-" + "".join("Mm"[not m] for m in p["maximize"]), fn, p, deviations=dev, weight=weight))
    for mx in mixes(1):
        for n in range(1, 6):
            add("one-%d" % n, maximize=mx, n=n, grid=g1, split=True, weight=n)
    for mx in mixes(2):
        for n in (1, 2, 3):
            add("g2-%d" % n, maximize=mx, n=n, grid=g2, split=True, weight=9 ** n)
        add("g2-4", maximize=mx, n=4, grid=g2, split=False, weight=9 ** 4)
        add("g2s-4", maximize=mx, n=4, grid=[(0, 1), (1, 0), (1, 1), (0, 0), (2, 1)], split=True, weight=3000)
        add("curry", maximize=mx, n=3, grid=g2[:6], split=True, style="curry", weight=200)
        add("stale", maximize=mx, n=3, grid=g2[:6], split=True, style="stale", weight=200)
        add("float", maximize=mx, n=3, grid=[(0.1, -0.2), (0.1, 1e9), (-3.5, -0.2), (1e-9, 0.0), (float("inf"), 1.0), (0.0, float("-inf"))],
            split=True, weight=900)
        add("int", maximize=mx, n=3, grid=g2[:6], split=True, dtype=int, weight=200)
        for base, eps in ((1.0, 1e-7), (0.0, 1e-14), (1e9, 0.5), (1.0, 2.3e-16)):     # objective values that differ only slightly
            add("slight-%r-%r" % (base, eps), maximize=mx, n=3, grid=[(base + a * eps, base - b * 4 * eps) for a, b in ((0, 0), (1, 1), (1, 0), (0, 1), (2, 1))], split=True, weight=300)
        if big:
            add("g2-5", maximize=mx, n=5, grid=g2, split=False, weight=9 ** 5)
        diag = [(k, k) for k in range(10)]
        anti = [(k, 9 - k) for k in range(10)]
        blocks = [(a + b, a + 2 - b) for a in (0, 3, 6) for b in (0, 1, 2)]
        pool = [(0, 0), (9, 9), (4, 5), (0, 9), (9, 0), (5, 5)]
        for nm, b in (("diag", diag), ("anti", anti), ("blocks", blocks), ("rev", diag[::-1])):
            add("near-" + nm, fn=near, maximize=mx, base=b, grid=pool, cut=4 if nm == "rev" else None, dev=2, weight=1500)
        add("fixed2", fn=fixed, maximize=mx, n=40, m=2, range=12, count=12, weight=800)
        add("fixed2f", fn=fixed, maximize=mx, n=33, m=2, range=1000, count=8, weight=800)
    for i, mx in enumerate(mixes(3)):
        for n in (1, 2, 3):
            add("g3-%d" % n, maximize=mx, n=n, grid=g3, split=True, weight=8 ** n)
        if big or i in (0, 2, 5):
            add("g3-4", maximize=mx, n=4, grid=g3, split=False, weight=8 ** 4)
        if big or i in (0, 6):
            add("g3b-3", maximize=mx, n=3, grid=g3b, split=False, weight=27 ** 3)
        add("fixed3", fn=fixed, maximize=mx, n=30, m=3, range=5, count=8, weight=700)
        add("near3", fn=near, maximize=mx, base=[(k % 3, (k // 3) % 3, (2 * k) % 3) for k in range(9)],
            grid=[(0, 0, 0), (2, 2, 2), (1, 1, 1), (2, 0, 1), (0, 2, 1)], dev=2, weight=900)
    for mx in ((True, True), (False, True), (False, False, True)):
        add("large", fn=large, maximize=mx, n=601 if big else 290, weight=2000)
    for mx in mixes(4)[::5]:
        add("g4", maximize=mx, n=3, grid=list(itertools.product((0, 1), repeat=4)), split=False, weight=4000)
        add("fixed4", fn=fixed, maximize=mx, n=24, m=4, range=4, count=6, weight=700)
    return out
