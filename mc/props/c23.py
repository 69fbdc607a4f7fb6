"""C23: parsimony pressure prefers smaller genomes exactly as specified."""
import itertools
from math import inf
import numpy as np
from mc.engine import S, require, check_distribution
from leap_ec import ops
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.parsimony import lexical_parsimony, koza_parsimony
from .common import Table

BOUNDS = {"quick": "every pair over 12 fitness values (incl. nearly equal ones) and 7 genome lengths up to 3000 (arrays, lists, segmented), both directions, 7 penalties; every population of 3 "
                   "over 3 fitness values and 3 lengths through truncation (with and without parents), elitist and insertion survival, tournaments of 1-3 "
                   "(best and worst), random choice by proportional selection with exact probabilities"}
FITS = (0, 1, 2.5, -1.5, -3, 100.0, 1e-3, 1e6, 1 + 3e-6, 100.0 + 1e-5, 1e6 + 1e-4, 1e-3 + 1e-9)

LENS = (1, 2, 3, 7, 40, 300, 3000)


def genome(n, kind):
    if kind == "list":
        return [0] * n
    if kind == "segmented":
        return [np.zeros(3 - (i % 2), dtype=int) for i in range(n)]
    return np.zeros(n, dtype=int)


def make(f, n, problem, kind="array"):
    ind = Individual(genome(n, kind), IdentityDecoder(), problem)
    ind.fitness = f
    return ind


def crit(kind, maximize):
    """What the caller asked to rank by, written out independently."""
    if kind == "lex":
        return lambda f, n: (f if maximize else -f, -n)
    return lambda f, n: (f if maximize else -f) - kind * n


def keyfn(kind, curry):
    if kind == "lex":
        return lexical_parsimony
    if curry:
        return koza_parsimony(penalty=kind)
    return lambda ind: koza_parsimony(ind, penalty=kind)


def snapshot(ind):
    g = ind.genome if len(ind.genome) > 100 else tuple(tuple(np.ravel(g).tolist()) for g in ind.genome)
    return (ind.fitness, len(g) if g is ind.genome else g, ind.uuid, frozenset(ind.parents))


def pairs(ctx, p):
    kind, maximize = p["kind"], p["maximize"]
    problem = Table(lambda x: 0, maximize)
    gk = ctx.pick(("array", "list", "segmented"))
    ka, kb = keyfn(kind, 0), keyfn(kind, 1)
    want = crit(kind, maximize)
    fa, na = ctx.pick(FITS), ctx.pick(LENS)
    a = make(fa, na, problem, gk)
    for fb, nb in itertools.product(FITS, LENS):
        b = make(fb, nb, problem, gk)
        sa, sb = snapshot(a), snapshot(b)
        wa, wb = want(fa, na), want(fb, nb)
        for k in (ka, kb):
            va, vb = k(a), k(b)
            if kind == "lex" or abs(wa - wb) > 1e-6:
                require((va > vb) == (wa > wb) and (va < vb) == (wa < wb),
                        "fitness %r length %d ranks %s fitness %r length %d (%s, %s)", fa, na, "above" if va > vb else "not above", fb, nb, kind,
                        "maximising" if maximize else "minimising")
            elif wa == wb:
                require(va == vb or abs(va - vb) < 1e-9, "equally good individuals are told apart")
            if kind != "lex":
                require(abs((va - vb) - (wa - wb)) <= 1e-6 * max(1.0, abs(wa), abs(wb)), "penalised fitness difference is %r instead of %r", va - vb, wa - wb)
        require(snapshot(a) == sa and snapshot(b) == sb, "individuals changed")
    return (fa, na)


def used(ctx, p):
    kind, maximize, op, curry = p["kind"], p["maximize"], p["op"], p["curry"]
    problem = Table(lambda x: 0, maximize)
    spec = [(ctx.pick(p["fits"]), ctx.pick(p["lens"])) for _ in range(p["n"])]
    pop = [make(f, n, problem) for f, n in spec]
    if spec:
        snaps = [snapshot(x) for x in pop]
    want = crit(kind, maximize)
    worth = {id(x): want(f, n) for x, (f, n) in zip(pop, spec)}
    vals = [worth[id(x)] for x in pop]
    key = keyfn(kind, curry)
    if op == "trunc":
        k = ctx.pick(range(1, len(pop) + 1))
        res = ops.truncation_selection(pop, size=k, key=key)
        require(sorted(worth[id(x)] for x in res) == sorted(vals)[-k:], "kept %r of %r", [worth[id(x)] for x in res], vals)
        out = None
    elif op == "truncpar":
        k = ctx.pick(range(1, len(pop) + 1))
        res = ops.truncation_selection(pop[1:], size=k, parents=pop[:1], key=key)
        require(sorted(worth[id(x)] for x in res) == sorted(vals)[-k:], "kept %r of %r", [worth[id(x)] for x in res], vals)
        out = None
    elif op == "elite":
        off, par = pop[:1], pop[1:]
        res = ops.elitist_survival(list(off), par, k=1, key=key)
        best = max(worth[id(x)] for x in par)
        require([worth[id(x)] for x in res] == [max(best, worth[id(off[0])])], "survivor %r of offspring %r and parents %r",
                [worth[id(x)] for x in res], worth[id(off[0])], [worth[id(x)] for x in par])
        out = None
    elif op == "insert":
        off, par = pop[:1], pop[1:]
        res = ops.insertion_selection(off, par, key=key)
        out = tuple(i for i, x in enumerate(res) if x is off[0])
        require(len(res) == len(par), "size changed")
    else:
        k = p["k"]
        out = None
        x = next(ops.tournament_selection(pop, k=k, key=key, select_worst=op == "worst"))
        out = vals[[id(y) for y in pop].index(id(x))]
    require([snapshot(x) for x in pop] == snaps, "individuals changed")
    return (tuple(spec), tuple(vals)), out


def used_post(p, group, dist):
    vals = group[1]
    op = p["op"]
    want = {}
    if op == "insert":
        off, par = vals[0], vals[1:]
        for i, v in enumerate(par):
            if v == off:
                return              # either may stay
            k = (i,) if off > v else ()
            want[k] = want.get(k, 0) + 1 / len(par)
    elif op in ("best", "worst"):
        n = len(vals)
        for c in itertools.product(range(n), repeat=p["k"]):
            v = max(vals[i] for i in c) if op == "best" else min(vals[i] for i in c)
            want[v] = want.get(v, 0) + 1 / n ** p["k"]
    else:
        return
    check_distribution(dist, want, "%s among %r" % (op, vals))


def proportional(ctx, p):
    maximize, pen = p["maximize"], p["penalty"]
    problem = Table(lambda x: 0, maximize)
    spec = ctx.pick(p["pops"])
    pop = [make(f, n, problem) for f, n in spec]
    x = next(ops.proportional_selection(pop, offset="pop-min", key=koza_parsimony(penalty=pen)))
    return spec, [id(y) for y in pop].index(id(x))


def proportional_post(p, spec, dist):
    w = crit(p["penalty"], p["maximize"])
    v = [w(f, n) for f, n in spec]
    v = [x - min(v) for x in v]
    want = {i: x / sum(v) for i, x in enumerate(v) if x > 0}
    got = {k: q for k, q in dist.items() if q > 1e-12}
    check_distribution(got, want, "proportional selection by penalised fitness %r" % (v,), tol=1e-6)


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for maximize in (True, False):
        for kind in ("lex", 0, 0.5, 1, 2.0, 0.01, -0.5, 25.0):
            out.append(S("pairs-%s-%s" % (kind, maximize), pairs, dict(kind=kind, maximize=maximize), weight=3))
        for kind in ("lex", 0.5, 1):
            for curry in (0, 1):
                if kind == "lex" and curry:
                    continue
                base = dict(kind=kind, maximize=maximize, curry=curry, fits=(1, 2, -1.5), lens=(1, 2, 4), n=3)
                for op in ("trunc", "truncpar", "elite", "insert"):
                    out.append(S("use-%s-%s-%s-%d" % (op, kind, maximize, curry), used, dict(base, op=op), post=used_post, weight=10))
                for op in ("best", "worst"):
                    for k in (1, 2, 3):
                        fits = (1, 2) if k == 3 and not big else (1, 2, -1.5)
                        lens = (1, 3) if k == 3 and not big else (1, 2, 4)
                        out.append(S("use-%s-%s-%s-%d-%d" % (op, kind, maximize, curry, k), used, dict(base, op=op, k=k, fits=fits, lens=lens),
                                     post=used_post, weight=30))
        # values at multiples of 1/8 of the total, so that the grid of draws decides exactly
        s = 1 if maximize else -1
        out.append(S("proportional-%s" % maximize, proportional,
                     dict(maximize=maximize, penalty=0.5, pops=[((s * 1.0, 2), (s * 4.5, 3), (s * 7.0, 4)), ((s * 2.0, 4), (s * 2.0, 2), (s * 7.5, 1)),
                                                                ((s * 8.0, 16), (s * 2.0, 2), (s * 8.0, 2))]),
                     post=proportional_post, unit_bins=800))
    return out
