"""C09: crossover conserves genes; children are delivered exactly once."""
import itertools
import math
import numpy as np
from mc.engine import S, require, check_distribution, check_upper, threshold, Violation
from leap_ec import ops
from leap_ec.individual import Individual
from .common import Table, multiset

BOUNDS = {"quick": "genome lengths 1-5 (equal and unequal), 1-3 cut points, swap/crossover probabilities in steps of 1/4 (and the 0.2 "
          "default), every random outcome with its exact probability; genomes of 150-300 genes within 1-2 deviations; every "
          "consumption history of up to 4 calls x 0-3 children; single scenarios: genes of int, float, bool and object type"}


def parent(tag, n, kind="array"):
    g = [100 * tag + i for i in range(n)]
    genome = np.array(g) if kind == "array" else [np.array([x, x + 0.5]) for x in g]
    p = Individual(genome, problem=Table(None))
    c = p.clone()
    c.fitness = 5.0 + tag
    return p, c


def genes(ind, kind):
    return tuple(int(x) for x in ind.genome) if kind == "array" else tuple(int(s[0]) for s in ind.genome)


def make_op(p):
    kw = {}
    if p.get("p_xover") is not None:
        kw["p_xover"] = p["p_xover"]
    if p.get("persist") is not None:
        kw["persist_children"] = p["persist"]
    if p["op"] == "uniform":
        if p.get("p_swap") is not None:
            kw["p_swap"] = p["p_swap"]
        return ops.UniformCrossover(**kw)
    if p.get("points") is not None:
        kw["num_points"] = p["points"]
    return ops.NAryCrossover(**kw)


def once(ctx, p):
    la, lb = ctx.pick(p["lens"])
    kind = p.get("kind", "array")
    pa, a = parent(1, la, kind)
    pb, b = parent(2, lb, kind)
    ga, gb = genes(a, kind), genes(b, kind)
    ua, ub = a.parents.copy(), b.parents.copy()
    before = (genes(pa, kind), genes(pb, kind))
    out = make_op(p)(iter([a, b]))
    c, d = next(out), next(out)
    require(c is not d, "the same child was delivered twice")
    require((genes(pa, kind), genes(pb, kind)) == before, "crossover changed the original parents")
    gc, gd = genes(c, kind), genes(d, kind)
    require(isinstance(c.genome, type(a.genome)) and isinstance(d.genome, type(b.genome)), "genome type changed")
    if c.fitness is not None or d.fitness is not None:
        # a pair that was not recombined: passes through untouched
        require(c is a and d is b, "an unrecombined pair was replaced or reordered")
        require(gc == ga and gd == gb and c.fitness == 6.0 and d.fitness == 7.0 and c.parents == ua and d.parents == ub,
                "an unrecombined pair was changed: %r %r, fitness %r %r", gc, gd, c.fitness, d.fitness)
        return (la, lb), "passed"
    require(c.fitness is None and d.fitness is None, "a recombined child kept its fitness")
    require(c.parents == ua | ub and d.parents == ua | ub, "a recombined child does not know both parents")
    require(c.parents is not d.parents, "children share one set of parents")
    require(c.uuid != d.uuid, "children share an identity")
    require(multiset(gc + gd) == multiset(ga + gb), "genes not conserved: %r + %r became %r + %r", ga, gb, gc, gd)
    if isinstance(c.genome, np.ndarray):
        require(not np.shares_memory(c.genome, d.genome), "children share genome storage")
    if la == lb or p["op"] == "uniform":
        for i in range(max(la, lb)):
            have = multiset([g[i] for g in (gc, gd) if i < len(g)])
            want = multiset([g[i] for g in (ga, gb) if i < len(g)])
            require(have == want, "position %d: genes %r became %r", i, want, have)
        return (la, lb), tuple(int(x >= 200) for x in gc)
    return (la, lb), (gc, gd)


def once_post(p, group, dist):
    la, lb = group
    px = 1.0 if p.get("p_xover") is None else p["p_xover"]
    want = {}
    if px < 1:
        want["passed"] = 1 - px
    if p["op"] == "uniform":
        m = min(la, lb)
        q = 0.2 if p.get("p_swap") is None else p["p_swap"]
        for mask in itertools.product((0, 1), repeat=m):
            pr = px * math.prod(q if x else 1 - q for x in mask)
            if pr > 0:
                want[mask + (0,) * (la - m)] = pr
    elif la == lb:
        n = 2 if p.get("points") is None else p["points"]
        combos = list(itertools.combinations(range(la), n))
        for cuts in combos:
            mask, s = [], 0
            for i in range(la):
                if i in cuts:
                    s ^= 1
                mask.append(s)
            k = tuple(mask)
            want[k] = want.get(k, 0) + px / len(combos)
    else:
        return
    check_distribution(dist, want, "%s crossover %r of lengths %r (gene origins of first child)" % (p["op"], p, group))


def wide(ctx, p):
    """Genomes of hundreds of genes: position-wise exchange, and for one cut point the exact distribution."""
    la, lb = p["lens"]
    a = Individual(np.arange(la) * 2 + 1000, problem=Table(None))
    b = Individual(np.arange(lb) * 2 + 1001, problem=Table(None))
    ga, gb = a.genome.tolist(), b.genome.tolist()
    a.fitness = b.fitness = 1.0
    out = make_op(p)(iter([a, b]))
    c, d = next(out), next(out)
    require(c is a and d is b and c.fitness is None and d.fitness is None, "children were replaced or kept their fitness")
    gc, gd = c.genome.tolist(), d.genome.tolist()
    require(len(gc) + len(gd) == la + lb, "lengths %d and %d", len(gc), len(gd))
    m = min(la, lb)
    mask = []
    for i in range(m):
        require((gc[i], gd[i]) in ((ga[i], gb[i]), (gb[i], ga[i])), "position %d holds %r and %r, was %r and %r", i, gc[i], gd[i], ga[i], gb[i])
        mask.append(int(gc[i] != ga[i]))
    require(sorted(gc[m:] + gd[m:]) == sorted(ga[m:] + gb[m:]), "the longer genome's tail was lost")
    if p["op"] == "uniform":
        require(gc[m:] == ga[m:], "the longer genome's tail moved")
        sw = [i for i in range(m) if mask[i]]
        return "wide", (len(sw), tuple(sw) if len(sw) < 4 else None)
    cuts = [i for i in range(m) if mask[i] != (mask[i - 1] if i else 0)]
    require(len(cuts) <= p["points"], "cut at %r", cuts)
    if la == lb:
        require(len(cuts) == p["points"], "%d cuts instead of %d: %r", len(cuts), p["points"], cuts)
    return "wide", tuple(cuts)


def wide_post(p, group, dist):
    n = min(p["lens"])
    if p["op"] == "uniform":
        q = p["p_swap"]
        check_upper(dist, lambda o: 1.0 if o[1] is None else q ** o[0] * (1 - q) ** (n - o[0]), "swapped genes of %d" % n)
    elif p["points"] == 1 and p["lens"][0] == p["lens"][1]:
        check_distribution(dist, {(i,): 1.0 / n for i in range(n)}, "cut points of %d" % n)


MADE = {"fine": lambda t, i: (t + i) / 3 + 1e-9 * t, "single": lambda t, i: np.float32((t + i) / 3), "bool": lambda t, i: bool((t + i) % 2), "small": lambda t, i: (t * 50 + i) % 128,
        "text": lambda t, i: "gene%d.%d" % (t, i), "objects": lambda t, i: ("g", t, i), "same": lambda t, i: i, "equal": lambda t, i: 7, "huge": lambda t, i: 2 ** 60 + 2 * i + t, "list": lambda t, i: (t, i),
        "rows": lambda t, i: [t, i, t * i / 7]}


def values(ctx, p):
    """Genes of every element type arrive unchanged."""
    n, kind = p["n"], ctx.pick(sorted(MADE) if p["op"] == "nary" else [k for k in sorted(MADE) if k not in ("list", "rows")])
    dt = {"fine": float, "single": np.float32, "bool": bool, "small": np.int8, "text": "U9", "objects": object, "same": int, "equal": int, "huge": np.int64, "rows": float}

    def make(t):
        vals = [MADE[kind](t, i) for i in range(n)]
        if kind == "list":
            return list(vals)
        if kind == "objects":
            g = np.empty(n, dtype=object)
            for i, v in enumerate(vals):
                g[i] = v
            return g
        return np.array(vals, dtype=dt[kind])
    a, b = [Individual(make(t), problem=Table(None)) for t in (1, 2)]
    a.fitness, b.fitness = 1.0, 2.0
    ua, ub = {a.uuid}, {b.uuid}
    pa, pb = a, b
    a, b = a.clone(), b.clone()
    a.fitness, b.fitness = 1.0, 2.0
    read = lambda x: [tuple(v) if kind in ("rows", "list", "objects") else v for v in x.genome]
    ga, gb = read(a), read(b)
    out = make_op(p)(iter([a, b]))
    c, d = next(out), next(out)
    gc, gd = read(c), read(d)
    require(c.fitness is None and d.fitness is None and c.parents == d.parents == ua | ub, "after recombination of %s genes: fitness %r %r, %d and %d parents", kind, c.fitness, d.fitness,
            len(c.parents), len(d.parents))
    require(len(gc) == len(gd) == n, "lengths %d and %d", len(gc), len(gd))
    for i in range(n):
        require((gc[i], gd[i]) in ((ga[i], gb[i]), (gb[i], ga[i])), "%s genes: position %d holds %r and %r, was %r and %r", kind, i, gc[i], gd[i], ga[i], gb[i])
    if kind != "list":
        require(c.genome.dtype == d.genome.dtype == pa.genome.dtype, "%s genes became %r", kind, c.genome.dtype)
    require(read(pa) == ga and read(pb) == gb, "crossover changed the original parents")
    return kind, tuple(gc[i] == ga[i] for i in range(n))


def refuse(ctx, p):
    la, lb, n = ctx.pick([(1, 3, 2), (3, 1, 2), (2, 2, 3), (1, 1, 2)])
    _, a = parent(1, la)
    _, b = parent(2, lb)
    try:
        next(ops.NAryCrossover(num_points=n)(iter([a, b])))
    except (RuntimeError, ValueError):
        return "refused"
    raise Violation("crossover with %d points accepted genomes of length %d and %d" % (n, la, lb))


def history(ctx, p):
    """Several calls of one operator, each consumed a chosen number of times."""
    op = make_op(p)
    twin = make_op(p)
    kids = [parent(i + 1, 2)[1] for i in range(16)]
    pulled = []

    def stream():
        for k in kids:
            pulled.append(k)
            yield k
    src = stream()
    got = []
    takes = []
    for call in range(p["calls"]):
        take = ctx.pick(p["takes"])
        takes.append(take)
        it = op(src)
        for _ in range(take):
            got.append(next(it))
        if p.get("twin") and call == 0:
            other = [parent(50, 2)[1], parent(51, 2)[1]]
            t = next(twin(iter(other)))
            require(any(t is o for o in other), "an operator delivered a child of another operator")
    # expected: which of the source individuals, in order
    want, pos, left = [], 0, None
    for take in takes:
        if not p["persist"]:
            left = None
        for _ in range(take):
            if left is not None:
                want.append(left)
                left = None
            else:
                want.append(pos)
                left = pos + 1
                pos += 2
    require(len(pulled) == pos, "%d individuals were pulled from upstream, %d were needed (takes %r)", len(pulled), pos, takes)
    index = {id(k): i for i, k in enumerate(kids)}
    have = [index.get(id(g)) for g in got]
    require(have == want, "children delivered %r, should be %r (consumed %r, persist=%s)", have, want, takes, p["persist"])
    for g in got:
        i = index[id(g)]
        mate = kids[i ^ 1]
        if g.fitness is None:
            require(mate.fitness is None, "only one of a pair was recombined")
            require(len(g.parents) == 2 and g.parents == mate.parents, "wrong lineage after recombination")
            tags = {int(x) // 100 for x in g.genome}
            require(tags <= {i + 1, (i ^ 1) + 1}, "child has genes of a stranger: %r", g.genome)
        else:
            require(mate.fitness is not None and len(g.parents) == 1, "only one of a pair was recombined")
            require(tuple(g.genome) == (100 * (i + 1), 100 * (i + 1) + 1), "an unrecombined individual was changed")
    return tuple(takes), tuple(g.fitness is None for g in got)


def long_pull(ctx, p):
    """One long stream: pairs stay paired and in order."""
    op = make_op(p)
    kids = [parent(i + 1, 3)[1] for i in range(p["n"])]
    it = op(iter(kids))
    got = []
    try:
        for _ in range(p["n"]):
            got.append(next(it))
    except StopIteration:
        raise Violation("the stream ended after %d of %d children" % (len(got), p["n"]))
    require(all(a is b for a, b in zip(got, kids)), "children out of order")
    for i in range(0, p["n"], 2):
        pair = got[i:i + 2]
        all_genes = multiset(int(x) for k in pair for x in k.genome)
        require(all_genes == multiset(100 * (j + 1) + q for j in (i, i + 1) for q in range(3)), "genes of pair %d not conserved", i // 2)
    return tuple(g.fitness is None for g in got)


def scenarios(tier):
    big = tier == "thorough"
    out = []
    eq = [(n, n) for n in (1, 2, 3, 4)] + ([(5, 5)] if big else [])
    uneq = [(1, 3), (3, 1), (2, 4), (4, 2)]

    def add(name, fn, post=None, weight=1, dev=None, **p):
        bins = p.pop("bins", 4)
        out.append(S(name, fn, p, post=post, weight=weight, deviations=dev, unit_bins=bins))
    for q in (0.0, 0.25, 0.5, 1.0):
        add("uni-%s" % q, once, once_post, op="uniform", p_swap=q, lens=eq[:3] + ([(4, 4)] if q == 0.25 else []), p_xover=None, weight=20)
        add("uni-uneq-%s" % q, once, once_post, op="uniform", p_swap=q, lens=uneq, weight=5)
    add("uni-default", once, once_post, op="uniform", lens=eq[:3], bins=5, weight=9)
    for px in (0.0, 0.25, 0.5, 0.75, 1.0):
        add("uni-px%s" % px, once, once_post, op="uniform", p_swap=0.5, p_xover=px, lens=eq[:2] + uneq[:2], weight=9)
        add("nary-px%s" % px, once, once_post, op="nary", points=1, p_xover=px, lens=eq, weight=3)
    for n in (None, 1, 2, 3, 4):
        m = n or 2
        lens = [(k, k) for k in range(m, 7 if not big else 9)]
        un = [(a, b) for a, b in [(1, 3), (3, 1), (2, 4), (4, 2), (3, 5), (5, 3), (2, 6), (6, 2), (3, 4)] if min(a, b) >= m]
        for kind in ("array", "segments"):
            add("nary-%s-%s" % (n, kind), once, once_post, op="nary", points=n, lens=lens, kind=kind, weight=6)
            if un:
                add("nary-uneq-%s-%s" % (n, kind), once, once_post, op="nary", points=n, lens=un, kind=kind, weight=6)
    add("refuse", refuse)
    for n in (2, 4):
        add("values-uni-%d" % n, values, op="uniform", p_swap=0.5, n=n, bins=2)
        add("values-nary-%d" % n, values, op="nary", points=1, n=n)
        add("values-nary2-%d" % n, values, op="nary", points=2, n=n)
    for la, lb in ((150, 150), (300, 300), (300, 170)):
        for q in (0.01, 0.2):
            out.append(S("wide-uni-%d-%d-%s" % (la, lb, q), wide, dict(op="uniform", p_swap=q, lens=(la, lb)), post=wide_post, deviations=1, unit_bins=threshold(q), weight=9))
        for n in (1, 2, 5):
            out.append(S("wide-nary-%d-%d-%d" % (la, lb, n), wide, dict(op="nary", points=n, lens=(la, lb)), post=wide_post, deviations=None if n == 1 else 2, unit_bins=2,
                         big_choice=500 if n == 1 else 64, weight=9))
    for op in ("uniform", "nary"):
        for persist in (True, False):
            for px in (0.0, 1.0, 0.5):
                add("hist-%s-%s-%s" % (op, persist, px), history, op=op, p_swap=1.0 if px == 0.5 else 0.5, points=1, p_xover=px, persist=persist,
                    calls=4 if px == 0.0 else 3, takes=(0, 1, 2, 3) if px == 0.0 or big else (1, 2, 0), twin=True, bins=(0.25,) if px == 0.0 else 2, weight=30)
            add("histlong-%s-%s" % (op, persist), history, op=op, p_swap=1.0, points=1, p_xover=1.0, persist=persist, calls=7, takes=(1, 0, 2),
                bins=2, dev=3, weight=20)
        add("default-persist-" + op, history, op=op, p_swap=1.0, points=1, p_xover=0.0, persist=None, calls=3, takes=(0, 1, 2, 3), bins=2, weight=5)
        add("stream-" + op, long_pull, op=op, p_swap=0.5, points=2, p_xover=0.5, n=12, bins=2, dev=3, weight=9)
    return out
