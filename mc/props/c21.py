"""C21: segmented genomes keep their segments intact and independent."""
import itertools
import numpy as np
from mc.engine import S, require, check_distribution
from leap_ec.individual import Individual
from leap_ec.decoder import Decoder, IdentityDecoder
from leap_ec.binary_rep.ops import genome_mutate_bitflip
from leap_ec.binary_rep.decoders import BinaryToIntDecoder, BinaryToRealDecoder
from leap_ec.segmented_rep import ops as seg
from leap_ec.segmented_rep.decoders import SegmentedDecoder
from leap_ec.segmented_rep.initializers import create_segmented_sequence
from .common import Table

BOUNDS = {"quick": "1-4 segments of 1-3 genes (lists or arrays), every history of 3 operations (mutate, per-segment mutate, add, remove, "
          "copy; append or insert; every probability outcome and position), exact probabilities of single operations, streams of 3 "
          "individuals; single scenarios: 130-150 segments, empty segments, wide integer ranges"}


def values(genome):
    return [tuple(np.ravel(s).tolist()) for s in genome]


def make(kind, vals):
    return [list(v) if kind == "list" else np.array(v) for v in vals]


def independent(genome):
    """Changing any one segment in place leaves all the others alone."""
    for i in range(len(genome)):
        before = values(genome)
        old = genome[i][0]
        genome[i][0] = 77
        after = values(genome)
        require(all(a == b for j, (a, b) in enumerate(zip(after, before)) if j != i), "changing segment %d changed another: %r -> %r", i, before, after)
        genome[i][0] = old


def individual(kind, vals):
    ind = Individual(make(kind, vals), IdentityDecoder(), Table(lambda x: 5.0))
    ind.fitness = 5.0
    return ind


def inserted(old, new, extra):
    """Some position at which `extra` was inserted (position 0..len) or None."""
    return [i for i in range(len(old) + 1) if new == old[:i] + [extra] + old[i:]]


class Inits:
    def __init__(self, kind):
        self.k = 0
        self.kind = kind

    def __call__(self):
        self.k += 1
        return make(self.kind, [(100 + self.k, 200 + self.k)])[0]


def history(ctx, p):
    kind = p["kind"]
    n = ctx.pick(p["counts"])
    vals = [tuple(10 * i + j for j in range(1 + i % 3)) for i in range(n)]
    parent = individual(kind, vals)
    ind = parent.clone()
    init = Inits(kind)
    cur = list(vals)
    steps = 0
    for d in range(p["depth"]):
        op = ctx.pick(("mutate", "each", "add", "append", "remove", "copy", "copyend"))
        ind.fitness = 5.0
        prob = ctx.pick((0.0, 1.0)) if op not in ("mutate", "each") else None
        calls = []
        if op == "mutate":
            def mut(s, expected_num_mutations):
                calls.append((tuple(np.ravel(s).tolist()), expected_num_mutations))
                return make(kind, [[x + 1000 for x in s]])[0] if p["fresh"] else bump(s, 1000)
            expected = ctx.pick((None, 0.5, 3.0))
            kw = {} if expected is None else {"expected_num_mutations": expected}
            res = next(seg.apply_mutation(iter([ind]), mutator=mut, **kw))
            require([c[0] for c in calls] == cur, "mutator saw %r, segments are %r", calls, cur)
            want_e = (1.0 if expected is None else expected) / len(cur)
            require(all(abs(c[1] - want_e) < 1e-12 for c in calls), "mutator was told to expect %r mutations per segment, not %r", calls, want_e)
            new = [tuple(x + 1000 for x in s) for s in cur]
            changed = True
        elif op == "each":
            def at(i):
                def m(s):
                    calls.append(i)
                    return make(kind, [[x + i + 1 for x in s]])[0] if p["fresh"] else bump(s, i + 1)
                return m
            res = next(seg.segmented_mutate(iter([ind]), [at(i) for i in range(len(cur))]))
            require(calls == list(range(len(cur))), "mutators were applied as %r to %d segments", calls, len(cur))
            new = [tuple(x + i + 1 for x in s) for i, s in enumerate(cur)]
            changed = True
        elif op in ("add", "append"):
            kw = {"append": True} if op == "append" else {}
            k0 = init.k
            res = next(seg.add_segment(iter([ind]), seq_initializer=init, probability=prob, **kw))
            changed = prob == 1.0
            if changed:
                require(init.k == k0 + 1, "%d segments were initialised", init.k - k0)
                extra = (100 + init.k, 200 + init.k)
                where = inserted(cur, values(res.genome), extra)
                require(where if op == "add" else len(cur) in where, "%s: %r became %r", op, cur, values(res.genome))
                new = values(res.genome)
            else:
                new = cur
        elif op == "remove":
            res = next(seg.remove_segment(iter([ind]), probability=prob))
            changed = prob == 1.0 and len(cur) > 1
            if changed:
                new = values(res.genome)
                require(new in [cur[:i] + cur[i + 1:] for i in range(len(cur))], "remove: %r became %r", cur, new)
            else:
                new = cur
        else:
            kw = {"append": True} if op == "copyend" else {}
            res = next(seg.copy_segment(iter([ind]), probability=prob, **kw))
            changed = prob == 1.0
            if changed:
                new = values(res.genome)
                ok = [i for s in cur for i in inserted(cur, new, s)]
                require(ok if op == "copy" else len(cur) in ok, "%s: %r became %r", op, cur, new)
            else:
                new = cur
        require(res is ind, "%s replaced the individual", op)
        require(values(ind.genome) == new, "%s with probability %r: %r became %r", op, prob, cur, values(ind.genome))
        require(len(ind.genome) >= 1, "no segment left")
        if changed:
            require(ind.fitness is None, "fitness %r kept after %s", ind.fitness, op)
        else:
            require(ind.fitness == 5.0, "fitness cleared though nothing changed in %s", op)
        require(all(isinstance(s, list if kind == "list" else np.ndarray) for s in ind.genome), "segments changed type")
        independent(ind.genome)
        require(values(parent.genome) == vals and parent.fitness == 5.0, "the parent was modified by %s: %r", op, values(parent.genome))
        cur = new
        ctx.state((op, len(cur)))
    return tuple(cur)


def bump(s, k):
    for i in range(len(s)):
        s[i] += k
    return s


def single(ctx, p):
    """Exact distribution of one application."""
    n, op = p["n"], p["op"]
    vals = [(i, 10 + i) for i in range(n)]
    ind = individual(p["kind"], vals)
    init = Inits(p["kind"])
    kw = {"append": True} if p.get("append", False) else {}
    if op == "add":
        f = seg.add_segment(seq_initializer=init, probability=p["prob"], **kw)
    elif op == "copy":
        f = seg.copy_segment(probability=p["prob"], **kw)
    else:
        f = seg.remove_segment(probability=p["prob"])
    res = next(f(iter([ind])))
    new = values(res.genome)
    require((res.fitness is None) == (new != vals), "fitness %r for %r from %r", res.fitness, new, vals)
    return 0, tuple(new)


def single_post(p, group, dist):
    n, op, pr = p["n"], p["op"], p["prob"]
    vals = [(i, 10 + i) for i in range(n)]
    want = {}

    def put(v, q):
        if q:
            want[tuple(v)] = want.get(tuple(v), 0.0) + q
    if op == "remove":
        if n == 1:
            put(vals, 1.0)
        else:
            put(vals, 1 - pr)
            for i in range(n):
                put(vals[:i] + vals[i + 1:], pr / n)
    else:
        put(vals, 1 - pr)
        what = [(101, 201)] if op == "add" else vals
        for w in what:
            for i in ([n] if p.get("append") else range(n + 1)):
                put(vals[:i] + [w] + vals[i:], pr / len(what) / (1 if p.get("append") else n + 1))
    check_distribution(dist, want, "%s of %d segments with probability %r" % (op, n, pr))


def bitflip(ctx, p):
    """The whole genome mutates as many genes on average as asked for, independently per gene."""
    shape = p["shape"]
    genome = [np.zeros(m, dtype=int) for m in shape]
    if p["matrix"]:
        genome = np.zeros((len(shape), shape[0]), dtype=int)
    ind = Individual(genome, IdentityDecoder(), Table(lambda x: 1.0))
    ind.fitness = 1.0
    kw = {} if p["expected"] == 1.0 else dict(expected_num_mutations=p["expected"])
    res = next(seg.apply_mutation(iter([ind]), mutator=genome_mutate_bitflip, **kw))
    require(len(res.genome) == len(shape) and [len(s) for s in res.genome] == list(shape), "shape changed")
    require(res.fitness is None, "fitness kept")
    return 0, tuple(values(res.genome))


def bitflip_post(p, group, dist):
    shape, e = p["shape"], p["expected"]
    want = {}
    probs = [e / len(shape) / m for m in shape for _ in range(m)]
    for bits in itertools.product((0, 1), repeat=sum(shape)):
        q = 1.0
        for b, pr in zip(bits, probs):
            q *= pr if b else 1 - pr
        if q:
            it = iter(bits)
            want[tuple(tuple(next(it) for _ in range(m)) for m in shape)] = q
    check_distribution(dist, want, "bit flips expecting %r over segments %r" % (e, shape))


def stream(ctx, p):
    """Individuals with different numbers of segments, drawn lazily from one stream."""
    counts = [ctx.pick((1, 2, 3)) for _ in range(3)]
    inds = [individual("array", [(i,) for i in range(c)]) for c in counts]
    drawn = []

    def source():
        for x in inds:
            drawn.append(x)
            yield x
    op = ctx.pick(("mutate", "add", "remove", "copy"))
    init = Inits("array")
    f = {"mutate": lambda: seg.apply_mutation(mutator=lambda s, expected_num_mutations: s + round(60 * expected_num_mutations)),
         "add": lambda: seg.add_segment(seq_initializer=init, probability=1.0, append=True),
         "remove": lambda: seg.remove_segment(probability=1.0),
         "copy": lambda: seg.copy_segment(probability=1.0, append=True)}[op]()
    it = f(source())
    for k, c in enumerate(counts):
        x = next(it)
        require(len(drawn) == k + 1, "%d individuals drawn to produce %d", len(drawn), k + 1)
        require(x is inds[k], "order changed")
        v = values(x.genome)
        old = [(i,) for i in range(c)]
        if op == "mutate":
            require(v == [(i + round(60 / c),) for i in range(c)], "mutation of %r gave %r", old, v)
        elif op == "remove":
            require(len(v) == max(1, c - 1), "%d of %d segments left", len(v), c)
        else:
            require(len(v) == c + 1 and v[:-1] == old, "%s gave %r from %r", op, v, old)
    for k, x in enumerate(inds):
        for y in inds[k + 1:]:
            require(not any(np.shares_memory(s, t) for s in x.genome for t in y.genome), "two individuals share a segment")
    return (op, tuple(counts))


def every(ctx, p):
    """The mutator is applied to every segment once, in order, whatever the segments hold."""
    pool = [(), (0,), (1, 2), (1, 2), (0, 0, 0)]
    vals = [ctx.pick(pool) for _ in range(ctx.pick((1, 2, 3)))]
    kind = ctx.pick(("list", "array"))
    per = ctx.pick((True, False))
    ind = individual(kind, vals)
    seen = []

    def m(s, expected_num_mutations=None):
        seen.append(tuple(np.ravel(s).tolist()))
        return make(kind, [seen[-1] + (len(seen),)])[0]
    res = next(seg.segmented_mutate(iter([ind]), [m] * len(vals)) if per else seg.apply_mutation(iter([ind]), mutator=m))
    require(seen == vals, "mutated %r instead of %r", seen, vals)
    require([tuple(int(v) for v in s) for s in values(res.genome)] == [v + (k + 1,) for k, v in enumerate(vals)], "%r became %r", vals, values(res.genome))
    require(res.fitness is None, "fitness kept")
    return tuple(vals), kind, per


def wrong_count(ctx, p):
    n, m = ctx.pick((1, 2, 3)), ctx.pick((0, 1, 2, 3, 4))
    ind = individual("list", [(i,) for i in range(n)])
    try:
        next(seg.segmented_mutate(iter([ind]), [lambda s: [s[0] + 1]] * m))
    except AssertionError:
        require(n != m, "matching mutators refused")
        require(values(ind.genome) == [(i,) for i in range(n)], "individual changed though refused")
        return "refused"
    require(n == m, "%d mutators accepted for %d segments", m, n)
    return "ok"


class LogDecoder(Decoder):
    def __init__(self):
        self.seen = []

    def decode(self, genome, *args, **kwargs):
        self.seen.append(tuple(np.ravel(genome).tolist()))
        return [sum(genome), len(genome)]


def decode(ctx, p):
    n = ctx.pick(p.get("counts", (0, 1, 2, 3, 4)))
    which = ctx.pick(("log", "int", "real", "none"))
    kind = ctx.pick(("list", "array", "matrix"))
    bits = [tuple(ctx.pick((0, 1)) for _ in range(2)) + (1,) for _ in range(n)]
    genome = [np.array(b) for b in bits] if kind != "matrix" else np.array(bits).reshape(n, 3)
    if kind == "list" and which in ("log", "none"):
        genome = [list(b) for b in bits]
    inner = {"log": LogDecoder, "int": lambda: BinaryToIntDecoder(2, 1), "real": lambda: BinaryToRealDecoder((3, 0.0, 7.0)),
             "none": IdentityDecoder}[which]()
    d = SegmentedDecoder(inner)
    got = d.decode(genome)
    want = [{"log": [sum(b), 3], "int": [2 * b[0] + b[1], b[2]], "real": [float(4 * b[0] + 2 * b[1] + b[2])], "none": list(b)}[which] for b in bits]
    require(len(got) == n, "%d values for %d segments", len(got), n)
    for g, w in zip(got, want):
        require(np.allclose(np.array(g, dtype=float), w), "decoded %r instead of %r", g, w)
    if which == "log":
        require(inner.seen == bits, "segments decoded: %r", inner.seen)
    require(values(genome) == bits, "decoding changed the genome")
    ind = Individual(genome, d, Table(lambda ph: float(len(ph))))
    require(ind.evaluate() == n, "individual was scored on %r", ind.phenome)
    return (which, kind, n)


def create(ctx, p):
    """Number of segments fixed or drawn anew for every genome; every segment initialised separately."""
    how = ctx.pick(("int", "call"))
    asked = []

    def length():
        asked.append(ctx.pick(p.get("counts", (0, 1, 3))))
        return asked[-1]
    k = ctx.pick(p.get("counts", (0, 1, 2, 4)))
    init = Inits("array")
    f = create_segmented_sequence(k if how == "int" else length, init)
    total = 0
    genomes = []
    for r in range(3):
        g = f()
        n = k if how == "int" else asked[-1]
        require(how == "int" or len(asked) == r + 1, "the number of segments was drawn %d times for %d genomes", len(asked), r + 1)
        require(len(g) == n, "%d segments instead of %d", len(g), n)
        require(init.k == total + n, "%d segments initialised for %d", init.k - total, n)
        require(sorted(values(g)) == [(100 + i, 200 + i) for i in range(total + 1, total + n + 1)], "segments are %r", values(g))
        total += n
        independent(g)
        genomes.append(g)
    require(len({id(g) for g in genomes}) == 3, "two genomes are the same object")
    return (how, k, tuple(asked))


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for kind in ("list", "array"):
        for fresh in (0, 1):
            for c in (1, 2, 3) + ((4,) if big else ()):
                out.append(S("history-%s-%d-%d" % (kind, fresh, c), history, dict(kind=kind, fresh=fresh, counts=(c,), depth=4 if big and c < 3 else 3),
                             weight=100, unit_bins=1))
    for kind in ("list", "array"):
        for n in (1, 2, 3, 4, 5):
            for prob in (0.0, 0.25, 0.5, 1.0):
                for op in ("add", "copy", "remove"):
                    for append in ((False, True) if op != "remove" else (False,)):
                        out.append(S("single-%s-%s-%d-%s-%s" % (kind, op, n, prob, append), single, dict(kind=kind, op=op, n=n, prob=prob, append=append),
                                     post=single_post, unit_bins=4))
    for n in (130,):
        for op, append in (("add", False), ("copy", True), ("remove", False)):
            out.append(S("many-%s-%d-%s" % (op, n, append), single, dict(kind="list", op=op, n=n, prob=1.0, append=append), post=single_post, unit_bins=1, big_choice=256))
    for n in (15, 40):
        for op, append in (("add", False), ("copy", True), ("remove", False)) + ((("copy", False),) if n == 15 else ()):
            out.append(S("many-%s-%d-%s" % (op, n, append), single, dict(kind="array", op=op, n=n, prob=1.0, append=append), post=single_post, unit_bins=1, big_choice=64))
    for c in (26, 60, 150):
        for kind in ("list", "array"):
            out.append(S("history-many-%s-%d" % (kind, c), history, dict(kind=kind, fresh=1, counts=(c,), depth=2 if c == 26 else 1), weight=200, unit_bins=1, deviations=1, dev_kinds=("r",)))
    out.append(S("decode-many", decode, dict(counts=(25, 80)), deviations=2))
    out.append(S("create-many", create, dict(counts=(20, 70)), deviations=2))
    for shape, e, bins in (((2, 2), 1.0, 4), ((2, 2), 2.0, 4), ((1, 2), 1.0, 4), ((4,), 1.0, 4), ((2, 2), 0.0, 4), ((1, 1, 1), 1.5, 4), ((2, 2), 4.0, 4),
                           ((1, 1, 2), 3.0, 4)):
        for matrix in (0, 1):
            if matrix and len(set(shape)) > 1:
                continue
            out.append(S("flip-%s-%s-%d" % (shape, e, matrix), bitflip, dict(shape=shape, expected=e, matrix=matrix), post=bitflip_post, unit_bins=bins, weight=20))
    out.append(S("every", every, {}))
    out.append(S("stream", stream, {}, unit_bins=1))
    out.append(S("wrong-count", wrong_count, {}))
    out.append(S("decode", decode, {}))
    out.append(S("create", create, {}))
    return out
