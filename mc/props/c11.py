"""C11: making offspring never disturbs parents; fitness belongs to the genome."""
DASK = True
import itertools
import zlib
import numpy as np
from toolz import pipe
from mc.engine import S, FakeClient, require, fresh_context
from leap_ec import ops
from leap_ec.individual import Individual, RobustIndividual, WholeEvaluatedIndividual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.distrib.synchronous import eval_population, eval_pool
from leap_ec.decoder import IdentityDecoder
from leap_ec.binary_rep.decoders import BinaryToIntDecoder, BinaryToRealDecoder
from leap_ec.segmented_rep.decoders import SegmentedDecoder
from leap_ec.problem import FunctionProblem
from leap_ec.binary_rep.ops import mutate_bitflip, genome_mutate_bitflip
from leap_ec.int_rep.ops import mutate_randint, mutate_binomial
from leap_ec.real_rep.ops import mutate_gaussian
from leap_ec.segmented_rep.ops import apply_mutation, add_segment, remove_segment, copy_segment, segmented_mutate
from .common import Table

BOUNDS = {"quick": "populations of 2, genomes of 2-3 genes or 1-2 segments, pools of 2-3, every sequence of up to 2 variation operators per "
          "representation, 4 evaluation routes, 4 individual classes, 1-2 generations, every random outcome (draws in 2 classes); "
          "3-4 generations within 2 deviations; every history of 4 operations (read, decode, assign, mutate, set, evaluate, grouped"
          " evaluation, clone) on up to 3 individuals of each class; single scenarios: single histories with many parents and long "
          "genomes"}


def flat(x):
    if isinstance(x, (list, tuple)) or (isinstance(x, np.ndarray) and x.dtype == object):
        out = [len(x)]
        for e in x:
            out += flat(e)
        return out
    return [float(v) for v in np.ravel(x)]


def value(phenome):
    """Injective enough on the explored genomes."""
    t, vs = 0.0, flat(phenome)
    if len(vs) > 12:
        return float(zlib.crc32(repr(vs).encode()))
    for k, v in enumerate(vs):
        t = t * 31.0 + v + 0.5
    return t


def arrays(g):
    return [g] if isinstance(g, np.ndarray) else [a for e in g for a in arrays(e)] if isinstance(g, list) else []


def snap(ind):
    return (tuple(flat(ind.genome)), [id(a) for a in arrays(ind.genome)], id(ind.genome), ind.fitness, ind.uuid, frozenset(ind.parents),
            id(ind.problem), id(ind.decoder), None if ind.fitness is None else tuple(flat(ind.phenome)))


REP = {
    "binary": dict(genomes=[[0, 1], [1, 1]], dtype=int, dec=IdentityDecoder,
                   ops=dict(mut=lambda: mutate_bitflip(probability=0.5), uni=lambda: ops.UniformCrossover(p_swap=0.5),
                            nary=lambda: ops.NAryCrossover(num_points=1))),
    "binint": dict(genomes=[[0, 1, 1], [1, 0, 0]], dtype=int, dec=lambda: BinaryToIntDecoder(1, 2),
                   ops=dict(mut=lambda: mutate_bitflip(expected_num_mutations=1.5), nary=lambda: ops.NAryCrossover(num_points=2))),
    "binreal": dict(genomes=[[0, 1], [1, 0]], dtype=int, dec=lambda: BinaryToRealDecoder((2, -1.0, 1.0)),
                    ops=dict(mut=lambda: mutate_bitflip(probability=0.5), uni=lambda: ops.UniformCrossover(p_swap=0.5, p_xover=0.5))),
    "int": dict(genomes=[[3, 7], [2, 5]], dtype=int, dec=IdentityDecoder,
                ops=dict(mut=lambda: mutate_randint(bounds=[(2, 3), (5, 7)], probability=0.5),
                         bin=lambda: mutate_binomial(std=0.7, n=2, bounds=[(0, 9), (0, 9)], probability=1.0), nary=lambda: ops.NAryCrossover(num_points=1))),
    "real": dict(genomes=[[0.5, -1.0], [2.0, 0.25]], dtype=float, dec=IdentityDecoder,
                 ops=dict(mut=lambda: mutate_gaussian(std=1.0, expected_num_mutations=1, bounds=(-2, 3)),
                          iso=lambda: mutate_gaussian(std=[0.5, 1.0], expected_num_mutations="isotropic"), uni=lambda: ops.UniformCrossover(p_swap=0.5))),
    "seg": dict(genomes=[[[0, 1], [1, 1]], [[1, 0], [0, 0]]], seg=True, dtype=int, dec=lambda: SegmentedDecoder(IdentityDecoder()),
                ops=dict(mut=lambda: apply_mutation(mutator=genome_mutate_bitflip, expected_num_mutations=2), add=lambda: add_segment(
                    seq_initializer=lambda: np.array([1, 0]), probability=0.5), rem=lambda: remove_segment(probability=0.5),
                    cp=lambda: copy_segment(probability=0.5), nary=lambda: ops.NAryCrossover(num_points=1),
                    sm=lambda: segmented_mutate(mutator_functions=[genome_mutate_bitflip(probability=1.0), genome_mutate_bitflip(probability=0.5)]))),
}


def crowd(rep, n, length, seg=False, **kw):
    """n parents with long genomes, some of them equal."""
    g = []
    for i in range(n):
        k = i if i % 5 else 0
        one = [((j * j + 3 * k + (j * k) // 7) % 2) for j in range(length)]
        if seg:
            one = [one[3 * j:3 * j + 3] for j in range(length // 3)]
        elif REP[rep]["dtype"] is float:
            one = [v * 0.5 + k / 1e7 for v in one]
        elif rep == "int":
            one = [v + 2 + 3 * (j % 2) for j, v in enumerate(one)]
        g.append(one)
    REP[rep + "-large"] = dict(REP[rep], genomes=g, **kw)


crowd("binary", 24, 40)
crowd("binreal", 16, 32, dec=lambda: BinaryToRealDecoder(*[(4, -1.0, 1.0)] * 8))
crowd("int", 12, 20, ops=dict(REP["int"]["ops"], mut=lambda: mutate_randint(bounds=[(2, 3), (5, 7)] * 10, probability=0.5),
                              bin=lambda: mutate_binomial(std=0.7, n=2, bounds=[(0, 9)] * 20, expected_num_mutations=1)))
crowd("real", 24, 30, ops=dict(REP["real"]["ops"], iso=lambda: mutate_gaussian(std=0.5, expected_num_mutations="isotropic")))
crowd("seg", 8, 60, seg=True, ops=dict(REP["seg"]["ops"], sm=lambda: segmented_mutate(mutator_functions=[genome_mutate_bitflip(probability=0.5)] * 20)))
CLS = dict(plain=Individual, robust=RobustIndividual, distributed=DistributedIndividual, whole=WholeEvaluatedIndividual)


def run(ctx, p):
    rep = REP[p["rep"]]
    dec = rep["dec"]()
    log = []

    def objective(ph, individual=None):
        log.append(tuple(flat(ph)))
        if p["cls"] == "whole":
            require(individual is not None and tuple(flat(individual.phenome)) == tuple(flat(ph)), "evaluation was given another individual's phenome")
        return value(ph)
    problem = FunctionProblem(objective, maximize=True)
    problem.__class__.__deepcopy__ = lambda self, memo: self
    client = FakeClient(serialise=p["eval"] == "dist-copy", keep=[problem])
    lctx = fresh_context()

    def new(g):
        genome = [np.array(s, dtype=rep["dtype"]) for s in g] if rep.get("seg") else np.array(g, dtype=rep["dtype"])
        return CLS[p["cls"]](genome, decoder=dec, problem=problem)
    pop = [new(g) for g in rep["genomes"]]
    if p["evaluated"]:
        pop = Individual.evaluate_population(pop)
    everyone = list(pop)
    uuids = {x.uuid for x in pop}
    variation = p["ops"]
    mates = any(o in ("uni", "nary") for o in variation)
    for gen in range(p["gens"]):
        parents = pop
        before = [snap(x) for x in parents]
        members = list(parents)
        selected, clones = [], []

        def tap(it):
            while True:
                x = next(it)
                selected.append(x)
                yield x

        def tap2(it):
            while True:
                x = next(it)
                clones.append(x)
                yield x
        sel = ops.random_selection if p.get("sel") == "random" else ops.naive_cyclic_selection
        stages = [sel, tap, ops.clone, tap2] + [rep["ops"][o]() for o in variation]
        if p["eval"] == "stream":
            stages += [ops.evaluate, ops.pool(size=p["pool"])]
        elif p["eval"] == "grouped":
            stages += [ops.pool(size=p["pool"]), ops.grouped_evaluate(max_individuals_per_chunk=2)]
        elif p["eval"] == "bulk":
            stages += [ops.pool(size=p["pool"]), Individual.evaluate_population]
        elif p["eval"] == "pool":
            stages += [eval_pool(client=client, size=p["pool"], context=lctx)]
        else:
            stages += [ops.pool(size=p["pool"]), eval_population(client=client, context=lctx)]
        off = pipe(parents, *stages)
        require(len(off) == p["pool"], "%d offspring instead of %d", len(off), p["pool"])
        require(len(parents) == len(members) and all(a is b for a, b in zip(parents, members)), "the parents' list was changed")
        for x, b in zip(members, before):
            require(snap(x) == b, "a parent was changed: %r became %r", b, snap(x))
        seen_arrays = {}
        for x in members:
            for a in arrays(x.genome):
                seen_arrays[id(a)] = a
        pool_arrays = list(seen_arrays.values())
        for k, x in enumerate(off):
            require(not any(x is m for m in members), "a parent was returned as offspring")
            require(x.uuid not in uuids, "an identity was reused")
            uuids.add(x.uuid)
            mine = arrays(x.genome)
            for a in mine:
                for b in pool_arrays:
                    require(not (np.may_share_memory(a, b) and np.shares_memory(a, b)), "offspring %d shares genome storage with somebody else", k)
            if len(mine) > 1 and p.get("distinct_segments", True):
                for a, b in itertools.combinations(mine, 2):
                    require(not (np.may_share_memory(a, b) and np.shares_memory(a, b)), "two segments of one genome share storage")
            pool_arrays += mine
            want = value(dec.decode(x.genome))
            require(x.fitness == want, "offspring %d has fitness %r but its genome %r is worth %r", k, x.fitness, flat(x.genome), want)
            require(tuple(flat(x.phenome)) == tuple(flat(dec.decode(x.genome))), "offspring %d: decoded form does not belong to its genome", k)
            require(x.decoder is dec or p["eval"] == "dist-copy", "offspring lost its decoder")
            if p["eval"] == "dist-copy":
                mom = [i for i, c in enumerate(clones) if c.uuid == x.uuid]
            else:
                mom = [i for i, c in enumerate(clones) if c is x]
            require(mom == [k], "offspring %d is clone number %r", k, mom)
            one = {selected[k].uuid}
            if not mates:
                require(x.parents == one, "offspring %d records parents %r", k, x.parents)
            else:
                both = one | {selected[k ^ 1].uuid}
                require(x.parents == one or x.parents == both, "offspring %d records parents %r, should be %r", k, x.parents, both)
        pop = off
        everyone += off
    for x in everyone:
        if x.fitness is not None:
            require(x.fitness == value(dec.decode(x.genome)), "an individual's fitness no longer belongs to its genome")
    return tuple(tuple(flat(x.genome)) for x in pop)


def life(ctx, p):
    """Histories of operations on a few individuals: the decoded form and the fitness always go with the genome they are said to go with."""
    cls, decs = CLS[p["cls"]], []

    class Dec(IdentityDecoder):
        def decode(self, genome, *a, **k):
            decs.append(1)
            return np.array(genome) * 2 + 1
    dec = Dec()
    evals = []

    def objective(ph, individual=None):
        evals.append(individual)
        return value(ph)
    problem = FunctionProblem(objective, maximize=True)
    inds, model = [], []
    pad = [0] * p.get("pad", 0)

    def new():
        x = cls(np.array([len(inds), 0] + pad), decoder=dec, problem=problem)
        x.note = "note%d" % len(inds)
        require(x.fitness is None and x.parents == set(), "a new individual is not blank")
        require(x.problem is problem and x.decoder is dec, "a new individual has another problem or decoder")
        inds.append(x)
        model.append(dict(g=[len(inds) - 1, 0] + pad, f=None, ph=None, par=set(), note=x.note))      # ph None: not decoded yet; "?": unspecified
    new()

    def full(i):
        return [2 * v + 1 for v in model[i]["g"]]
    for t in range(p["len"]):
        i = ctx.pick_int(len(inds)) if len(inds) > 1 else 0
        x, m = inds[i], model[i]
        op = ctx.pick(("read", "evaluate", "clone", "mutate", "assign", "grouped", "set", "decode"))
        if op == "read":
            ph = x.phenome
            if m["ph"] is None:
                m["ph"] = full(i)
            if m["ph"] != "?":
                require(list(ph) == m["ph"], "phenome %r, should be %r", list(ph), m["ph"])
        elif op == "decode":
            require(list(x.decode()) == full(i), "decode() gave the phenome of another genome")
            m["ph"] = full(i)
        elif op == "set":
            x.phenome = np.array([9, 9] + pad)
            m["ph"] = [9, 9] + pad
        elif op == "evaluate":
            n = len(evals)
            r = x.evaluate()
            m["f"], m["ph"] = value(np.array(full(i))), full(i)
            require(len(evals) == n + 1, "%d evaluations for one", len(evals) - n)
            require(r == x.fitness == m["f"], "genome %r evaluated to %r instead of %r", m["g"], x.fitness, m["f"])
            if p["cls"] == "whole":
                require(evals[-1] is x, "another individual was handed to the problem")
        elif op == "grouped":
            ops.grouped_evaluate([inds[k] for k in range(len(inds))])
            for k, y in enumerate(inds):
                model[k].update(f=value(np.array(full(k))), ph=full(k))
        elif op == "clone":
            if len(inds) >= p["max"]:
                return None
            y = x.clone()
            require(y is not x and type(y) is type(x), "the clone is no new %s", type(x).__name__)
            require(y.fitness is None, "a clone starts with fitness %r", y.fitness)
            require(y.uuid not in [z.uuid for z in inds] and y.parents == {x.uuid}, "identity or parents of a clone")
            require(y.problem is problem and y.decoder is dec and y.note == m["note"], "the clone lost its problem, decoder or other data")
            inds.append(y)
            model.append(dict(g=list(m["g"]), f=None, ph=None, par={x.uuid}, note=m["note"]))
        elif op == "mutate":
            y = next(mutate_bitflip(iter([x]), probability=1.0)) if p.get("flip") else None
            if y is None:
                x.genome[0] += 10
                x.fitness = None
                m["g"][0] += 10
            else:
                require(y is x, "mutation returned somebody else")
                m["g"] = [(v + 1) % 2 for v in m["g"]]
            m["f"], m["ph"] = None, "?" if m["ph"] is not None else None
        else:
            x.genome = np.array([5, t] + pad)
            x.fitness = None
            m["g"], m["f"], m["ph"] = [5, t] + pad, None, "?" if m["ph"] is not None else None
        for k, y in enumerate(inds):
            require(list(y.genome) == model[k]["g"] and y.fitness == model[k]["f"] and y.parents == model[k]["par"],
                    "after %s: individual %d is %r (fitness %r), should be %r", op, k, list(y.genome), y.fitness, model[k])
            for z in inds[:k]:
                require(not np.shares_memory(y.genome, z.genome), "two individuals share genome storage")
    for k, y in enumerate(inds):
        if model[k]["ph"] != "?":
            want = full(k) if model[k]["ph"] is None else model[k]["ph"]
            require(list(y.phenome) == want, "individual %d: decoded form %r, should be %r", k, list(y.phenome), want)
    return tuple((tuple(m["g"]), m["f"]) for m in model)


def types(ctx, p):
    """Handing over a class instead of an object is refused."""
    cls = CLS[ctx.pick(list(CLS))]
    kw = ctx.pick(({"decoder": IdentityDecoder}, {"problem": FunctionProblem}, {"decoder": IdentityDecoder(), "problem": Table}))
    try:
        cls(np.array([1]), **{"decoder": IdentityDecoder(), **kw})
    except ValueError:
        return 1
    require(False, "%s accepted %r", cls.__name__, kw)


def scenarios(tier):
    big = tier == "thorough"
    out = []

    def add(rep, ops_, cls="plain", ev="stream", gens=1, pool=2, evaluated=True, dev=None, weight=1, **p):
        p.update(rep=rep, ops=tuple(ops_), cls=cls, eval=ev, gens=gens, pool=pool, evaluated=evaluated)
        name = "%s-%s-%s-%s-%d-%d-%s%s" % (rep, "+".join(ops_) or "none", cls, ev, gens, pool, evaluated, "" if dev is None else "-dev%d" % dev)
        out.append(S(name, run, p, deviations=dev, weight=weight, unit_bins=2, z=(-0.75, 1.25), limit=100000))
    for cls in CLS:
        out.append(S("life-" + cls, life, dict(cls=cls, len=5 if big else 4, max=3), weight=100))
    out.append(S("life-long", life, dict(cls="plain", len=4 if big else 3, max=3, pad=300), weight=100))
    out.append(S("types", types))
    for rep, d in REP.items():
        if rep.endswith('-large'):
            continue
        names = list(d["ops"])
        add(rep, [], weight=1)
        add(rep, [], ev="grouped")
        for o in names:
            for ev in ("stream", "grouped", "bulk", "dist", "dist-copy", "pool"):
                cls = {"stream": "plain", "grouped": "plain", "bulk": "robust", "dist": "distributed", "dist-copy": "distributed", "pool": "distributed"}[ev]
                add(rep, [o], cls=cls, ev=ev, weight=20, pool=3 if o in ("uni", "nary") and ev == "stream" else 2)
            add(rep, [o], cls="whole")
            if rep != "seg":
                add(rep, [o], evaluated=False)
        for a, b in itertools.product(names, repeat=2):
            if rep == "seg" and (a == "sm" or b == "sm"):
                continue
            if (a, b) != ("bin", "bin"):
                add(rep, [a, b], dev=None if rep in ("binary", "binreal") else (3 if big else 2), weight=60)
                add(rep, [a, b], ev="grouped", dev=2, weight=30)
        for o in names[:2]:
            add(rep, [o], gens=3, pool=2, dev=3 if big else 2, weight=40, sel="random")
            add(rep, [o], gens=2, pool=3, ev="grouped", dev=2, weight=40)
        add(rep, [names[-1] if names[-1] != "sm" else "nary", names[0]], gens=4, pool=4, dev=2 if not big else 3, weight=80)
    for rep in [r for r in REP if r.endswith("-large")]:
        names = list(REP[rep]["ops"])
        n = len(REP[rep]["genomes"])
        for k, o in enumerate(names):
            ev = ("stream", "grouped", "dist", "pool", "bulk", "dist-copy")
            for j in range(6 if big else 2):
                e = ev[(k + 3 * j) % 6] if not big else ev[j]
                add(rep, [o], cls="distributed" if e in ("dist", "pool", "dist-copy") else ("plain", "robust", "whole")[k % 3], ev=e, gens=2, pool=n, dev=0, weight=30)
            add(rep, [o, names[(k + 1) % len(names)]], gens=5, pool=n, dev=0, weight=30)
        if rep != "seg-large" or big:
            add(rep, [names[0]], gens=1, pool=n, dev=1, weight=200)
    return out
