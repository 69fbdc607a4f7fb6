"""C15: a failing evaluation is contained to its own individual."""
DASK = True
import itertools
import os
import platform
from math import nan
import numpy as np
from mc.engine import S, FakeClient, require, fresh_context
from leap_ec import ops
from leap_ec.decoder import IdentityDecoder
from leap_ec.distrib.asynchronous import steady_state
from leap_ec.distrib.evaluate import is_viable
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.distrib.synchronous import eval_pool, eval_population
from leap_ec.global_vars import context as global_context
from leap_ec.representation import Representation
from leap_ec.individual import Individual, RobustIndividual, WholeEvaluatedIndividual
from .common import Table, Boom, isnan

BOUNDS = {"quick": "populations of 0-4, every subset of failing evaluations (in decoding or in the objective, 7 exception types), every completion order, "
                   "shared-memory and serialising workers, two rounds on one context; every create/clone/evaluate/re-evaluate history of depth 5 "
                   "over up to 3 individuals; populations of 8 within 2 deviations"}
ERRORS = (ValueError, KeyError, ZeroDivisionError, AssertionError, StopIteration, MemoryError, Boom)
CLS = dict(robust=RobustIndividual, distributed=DistributedIndividual)


class World:
    """Objective whose failures the harness decides; remembers what happened to whom."""

    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        self.outcome = []
        self.problem = Table(self.objective, p.get("maximize", True))
        self.decoder = FailingDecoder(self) if p.get("where") == "decoder" else IdentityDecoder()

    def boom(self):
        if sum(e is not None for e in self.outcome) < self.p.get("faults", 99) and self.ctx.fault():
            err = ERRORS[self.p.get("err", 0)]("injected" if self.p.get("alike") else "injected %d" % len(self.outcome))
            self.outcome.append(err)
            raise err
        self.outcome.append(None)

    def objective(self, ph):
        if self.p.get("where") != "decoder":
            self.boom()
        return float(ph[0]) * 2 + 1

    def __deepcopy__(self, memo):
        return self


class FailingDecoder(IdentityDecoder):
    def __init__(self, w):
        self.w = w

    def decode(self, genome, *args, **kwargs):
        self.w.boom()
        return genome

    def __deepcopy__(self, memo):
        return self


def judge(ind, error, worth, who, same=True):
    if error is not None:
        require(isnan(ind.fitness), "%s failed but has fitness %r", who, ind.fitness)
        require(ind.is_viable is False, "%s failed but counts as viable", who)
        require(not is_viable(ind), "%s failed but is_viable() says otherwise", who)
        if same:
            require(ind.exception is error, "%s records exception %r instead of %r", who, ind.exception, error)
        else:
            require(type(ind.exception) is type(error) and str(ind.exception) == str(error), "%s records exception %r instead of %r", who, ind.exception, error)
    else:
        require(ind.fitness == worth, "%s has fitness %r instead of %r", who, ind.fitness, worth)
        require(ind.is_viable is True and is_viable(ind), "%s succeeded but counts as non-viable", who)
        require(getattr(ind, "exception", None) is None, "%s succeeded but carries exception %r", who, getattr(ind, "exception", None))


def history(ctx, p):
    w = World(ctx, p)
    cls = CLS[p["cls"]]
    inds = [cls(np.array([1]), w.decoder, w.problem)]
    state = [None]              # expected (error, fitness) or None when not evaluated
    for step in range(p["depth"]):
        act = ctx.pick(("eval", "clone", "new", "touch"))
        i = ctx.pick(range(len(inds)))
        if act == "eval":
            r = inds[i].evaluate()
            e = w.outcome[-1]
            state[i] = (e, float(inds[i].genome[0]) * 2 + 1)
            require(r is inds[i].fitness or r == inds[i].fitness, "evaluate() returned %r but stored %r", r, inds[i].fitness)
        elif len(inds) < 3 and act in ("clone", "new"):
            inds.append(inds[i].clone() if act == "clone" else cls(np.array([len(inds) + 5]), w.decoder, w.problem))
            state.append(None)
            require(inds[-1].fitness is None, "a new individual has fitness %r", inds[-1].fitness)
        else:
            inds[i].genome = inds[i].genome + 10
            inds[i].fitness = None
            state[i] = None
        for k, (x, s) in enumerate(zip(inds, state)):
            if s is not None:
                judge(x, s[0], s[1], "individual %d" % k)
    return tuple(None if s is None else (s[0] is not None, s[1]) for s in state)


def bulk(ctx, p):
    """Parallel (simulated dask) or serial population evaluation."""
    w = World(ctx, p)
    cls = CLS[p["cls"]]
    context = global_context if p.get("global") else fresh_context()
    total = 0
    out = []
    client = FakeClient(serialise=p.get("serialise", False), keep=[w], window=p.get("window"))
    for rnd in range(p.get("rounds", 1)):
        pop = [cls(np.array([k + 10 * rnd]), w.decoder, w.problem) for k in range(p["n"])]
        if p.get("ancestors"):
            for x in pop:
                x.is_viable, x.exception, x.fitness = False, Boom("ancestor"), nan
            pop = [x.clone() for x in pop]
        uuids = [x.uuid for x in pop]
        genomes = [int(x.genome[0]) for x in pop]
        del w.outcome[:]
        done0 = len(client.order)
        if p["how"] == "population":
            res = eval_population(client=client, context=context)(list(pop))
        elif p["how"] == "pool":
            spare = iter(pop + [cls(np.array([99]), w.decoder, w.problem)])
            res = eval_pool(client=client, size=p["n"], context=context)(spare)
            require(len(list(spare)) == 1, "the pool pulled more individuals than it evaluates")
        elif p["how"] == "bulk":
            res = cls.evaluate_population(list(pop))
        else:
            it = ops.evaluate(iter(pop))
            res = [next(it) for _ in pop]
        require(isinstance(res, list) and len(res) == p["n"], "%d individuals returned for %d", len(res), p["n"])
        require([x.uuid for x in res] == uuids, "individuals were returned in another order or exchanged")
        require([int(x.genome[0]) for x in res] == genomes, "a genome changed")
        if not p.get("serialise"):
            require(all(a is b for a, b in zip(res, pop)), "other individuals were returned")
        require(len(w.outcome) == p["n"], "%d evaluations for %d individuals", len(w.outcome), p["n"])
        if p["how"] in ("population", "pool"):
            order = client.order[done0:]
            base = min(order, default=0)
            order = [o - base for o in order]
        else:
            order = list(range(p["n"]))
        result = dict(zip(order, w.outcome))
        for k, x in enumerate(res):
            judge(x, result[k], (k + 10 * rnd) * 2.0 + 1, "individual %d" % k, same=not p.get("serialise"))
            if p["how"] in ("population", "pool"):
                require(x.pid == os.getpid() and x.hostname == platform.node(), "evaluated on %r / %r, recorded as %r / %r",
                        platform.node(), os.getpid(), x.hostname, x.pid)
                require(x.start_eval_time is not None and x.stop_eval_time is not None and x.stop_eval_time >= x.start_eval_time, "evaluation times are missing")
        total += sum(e is not None for e in w.outcome)
        if p["how"] in ("population", "pool"):
            c = context["leap"]["distrib"]["non_viable"]
            require(c == total, "%d evaluations failed but %d are counted", total, c)
        out.append(tuple(e is not None for e in w.outcome))
    return tuple(out)


def steady(ctx, p):
    """An asynchronous run counts the evaluations that failed, in the context it was given, and births likewise."""
    import itertools as it
    ids = it.count()
    w = World(ctx, p)
    rep = Representation(initialize=lambda: np.array([next(ids)]), decoder=w.decoder, individual_cls=DistributedIndividual)
    context = fresh_context()
    if p.get("before"):
        context["leap"]["distrib"]["non_viable"] = p["before"]
    glob = global_context["leap"]["distrib"]["non_viable"]
    client = FakeClient(serialise=p.get("serialise", False), keep=[w, w.problem, w.decoder, context])
    seen = []
    made = [0]

    def label(next_individual):
        while True:
            x = next(next_individual)
            x.genome = np.array([next(ids)])
            made[0] += 1
            yield x

    def probe(x):
        seen.append((int(x.genome[0]), x.is_viable))
    steady_state(client, p["births"], p["n"], 3, rep, w.problem, [ops.naive_cyclic_selection, ops.clone, label, ops.pool(size=1)],
                 count_nonviable=p["cnv"], evaluated_probe=probe, context=context)
    total = sum(e is not None for e in w.outcome)
    require(sum(not v for _, v in seen) == total, "%d evaluations failed but %d individuals are not viable", total, sum(not v for _, v in seen))
    c = context["leap"]["distrib"]["non_viable"]
    require(c == total + p.get("before", 0), "%d evaluations failed but the count went from %d to %d", total, p.get("before", 0), c)
    require(global_context["leap"]["distrib"]["non_viable"] == glob, "the global context was used instead of the one given")
    return tuple(seen)


def plain(ctx, p):
    """Ordinary individuals let the error through."""
    w = World(ctx, p)
    cls = Individual
    n = p["n"]
    pop = [cls(np.array([k]), w.decoder, w.problem) for k in range(n)]
    client = FakeClient()
    got = None
    try:
        if p["how"] == "bulk":
            res = cls.evaluate_population(pop)
        elif p["how"] == "stream":
            it = ops.evaluate(iter(pop))
            res = [next(it) for _ in pop]
        else:
            res = eval_population(client=client, context=fresh_context())(pop)
    except Exception as e:
        got = e
    first = [e for e in w.outcome if e is not None]
    if first:
        require(got is not None, "an evaluation raised %r and nobody noticed", first[0])
        chain = [got, got.__cause__, got.__context__]
        require(any(c is f for c in chain for f in first), "another error %r was raised instead of %r", got, first[0])
    else:
        require(got is None, "no evaluation failed but %r was raised", got)
        require([x.fitness for x in res] == [k * 2.0 + 1 for k in range(n)], "wrong fitness")
        require(all(is_viable(x) for x in res), "an ordinary individual counts as non-viable")
    return bool(first)


def scenarios(tier):
    big = tier == "thorough"
    out = []

    def add(kind, fn, dev=None, weight=1, **p):
        name = kind + "-" + "-".join("%s=%s" % kv for kv in sorted(p.items())) + ("" if dev is None else "-dev%d" % dev)
        out.append(S(name, fn, p, deviations=dev, weight=weight))
    for cls in CLS:
        for where in ("problem", "decoder"):
            add("history", history, cls=cls, where=where, depth=3, weight=10)
            add("history", history, cls=cls, where=where, depth=5 if big else 4, weight=80)
            for e in range(len(ERRORS)):
                add("bulk", bulk, cls=cls, where=where, err=e, n=2, how="bulk")
                add("bulk", bulk, cls=cls, where=where, err=e, n=2, how="stream")
                add("bulk", bulk, cls=cls, where=where, err=e, n=2, how="population", serialise=bool(e % 2))
    for how in ("population", "pool"):
        for n in range(0, 5):
            for ser in (False, True):
                add("dask", bulk, cls="distributed", n=n, how=how, serialise=ser, weight=30)
                add("dask", bulk, cls="robust", n=min(n, 3), how=how, serialise=ser, ancestors=True, tag=n)  if n < 4 else None
        add("dask", bulk, cls="distributed", n=2, how=how, rounds=3, serialise=True, weight=30, where="decoder")
        add("dask", bulk, cls="distributed", n=3, how=how, rounds=2, weight=60)
        add("dask", bulk, cls="distributed", n=3, how=how, rounds=2, dev=3, **{"global": True})
        add("dask", bulk, cls="distributed", n=8, how=how, rounds=2, dev=3 if big else 2, serialise=True, weight=40)
        add("dask", bulk, cls="distributed", n=3, how=how, rounds=2, dev=4, alike=True, weight=20)
        for n in (40, 150, 300):
            add("dask", bulk, cls="distributed", n=n, how=how, rounds=1, dev=1, serialise=n == 40, alike=n == 150, weight=n, faults=3, window=2)
    for n in (40, 150):
        for how in ("bulk", "stream"):
            add("serial", bulk, cls="robust", n=n, how=how, dev=2 if n == 40 else 1, alike=True, weight=n)
    for n in range(1, 5):
        for how in ("bulk", "stream"):
            for cls in CLS:
                add("serial", bulk, cls=cls, n=n, how=how, ancestors=True)
        if n <= 2:
            for births in (1, 2):
                for cnv in (False, True):
                    add("steady", steady, n=n, births=births, cnv=cnv, where=("problem", "decoder")[births % 2], serialise=n == 2, before=5 * (n % 2), faults=2 if n == births == 2 else 3)
        for how in ("bulk", "stream", "dask"):
            for where in ("problem", "decoder"):
                for e in (0, 2, 6):
                    add("plain", plain, n=n if how != "dask" else min(n, 3), how=how, where=where, err=e, k=n)
    return out
