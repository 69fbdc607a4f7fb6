"""C20: counters, identifiers and shared context tell the truth."""
import copy
import pickle
import uuid
import numpy as np
from mc.engine import S, require
from leap_ec import ops, util
from leap_ec.individual import Individual, RobustIndividual, WholeEvaluatedIndividual
from leap_ec.decoder import IdentityDecoder
from leap_ec.global_vars import context as global_context
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.distrib import evaluate as dist_evaluate
from .common import Table

BOUNDS = {"quick": "every history of 5 operations on two generation and two birth counters over separate contexts (one of them the global "
          "one), every combination of published values and overrides for get_step, every history of 5 branding/cloning/creating "
          "operations over lists, generators and populations with two branders, every history of 5 create/clone/crossover/evaluate "
          "operations for 4 classes; single scenarios: 1300 consecutive steps"}


def counters(ctx, p):
    ctxs = [{"leap": {"other": 1}}, {"leap": {"other": 2}, "mine": 3}, global_context]
    k1, k2 = p["ctx"]
    start = p["start"]
    calls = [[], [], [], []]
    cbs = [tuple((lambda v, i=i, j=j: calls[i].append((j, v))) for j in range(p["listeners"])) for i in range(4)]
    kinds = ["g", "g", "b", "b"]
    cs, where, val = [], [], []
    before = copy.deepcopy(ctxs)
    made = []
    for i, kind in enumerate(kinds):
        c = ctxs[(k1, k2)[i % 2]]
        kw = {} if c is global_context and p["default"] else {"context": c}
        if p["listeners"]:
            kw["callbacks"] = cbs[i] if p["listeners"] != 2 else list(cbs[i])
        if kind == "g":
            cs.append(util.inc_generation(start_generation=start + i, **kw) if start or i else util.inc_generation(**kw))
        else:
            cs.append(util.inc_births(start=start + i, **kw))
        where.append(c)
        val.append(start + i)
        made.append(i)

    def verify(op):
        for i in range(4):
            got = cs[i].generation() if kinds[i] == "g" else cs[i].births()
            require(got == val[i], "after %s counter %d reports %r instead of %r", op, i, got, val[i])
            key = "generation" if kinds[i] == "g" else "births"
            require(where[i]["leap"].get(key) == val[i], "after %s the context of counter %d publishes %r instead of %r", op, i,
                    where[i]["leap"].get(key), val[i])
        for c, b in zip(ctxs, before):
            rest = {k: v for k, v in c["leap"].items() if k not in ("generation", "births")}
            require(rest == b["leap"] and set(c) == set(b), "after %s another entry of a context changed: %r", op, c)
            if not any(c is w for w in where):
                require("generation" not in c["leap"] and "births" not in c["leap"], "after %s a context that was not given carries %r", op, c["leap"])
    verify("creation")
    log = []
    for _ in range(p["depth"]):
        i = ctx.pick_int(4)
        exp_calls = [list(x) for x in calls]
        if kinds[i] == "g":
            r = cs[i]()
            val[i] += 1
            exp_calls[i] += [(j, val[i]) for j in range(p["listeners"])]
            op = "generation step on %d" % i
        else:
            how = ctx.pick(("inc", "size", "method", "dec"))
            op = how + " on %d" % i
            if how == "dec":
                r = cs[i].do_decrement()
                val[i] -= 1
            else:
                r = cs[i]() if how == "inc" else cs[i](3) if how == "size" else cs[i].do_increment()
                val[i] += 3 if how == "size" else 1
                exp_calls[i] += [(j, val[i]) for j in range(p["listeners"])]
        require(r == val[i], "%s returned %r instead of %r", op, r, val[i])
        require([sorted(x) for x in calls] == [sorted(x) for x in exp_calls], "%s notified %r", op, calls)
        verify(op)
        log.append(op)
        ctx.state(tuple(val))
    return tuple(val)


def step(ctx, p):
    c = {"leap": {}}
    glob = {"generation": 31, "births": 32}
    has_g, has_b = ctx.pick((0, 1)), ctx.pick((0, 1))
    target = c if ctx.pick((0, 1)) else None
    if target is None:
        c = global_context
    else:
        global_context["leap"].update(glob)
    if has_g:
        c["leap"]["generation"] = ctx.pick((0, 7))
    if has_b:
        c["leap"]["births"] = ctx.pick((0, 9))
    ug, ub = ctx.pick((None, True, False)), ctx.pick((None, True, False))
    kw = {} if target is None else {"context": c}
    snap = copy.deepcopy(c)
    try:
        got = util.get_step(use_generation=ug, use_births=ub, **kw)
    except AssertionError:
        got = "refused"
    require(c == snap, "asking for the step changed the context")
    g, b = c["leap"].get("generation"), c["leap"].get("births")
    if ug is None and ub is None:
        want = "refused" if has_g == has_b else (g if has_g else b)
    elif ug and ub or not ug and not ub:
        # both, or nothing left to use (an explicit None next to False is left open)
        want = "refused" if ug and ub or (ug is False and ub is False) else None
    elif ug:
        want = g if has_g else "refused"
    else:
        want = b if has_b else "refused"
    if want is not None:
        require(got == want, "step is %r, expected %r (published %r, overrides %r %r)", got, want, c["leap"], ug, ub)
    return (repr(got), ug, ub)


def branding(ctx, p):
    cls = p["cls"]
    problem = Table(lambda x: 0)

    def new():
        return cls(np.array([0, 1]), IdentityDecoder(), problem)
    branders = [util.birth_brander(), util.birth_brander()]
    nxt = [0, 0]
    everyone = []                 # (individual, expected birth or None)
    birth = {}

    def expect(b, inds):
        for x in inds:
            if id(x) not in birth:
                birth[id(x)] = nxt[b]
                nxt[b] += 1

    def verify(op):
        for x in everyone:
            if id(x) in birth:
                require(getattr(x, "birth", "none") == birth[id(x)], "after %s an individual's birth is %r, expected %r", op,
                        getattr(x, "birth", "none"), birth[id(x)])
            else:
                require(not hasattr(x, "birth"), "after %s an unbranded individual has birth %r", op, getattr(x, "birth", None))
        ids = [x.uuid for x in everyone]
        require(len(set(ids)) == len(ids), "two individuals have the same uuid")
    everyone += [new(), new()]
    for d in range(p["depth"]):
        op = ctx.pick(("new", "clone", "pop", "list", "gen", "mixed", "partial"))
        if op == "new":
            everyone.append(new())
        elif op == "clone":
            i = ctx.pick((0, len(everyone) - 1))
            c = everyone[i].clone()
            everyone.append(c)
            require(c.parents == {everyone[i].uuid}, "a clone names %r as parents", c.parents)
        else:
            b = ctx.pick_int(2) if p["two"] else 0
            if op == "pop":
                r = branders[b].brand_population(list(everyone))
                expect(b, everyone)
                require(isinstance(r, list) and len(r) == len(everyone) and all(a is x for a, x in zip(r, everyone)), "branding replaced individuals")
            elif op == "list":
                src = everyone[-2:]
                r = list(branders[b](src))
                expect(b, src)
                require(len(r) == 2 and all(a is x for a, x in zip(r, src)), "branding replaced individuals")
            elif op == "gen":
                src = everyone[::-1]
                r = list(branders[b](iter(src)))
                expect(b, src)
                require(len(r) == len(src) and all(a is x for a, x in zip(r, src)), "branding replaced individuals")
            elif op == "mixed":
                # two streams from the same brander, drawn alternately
                s1, s2 = branders[b](iter(everyone)), branders[b](iter(everyone[::-1]))
                for k in range(len(everyone)):
                    x = next(s1)
                    expect(b, [everyone[k]])
                    require(x is everyone[k], "branding replaced individuals")
                    x = next(s2)
                    expect(b, [everyone[-1 - k]])
                    require(x is everyone[-1 - k], "branding replaced individuals")
            else:
                # only one individual is drawn from the stream: only one is born
                src = everyone[::-1]
                x = next(branders[b](iter(src)))
                expect(b, src[:1])
                require(x is src[0], "branding replaced individuals")
        verify(op)
        ctx.state((len(everyone), tuple(nxt)))
    for x in everyone:
        if id(x) in birth and p["two"] == 0:
            require(list(birth.values()).count(birth[id(x)]) == 1, "birth %r reused", birth[id(x)])
    return (tuple(nxt), len(everyone))


def lineage(ctx, p):
    cls = p["cls"]
    distributed = issubclass(cls, DistributedIndividual)
    problem = Table(lambda x: 1)

    def new(g=(0, 0, 0)):
        return cls(np.array(g), IdentityDecoder(), problem)
    seen, model = [], []          # individuals, expected parents
    serial = None

    def add(x, parents):
        nonlocal serial
        seen.append(x)
        model.append(parents)
        if distributed:
            require(isinstance(x.birth_id, int), "birth id is %r", x.birth_id)
            if serial is not None:
                require(x.birth_id == serial + 1, "birth ids jumped from %r to %r", serial, x.birth_id)
            serial = x.birth_id
    for k in range(2):
        add(new(), set())
    for d in range(p["depth"]):
        op = ctx.pick(("new", "pop", "clone", "twice", "evaluate", "cross", "ucross", "stream") + (("mutate",) if d < 2 else ()))
        i = ctx.pick(sorted({0, len(seen) - 1}))
        j = ctx.pick(sorted({1, len(seen) - 2}))
        a, b = seen[i], seen[j]
        if op == "new":
            add(new(), set())
        elif op == "pop":
            for x in cls.create_population(2, lambda: np.array([0, 1, 0]), IdentityDecoder(), problem):
                add(x, set())
        elif op == "clone":
            add(a.clone(), {i})
        elif op == "twice":
            c = a.clone()
            add(c, {i})
            add(c.clone(), {len(seen) - 1})
        elif op == "evaluate":
            a.evaluate()
        elif op == "stream":
            st = ops.clone(iter([a, b]))
            for src, x in zip((i, j), [next(st), next(st)]):
                add(x, {src})
        elif op == "mutate":
            from leap_ec.binary_rep.ops import mutate_bitflip
            c = next(mutate_bitflip(iter([a.clone()]), expected_num_mutations=0))
            add(c, {i})
        else:
            if a is b:
                continue
            ca, cb = a.clone(), b.clone()
            n = len(seen)
            add(ca, {i})
            add(cb, {j})
            opr = ops.NAryCrossover(num_points=1, p_xover=1.0) if op == "cross" else ops.UniformCrossover(p_swap=0.0, p_xover=1.0)
            st = opr(iter([ca, cb]))
            r = [next(st), next(st)]
            require(len(r) == 2 and {id(x) for x in r} == {id(ca), id(cb)}, "crossover replaced its individuals")
            model[n] = model[n + 1] = {i, j}
        idx = {x.uuid: k for k, x in enumerate(seen)}
        require(len(idx) == len(seen), "two individuals have the same uuid")
        for k, x in enumerate(seen):
            require(isinstance(x.uuid, uuid.UUID), "uuid is %r", x.uuid)
            require(isinstance(x.parents, set), "parents are a %s", type(x.parents))
            got = {idx.get(u, "unknown") for u in x.parents}
            require(got == model[k], "after %s individual %d names %r as its parents instead of %r", op, k, got, model[k])
        if distributed:
            ids = [x.birth_id for x in seen]
            require(len(set(ids)) == len(ids) and ids == sorted(ids), "birth ids %r", ids)
        ctx.state(tuple(frozenset(m) for m in model))
    # no history of one individual may reach another's record
    sets = [id(x.parents) for x in seen if x.parents]
    require(len(set(sets)) == len(sets), "two individuals share one parents record")
    return len(seen)


def long_run(ctx, p):
    """One counter, one brander, 1300 steps; a listener that looks back at the counter when notified."""
    seen = []
    kind = ctx.pick(("g", "b"))
    used = ctx.pick((False, True))  # the context served another run before
    c = {"leap": {}}
    if used:
        old = (util.inc_generation if kind == "g" else util.inc_births)(context=c)
        for _ in range(5):
            old()
    start = ctx.pick((0, 1, 17))
    hold = {}
    many = ctx.pick((0, 9))         # further listeners
    heard = [[] for _ in range(many)]
    rest = tuple(h.append for h in heard)

    def back(v):
        now = hold["c"].generation() if kind == "g" else hold["c"].births()
        seen.append((v, now, c["leap"]["generation" if kind == "g" else "births"]))
    if start == 0:
        hold["c"] = (util.inc_generation if kind == "g" else util.inc_births)(context=c, callbacks=(back,) + rest)
    else:
        hold["c"] = util.inc_generation(start, c, (back,) + rest) if kind == "g" else util.inc_births(c, start, (back,) + rest)
    require(c["leap"] == {"generation" if kind == "g" else "births": start}, "a new counter publishes %r, expected %d", c["leap"], start)
    for k in range(1300):
        r = hold["c"]()
        require(r == start + k + 1, "step %d of a counter started at %d returned %r", k + 1, start, r)
        require(len(seen) == k + 1 and seen[-1] == (r, r, r), "listener saw %r at value %d", seen[-1:], r)
    require(all(h == list(range(start + 1, start + 1301)) for h in heard), "a listener was not notified of every step")
    if kind == "b":
        for size in (1000, 10 ** 6):
            was = hold["c"].births()
            require(hold["c"](size) == was + size == c["leap"]["births"] == hold["c"].births(), "%d births counted as %r from %d", size, hold["c"].births(), was)
    problem = Table(lambda x: 0)
    brand = util.birth_brander()
    inds = [Individual(np.array([0]), IdentityDecoder(), problem) for _ in range(700)]
    for k, x in enumerate(brand(iter(inds))):
        require(x.birth == k, "birth number %d is %r", k, x.birth)
    more = brand.brand_population([x.clone() for x in inds])
    require([x.birth for x in more] == list(range(700, 1400)), "second batch of births is not numbered onwards")
    return (kind, start)


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for pair in ((0, 1), (0, 2), (1, 2)):
        for start in (0, 5):
            for listeners in (0, 1, 2):
                for default in (0, 1):
                    if default and 2 not in pair:
                        continue
                    out.append(S("counters-%s-%d-%d-%d" % (pair, start, listeners, default), counters,
                                 dict(ctx=pair, start=start, listeners=listeners, default=default, depth=5 if big else 4 if listeners == 2 else 3), weight=10))
    out.append(S("step", step, {}))
    out.append(S("long", long_run, {}))
    for cls in (Individual, RobustIndividual, WholeEvaluatedIndividual, DistributedIndividual):
        out.append(S("brand-" + cls.__name__, branding, dict(cls=cls, depth=5 if big else 4, two=0), weight=30))
        out.append(S("brand2-" + cls.__name__, branding, dict(cls=cls, depth=4 if big else 3, two=1), weight=30))
        out.append(S("lineage-" + cls.__name__, lineage, dict(cls=cls, depth=4 if big else 3), weight=60, unit_bins=1))
    return out
