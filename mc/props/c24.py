"""C24: pipelines pull exactly what is asked for and reject mis-plumbed operators."""
import collections.abc
import io
import itertools
import numpy as np
import networkx as nx
import toolz
from mc.engine import S, require
from leap_ec import ops, probe, util
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.binary_rep.ops import mutate_bitflip
from leap_ec.int_rep.ops import mutate_randint, mutate_binomial
from leap_ec.real_rep.ops import mutate_gaussian
from leap_ec.segmented_rep import ops as seg
from leap_ec.multiobjective import ops as mo
from leap_ec.multiobjective.problems import ZDT1Problem
from leap_ec.distrib import synchronous
from leap_ec.executable_rep import cgp
from leap_ec.global_vars import context as global_context
from .common import Table

BOUNDS = {"quick": "every composition of up to 4 of 9 streaming operators between a counting source and a pool of 0-5 individuals, with taps"
          " between all stages; 32 provided operators each against 11 input forms; every incompletely configured operator feeding "
          "every other operator; every output form for the 4 declaration decorators; every short source; single scenarios: pools of"
          " up to 301"}


def problem():
    return Table(lambda x: float(np.sum(x)))


STREAMS = {
    "clone": lambda env: ops.clone,
    "eval": lambda env: ops.evaluate,
    "bitflip": lambda env: mutate_bitflip(expected_num_mutations=0),
    "gauss": lambda env: mutate_gaussian(std=0.0, expected_num_mutations=1, bounds=(-9, 9)),
    "randint": lambda env: mutate_randint(bounds=[(0, 1)] * 2, expected_num_mutations=0),
    "brand": lambda env: util.birth_brander(),
    "print": lambda env: probe.print_individual(stream=env["stream"]),
    "uniform": lambda env: ops.UniformCrossover(p_swap=0.0),
    "nary": lambda env: ops.NAryCrossover(num_points=1),
}
PAIRS = ("uniform", "nary")


def tap(it, log):
    for x in it:
        log.append(x)
        yield x


def compose(ctx, p):
    names = p["names"]
    n = ctx.pick(p["sizes"])
    src_n = ctx.pick((1, 3))
    prob = problem()
    pop = [Individual(np.array([i % 2, (i // 2) % 2]), IdentityDecoder(), prob) for i in range(src_n)]
    env = {"stream": io.StringIO()}
    logs = [[] for _ in range(len(names) + 1)]
    # a pipeline without clone works on the same individuals again and again, which is fine for counting but not
    # for crossing an individual with itself; give the source fresh ones instead
    fresh = "clone" not in names

    def source():
        for k in itertools.count():
            x = pop[k % src_n]
            if fresh:
                x = Individual(x.genome.copy(), IdentityDecoder(), prob)
            yield x
    it = tap(source(), logs[0])
    stages = []
    for k, name in enumerate(names):
        it = STREAMS[name](env)(it)
        require(isinstance(it, collections.abc.Iterator), "%s does not give a stream", name)
        it = tap(it, logs[k + 1])
    require(all(not g for g in logs), "%s: individuals were drawn before any was asked for", names)
    require(not prob.log, "individuals were evaluated before any was asked for")
    if p["sink"] == "pool":
        res = ops.pool(it, size=n)
        require(isinstance(res, list) and len(res) == n, "pool holds %d individuals instead of %d", len(res), n)
        rounds = [n]
    else:
        # drawn one by one: demand is exact at every moment
        res = []
        for k in range(n):
            res.append(next(it))
            verify(names, logs, k + 1)
    verify(names, logs, n)
    require(all(a is b for a, b in zip(res, logs[-1])), "pool does not hold what the stream delivered, in order")
    for k, name in enumerate(names):
        a, b = logs[k], logs[k + 1]
        if name == "clone":
            require(all(x is not y and y.parents == {x.uuid} or not b for x, y in zip(a, b)) or any(q in PAIRS for q in names[k + 1:]),
                    "clones out of order")
            require(len({id(y) for y in b}) == len(b) and not {id(x) for x in a} & {id(y) for y in b}, "clone passed an original on")
        else:
            require(all(x is y for x, y in zip(a, b)), "%s changed the order of individuals", name)
    evals = sum(len(logs[k + 1]) for k, name in enumerate(names) if name == "eval")
    require(len(prob.log) == evals, "%d evaluations happened for %d requested", len(prob.log), evals)
    if "print" in names:
        want = sum(len(logs[k + 1]) for k, name in enumerate(names) if name == "print")
        require(len(env["stream"].getvalue().splitlines()) == want, "printed %r", env["stream"].getvalue())
    return (n, tuple(len(g) for g in logs))


def verify(names, logs, n):
    need = n
    for k in range(len(names) - 1, -1, -1):
        require(len(logs[k + 1]) == need, "%s: %d individuals left %s where %d are needed for %d", names, len(logs[k + 1]), names[k], need, n)
        if names[k] in PAIRS:
            need += need % 2
    require(len(logs[0]) == need, "%s: %d individuals were taken from the source, %d are needed for %d", names, len(logs[0]), need, n)


def cgp_decoder():
    return cgp.CGPDecoder([cgp_first], 1, 1, 1, 1, 1, 1)


def cgp_first(a):
    return a


MO = ZDT1Problem(3)
TOPO = nx.complete_graph(2)


def registry():
    """name -> (form in, form out, operator with everything it needs, operator with something missing or None)"""
    r = {}

    def add(name, i, o, full, partial=None):
        r[name] = (i, o, full, partial)
    add("evaluate", "iter", "iter", ops.evaluate)
    add("clone", "iter", "iter", ops.clone)
    add("uniform", "iter", "iter", ops.UniformCrossover())
    add("nary", "iter", "iter", ops.NAryCrossover(num_points=1))
    add("bitflip", "iter", "iter", mutate_bitflip(expected_num_mutations=1))
    add("randint", "iter", "iter", mutate_randint(bounds=[(0, 1)] * 2, expected_num_mutations=1), mutate_randint(expected_num_mutations=1))
    add("binomial", "iter", "iter", mutate_binomial(std=1.0, bounds=[(0, 1)] * 2, expected_num_mutations=1), mutate_binomial(std=1.0))
    add("gaussian", "iter", "iter", mutate_gaussian(std=1.0, expected_num_mutations=1), mutate_gaussian(expected_num_mutations=1))
    add("apply_mutation", "iter", "iter", seg.apply_mutation(mutator=lambda s, expected_num_mutations: s), seg.apply_mutation())
    add("segmented_mutate", "iter", "iter", seg.segmented_mutate(mutator_functions=[lambda s: s] * 2), seg.segmented_mutate)
    add("add_segment", "iter", "iter", seg.add_segment(seq_initializer=lambda: np.array([0]), probability=0.0), seg.add_segment(probability=1.0))
    add("remove_segment", "iter", "iter", seg.remove_segment(probability=0.0), seg.remove_segment)
    add("copy_segment", "iter", "iter", seg.copy_segment(probability=0.0), seg.copy_segment(append=True))
    add("print_individual", "iter", "iter", probe.print_individual(stream=io.StringIO()))
    add("cgp_mutate", "iter", "iter", cgp.cgp_mutate(cgp_decoder(), expected_num_mutations=1))
    add("pool", "iter", "list", ops.pool(size=2), ops.pool)
    add("grouped_evaluate", "list", "list", ops.grouped_evaluate)
    add("const_evaluate", "list", "list", ops.const_evaluate(value=3.0), ops.const_evaluate)
    add("truncation", "list", "list", ops.truncation_selection(size=2), ops.truncation_selection)
    add("elitist", "list", "list", ops.elitist_survival(parents=[]), ops.elitist_survival(k=2))
    add("insertion", "list", "list", ops.insertion_selection(parents=population()), ops.insertion_selection)
    add("print_probe", "list", "list", probe.print_probe(probe=len, stream=io.StringIO()), probe.print_probe(stream=io.StringIO()))
    add("migrate", "list", "list", ops.migrate(TOPO, ops.tournament_selection, ops.random_selection, 5, customs_stamp=None))
    add("proportional", "list", "iter", ops.proportional_selection)
    add("sus", "list", "iter", ops.sus_selection)
    add("tournament", "list", "iter", ops.tournament_selection)
    add("naive_cyclic", "list", "iter", ops.naive_cyclic_selection)
    add("cyclic", "list", "iter", ops.cyclic_selection)
    add("random", "list", "iter", ops.random_selection)
    add("fast_sort", "list", "list", mo.fast_nondominated_sort)
    add("ordinal_sort", "list", "list", mo.rank_ordinal_sort)
    add("crowding", "list", "list", mo.crowding_distance_calc)
    add("dominance", "list", "list", mo.sort_by_dominance)
    add("eval_population", "list", "list", None, synchronous.eval_population)
    add("eval_pool", "iter", "list", None, synchronous.eval_pool(size=2))
    return r


def population(multi=False):
    prob = MO if multi else problem()
    g = [np.array([0.25, 0.5, 0.5]), np.array([0.5, 0.5, 0.25]), np.array([0.75, 0.0, 0.0])] if multi else \
        [np.array([0, 1]), np.array([1, 1]), np.array([1, 0])]
    out = [Individual(x, IdentityDecoder(), prob) for x in g]
    for x in out:
        x.evaluate()
        if multi:
            x.rank = 1
            x.distance = 1.0
    return out


class Lookalike:
    """Iterable and indexable, but neither a list nor an iterator."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


FORMS = {
    "list": lambda pop: list(pop),
    "iter": lambda pop: iter(pop),
    "gen": lambda pop: (x for x in pop),
    "cycle": lambda pop: itertools.cycle(pop),
    "tuple": lambda pop: tuple(pop),
    "set-like": lambda pop: Lookalike(pop),
    "dict": lambda pop: {i: x for i, x in enumerate(pop)},
    "curry": lambda pop: ops.pool(size=3),
    "curry2": lambda pop: mutate_gaussian(iter(pop)),
    "function": lambda pop: len,
    "individual": lambda pop: pop[0],
    "none": lambda pop: None,
    "genfunc": lambda pop: FORMS["gen"],
}


def forms(ctx, p):
    name, form = p["name"], ctx.pick(sorted(FORMS))
    i, o, full, partial = registry()[name]
    global_context["leap"].update(current_subpopulation=0, generation=1)
    multi = name in ("fast_sort", "ordinal_sort", "crowding", "dominance")
    pop = population(multi)
    if name == "cgp_mutate":
        for x in pop:
            x.genome = np.array([0, 0, 0])
    good = form in (("iter", "gen", "cycle") if i == "iter" else ("list",))
    if full is None:
        if good:
            return form
        full = partial(client=None)
    given = FORMS[form](pop)
    try:
        res = full(given)
        if not good and isinstance(res, collections.abc.Iterator):
            next(res)
    except Exception as e:
        require(not good, "%s refused %s: %r", name, form, e)
        return (form, "refused")
    require(good, "%s takes %s although it expects %s, and gives %r", name, form, "a stream" if i == "iter" else "a list", res)
    require(isinstance(res, collections.abc.Iterator if o == "iter" else list), "%s gives %r", name, type(res))
    if o == "iter":
        require(hasattr(next(res), "fitness"), "%s does not deliver individuals", name)
    else:
        require(all(hasattr(x, "fitness") for x in res), "%s does not deliver individuals", name)
    return (form, "ok")


def incomplete(ctx, p):
    reg = registry()
    up = p["up"]
    i, o, full, partial = reg[up]
    multi = False
    pop = population()
    down = ctx.pick(sorted(reg))
    di, do, dfull, dpartial = reg[down]
    if dfull is None:
        dfull = dpartial(client=None)
    global_context["leap"].update(current_subpopulation=0, generation=1)
    given = iter(pop) if i == "iter" else list(pop)
    try:
        mid = partial(given)
    except Exception:
        return "refused at once"
    require(not isinstance(mid, (list, collections.abc.Iterator)), "%s with a required argument missing gives %r", up, mid)
    try:
        res = dfull(mid)
        if isinstance(res, collections.abc.Iterator):
            next(res)
    except Exception:
        return (down, "refused")
    require(False, "%s accepts the incomplete %s and gives %r", down, up, res)


DECOS = {"iteriter": (ops.iteriter_op, "iter", "iter"), "listlist": (ops.listlist_op, "list", "list"), "listiter": (ops.listiter_op, "list", "iter"),
         "iterlist": (ops.iterlist_op, "iter", "list")}


def declared(ctx, p):
    """A user's own operator declared with one of the decorators."""
    deco, i, o = DECOS[p["deco"]]
    fin, fout = ctx.pick(sorted(FORMS)), ctx.pick(sorted(FORMS))
    curried = ctx.pick((0, 1))
    pop = [1, 2, 3]
    calls = []
    returned = FORMS[fout](pop) if fout != "curry2" else ops.pool(size=2)
    given = FORMS[fin](pop) if fin != "curry2" else ops.pool(size=2)

    def f(x, a, b=2):
        "documentation"
        calls.append((x, a, b))
        return returned
    g = deco(f)
    if curried:
        g = util.wrap_curry(g)
        require(g.__doc__ == "documentation" and g.__name__ == "f", "the operator's name and documentation are lost")
    ok_in = fin in (("iter", "gen", "cycle") if i == "iter" else ("list",))
    ok_out = fout in (("iter", "gen", "cycle") if o == "iter" else ("list",))
    try:
        res = g(a=7, b=9)(given) if curried else g(given, 7, b=9)
    except ValueError as e:
        require(not (ok_in and ok_out), "%s operator refused %s -> %s: %s", p["deco"], fin, fout, e)
        require(ok_in or not calls, "operator ran on a wrong form")
        return "refused"
    require(ok_in and ok_out, "%s operator let %s -> %s pass", p["deco"], fin, fout)
    require(res is returned and calls == [(given, 7, 9)], "arguments or result changed: %r", calls)
    return "ok"


def short(ctx, p):
    """A source that runs dry is an error, never a smaller pool."""
    have, want = ctx.pick((0, 1, 2, 3)), ctx.pick((0, 1, 2, 3, 4))
    mid = ctx.pick(("none", "clone", "eval", "bitflip", "uniform", "nary"))
    prob = problem()
    pop = [Individual(np.array([0, 1]), IdentityDecoder(), prob) for _ in range(have)]
    it = iter(pop) if mid == "none" else STREAMS[mid]({})(iter(pop))
    limit = have if mid not in PAIRS else have - have % 2
    try:
        res = ops.pool(it, want)
    except (StopIteration, RuntimeError):
        require(want > limit, "a pool of %d from %d individuals through %s failed", want, have, mid)
        return "error"
    require(want <= limit and len(res) == want, "a pool of %d from %d individuals holds %d", want, have, len(res))
    return "ok"


def consecutive(ctx, p):
    """Several pools from one stream continue where the last one stopped."""
    names = ctx.pick(((), ("clone",), ("eval",), ("clone", "eval"), ("brand", "clone"), ("uniform",), ("clone", "nary", "eval")))
    sizes = [ctx.pick((0, 1, 2, 3)) for _ in range(3)]
    prob = problem()
    made = []

    def source():
        while True:
            made.append(Individual(np.array([len(made) % 2, 1]), IdentityDecoder(), prob))
            yield made[-1]
    it = source()
    log = []
    for name in names:
        it = STREAMS[name]({})(it)
    it = tap(it, log)
    total = 0
    for s in sizes:
        res = ops.pool(it, size=s)
        require(len(res) == s and all(a is b for a, b in zip(res, log[total:])), "pool of %d after %d", s, total)
        total += s
        need = total + total % 2 if any(q in PAIRS for q in names) else total
        require(len(made) == need, "%d individuals drawn for %d", len(made), total)
        require(len(prob.log) == (total if "eval" in names else 0), "%d evaluations for %d", len(prob.log), total)
    require(len({id(x) for x in log}) == len(log), "an individual was delivered twice")
    return (names, tuple(sizes))


def scenarios(tier):
    big = tier == "thorough"
    out = []
    names = list(STREAMS)
    few = ["clone", "eval", "bitflip", "uniform", "brand"]
    for k in range(0, 5 if not big else 6):
        for c in itertools.product(names if k < 4 else few, repeat=k):
            # an individual cannot be crossed twice with a partner that is itself, and integer genomes suit all of these
            for sink in ("pool", "draw"):
                out.append(S("compose-%s-%s" % ("-".join(c), sink), compose, dict(names=c, sizes=(0, 1, 2, 3, 5), sink=sink), unit_bins=1, z=(0.0,)))
    for c in (("clone", "bitflip", "uniform", "eval"), ("clone", "gauss", "nary", "eval"), ("clone", "randint", "uniform", "nary", "print", "eval", "brand")):
        out.append(S("compose-long-%s" % "-".join(c), compose, dict(names=c, sizes=(0, 1, 4, 5, 20, 33, 150, 301), sink="pool"), deviations=1, unit_bins=1, z=(0.0,), limit=100000))
    reg = registry()
    for name, (i, o, full, partial) in reg.items():
        out.append(S("forms-" + name, forms, dict(name=name), unit_bins=1, z=(0.0,)))
        if partial is not None:
            out.append(S("incomplete-" + name, incomplete, dict(up=name), unit_bins=1, z=(0.0,)))
    for d in DECOS:
        out.append(S("declared-" + d, declared, dict(deco=d)))
    out.append(S("short", short, {}, unit_bins=1))
    out.append(S("consecutive", consecutive, {}, unit_bins=1))
    return out
