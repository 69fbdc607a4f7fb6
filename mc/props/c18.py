"""C18: Pitt-approach rule systems."""
import itertools
import numpy as np
from gymnasium import spaces
from mc.engine import S, require, check_distribution, close
from leap_ec.executable_rep.rules import PittRulesDecoder, PittRulesExecutable, Rule
from leap_ec.individual import Individual
from leap_ec.real_rep.ops import genome_mutate_gaussian
from leap_ec.int_rep.ops import individual_mutate_randint

BOUNDS = {"quick": "every set of 1-3 rules with interval ends on a grid of 4 values in 1 input, 2 rules on a grid of 3 (2 values for 3 "
          "rules) in 2 inputs, every observation on the half-step grid incl. outside, wildcard (reversed) conditions, exact choice "
          "probabilities among equally close rules; call histories of length 3 over two rule sets; values apart by 2^-9 to 2^-27; "
          "1-3 outputs; initialiser and mutation outcomes over 1-3 rules and flat or nested input spaces (unit draws in 2-3 bins); "
          "single scenarios: large rule sets, large action values and conditions that differ by a few ulp"}
ORDER = PittRulesExecutable.PriorityMetric.RULE_ORDER


def control(space):
    """A space whose samples are choice points."""
    space._np_random = np.random.default_rng()
    return space


def box(low, high):
    return control(spaces.Box(low=np.array(low, dtype=np.float64), high=np.array(high, dtype=np.float64), dtype=np.float64))


def discrete(n, start=0):
    return control(spaces.Discrete(n, start=start))


def distance(rule, obs, n):
    d = 0.0
    for c in range(n):
        lo, hi = rule[2 * c], rule[2 * c + 1]
        if lo > hi or lo <= obs[c] <= hi:
            continue
        e = min(abs(lo - obs[c]), abs(hi - obs[c]))
        d += e * e
    return d


def law(rules, obs, n):
    """{index of the rule that fires: probability}"""
    ds = [distance(r, obs, n) for r in rules]
    m = min(ds)
    if m == 0:
        return {ds.index(0): 1.0}
    best = [i for i, d in enumerate(ds) if d == m]
    return {i: 1.0 / len(best) for i in best}


def fires(ctx, p):
    n = p["inputs"]
    conds = [c for c in itertools.product(p["grid"], repeat=2)]
    rules = []
    for i in range(p["rules"]):
        r = []
        for _ in range(n):
            r += list(ctx.pick(conds))
        rules.append(tuple(r) + (i,))
        if i == 0 and p.get("only") is not None and r[:2] != list(p["only"]):
            return None
    obs = tuple(ctx.pick(p["obs"]) for _ in range(n))
    dec = PittRulesDecoder(box([p["grid"][0]] * n, [p["grid"][-1]] * n), discrete(p["rules"]))
    genome = [list(r) for r in rules] if p["kind"] == "list" else [np.array(r, dtype=float) for r in rules] if p["kind"] == "arrays" else np.array(rules, dtype=float)
    keep = repr(genome)
    ex = dec.decode(genome)
    o = list(obs) if p["kind"] == "list" else np.array(obs)
    a = ex(o)
    require(repr(genome) == keep and tuple(o) == obs, "the genome or the observation was modified")
    require(isinstance(a, int), "action is %r", a)
    ctx.state((tuple(rules), obs))
    return (tuple(rules), obs), a


def fires_post(p, group, dist):
    rules, obs = group
    check_distribution(dist, law(rules, obs, p["inputs"]), "rules %r on %r" % (rules, obs))


def lots(ctx, p):
    """Many rules over many inputs, some of them alike: the first that matches, else the nearest."""
    R, n = p["rules"], p["inputs"]
    m = p["distinct"]
    rules = []
    for r in range(R):
        c = [0.0, 1.0] * n
        c[2 * (r % m % n):2 * (r % m % n) + 2] = [2.0 * (r % m) + 2, 2.0 * (r % m) + 3]
        rules.append(tuple(c) + (r,))
    obs = [0.5] * n
    where, what = ctx.pick_int(n), ctx.pick(tuple(2.0 * k + 2.5 for k in range(m)) + (-4.0, 0.5, 5e4))
    obs[where] = what
    wild = ctx.pick((None, 0, R // 2, R - 1))
    if wild is not None:
        rules[wild] = (1.0, 0.0) * (n - 1) + (7.0, 8.0, wild)
        if ctx.pick((0, 1)):
            obs[-1] = 7.5
    dec = PittRulesDecoder(box([0.0] * n, [10.0 * R] * n), discrete(R))
    a = dec.decode([np.array(r, dtype=float) for r in rules])(np.array(obs))
    return (tuple(rules), tuple(obs) + (where, what)), a


def history(ctx, p):
    """Two systems of one decoder, any order of calls: each answer depends on its own rules and observation only."""
    dec = PittRulesDecoder(box([0, 0], [3, 3]), discrete(6))
    sets = [[(0, 1, 2, 3, 0), (1, 3, 0, 1, 1), (3, 0, 3, 3, 2)], [(0, 0, 0, 0, 3), (2, 3, 2, 3, 4), (1, 2, 0, 3, 5)]]
    exs = [dec.decode([np.array(r, dtype=float) for r in s]) for s in sets]
    for _ in range(p["depth"]):
        k = ctx.pick((0, 1))
        obs = (ctx.pick(p["o1"]), ctx.pick(p["o2"]))
        a = exs[k](np.array(obs))
        allowed = [sets[k][i][-1] for i in law(sets[k], obs, 2)]
        require(a in allowed, "system %d answers %r on %r, should be one of %r", k, a, obs, allowed)
    return k, obs, a


def action(ctx, p):
    """Actions are rounded to the nearest action number; several outputs come as a list."""
    g = ctx.pick((0.0, 0.4, 0.6, 1.0, 1.4, 1.6, 2.3, -0.2, -0.7, -1.4))
    want = int(np.floor(g + 0.5))
    dec = PittRulesDecoder(box([0], [1]), discrete(3))
    require(dec.decode([[0.0, 1.0, g]])([0.5]) == want, "action gene %r fires as something else than %d", g, want)
    for far in (100, 300, 40000, 10 ** 6, 3 * 10 ** 9):
        require(dec.decode([[0.0, 1.0, far + g]])([0.5]) == far + want, "action gene %r fires as something else than %d", far + g, far + want)
    ex = PittRulesExecutable(box([0], [1]), spaces.MultiBinary(2), [Rule([(0.0, 0.5)], [0, 1]), Rule([(0.5, 1.0)], [g, 0])], ORDER)
    for o, w in ((0.2, [0, 1]), (0.5, [0, 1]), (0.7, [want, 0]), (2.0, [want, 0]), (-1.0, [0, 1])):
        require(ex([o]) == w, "two-output rules answer %r on %r, should be %r", ex([o]), o, w)
    return g


def several(ctx, p):
    """Rule systems with several outputs, from the genome on."""
    k = p["outputs"]
    space = spaces.MultiBinary(k) if ctx.pick((0, 1)) else spaces.MultiDiscrete([3] * k)
    dec = PittRulesDecoder(box([0.0, 0.0], [4.0, 4.0]), space)
    require(dec.num_outputs == k and dec.num_genes_per_rule == 4 + k, "%d outputs, %d genes per rule", dec.num_outputs, dec.num_genes_per_rule)
    acts = [[(r + j) % 2 for j in range(k)] for r in range(3)]
    acts[ctx.pick((0, 1, 2))][ctx.pick_int(k)] = 2
    conds = [[0.0, 1.0, 0.0, 1.0], [1.0, 2.0, 3.0, 0.0], [3.0, 4.0, 3.0, 4.0]]
    genome = [c + a for c, a in zip(conds, acts)]
    genome = [np.array(r, dtype=float) for r in genome] if p["kind"] == "array" else genome
    rules = dec.genome_to_rules(genome)
    require([[float(x) for x in r.actions] for r in rules] == [[float(x) for x in a] for a in acts], "actions %r, expected %r", rules, acts)
    require([[(float(a), float(b)) for a, b in r.conditions] for r in rules] == [[(c[0], c[1]), (c[2], c[3])] for c in conds], "conditions %r", rules)
    ex = dec.decode(genome)
    for obs, w in (((0.5, 1.0), 0), ((1.0, 0.0), 0), ((2.0, 4.0), 1), ((1.5, -1.0), 1), ((3.0, 3.0), 2), ((4.5, 4.0), 2)):
        got = ex(np.array(obs))
        require((got if k > 1 else [got]) == acts[w], "%r on %r, expected %r", got, obs, acts[w])
    op = dec.mutator(condition_mutator=lambda c: np.array(c) + 0.5, action_mutator=lambda a: np.array(a) + 1)
    m = next(op(iter([Individual(genome, decoder=dec)])))
    require([[float(x) for x in r] for r in m.genome] == [[x + 0.5 for x in c] + [x + 1.0 for x in a] for c, a in zip(conds, acts)], "mutated to %r", m.genome)
    return k


def layout(ctx, p):
    """genome_to_rules and the advertised numbers."""
    shape = p["shape"]
    n = int(np.prod(shape))
    low, high = np.arange(n).reshape(shape) * 1.0, np.arange(n).reshape(shape) * 10.0 + 20
    dec = PittRulesDecoder(box(low, high), discrete(p["actions"], p.get("start", 0)))
    require(dec.num_inputs == n and dec.num_outputs == 1 and dec.num_genes_per_rule == 2 * n + 1 and dec.num_memory_registers == 0, "wrong dimensions")
    st = p.get("start", 0)
    cb = [b for i in range(n) for b in ((float(i), i * 10.0 + 20),) * 2]
    require([tuple(map(float, b)) for b in dec.condition_bounds] == cb, "condition bounds %r", dec.condition_bounds)
    require([tuple(map(int, b)) for b in dec.action_bounds] == [(st, st + p["actions"] - 1)], "action bounds %r", dec.action_bounds)
    for k in (1, 3, 90):
        b = dec.bounds(k)
        require(len(b) == k and all([tuple(map(float, x)) for x in r] == cb + [(float(st), float(st + p["actions"] - 1))] for r in b), "bounds(%d) = %r", k, b)
    k = ctx.pick((1, 2, 3))
    genome = [[100.0 * r + i for i in range(2 * n + 1)] for r in range(k)]
    rules = dec.genome_to_rules(genome)
    want = [([(100.0 * r + 2 * i, 100.0 * r + 2 * i + 1) for i in range(n)], [100.0 * r + 2 * n]) for r in range(k)]
    require([([tuple(c) for c in r.conditions], list(r.actions)) for r in rules] == want, "rules %r", rules)
    for bad in ([genome[0][:-1]], [genome[0] + [1.0]], [genome[0], genome[0][:-2]], []):
        try:
            dec.decode(bad)
        except (AssertionError, ValueError, IndexError):
            continue
        require(False, "genome %r of the wrong layout was decoded", bad)
    return k


def initial(ctx, p):
    shape = p["shape"]
    n = int(np.prod(shape))
    low = np.arange(n).reshape(shape) * 10.0
    high = low + 4.0
    dec = PittRulesDecoder(box(low, high), discrete(p["actions"], p.get("start", 0)))
    init = dec.initializer(p["rules"])
    g = init()
    if p.get("twice"):
        g2 = init()
        require(not any(np.shares_memory(a, b) for a in g for b in g2), "two rule sets share storage")
    require(len(g) == p["rules"] and all(len(r) == 2 * n + 1 for r in g), "layout of %r", g)
    require(not any(np.shares_memory(a, b) for a, b in itertools.combinations(g, 2)), "rules share storage")
    dec.decode(g)
    return "init", tuple(round(float(x), 6) for r in g for x in r)


def initial_post(p, group, dist):
    n = int(np.prod(p["shape"]))
    bins = p["bins"]
    st = p.get("start", 0)
    one = []
    for i in range(n):
        vals = [round(i * 10.0 + 4.0 * (k + 0.5) / bins, 6) for k in range(bins)]
        one += [vals, vals]
    one.append([float(st + a) for a in range(p["actions"])])
    allv = list(itertools.product(*(one * p["rules"])))
    check_distribution(dist, {v: 1.0 / len(allv) for v in allv}, "initial rule sets")


def mutate(ctx, p):
    """Every rule's conditions go through the condition mutator, its action through the action mutator."""
    n, k = p["inputs"], p["rules"]
    dec = PittRulesDecoder(box([0.0] * n, [10.0] * n), discrete(4))
    seen = []
    op = dec.mutator(condition_mutator=lambda c: (seen.append(("c", tuple(c))), np.array(c) + 0.5)[1],
                     action_mutator=lambda a: (seen.append(("a", tuple(a))), np.array(a) + 1)[1])
    genomes = []
    inds = []
    for t in range(p["stream"]):
        g = [[10 * t + r + i / 4 for i in range(2 * n)] + [r % 3] for r in range(k)]
        genomes.append(g)
        ind = Individual(np.array(g) if p["kind"] == "array" else [np.array(r, dtype=float) for r in g], decoder=dec)
        ind.fitness = 7.0
        inds.append(ind)
    src = iter(inds)
    stream = op(src)
    for t in range(p["stream"]):
        m = next(stream)
        require(m is inds[t], "mutation returned somebody else")
        require(m.fitness is None, "fitness not cleared")
        require(all(x.fitness == 7.0 for x in inds[t + 1:]), "mutation ran ahead of demand")
        got = [list(map(float, r)) for r in m.genome]
        want = [[x + 0.5 for x in r[:-1]] + [r[-1] + 1.0] for r in genomes[t]]
        require(got == want, "mutated rules %r, should be %r", got, want)
        require(isinstance(m.genome, np.ndarray) == (p["kind"] == "array"), "genome type changed")
        for a, b in itertools.combinations(range(k), 2):
            require(not np.shares_memory(m.genome[a], m.genome[b]), "rules share storage")
    return k


def mutate_real(ctx, p):
    """The provided genome mutators under the decoder's own bounds keep every gene in bounds."""
    dec = PittRulesDecoder(box([0.0, 5.0], [1.0, 6.0]), discrete(3))
    op = dec.mutator(condition_mutator=genome_mutate_gaussian(std=1.0, expected_num_mutations=p["expected"], bounds=dec.condition_bounds),
                     action_mutator=individual_mutate_randint(expected_num_mutations=1, bounds=dec.action_bounds))
    g = [np.array([0.25, 0.75, 5.5, 6.0, 1.0]) for _ in range(p["rules"])]
    parent = Individual(g, decoder=dec)
    child = parent.clone()
    m = next(op(iter([child])))
    for r in m.genome:
        for x, (lo, hi) in zip(r, dec.bounds(1)[0]):
            require(lo <= x <= hi, "mutated gene %r outside of %r", x, (lo, hi))
        require(float(r[-1]).is_integer(), "action %r", r[-1])
    require(all(np.array_equal(r, [0.25, 0.75, 5.5, 6.0, 1.0]) for r in parent.genome), "the parent changed")
    dec.decode(m.genome)
    return tuple(round(float(x), 6) for r in m.genome for x in r)


def unsupported(ctx, p):
    """What is not supported is refused, never silently wrong."""
    PM = PittRulesExecutable.PriorityMetric
    rules = [Rule([(0.0, 1.0)], [0])]
    for m in (PM.GENERALITY, PM.PERIMETER, None):
        try:
            PittRulesExecutable(box([0], [1]), discrete(2), rules, m)
        except (ValueError, AssertionError):
            continue
        require(False, "priority %r was accepted", m)
    dec = PittRulesDecoder(box([0], [1]), discrete(2), memory_space=box([0], [1]))
    for f in (lambda: dec.bounds(2), lambda: dec.initializer(2)()):
        try:
            f()
        except ValueError:
            continue
        require(False, "memory registers were accepted")
    return True


def scenarios(tier):
    big = tier == "thorough"
    out = []
    g4, o4 = (0, 1, 2, 3), (-1, 0, 0.5, 1, 1.5, 2, 2.5, 3, 4)
    for kind in ("list", "arrays", "matrix"):
        out.append(S("one-%s" % kind, fires, dict(inputs=1, rules=1, grid=g4, obs=o4, kind=kind), post=fires_post))
        out.append(S("two-%s" % kind, fires, dict(inputs=1, rules=2, grid=g4, obs=o4, kind=kind), post=fires_post, weight=20))
    for c in itertools.product(g4 if big else (0, 1, 2), repeat=2):
        out.append(S("three-%s" % (c,), fires, dict(inputs=1, rules=3, grid=g4 if big else (0, 1, 2), obs=o4 if big else (-1, 0, 0.5, 1, 1.5, 2, 3), kind="list", only=c), post=fires_post, weight=50))
    g3, o3 = (0, 1, 2), (0, 0.5, 1, 2, 3) if big else (0, 0.5, 2)
    for c in itertools.product(g3, repeat=2):
        out.append(S("plane-%s" % (c,), fires, dict(inputs=2, rules=2, grid=g3, obs=o3, kind="list", only=c), post=fires_post, weight=60))
    for c in itertools.product((0, 1), repeat=2):
        out.append(S("plane3-%s" % (c,), fires, dict(inputs=2, rules=3, grid=(0, 1), obs=(0, 0.5, 1, 2) if big else (0, 0.5, 2), kind="matrix", only=c), post=fires_post, weight=60))
        out.append(S("cube-%s" % (c,), fires, dict(inputs=3, rules=2, grid=(0, 1), obs=(0, 2), kind="arrays", only=c), post=fires_post, weight=60))
    out.append(S("history", history, dict(depth=3, o1=(0, 0.5, 2, 3), o2=(0, 1, 2.5, 3)), weight=40))
    out.append(S("history-near", history, dict(depth=3, o1=(1, 1.001, 2, 2.001), o2=(1.499, 1.501, 2, 1.999)), weight=40))
    # values so close that only an exact comparison tells them apart (all exact in binary)
    e1, e2, e3 = 2.0 ** -18, 2.0 ** -27, 2.0 ** -9
    for i, (g, o) in enumerate((((0.0, e3, 1.0), (-e1, 0.0, e3 / 2, 2 * e3, 1.0 + e1)), ((-e1, 0.0, 2.0, 2.0 + e1), (1.0, 1.0 + e1, 3.0)),
                                ((-e2, 0.0, 2.0, 2.0 - e2), (1.0, 0.0, 2.0 - e2 / 2, 2.0)))):
        for kind in ("list", "arrays", "matrix"):
            out.append(S("fine-%d-%s" % (i, kind), fires, dict(inputs=1, rules=2, grid=g, obs=o, kind=kind), post=fires_post, weight=20))
    for kind in ("list", "array"):
        for k in (1, 2, 3):
            out.append(S("several-%s-%d" % (kind, k), several, dict(kind=kind, outputs=k), weight=3))
    for R, n, m in ((25, 1, 12), (70, 12, 35), (130, 2, 130)):
        out.append(S("lots-%d-%d" % (R, n), lots, dict(rules=R, inputs=n, distinct=m), post=fires_post, big_choice=512, weight=60))
    for kind in ("array", "list"):
        for n, k in ((2, 45), (20, 3)):
            out.append(S("mut-lots-%d-%d-%s" % (n, k, kind), mutate, dict(inputs=n, rules=k, stream=2, kind=kind)))
    out.append(S("layout-lots", layout, dict(shape=(4, 9), actions=300, start=0)))
    out.append(S("action", action))
    for shape in ((1,), (2,), (1, 3), (2, 2), (3, 1), (2, 1, 2)):
        for actions, st in ((2, 0), (4, 0), (3, 2)):
            out.append(S("layout-%s-%d-%d" % (shape, actions, st), layout, dict(shape=shape, actions=actions, start=st)))
    for shape, rules, actions, bins, st in (((1,), 1, 2, 3, 0), ((2,), 1, 2, 2, 0), ((2, 1), 1, 3, 2, 0), ((1, 2), 1, 2, 3, 0), ((1,), 2, 2, 3, 0), ((1,), 3, 2, 2, 0), ((2,), 2, 2, 2, 0),
                                            ((1,), 1, 3, 2, 2), ((2, 2), 1, 2, 2, 0), ((3,), 1, 1, 3, 0)):
        out.append(S("init-%s-%d-%d-%d-%d" % (shape, rules, actions, bins, st), initial, dict(shape=shape, rules=rules, actions=actions, bins=bins, start=st), post=initial_post,
                     unit_bins=bins, weight=30))
    out.append(S("init-twice", initial, dict(shape=(1,), rules=2, actions=2, bins=2, twice=True), unit_bins=2))
    for n, k, st, kind in itertools.product((1, 2, 3), (1, 2, 3), (1, 3), ("array", "list")):
        out.append(S("mut-%d-%d-%d-%s" % (n, k, st, kind), mutate, dict(inputs=n, rules=k, stream=st, kind=kind)))
    for rules in (1, 2):
        for e in (1, 4):
            out.append(S("mutreal-%d-%s" % (rules, e), mutate_real, dict(rules=rules, expected=e), deviations=(4 if big else 3) if rules == 2 else 4, unit_bins=4, weight=30))
    out.append(S("unsupported", unsupported))
    return out
