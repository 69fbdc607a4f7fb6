"""C17: Cartesian GP."""
import itertools
import numpy as np
from mc.engine import S, require, check_distribution
from leap_ec.executable_rep import cgp
from leap_ec.individual import Individual

BOUNDS = {"quick": "every legal genome of 20 small architectures (1-3 inputs, 1-2 outputs, up to 3 layers and 4 nodes, arity 1-3, up to 3 "
          "primitives of mixed arity, every levels-back) decoded pruned and unpruned and run on symbolic inputs (one run decides "
          "all inputs) and on all Boolean inputs; larger architectures: all genomes within 2 gene changes of 3 bases; constraint "
          "check on all genomes with genes up to one outside their range; exact distributions of initialisers and mutation; single "
          "scenarios: large architectures (single genomes, hundreds of nodes)"}


def legal_ranges(a):
    """Per gene the legal values, from the documented meaning of the architecture."""
    out = []
    for layer in range(a["layers"]):
        reach = [s for s in range(a["inputs"] + layer * a["nodes"])
                 if layer < a["back"] or layer == 0 or s >= a["inputs"] + (layer - a["back"]) * a["nodes"]]
        for _ in range(a["nodes"]):
            out.append(list(range(len(a["prims"]))))
            for _ in range(a["arity"]):
                out.append(reach)
    for _ in range(a["outputs"]):
        out.append(list(range(a["inputs"] + a["layers"] * a["nodes"])))
    return out


class Fn:
    """A primitive without a declared arity: gets every input."""

    def __init__(self, name):
        self.name = name

    def __call__(self, *args):
        return (self.name,) + tuple(args)


def primitives(a):
    out = []
    for i, k in enumerate(a["prims"]):
        f = Fn("f%d" % i)
        out.append(f if k is None else cgp.FunctionPrimitive(f, k))
    return out


def reference(a, genome, inputs, params=None):
    vals = list(inputs)
    w = a["arity"] + 1
    for n in range(a["layers"] * a["nodes"]):
        f, srcs = genome[n * w], genome[n * w + 1:n * w + w]
        k = a["prims"][f]
        args = [vals[s] for s in srcs][:k if k is not None else len(srcs)]
        if params is not None:
            args += list(params[n * a["npar"]:(n + 1) * a["npar"]])
        vals.append(("f%d" % f,) + tuple(args))
    return [vals[s] for s in genome[a["layers"] * a["nodes"] * w:]]


def decoder(a, prune, prims=None):
    kw = {} if a.get("default_back") else dict(levels_back=a["back"])
    if a.get("npar"):
        return cgp.CGPWithParametersDecoder(prims or primitives(a), a["inputs"], a["outputs"], a["layers"], a["nodes"], a["arity"],
                                            num_parameters_per_node=a["npar"], prune=prune, **kw)
    return cgp.CGPDecoder(prims or primitives(a), a["inputs"], a["outputs"], a["layers"], a["nodes"], a["arity"], prune=prune, **kw)


def arch(inputs, outputs, layers, nodes, arity, prims, back=None, npar=0):
    return dict(inputs=inputs, outputs=outputs, layers=layers, nodes=nodes, arity=arity, prims=prims,
                back=back if back is not None else layers, default_back=back is None, npar=npar)


def plain(v):
    if isinstance(v, (tuple, list)):
        return tuple(plain(x) for x in v)
    return v.item() if isinstance(v, np.generic) else v


def one(dec, a, genome, kind=np.array):
    ins = ["x%d" % i for i in range(a["inputs"])]
    params = None
    g = kind(list(genome))
    if a["npar"]:
        params = ["p%d" % i for i in range(a["npar"] * a["layers"] * a["nodes"])]
        ex = dec.decode([g, list(params)])
    else:
        ex = dec.decode(g)
    require(list(g) == list(genome), "decoding modified the genome")
    out = ex(ins)
    want = reference(a, genome, ins, params)
    require(plain(out) == plain(want), "genome %r of %r computes %r, its graph says %r", list(genome), a, plain(out), plain(want))
    return ex


def programs(ctx, p):
    a = p["arch"]
    dec = decoder(a, p["prune"])
    rs = legal_ranges(a)
    require([tuple(b) for b in dec.bounds()] == [(min(r), max(r)) for r in rs], "bounds of %r are %r, legal ranges %r", a, dec.bounds(), rs)
    require(dec.num_genes() == len(rs), "%d genes advertised, %d needed", dec.num_genes(), len(rs))
    first = p.get("first")
    for i, genome in enumerate(itertools.product(*rs)):
        if first is not None and genome[:len(first)] != first:
            continue
        one(dec, a, genome, np.array if i % 2 else list)
        ctx.step()
        ctx.state((str(a), genome))
    return str(a)


def near(ctx, p):
    a = p["arch"]
    dec = decoder(a, p["prune"])
    rs = legal_ranges(a)
    require([tuple(b) for b in dec.bounds()] == [(min(r), max(r)) for r in rs], "bounds of %r are %r, legal ranges %r", a, dec.bounds(), rs)
    n = len(rs)
    base = [tuple(r[0] for r in rs), tuple(r[-1] for r in rs), tuple(r[(3 * i + 1) % len(r)] for i, r in enumerate(rs))][p["base"]]
    for i, j in itertools.combinations(range(n), 2):
        for u in rs[i]:
            for v in rs[j]:
                g = list(base)
                g[i], g[j] = u, v
                one(dec, a, tuple(g))
                ctx.step()
                ctx.state((str(a), tuple(g)))
    return str(a)


def large(ctx, p):
    """Architectures of many inputs, layers, nodes, outputs or parameters: every single gene change of several base programs."""
    a = p["arch"]
    dec = decoder(a, p["prune"])
    rs = legal_ranges(a)
    require([tuple(b) for b in dec.bounds()] == [(min(r), max(r)) for r in rs], "bounds of %r are %r, legal ranges %r", a, dec.bounds(), rs)
    require(dec.num_genes() == len(rs), "%d genes advertised, %d needed", dec.num_genes(), len(rs))
    bases = [[r[0] for r in rs], [r[-1] for r in rs], [r[(3 * i + 1) % len(r)] for i, r in enumerate(rs)], [r[(5 * i + 2) % len(r)] for i, r in enumerate(rs)]]
    base = bases[p["base"]]
    w = a["arity"] + 1
    if p["base"] == 1:          # a chain: no node may see the newest source more than once, or the output grows exponentially
        for n in range(a["layers"] * a["nodes"]):
            for k in range(1, a["arity"]):
                opts = rs[n * w + 1 + k]
                base[n * w + 1 + k] = opts[k % 2 % len(opts)]
                if len(opts) == 1:
                    base[n * w] = 0
    one(dec, a, tuple(base))
    for i in range(len(rs)):
        vals = rs[i] if len(rs[i]) <= 6 else sorted(set(rs[i][:2] + rs[i][-2:] + [rs[i][len(rs[i]) // 2]]))
        for v in vals:
            g = list(base)
            g[i] = v
            one(dec, a, tuple(g))
            next(iter(dec.check_constraints(iter([Individual(np.array(g))]))))
            ctx.step()
            ctx.state((str(a), tuple(g)))
        for v in (min(rs[i]) - 1, max(rs[i]) + 1):
            g = list(base)
            g[i] = v
            try:
                next(iter(dec.check_constraints(iter([Individual(np.array(g))]))))
            except ValueError:
                continue
            require(False, "gene %d = %d of %r is outside its legal range %r but was accepted", i, v, a, (min(rs[i]), max(rs[i])))
    return str(a)


def boolean(ctx, p):
    """The provided logic primitives on all Boolean inputs."""
    a = p["arch"]
    prims = [cgp.NAND(), cgp.NotX(), lambda x, y: x and not y]
    dec = decoder(a, p["prune"], prims)
    rs = legal_ranges(a)
    f = [lambda x, y: not (x and y), lambda x, y: not x, lambda x, y: x and not y]
    for genome in itertools.product(*rs):
        ex = dec.decode(np.array(genome))
        for ins in itertools.product((False, True), repeat=a["inputs"]):
            vals = list(ins)
            w = 3
            for n in range(a["layers"] * a["nodes"]):
                vals.append(f[genome[n * w]](vals[genome[n * w + 1]], vals[genome[n * w + 2]]))
            want = [vals[s] for s in genome[a["layers"] * a["nodes"] * w:]]
            got = ex(list(ins))
            require([bool(x) for x in got] == want, "genome %r on %r gives %r, should be %r", genome, ins, got, want)
            ctx.step()
        ctx.state((str(a), genome))
    return str(a)


def interleave(ctx, p):
    """Executions and decodings of several programs in any order."""
    a = p["arch"]
    dec = decoder(a, p["prune"])
    genomes = p["genomes"]
    exs = {}
    log = []
    for t in range(p["depth"]):
        k = ctx.pick_int(len(genomes))
        if k not in exs or ctx.pick((0, 1)):
            params = ["p%d%d" % (k, i) for i in range(a["npar"] * a["layers"] * a["nodes"])]
            exs[k] = (dec.decode([np.array(genomes[k]), params] if a["npar"] else np.array(genomes[k])), params)
        ex, params = exs[k]
        ins = ["%s%d" % (ctx.pick("xy"), i) for i in range(a["inputs"])]
        got = ex(ins)
        want = reference(a, genomes[k], ins, params if a["npar"] else None)
        require(plain(got) == plain(want), "program %d answers %r at step %d, should be %r", k, plain(got), t, plain(want))
        log.append(plain(got))
    return tuple(log)


def constraints(ctx, p):
    a = p["arch"]
    dec = decoder(a, True)
    rs = legal_ranges(a)
    wide = [list(range(min(r) - 1, max(r) + 2)) for r in rs]
    for genome in itertools.product(*wide):
        ok = all(g in r for g, r in zip(genome, rs))
        ind = Individual(np.array(genome) if p["kind"] == "array" else list(genome))
        try:
            r = next(iter(dec.check_constraints(iter([ind]))))
            got = True
            require(r is ind, "the constraint check passed on somebody else")
        except ValueError:
            got = False
        require(got == ok, "genome %r of %r is %s but was %s", genome, a, "legal" if ok else "illegal", "accepted" if got else "refused")
        require(list(ind.genome) == list(genome), "the constraint check changed the genome")
        ctx.step()
        ctx.state((str(a), genome))
    good = [r[0] for r in rs]
    for bad in (good[:-1], good + [0], good + good, [float(g) for g in good], good[:-1] + [good[-1] + 0.5], []):
        try:
            next(iter(dec.check_constraints(iter([Individual(np.array(bad, dtype=object) if p["kind"] == "array" else bad)]))))
        except ValueError:
            continue
        require(False, "genome %r was accepted", bad)
    # a stream: the legal ones come out in order
    inds = [Individual(np.array([r[-1] for r in rs])), Individual(np.array(good))]
    out = list(itertools.islice(dec.check_constraints(iter(inds)), 2))
    require(out[0] is inds[0] and out[1] is inds[1], "the constraint check reordered the stream")
    return str(a)


def wrong_length(ctx, p):
    a = p["arch"]
    dec = decoder(a, True)
    good = [r[0] for r in legal_ranges(a)]
    cases = [good[:-1], good + [0]]
    pars = ["p"] * (a["npar"] * a["layers"] * a["nodes"])
    if a["npar"]:
        cases = [[c, pars] for c in cases] + [[good, pars[:-1]], [good, pars + ["q"]], [good], [good, pars, pars]]
    for c in cases:
        try:
            dec.decode(c)
        except (AssertionError, ValueError):
            continue
        require(False, "a genome of the wrong length was decoded: %r", c)
    return len(cases)


def initialise(ctx, p):
    a = p["arch"]
    dec = decoder(a, True)
    how = p["how"]
    if how == "initializer":
        g = dec.initializer()()
    elif how == "vector":
        g = cgp.create_cgp_vector(dec)()
    else:
        g, par = dec.initialize(lambda: [1.5] * (a["npar"] * a["layers"] * a["nodes"]))()
        require(par == [1.5] * (a["npar"] * a["layers"] * a["nodes"]), "parameters %r", par)
    require(len(g) == dec.num_genes(), "%d genes", len(g))
    require(all(isinstance(x, (int, np.integer)) for x in g), "genes are not integers: %r", g)
    next(iter(dec.check_constraints(iter([Individual(g)]))))
    return how, tuple(int(x) for x in g)


def init_post(p, group, dist):
    rs = legal_ranges(p["arch"])
    n = 1
    for r in rs:
        n *= len(r)
    check_distribution(dist, {g: 1.0 / n for g in itertools.product(*rs)}, "initial genomes")


def mutate(ctx, p):
    a = p["arch"]
    dec = decoder(a, True)
    rs = legal_ranges(a)
    g = tuple(r[(i * 2 + p["start"]) % len(r)] for i, r in enumerate(rs))
    kw = dict(probability=p["prob"]) if "prob" in p else dict(expected_num_mutations=p["expected"])
    if p["how"] == "genome":
        r = cgp.cgp_genome_mutate(dec, **kw)(np.array(g))
    else:
        ind = Individual(np.array(g), problem=None)
        ind.fitness = 3.0
        src = iter([ind])
        out = next(cgp.cgp_mutate(dec, **kw)(src))
        require(out is ind, "mutation does not return the individual it was given")
        require(out.fitness is None, "fitness not cleared")
        r = out.genome
    require(isinstance(r, np.ndarray) and r.dtype.kind == "i", "mutated genome is not an integer array")
    next(iter(dec.check_constraints(iter([Individual(r)]))))
    return g, tuple(int(x) for x in r)


def mut_post(p, group, dist):
    rs = legal_ranges(p["arch"])
    q = p["prob"] if "prob" in p else p["expected"] / len(rs)
    laws = []
    for g, r in zip(group, rs):
        law = {v: q / len(r) for v in r}
        law[g] += 1 - q
        laws.append(law)
    want = {}
    for combo in itertools.product(*[[(v, w) for v, w in l.items() if w > 0] for l in laws]):
        pr = 1.0
        for _, w in combo:
            pr *= w
        want[tuple(v for v, _ in combo)] = pr
    check_distribution(dist, want, "mutation of %r" % (group,))


def lineage(ctx, p):
    """initialise, mutate, decode and run over several generations"""
    a = p["arch"]
    dec = decoder(a, p["prune"])
    g = dec.initializer()()
    m = cgp.cgp_genome_mutate(dec, probability=0.5)
    for _ in range(2):
        g = m(g)
        next(iter(dec.check_constraints(iter([Individual(g)]))))
        one(dec, a, tuple(int(x) for x in g))
    return tuple(int(x) for x in g)


def scenarios(tier):
    big = tier == "thorough"
    out = []
    small = [arch(1, 1, 1, 1, 1, (None,)), arch(1, 1, 1, 1, 1, (1, 0)), arch(2, 1, 1, 1, 2, (None, 1)), arch(2, 2, 1, 1, 2, (2, 1, 0)),
             arch(3, 1, 1, 1, 2, (None, 2)), arch(3, 2, 1, 1, 3, (3, 1)), arch(1, 1, 2, 1, 2, (None, 1)), arch(1, 2, 2, 1, 2, (2, 1), 1),
             arch(2, 1, 2, 1, 2, (None, 1), 1), arch(2, 2, 2, 1, 2, (2, 1), 2), arch(2, 1, 1, 2, 2, (2, 1)), arch(2, 2, 1, 2, 2, (2,)),
             arch(1, 1, 1, 3, 1, (None, 0)), arch(1, 1, 3, 1, 2, (2,), 1), arch(1, 1, 3, 1, 2, (2,), 2), arch(1, 2, 3, 1, 2, (None,)),
             arch(1, 1, 4, 1, 1, (None, 1), 2), arch(1, 1, 4, 1, 1, (None, 1), 3), arch(1, 1, 2, 2, 1, (1, 0), 1), arch(2, 1, 2, 2, 1, (None, 1), 1),
             arch(1, 3, 2, 1, 2, (2, 1), 5)]
    par = [arch(1, 1, 1, 1, 1, (None,), npar=1), arch(2, 1, 1, 2, 2, (None, 1), npar=1), arch(1, 2, 2, 1, 2, (2, 1), npar=2), arch(2, 1, 2, 1, 2, (None, 0), 1, npar=1),
           arch(1, 1, 3, 1, 1, (1, None), npar=2), arch(1, 1, 2, 2, 1, (None, 0), 1, npar=3)]
    for a in small + par:
        size = 1
        for r in legal_ranges(a):
            size *= len(r)
        for prune in (True, False):
            out.append(S("all-%s-%s" % (list(a.values()), prune), programs, dict(arch=a, prune=prune), weight=size))
    if big:
        for a in (arch(2, 1, 2, 2, 2, (None,)), arch(2, 1, 2, 2, 2, (2, 1), 1), arch(1, 2, 3, 1, 2, (2, 1)), arch(3, 1, 2, 1, 3, (None, 2))):
            for prune in (True, False):
                for first in itertools.product(*legal_ranges(a)[:3]):
                    out.append(S("all-%s-%s-%s" % (list(a.values()), prune, first), programs, dict(arch=a, prune=prune, first=first), weight=10 ** 5))
    for a in (arch(2, 2, 3, 3, 2, (2, 1, None), 2), arch(3, 2, 4, 2, 3, (3, None, 1, 2), 1), arch(2, 1, 3, 2, 2, (2, 0, None), npar=2), arch(4, 3, 2, 4, 2, (1, 2))):
        for prune in (True, False):
            for base in range(3):
                out.append(S("near-%s-%s-%d" % (list(a.values()), prune, base), near, dict(arch=a, prune=prune, base=base), weight=10 ** 4))
    for a in (arch(1, 1, 20, 1, 1, (None, 1), 3), arch(2, 2, 16, 1, 2, (1, 2), 1), arch(3, 9, 2, 20, 2, (2, 1)), arch(13, 1, 1, 2, 13, (None, 12)), arch(30, 12, 1, 3, 2, (None, 1)),
              arch(2, 1, 2, 2, 2, (None, 1), npar=7), arch(1, 2, 11, 1, 1, (None,), npar=2), arch(2, 1, 1, 1, 2, tuple(1 + k % 2 for k in range(15)))):
        for prune in (True, False):
            for base in range(4):
                out.append(S("large-%s-%s-%d" % (list(a.values()), prune, base), large, dict(arch=a, prune=prune, base=base), weight=10 ** 4))
    for a in (arch(2, 1, 1, 1, 2, (0, 0, 0)), arch(2, 2, 1, 2, 2, (0, 0, 0)), arch(2, 1, 2, 1, 2, (0, 0, 0), 1), arch(2, 1, 2, 1, 2, (0, 0, 0))):
        for prune in (True, False):
            out.append(S("bool-%s-%s" % (list(a.values()), prune), boolean, dict(arch=a, prune=prune), weight=10 ** 4))
    ia, ip = arch(2, 1, 2, 1, 2, (2, 1)), arch(1, 1, 2, 1, 1, (1, None), npar=1)
    for prune in (True, False):
        out.append(S("inter-%s" % prune, interleave, dict(arch=ia, prune=prune, depth=3, genomes=[(0, 0, 1, 0, 2, 0, 3), (1, 1, 0, 0, 0, 2, 3), (0, 1, 1, 1, 0, 0, 2)])))
        out.append(S("interp-%s" % prune, interleave, dict(arch=ip, prune=prune, depth=4 if big else 3, genomes=[(0, 0, 1, 1, 2), (1, 0, 0, 0, 2), (1, 0, 1, 1, 1)])))
    for a in (arch(1, 1, 1, 1, 1, (None, None)), arch(2, 1, 1, 1, 2, (None,)), arch(1, 1, 2, 1, 1, (1, 1), 1), arch(1, 1, 3, 1, 1, (1,), 1), arch(1, 1, 3, 1, 1, (1,), 2), arch(1, 2, 1, 2, 1, (1,))):
        for kind in ("array", "list"):
            out.append(S("constraints-%s-%s" % (list(a.values()), kind), constraints, dict(arch=a, kind=kind), weight=3000))
    for a in (arch(2, 1, 2, 2, 2, (2,)), arch(1, 1, 1, 1, 1, (1,)), arch(1, 1, 2, 1, 1, (1,), npar=1), arch(2, 2, 1, 2, 2, (1,), npar=2)):
        out.append(S("length-%s" % list(a.values()), wrong_length, dict(arch=a)))
    for a in (arch(1, 1, 1, 1, 1, (1, 1)), arch(2, 2, 1, 1, 2, (2, 1)), arch(1, 1, 2, 1, 1, (1, 1, 1), 1), arch(1, 1, 3, 1, 1, (1,), 1), arch(1, 1, 3, 1, 1, (1, 1), 2), arch(2, 1, 1, 2, 1, (1, 0))):
        for how in ("initializer", "vector"):
            out.append(S("init-%s-%s" % (list(a.values()), how), initialise, dict(arch=a, how=how), post=init_post, weight=500))
        for start in (0, 1):
            for how in ("genome", "ind"):
                for kw in (dict(prob=0.25), dict(prob=1.0), dict(prob=0.0)):
                    if len(legal_ranges(a)) > 5 and kw != dict(prob=1.0):
                        continue
                    out.append(S("mut-%s-%d-%s-%s" % (list(a.values()), start, how, kw), mutate, dict(arch=a, start=start, how=how, **kw), post=mut_post, unit_bins=4 if kw == dict(prob=0.25) else 1, weight=3000))
    for a in (arch(1, 1, 1, 1, 1, (1, 1), npar=1), arch(1, 1, 2, 1, 1, (1, 1), 1, npar=2)):
        out.append(S("initp-%s" % list(a.values()), initialise, dict(arch=a, how="params"), post=init_post, weight=500))
    a4 = arch(1, 1, 1, 1, 2, (1, 1))     # 4 genes: expected number of mutations in quarters
    for e in (1, 2, 4):
        for how in ("genome", "ind"):
            out.append(S("mute-%s-%s" % (e, how), mutate, dict(arch=a4, start=0, how=how, expected=e), post=mut_post, unit_bins=4, weight=1000))
    for prune in (True, False):
        out.append(S("lineage-%s" % prune, lineage, dict(arch=arch(2, 1, 3, 2, 2, (2, 1, None), 2), prune=prune), deviations=3 if big else 2, unit_bins=2, weight=10 ** 4))
    return out
