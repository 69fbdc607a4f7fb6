"""C06: comparison operators of individuals follow the problem's notion of better."""
import itertools
from math import nan, inf
import numpy as np
from mc.engine import S, require
from leap_ec.individual import Individual, RobustIndividual, WholeEvaluatedIndividual
from leap_ec.distrib.individual import DistributedIndividual
from leap_ec.decoder import IdentityDecoder
from leap_ec.problem import FunctionProblem, ConstantProblem, ScalarProblem
from leap_ec.binary_rep.problems import MaxOnes
from leap_ec.real_rep.problems import SpheroidProblem
from leap_ec.multiobjective.problems import SCHProblem
from .common import MOTable, Table, isnan, better, dominates
from .c04 import mixes

BOUNDS = {"quick": "all pairs and triples over 25 scalar values of 5 numeric kinds (zero, negatives, infinities, NaN), both directions; "
                   "all pairs over {0,1,2}^2/{0,1}^3/{-1,0.5,inf}^2 vectors and triples over {0,1,2}^2, all direction mixes; sort/min/max of all lists of <=4"}

REAL = [0, 1, -1, 2, 7, 10 ** 12, 0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.5, 1e-300, 1e300, inf, -inf,
        np.float64(1.0), np.float64(-3.25), np.int64(2), np.float32(0.5), np.int32(-1), True, np.float64(inf), 1e-9]
CLS = [Individual, RobustIndividual, WholeEvaluatedIndividual, DistributedIndividual]
MK = dict(table=lambda m: Table(None, m), function=lambda m: FunctionProblem(lambda x: 0, m), constant=lambda m: ConstantProblem(m),
          maxones=lambda m: MaxOnes(maximize=m), sphere=lambda m: SpheroidProblem(maximize=m))


def ind(problem, f, cls=Individual):
    i = cls(np.array([0]), decoder=IdentityDecoder(), problem=problem)
    i.fitness = f
    return i


def six(a, b):
    return dict(lt=a < b, gt=a > b, le=a <= b, ge=a >= b, eq=a == b, ne=a != b)


def consistent(r, rev, what):
    for k, v in r.items():
        require(v is True or v is False or isinstance(v, (bool, np.bool_)), "%s: %s gives %r", what, k, v)
    require(bool(r["lt"]) == bool(rev["gt"]) and bool(r["gt"]) == bool(rev["lt"]), "%s: < and > are not mirror images", what)
    require(bool(r["le"]) == bool(rev["ge"]) and bool(r["ge"]) == bool(rev["le"]), "%s: <= and >= are not mirror images", what)
    require(bool(r["eq"]) != bool(r["ne"]), "%s: == and != agree", what)
    require(bool(r["eq"]) == bool(rev["eq"]), "%s: == is not symmetric", what)
    require(bool(r["ge"]) == (bool(r["gt"]) or bool(r["eq"])), "%s: >= is not > or ==", what)
    require(bool(r["le"]) == (bool(r["lt"]) or bool(r["eq"])), "%s: <= is not < or ==", what)


def scalar_pair(ctx, p):
    problem = MK[p["problem"]](p["maximize"])
    vals = p.get("vals") or REAL + [nan, np.float64(nan)]
    f, g = ctx.pick(vals), ctx.pick(vals)
    c, d = ctx.pick(p["classes"]), ctx.pick(p["classes"])
    a, b = ind(problem, f, c), ind(problem, g, d)
    what = "%r vs %r (maximise=%s)" % (f, g, p["maximize"])
    if isnan(f) and isnan(g):
        six(a, b)          # arbitrary, but must answer
        return "nan-nan"
    r, rev = six(a, b), six(b, a)
    consistent(r, rev, what)
    require(bool(r["gt"]) == better(f, g, p["maximize"]), "%s: > is %r", what, r["gt"])
    require(bool(r["lt"]) == better(g, f, p["maximize"]), "%s: < is %r", what, r["lt"])
    require(bool(r["eq"]) == (f == g), "%s: == is %r", what, r["eq"])
    require(sum((bool(r["gt"]), bool(r["lt"]), bool(r["eq"]))) == 1, "%s: not exactly one of better/equal/worse", what)
    require(problem.worse_than(f, g) == bool(r["lt"]), "%s: problem and individuals disagree", what)
    require(a.fitness is f and b.fitness is g, "comparison changed a fitness")
    return tuple(bool(v) for v in r.values())


def triple(ctx, p):
    mo = not isinstance(p["maximize"], bool)
    problem = MOTable(None, p["maximize"]) if mo else Table(None, p["maximize"])
    f, g, h = (ctx.pick(p["vals"]) for _ in range(3))
    if sum(isnan(x) for x in (f, g, h)) > 1:
        return "nan-nan"
    a, b, c = (ind(problem, np.array(x, dtype=float) if mo else x) for x in (f, g, h))
    if a > b and b > c:
        require(a > c, "not transitive: %r > %r > %r", f, g, h)
    if not mo and a == b and b == c:
        require(a == c, "equality not transitive: %r, %r, %r", f, g, h)
    if not mo and a >= b and b >= c:
        require(a >= c, "not transitive: %r >= %r >= %r", f, g, h)
    return (a > b, b > c)


def mo_pair(ctx, p):
    problem = MOTable(None, p["maximize"])
    f, g = ctx.pick(p["vals"]), ctx.pick(p["vals"])
    mk = {"float": lambda v: np.array(v, dtype=float), "int": lambda v: np.array(v)}[p.get("dtype", "float")]
    a, b = ind(problem, mk(f)), ind(problem, mk(g))
    what = "%r vs %r (maximise=%r)" % (f, g, p["maximize"])
    r, rev = six(a, b), six(b, a)
    consistent(r, rev, what)
    ab, ba = dominates(f, g, p["maximize"]), dominates(g, f, p["maximize"])
    require(bool(r["gt"]) == ab, "%s: > is %r, dominates: %r", what, r["gt"], ab)
    require(bool(r["lt"]) == ba, "%s: < is %r, dominated: %r", what, r["lt"], ba)
    require(bool(r["eq"]) == (not ab and not ba), "%s: == is %r", what, r["eq"])
    require(tuple(a.fitness) == tuple(f) and tuple(b.fitness) == tuple(g), "comparison changed a fitness")
    return (ab, ba)


def nothing(ctx, p):
    """Everything beats 'no individual'."""
    if p["mo"]:
        problem, f = MOTable(None, (True, False)), np.array(ctx.pick([(0, 0), (inf, -inf), (-5, 5)]), dtype=float)
    else:
        problem, f = Table(None, ctx.pick((True, False))), ctx.pick(REAL + [nan])
    a = ind(problem, f, ctx.pick(CLS))
    require(bool(a > None) and not bool(a < None) and not bool(a == None) and bool(a != None), "%r does not beat None", f)  # noqa
    require(bool(a >= None) and not bool(a <= None), "%r does not beat None", f)
    require(bool(None < a) and not bool(None > a), "None is not worse than %r", f)
    return str(f)


def order(ctx, p):
    """sorted / max / min over lists."""
    problem = Table(None, p["maximize"])
    n = ctx.pick((1, 2, 3, 4))
    fits, nans = [], 0
    for _ in range(n):
        f = ctx.pick((1, 2.0, -1.5, np.float64(3.0), nan) if not nans else (1, 2.0, -1.5, np.float64(3.0)))
        nans += isnan(f)
        fits.append(f)
    inds = [ind(problem, f) for f in fits]

    def key(f):
        return -inf if isnan(f) else (f if p["maximize"] else -f)
    got = [key(x.fitness) for x in sorted(inds)]
    require(got == sorted(map(key, fits)), "sorted() gives %r for %r", got, fits)
    require(key(max(inds).fitness) == max(map(key, fits)), "max() is not the best of %r", fits)
    require(key(min(inds).fitness) == min(map(key, fits)), "min() is not the worst of %r", fits)
    return str(fits)


def scenarios(tier):
    out = []
    g2 = list(itertools.product((0, 1, 2), repeat=2))
    for mx in (True, False):
        for pr in MK:
            out.append(S("pair-%s-%s" % (pr, mx), scalar_pair, dict(problem=pr, maximize=mx, classes=CLS if pr == "table" else CLS[:1]), weight=10))
        B = 2 ** 53
        out.append(S("pair-huge-%s" % mx, scalar_pair, dict(problem="table", maximize=mx, classes=CLS[:1], vals=[B, B + 1, B + 2, -B, -B - 1, 10 ** 30, 10 ** 30 + 1, np.int64(B + 1), nan])))
        out.append(S("pair-close-%s" % mx, scalar_pair, dict(problem="table", maximize=mx, classes=CLS[:2], vals=[
            1.0, 1.0 + 1e-7, 1.0 - 1e-7, 1e6, 1e6 + 0.1, 1e-12, 1.00001e-12, 0.0, -1e-12, np.float64(1.0 + 1e-7), 123456.789, 123456.79, nan])))
        out.append(S("triple-%s" % mx, triple, dict(maximize=mx, vals=REAL + [nan]), weight=12))
        out.append(S("order-%s" % mx, order, dict(maximize=mx)))
    for m in (1, 2, 3, 4):
        for mx in mixes(m):
            t = "".join("Mm"[not x] for x in mx)
            g = list(itertools.product((0, 1, 2) if m < 4 else (0, 1), repeat=m))
            out.append(S("mo-%s" % t, mo_pair, dict(maximize=mx, vals=g), weight=3))
            if m <= 2:
                out.append(S("moint-%s" % t, mo_pair, dict(maximize=mx, vals=g, dtype="int")))
                out.append(S("mof-%s" % t, mo_pair, dict(maximize=mx, vals=list(itertools.product((-1.0, 0.5, inf, -inf, 1e-12), repeat=m)))))
                out.append(S("motriple-%s" % t, triple, dict(maximize=mx, vals=g), weight=3))
            if m == 3 and tier == "thorough":
                out.append(S("motriple-%s" % t, triple, dict(maximize=mx, vals=g), weight=20))
    for m in (5, 8, 20):
        for mx in ((True,) * m, (False,) * m, tuple(k % 2 == 0 for k in range(m)), (True,) * (m - 1) + (False,)):
            base = (1.0,) * m
            g = [base] + [base[:k] + (v,) + base[k + 1:] for k in (0, 1, m // 2, m - 2, m - 1) for v in (1.0 + 1e-7, 0.5)] + [(1.0 - 1e-6,) * m, (2.0,) * (m - 1) + (0.0,)]
            t = "".join("Mm"[not x] for x in mx)
            out.append(S("mowide-%s" % t, mo_pair, dict(maximize=mx, vals=g)))
    out.append(S("none", nothing, dict(mo=False)))
    out.append(S("none-mo", nothing, dict(mo=True)))
    return out
