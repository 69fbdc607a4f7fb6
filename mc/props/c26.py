"""C26: transformed landscapes are the original landscape at the transformed point; benchmarks compute their documented formulas."""
import itertools
import math
import os
import shutil
import tempfile
import warnings
import numpy as np
from PIL import Image
from mc.engine import S, require
from leap_ec.problem import FitnessOffsetProblem, FunctionProblem
from leap_ec.real_rep import problems as rp
from leap_ec.binary_rep import problems as bp
from leap_ec.multiobjective import problems as mp

BOUNDS = {"quick": "every point of grids of 4-7 values per axis in 1-3 dimensions for 13 real benchmarks with 2-6 constructor settings each,"
          " both directions; every nesting of 6 wrappers to depth 3 over 4 base functions; all bit strings and targets to length 6 "
          "(strings to 10); all 3x3 images; ZDT1-6 over grids with n 2-4 and every 5-bit group; random translations, rotations and "
          "quadratic families over every coarse draw; single scenarios: 130-300 dimensions, 14 nested wrappers, 70 basins, "
          "150-dimensional rotations"}

PI = math.pi


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(a)), abs(float(b)))


# ---- the documented formulas, written with scalar arithmetic only
def sphere(x):
    return sum(v * v for v in x)


def rastrigin(x, a):
    return a * len(x) + sum(v * v - a * math.cos(2 * PI * v) for v in x)


def rosenbrock(x):
    return sum(100 * (x[i + 1] - x[i] ** 2) ** 2 + (x[i] - 1) ** 2 for i in range(len(x) - 1))


def step(x):
    return sum(math.floor(v) for v in x)


def quartic(x):
    return sum((i + 1) * v ** 4 for i, v in enumerate(x))


def shekel(x, k, c):
    s = 1.0 / k
    for j in range(25):
        ax, ay = -32 + 16 * (j % 5), -32 + 16 * (j // 5)
        s += 1.0 / (c[j] + (x[0] - ax) ** 6 + (x[1] - ay) ** 6)
    return 1.0 / s


def griewank(x):
    p = 1.0
    for i, v in enumerate(x):
        p *= math.cos(v / math.sqrt(i + 1))
    return sum(v * v / 4000.0 for v in x) - p + 1


def ackley(x, a, b, c):
    d = len(x)
    return (-a * math.exp(-b * math.sqrt(sum(v * v for v in x) / d)) - math.exp(sum(math.cos(c * v) for v in x) / d) + a + math.e)


def weierstrass(x, kmax, a, b):
    # kmax terms, k = 0 .. kmax-1
    return sum(sum(a ** k * (math.cos(2 * PI * b ** k * (v + 0.5)) - math.cos(PI * b ** k)) for k in range(kmax)) for v in x)


def langermann(x, c, a):
    t = 0.0
    for ci, ai in zip(c, a):
        q = sum((v - w) ** 2 for v, w in zip(x, ai))
        t -= ci * math.exp(-q / PI) * math.cos(PI * q)
    return t


def lunacek(x, N, d, mu1, mu2, s):
    if s is None:
        s = 1 - 1 / (2 * math.sqrt(N + 20) - 8.2)
    if mu2 is None:
        mu2 = -math.sqrt((mu1 ** 2 - d) / s)
    return min(sum((v - mu1) ** 2 for v in x), d * len(x) + s * sum((v - mu2) ** 2 for v in x)) + 10 * sum(1 - math.cos(2 * PI * (v - mu1)) for v in x)


def schwefel(x, alpha):
    return sum(-v * math.sin(math.sqrt(abs(v))) for v in x) + alpha * len(x)


def gaussian(x, w, h):
    return h * math.exp(-sum((v / w) ** 2 for v in x))


def cosine(x, alpha, g, l):
    return sum(-math.cos((gi - 1) * 2 * PI * v) - alpha * math.cos((gi - 1) * 2 * PI * li * v) for v, gi, li in zip(x, g, l)) / (2 * len(x))


DEFAULT_C = tuple(range(1, 26))
ODD_C = tuple((3 * j) % 7 + 0.5 for j in range(25))
LA = ((3, 5), (5, 2), (2, 1), (1, 4), (7, 9))
GRID = (-2.5, -1.0, -0.25, 0.0, 0.3, 1.0, 2.0)
SMALL = (-1.5, -0.25, 0.0, 1.0)

# name -> (dimension or None, grid, settings: list of (kwargs, oracle)), default direction, lists accepted
BENCH = {
    "Spheroid": (None, GRID, [({}, sphere)], False, True),
    "Rastrigin": (None, GRID, [({}, lambda x: rastrigin(x, 1.0)), ({"a": 10.0}, lambda x: rastrigin(x, 10.0)), ({"a": 0.0}, sphere)], False, True),
    "Rosenbrock": (None, GRID, [({}, rosenbrock)], False, True),
    "Step": (None, GRID + (-0.75, 2.999), [({}, step)], True, True),
    "Shekel": (2, (-65.0, -32, -16.5, 0, 32, 5.0), [({}, lambda x: shekel(x, 500, DEFAULT_C)), ({"k": 3}, lambda x: shekel(x, 3, DEFAULT_C)),
                                                             ({"c": ODD_C}, lambda x: shekel(x, 500, ODD_C)),
                                                             ({"k": 0.5, "c": ODD_C}, lambda x: shekel(x, 0.5, ODD_C))], False, True),
    "Griewank": (None, (-600.0, -50.0, -3.0, 0.0, 1.0, 4.5, 600), [({}, griewank)], False, False),
    "Ackley": (None, GRID, [({}, lambda x: ackley(x, 20, 0.2, 2 * PI)), ({"a": 5}, lambda x: ackley(x, 5, 0.2, 2 * PI)),
                            ({"b": 1.5}, lambda x: ackley(x, 20, 1.5, 2 * PI)), ({"c": 1.0}, lambda x: ackley(x, 20, 0.2, 1.0))], False, False),
    "Weierstrass": (None, (-0.5, -0.31, 0.0, 0.2, 0.5), [({}, lambda x: weierstrass(x, 20, 0.5, 3)), ({"kmax": 3}, lambda x: weierstrass(x, 3, 0.5, 3)),
                                                      ({"kmax": 1}, lambda x: weierstrass(x, 1, 0.5, 3)),
                                                      ({"a": 0.9, "kmax": 6}, lambda x: weierstrass(x, 6, 0.9, 3)),
                                                      ({"b": 2, "kmax": 6}, lambda x: weierstrass(x, 6, 0.5, 2))], False, False),
    "Langermann": (2, (0.0, 1.0, 2.3, 5, 7.5, 9, 10), [({}, lambda x: langermann(x, (1, 2, 5, 2, 3), LA)),
                                                    ({"m": 2, "c": (3, -1), "a": ((0, 1), (4, 2))}, lambda x: langermann(x, (3, -1), ((0, 1), (4, 2)))),
                                                    ({"c": (5, 4, 3, 2, 1)}, lambda x: langermann(x, (5, 4, 3, 2, 1), LA))], False, False),
    "Langermann3": (3, (0.0, 1.0, 2.3, 5), [({"m": 2, "c": (3, -1), "a": ((0, 1, 2), (4, 2, 1))},
                                            lambda x: langermann(x, (3, -1), ((0, 1, 2), (4, 2, 1))))], False, False),
    "Lunacek": ("N", (-5, -2.2, -1.0, 0.0, 0.4, 2.5, 5), [({}, lambda x: lunacek(x, len(x), 1.0, 2.5, None, None)),
                                                        ({"d": 3.0}, lambda x: lunacek(x, len(x), 3.0, 2.5, None, None)),
                                                        ({"mu_1": 1.5}, lambda x: lunacek(x, len(x), 1.0, 1.5, None, None)),
                                                        ({"mu_2": -1.0}, lambda x: lunacek(x, len(x), 1.0, 2.5, -1.0, None)),
                                                        ({"mu_2": 0.0}, lambda x: lunacek(x, len(x), 1.0, 2.5, 0.0, None)),
                                                        ({"s": 0.5}, lambda x: lunacek(x, len(x), 1.0, 2.5, None, 0.5)),
                                                        ({"s": 2.0, "mu_2": 1.0, "d": 0.0}, lambda x: lunacek(x, len(x), 0.0, 2.5, 1.0, 2.0))], False, False),
    "Schwefel": (None, (-512, -420.9687, -3.0, 0.0, 2.5, 420.9687, 512), [({}, lambda x: schwefel(x, 418.982887)), ({"alpha": 0}, lambda x: schwefel(x, 0)),
                                                                       ({"alpha": -2.5}, lambda x: schwefel(x, -2.5))], False, False),
    "Gaussian": (None, (-3.0, -1.0, -0.5, 0.0, 0.7, 2.0), [({}, lambda x: gaussian(x, 1, 1)), ({"width": 2}, lambda x: gaussian(x, 2, 1)),
                                                         ({"height": 5}, lambda x: gaussian(x, 1, 5)),
                                                         ({"width": 0.5, "height": -2.0}, lambda x: gaussian(x, 0.5, -2.0))], True, False),
    "CosineFamily": ("G", (0.0, 0.1, 0.25, 0.5, 0.9, 1.0), None, False, False),
}


def as_input(ctx, pt, lists, ints=True):
    kinds = ["float"] + (["list", "tuple"] if lists else [])
    if ints and all(float(v).is_integer() for v in pt):
        kinds.append("int")
    kind = ctx.pick(kinds)
    if kind == "list":
        return list(pt)
    if kind == "tuple":
        return tuple(pt)
    return np.array([int(v) for v in pt]) if kind == "int" else np.array(pt, dtype=float)


def bench(ctx, p):
    name = p["name"]
    dim, grid, settings, default, lists = BENCH[name]
    n = p["n"]
    if name == "CosineFamily":
        g = [ctx.pick((1, 2, 3)) for _ in range(n)]
        l = [ctx.pick((1, 2, 4)) for _ in range(n)]
        alpha = ctx.pick((0.0, 1.0, 2.5))
        kwargs, oracle = {"alpha": alpha, "global_optima_counts": g, "local_optima_counts": l}, lambda x: cosine(x, alpha, g, l)
    else:
        kwargs, oracle = ctx.pick(settings)
    direction = ctx.pick((None, True, False))
    kw = dict(kwargs)
    if direction is not None:
        kw["maximize"] = direction
    cls = getattr(rp, name.rstrip("3") + "Problem")
    problem = cls(n, **kw) if dim == "N" else cls(**kw)
    pts = [tuple(ctx.pick(grid) for _ in range(n))]
    if n == 2 and p.get("twice"):
        pts.append((pts[0][1], pts[0][0]))
        pts.append(pts[0])
    want_dir = default if direction is None else direction
    require(problem.worse_than(1.0, 2.0) == want_dir and problem.worse_than(2.0, 1.0) == (not want_dir), "%s maximizes: %s expected", name, want_dir)
    for pt in pts:
        x = as_input(ctx, pt, lists)
        before = repr(x)
        v = problem.evaluate(x)
        require(repr(x) == before, "evaluate changed its input %s to %r", before, x)
        want = oracle(pt)
        require(np.ndim(v) == 0 and close(v, want), "%s(%r) at %s is %r, the documented formula gives %r", name, kwargs, before, v, want)
    b = getattr(problem, "bounds", None)
    require(len(b) == 2 and b[0] < b[1], "bounds %r", b)
    return (name, want_dir, pts[0])


def refuse(ctx, p):
    """Points of the wrong dimension are refused or, where documented, warned about."""
    kind = ctx.pick(("shekel1", "shekel3", "lang1", "lang3", "translate", "matrix", "ones", "leading", "zdt5", "image", "lunacek", "langm"))
    x = lambda k: np.array([1.0] * k)
    k = ctx.pick((1, 3))
    calls = {
        "shekel1": lambda: rp.ShekelProblem().evaluate(x(1)), "shekel3": lambda: rp.ShekelProblem().evaluate(x(3)),
        "lang1": lambda: rp.LangermannProblem().evaluate(x(1)), "lang3": lambda: rp.LangermannProblem().evaluate(x(3)),
        "translate": lambda: rp.TranslatedProblem(rp.SpheroidProblem(), [1.0, 2.0]).evaluate(x(k)),
        "matrix": lambda: rp.MatrixTransformedProblem(rp.SpheroidProblem(), np.identity(2)).evaluate(x(k)),
        "ones": lambda: bp.MaxOnes(np.array([1, 0])).evaluate(x(k)), "leading": lambda: bp.LeadingOnes(np.array([1, 0])).evaluate(x(k)),
        "zdt5": lambda: mp.ZDT5Problem(2).evaluate(np.zeros(35 + k, dtype=int)),
        "langm": lambda: rp.LangermannProblem(m=4)}
    if kind == "lunacek":
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            v = rp.LunacekProblem(2).evaluate(x(k))
        require(w and close(v, lunacek([1.0] * k, 2, 1.0, 2.5, None, None)), "a point of the wrong dimension got %r, no warning", v)
        return kind
    if kind == "image":
        d = tempfile.mkdtemp(prefix="c26_")
        try:
            Image.new("L", (2, 2)).save(os.path.join(d, "i.png"))
            prob = bp.ImageProblem(os.path.join(d, "i.png"), size=(2, 2))
        finally:
            shutil.rmtree(d)
        calls["image"] = lambda: prob.evaluate(np.zeros(4 + k - 2, dtype=int))
    try:
        v = calls[kind]()
    except (AssertionError, ValueError):
        return (kind, "refused")
    require(False, "%s with %d values instead of 2 was accepted: %r", kind, k, v)


def noisy(ctx, p):
    n = p["n"]
    pt = tuple(ctx.pick((-1.28, -0.5, 0.0, 1.0)) for _ in range(n))
    prob = rp.NoisyQuarticProblem()
    v = prob.evaluate(ctx.pick((list(pt), np.array(pt))))
    v2 = prob.evaluate(np.array(pt))
    require(not prob.maximize, "minimized by default")
    return pt, (round(float(v) - quartic(pt), 6), round(float(v2) - quartic(pt), 6))


def noisy_post(p, group, dist):
    m = sum(pr * o[0] for o, pr in dist.items())
    m2 = sum(pr * o[1] for o, pr in dist.items())
    require(abs(m) < 1e-6 and abs(m2) < 1e-6, "the noise at %r has mean %r", group, float(m))
    cov = sum(pr * o[0] * o[1] for o, pr in dist.items())
    require(abs(cov) < 1e-6, "the noise of two evaluations is not independent at %r", group)
    require(len({o[0] for o in dist}) > 1, "there is no noise at %r", group)


# ---- wrappers
def rot(theta):
    return [[math.cos(theta), -math.sin(theta)], [math.sin(theta), math.cos(theta)]]


SHEAR = [[1.0, 2.0], [0.0, -1.0]]
BASES = {"rosenbrock": (lambda: rp.RosenbrockProblem(), rosenbrock, (-2.048, 2.048), False),
         "rastrigin": (lambda: rp.RastriginProblem(a=3.0), lambda x: rastrigin(x, 3.0), (-5.12, 5.12), False),
         "step": (lambda: rp.StepProblem(), step, (-5.12, 5.12), True),
         "lunacek": (lambda: rp.LunacekProblem(2), lambda x: lunacek(x, 2, 1.0, 2.5, None, None), (-5, 5), False),
         "plain": (lambda: FunctionProblem(lambda x: float(x[0] * 3 - x[1] ** 2), maximize=True), lambda x: x[0] * 3 - x[1] ** 2, None, True)}
WRAPS = ("translate", "matrix", "shear", "scale", "scale2", "offset")


def wrap(kind, problem, f, bounds, own):
    """Returns (wrapped problem, its oracle, its bounds); own overrides the direction."""
    kw = {} if own is None else {"maximize": own}
    if kind == "translate":
        o = [1.0, -0.5]
        return rp.TranslatedProblem(problem, o, **kw), (lambda x: f([x[0] - 1.0, x[1] + 0.5])), bounds
    if kind == "matrix":
        m = rot(0.7)
        return rp.MatrixTransformedProblem(problem, m, **kw), (lambda x: f([m[0][0] * x[0] + m[0][1] * x[1], m[1][0] * x[0] + m[1][1] * x[1]])), bounds
    if kind == "shear":
        m = SHEAR
        return rp.MatrixTransformedProblem(problem, np.array(m), **kw), (lambda x: f([x[0] + 2 * x[1], -x[1]])), bounds
    if kind == "offset":
        return FitnessOffsetProblem(problem, -3.5, **kw), (lambda x: f(x) - 3.5), bounds
    nb = (0, 1) if kind == "scale" else (-10.0, 4)
    old = bounds
    return (rp.ScaledProblem(problem, nb, **kw),
            (lambda x: f([old[0] + (v - nb[0]) / (nb[1] - nb[0]) * (old[1] - old[0]) for v in x])), nb)


def nest(ctx, p):
    make, f, bounds, maximize = BASES[p["base"]]
    problem = make()
    direction = maximize
    layers = []
    orders = []
    for d in range(p["depth"]):
        kind = ctx.pick([w for w in WRAPS if bounds is not None or not w.startswith("scale")])
        own = ctx.pick((None, True, False)) if p.get("own") else None
        layers.append((problem, f, bounds))
        problem, f, bounds = wrap(kind, problem, f, bounds, own)
        direction = direction if own is None else own
        orders.append(kind)
        require(bool(problem.maximize) == direction, "%r: the direction is %r, expected %r", orders, problem.maximize, direction)
        require(problem.worse_than(1.0, 2.0) == direction, "%r: comparison in the wrong direction", orders)
        require((tuple(problem.bounds) == tuple(bounds)) if bounds is not None else not hasattr(problem, "bounds"),
                "%r: bounds %r, expected %r", orders, getattr(problem, "bounds", None), bounds)
    layers.append((problem, f, bounds))
    pts = [(a, b) for a in p["axis"] for b in p["axis"]]
    for pt in pts:
        x = np.array(pt)
        v = problem.evaluate(x)
        require(tuple(x) == pt, "the input was changed to %r", x)
        want = f(list(pt))
        if p["base"] == "step" and any(k in ("matrix", "scale", "scale2") for k in orders):
            # the floor jumps: accept either side when the transformed point is within rounding of an integer
            if not close(v, want):
                near = [f([pt[0] + e1, pt[1] + e2]) for e1 in (-1e-9, 0, 1e-9) for e2 in (-1e-9, 0, 1e-9)]
                require(any(close(v, w) for w in near), "%r at %r is %r, expected %r", orders, pt, v, want)
            continue
        require(close(v, want), "%r over %s at %r is %r, the original at the transformed point is %r", orders, p["base"], pt, v, want)
    for pt in ((0.1, 1e-17), (1e-17, 0.3)):         # digits that do not survive subtracting and adding back
        x = np.array(pt)
        problem.evaluate(x)
        require(x.tolist() == list(pt), "the input %r was changed to %r", pt, x.tolist())
    # the wrapped functions still compute what they did
    for q, g, b in layers[:-1]:
        for pt in ((0.5, -1.0), (1.25, 2.0)):
            w = g(list(pt))
            if p["base"] != "step":
                require(close(q.evaluate(np.array(pt)), w), "wrapping changed the wrapped function at %r", pt)
        require(b is None or tuple(q.bounds) == tuple(b), "wrapping changed the bounds of the wrapped function to %r", getattr(q, "bounds", None))
    return tuple(orders), direction


def offsets(ctx, p):
    """Wrappers keep their own copy of the offset and matrix; dims 1-4; integer and float points."""
    n = p["n"]
    vals = (-2.0, 0.5, 3)
    off = [ctx.pick(vals) for _ in range(n)]
    arr = ctx.pick(("list", "array", "int"))
    given = off if arr == "list" else np.array(off if arr == "array" else [int(v) for v in off])
    off = [int(v) for v in off] if arr == "int" else list(off)
    prob = rp.TranslatedProblem(rp.SpheroidProblem(), given)
    mat = [[(i + 2 * j) % 3 - 1.0 for j in range(n)] for i in range(n)]
    mprob = rp.MatrixTransformedProblem(rp.SpheroidProblem(), [list(r) for r in mat])
    if ctx.pick((0, 1)):
        given[0] = 99            # the caller goes on using the list
    pt = [ctx.pick((-1, 0, 2)) for _ in range(n)]
    x = np.array(pt, dtype=ctx.pick((float, int)))
    require(close(prob.evaluate(x), sum((a - b) ** 2 for a, b in zip(pt, off))), "translated by %r at %r: %r", off, pt, prob.evaluate(x))
    require(list(x) == pt, "input changed")
    want = sum(sum(mat[i][j] * pt[j] for j in range(n)) ** 2 for i in range(n))
    require(close(mprob.evaluate(x), want), "matrix transform at %r: %r, expected %r", pt, mprob.evaluate(x), want)
    return tuple(pt), tuple(off)


ZS = (-1.5, -0.2, 0.4, 1.0)
ZG = (-1.5, 0.4, 1.0)


def degenerate(ctx, count, n, zs):
    """Is the first matrix of coarse normals drawn so far (nearly) singular - which has probability zero for real draws?"""
    idx = [i for m, i, kind in ctx.run.trace if kind == "r"]
    if len(idx) < n * n:
        return False
    m = np.array([zs[i] for i in idx[:n * n]]).reshape(n, n)
    return abs(np.linalg.det(m)) < 1e-6


def ortho(ctx, p):
    """Random rotations are orthonormal for every draw of the (coarse) normals, and applied as matrix @ x."""
    n = p["n"]
    how = ctx.pick(("matrix", "problem"))
    maximize = ctx.pick((None, True, False)) if how == "problem" else None
    try:
        with np.errstate(all="ignore"):
            if how == "matrix":
                m = np.array(rp.random_orthonormal_matrix(n))
            else:
                prob = rp.MatrixTransformedProblem.random_orthonormal(rp.SpheroidProblem(), n, maximize=maximize)
                m = np.array(prob.matrix)
    except AssertionError:
        if degenerate(ctx, 1, n, p["z"]):
            return "singular"
        raise
    if degenerate(ctx, 1, n, p["z"]):
        return "singular"
    require(m.shape == (n, n), "shape %r", m.shape)
    require(np.allclose(m @ m.T, np.identity(n), atol=1e-9) and np.allclose(m.T @ m, np.identity(n), atol=1e-9), "not orthonormal: %r", m.tolist())
    if how == "problem":
        require(bool(prob.maximize) == bool(maximize), "direction %r", prob.maximize)
        require(tuple(prob.bounds) == (-5.12, 5.12), "bounds %r", prob.bounds)
        for pt in itertools.product((-1.0, 2.0), repeat=n):
            require(close(prob.evaluate(np.array(pt)), sphere(pt)), "a rotated sphere is a sphere; at %r it is %r", pt, prob.evaluate(np.array(pt)))
        tag = rp.MatrixTransformedProblem(FunctionProblem(lambda x: tuple(x), True), m)
        pt = np.arange(1.0, n + 1)
        require(np.allclose(tag.evaluate(pt), m @ pt), "matrix not applied")
    return tuple(np.sign(np.round(m, 6)).flatten())


def translate_random(ctx, p):
    n = p["n"]
    lo, hi = ctx.pick(((-1.0, 1.0), (2.0, 6.0), (0.0, 8.0)))
    maximize = ctx.pick((None, True, False))
    prob = rp.TranslatedProblem.random(rp.RastriginProblem(), (lo, hi), n, maximize=maximize)
    require(bool(prob.maximize) == bool(maximize), "direction")
    off = tuple(float(v) for v in prob.offset)
    require(len(off) == n and all(lo <= v <= hi for v in off), "offset %r outside [%r, %r]", off, lo, hi)
    require(close(prob.evaluate(np.array(off)), 0.0), "the optimum did not move to the offset")
    pt = np.array([0.25] * n)
    require(close(prob.evaluate(pt), rastrigin([a - b for a, b in zip(pt, off)], 1.0)), "value at %r", pt)
    return (lo, hi, maximize), tuple(round((v - lo) / (hi - lo), 6) for v in off)


def translate_post(p, group, dist):
    n, bins = p["n"], p["bins"]
    require(len(dist) == bins ** n and len(set(dist.values())) == 1, "offsets are not uniform and independent: %r", dict(dist))


def parabaloid(ctx, p):
    d = [ctx.pick((1.0, 4.0, -3.0)) for _ in range(2)]
    th = ctx.pick((0.0, 0.6, math.pi / 2))
    D, R = np.diag(d), np.array(rot(th))
    D0, R0 = D.copy(), R.copy()
    prob = rp.ParabaloidProblem(D, R)
    for pt in itertools.product((-2.0, 0.0, 1.5), repeat=2):
        y = [R0[0][0] * pt[0] + R0[0][1] * pt[1], R0[1][0] * pt[0] + R0[1][1] * pt[1]]
        want = d[0] * y[0] ** 2 + d[1] * y[1] ** 2
        require(close(prob.evaluate(np.array(pt)), want), "parabaloid %r rotated %r at %r: %r, expected %r", d, th, pt, prob.evaluate(np.array(pt)), want)
    require((D == D0).all() and (R == R0).all(), "arguments changed")
    return (tuple(d), th)


def quadratic(ctx, p):
    q = p["q"]
    ds = [[ctx.pick((1.0, 4.0)), 2.0] for _ in range(q)]
    ths = [ctx.pick((0.0, 0.9)) for _ in range(q)]
    offs = [ctx.pick(((0.0, 0.0), (2.0, -1.0))) for _ in range(q)]
    vs = [ctx.pick((0.0, 5.0, -1.0)) for _ in range(q)]
    prob = rp.QuadraticFamilyProblem([np.diag(d) for d in ds], [np.array(rot(t)) for t in ths], [np.array(o) for o in offs], list(vs))
    require(prob.num_basins == q and prob.dimensions == 2 and not prob.maximize, "shape")
    for pt in itertools.product((-2.0, 0.5, 2.0), repeat=2):
        best = None
        for d, t, o, v in zip(ds, ths, offs, vs):
            z = [pt[0] - o[0], pt[1] - o[1]]
            R = rot(t)
            y = [R[0][0] * z[0] + R[0][1] * z[1], R[1][0] * z[0] + R[1][1] * z[1]]
            w = d[0] * y[0] ** 2 + d[1] * y[1] ** 2 + v
            best = w if best is None else min(best, w)
        require(close(prob.evaluate(np.array(pt)), best), "at %r: %r, expected %r", pt, prob.evaluate(np.array(pt)), best)
    return "ok"


def generate(ctx, p):
    n, q = p["n"], p["q"]
    opt = ctx.pick(range(q + 1))
    try:
        with np.errstate(all="ignore"):
            prob = rp.QuadraticFamilyProblem.generate(n, q, num_global_optima=opt, width_bounds=(2, 3), offset_bounds=(-4, 4),
                                                      fitness_offset_bounds=(10, 20))
    except AssertionError:
        if n > 1:
            return "singular"          # parallel coarse draws for the rotation
        raise
    require(prob.num_basins == q and prob.dimensions == n, "%d basins of %d dimensions", prob.num_basins, prob.dimensions)
    vals = [float(v) for v in prob.fitness_offsets]
    require(vals.count(0.0) == opt and all(10 <= v <= 20 for v in vals if v), "basin values %r for %d global optima", vals, opt)
    for D, R, o, v in zip(prob.diagonal_matrices, prob.rotation_matrices, prob.offset_vectors, vals):
        require(np.shape(o) == (n,) and all(-4 <= c <= 4 for c in o), "offset %r", o)
        e = np.diagonal(D)
        require(all(2 <= c <= 3 for c in e), "widths %r", e)
        require(np.allclose(R @ R.T, np.identity(n)), "rotation not orthonormal")
        require(prob.evaluate(np.array(o)) <= v + 1e-9, "the basin at %r has value %r above its floor %r", o, prob.evaluate(np.array(o)), v)
    if opt:
        require(close(prob.evaluate(np.array(prob.global_optimum)), 0.0), "the recorded optimum has value %r", prob.evaluate(np.array(prob.global_optimum)))
    for pt in itertools.product((-3.0, 1.0), repeat=n):
        want = min(float((np.array(pt) - o) @ R.T @ D @ R @ (np.array(pt) - o)) + v
                   for D, R, o, v in zip(prob.diagonal_matrices, prob.rotation_matrices, prob.offset_vectors, vals))
        require(close(prob.evaluate(np.array(pt)), want), "at %r: %r, expected %r", pt, prob.evaluate(np.array(pt)), want)
    return "ok"


# ---- binary problems
def binary(ctx, p):
    n = p["n"]
    bits = [ctx.pick((0, 1)) for _ in range(n)]
    x = np.array(bits, dtype=ctx.pick((int, np.uint8, float)) if n <= 5 else int)
    keep = x.copy()
    target = [ctx.pick((0, 1)) for _ in range(n)] if p["target"] else None
    mx = ctx.pick((None, False))
    kw = {} if mx is None else {"maximize": mx}
    tk = {"target_string": np.array(target)} if target else {}
    ref = target or [1] * n
    lead = 0
    while lead < n and bits[lead] == ref[lead]:
        lead += 1
    ones = sum(bits)
    cases = [(bp.MaxOnes(**tk, **kw), sum(a == b for a, b in zip(bits, ref))), (bp.LeadingOnes(**tk, **kw), lead)]
    if not target:
        cases += [(bp.DeceptiveTrap(**kw), n if ones == n else n - 1 - ones), (bp.TwoMax(**kw), max(ones, n - ones))]
    for prob, want in cases:
        for _ in range(2):
            v = prob.evaluate(x)
            require(v == want and np.ndim(v) == 0, "%s(%r) of %r is %r, expected %r", type(prob).__name__, target, bits, v, want)
        require((x == keep).all(), "%s changed its input", type(prob).__name__)
        require(prob.worse_than(1, 2) == (mx is None), "direction of %s", type(prob).__name__)
    return tuple(bits), tuple(target or ())


def image(ctx, p):
    w, h = p["size"]
    px = [ctx.pick((0, 255)) for _ in range(w * h)]
    bits = [ctx.pick((0, 1)) for _ in range(w * h)] if w * h <= 4 else [(i * 7 + 1) % 3 % 2 for i in range(w * h)]
    d = tempfile.mkdtemp(prefix="c26_")
    try:
        path = os.path.join(d, "i.png")
        im = Image.new("L", (w, h))
        im.putdata(px)
        im.save(path)
        prob = bp.ImageProblem(path, size=(w, h))
    finally:
        shutil.rmtree(d)
    x = np.array(bits)
    want = sum((v == 255) == bool(b) for v, b in zip(px, bits))
    v = prob.evaluate(x)
    require(v == want and list(x) == bits, "image %r against %r: %r matches, expected %r", px, bits, v, want)
    require(prob.maximize, "maximized by default")
    return tuple(px)


# ---- multi-objective
def zdt_oracle(k, x, n):
    f1 = x[0]
    s = sum(x[1:])
    if k in (1, 2, 3):
        g = 1 + 9 * s / (n - 1)
    elif k == 4:
        g = 1 + 10 * (n - 1) + sum(v * v - 10 * math.cos(4 * PI * v) for v in x[1:])
    else:
        f1 = 1 - math.exp(-4 * x[0]) * math.sin(6 * PI * x[0]) ** 6
        g = 1 + 9 * (s / (n - 1)) ** 0.25
    h = {1: lambda: 1 - math.sqrt(f1 / g), 2: lambda: 1 - (f1 / g) ** 2, 3: lambda: 1 - math.sqrt(f1 / g) - f1 / g * math.sin(10 * PI * f1),
         4: lambda: 1 - math.sqrt(f1 / g), 6: lambda: 1 - (f1 / g) ** 2}[k]()
    return f1, g * h


def zdt(ctx, p):
    k, n = p["k"], p["n"]
    first = (0.0, 0.1, 0.37, 0.5, 0.81, 1.0)
    rest = first if k != 4 else (-5.0, -1.3, 0.0, 0.25, 3.0, 5.0)
    x = [ctx.pick(first)] + [ctx.pick(rest) for _ in range(n - 1)]
    prob = getattr(mp, "ZDT%dProblem" % k)(n)
    a = np.array(x)
    v = prob.evaluate(a)
    want = zdt_oracle(k, x, n)
    require(len(v) == 2 and close(v[0], want[0]) and close(v[1], want[1]), "ZDT%d of %r is %r, expected %r", k, x, list(v), want)
    require(list(a) == x, "input changed")
    require(list(prob.maximize) == [-1, -1], "both objectives are minimized")
    b = prob.bounds
    require(len(b) == n and tuple(b[0]) == (0, 1) and all(tuple(c) == ((0, 1) if k != 4 else (-5, 5)) for c in b[1:]), "bounds %r", b)
    return tuple(x)


def zdt_check(ctx, p):
    """Points outside are refused when checking is on, evaluated when it is off."""
    k = ctx.pick((1, 2, 3, 4, 6))
    n = ctx.pick((2, 3))
    pos = ctx.pick_int(n)
    hi = ctx.pick((True, False))
    on = ctx.pick((True, False, None))
    lo_b, hi_b = (0, 1) if k != 4 or pos == 0 else (-5, 5)
    x = np.array([0.5] * n)
    x[pos] = hi_b + 0.01 if hi else lo_b - 0.01
    prob = getattr(mp, "ZDT%dProblem" % k)(n) if on is None else getattr(mp, "ZDT%dProblem" % k)(n, check_phenome=on)
    if on is False:
        if x[0] >= 0 and not (k == 6 and sum(x[1:]) < 0):
            v, want = prob.evaluate(x), zdt_oracle(k, list(x), n)
            require(close(v[0], want[0]) and close(v[1], want[1]), "ZDT%d of %r is %r, expected %r", k, list(x), list(v), want)
        return "unchecked"
    try:
        v = prob.evaluate(x)
    except (AssertionError, ValueError):
        return "refused"
    require(False, "ZDT%d accepted %r", k, list(x))


def zdt5(ctx, p):
    n = p["n"]
    ones = ctx.pick((0, 1, 7, 29, 30))
    side = ctx.pick((0, 1))
    head = [1] * ones + [0] * (30 - ones)
    if side:
        head = head[::-1]
    tail = [[ctx.pick((0, 1)) for _ in range(5)] for _ in range(n - 1)]
    x = head + [b for t in tail for b in t]
    prob = mp.ZDT5Problem(n)
    require(prob.phenome_length == 30 + 5 * (n - 1) == len(x) == len(prob.bounds), "length %r", prob.phenome_length)
    v = prob.evaluate(np.array(x))
    g = sum((2 + sum(t)) if sum(t) < 5 else 1 for t in tail)
    require(v[0] == 1 + ones and close(v[1], g / (1 + ones)), "ZDT5 of %r is %r, expected %r", x, list(v), (1 + ones, g / (1 + ones)))
    y = np.array(x)
    y[ctx.pick((0, len(x) - 1))] = ctx.pick((2, -1))
    try:
        prob.evaluate(y)
    except (AssertionError, ValueError):
        return tuple(x)
    require(False, "a phenome that is not a bit string was accepted")


def sch(ctx, p):
    x = ctx.pick((-1000.0, -2.5, -1.0, 0.0, 0.5, 1.0, 2.0, 3.0, 1000.0))
    v = mp.SCHProblem().evaluate(ctx.pick((x, np.float64(x), np.array(x))))
    require(len(v) == 2 and close(v[0], x * x) and close(v[1], (x - 2) ** 2), "SCH at %r: %r", x, list(v))
    return x


# ---- many dimensions
def shape(kind, n, grid):
    """A point of n coordinates within the hull of the grid."""
    lo, hi = float(min(grid)), float(max(grid))
    mid = float(sorted(grid)[len(grid) // 2])
    if kind == "ramp":
        return [lo + (hi - lo) * (i + 0.5) / n for i in range(n)]
    if kind == "mixed":
        return [float(grid[(i * i + 3 * i) % len(grid)]) * (1 if i % 4 else 0.999) for i in range(n)]
    if kind == "tail":
        return [mid] * (n - 1) + [lo + 0.371 * (hi - lo)]
    if kind == "head":
        return [lo + 0.629 * (hi - lo)] + [mid] * (n - 1)
    return [lo + (hi - lo) * (0.5 + 0.45 * math.sin(7.0 * i + 1)) for i in range(n)]


KINDS = ("ramp", "mixed", "tail", "head", "wave")


def wide(ctx, p):
    """Every benchmark in many dimensions, several nearby points on one instance."""
    name, n = p["name"], p["n"]
    dim, grid, settings, default, lists = BENCH[name]
    if name == "CosineFamily":
        g, l, alpha = [i % 5 + 1 for i in range(n)], [i * 3 % 7 + 1 for i in range(n)], ctx.pick((0.0, 2.5))
        kwargs, oracle = {"alpha": alpha, "global_optima_counts": g, "local_optima_counts": l}, lambda x: cosine(x, alpha, g, l)
    elif name == "Langermann":
        m = n // 3 + 6
        c = [(i * 5) % 7 - 2.5 for i in range(m)]
        a = [[(i * 3 + j) % 4 * 0.25 for j in range(n)] for i in range(m)]
        grid = (0.0, 0.1, 0.4, 0.7)
        kwargs, oracle = {"m": m, "c": c, "a": a}, lambda x: langermann(x, c, a)
    else:
        kwargs, oracle = ctx.pick(settings)
    cls = getattr(rp, name + "Problem")
    problem = cls(n, **kwargs) if dim == "N" else cls(**kwargs)
    base = shape(ctx.pick(KINDS), n, grid)
    pts = [base]
    for at in (0, n // 2, n - 1):
        for by in (1e-3, 1e-6):
            q = list(base)
            q[at] += by * (grid[-1] - grid[0])
            pts.append(q)
    pts += [base[::-1], base]
    kind = ctx.pick(("array", "list") if lists else ("array",))
    for pt in pts:
        x = np.array(pt) if kind == "array" else list(pt)
        v, want = problem.evaluate(x), oracle(pt)
        require(list(x) == pt, "evaluate changed its input")
        require(np.ndim(v) == 0 and abs(float(v) - want) <= 1e-10 * max(1.0, abs(want), scale_of(name, pt)),
                "%s(%r) of %d dimensions at %r is %r, the documented formula gives %r", name, kwargs, n, pt, v, want)
    return tuple(base[:3])


def scale_of(name, pt):
    """The size of the terms that are summed up."""
    return sum(abs(v) for v in pt) if name in ("Schwefel", "Step") else len(pt)


def cat(x):
    """A function with a different weight for every coordinate and neighbouring pair."""
    return sum((i % 7 + 1) * v for i, v in enumerate(x)) + sum(a * b for a, b in zip(x, x[1:]))


def wide_nest(ctx, p):
    """Wrappers over many coordinates, and many wrappers over one another."""
    n = p["n"]
    f, problem, bounds = cat, FunctionProblem(lambda x: cat([float(v) for v in x]), maximize=ctx.pick((True, False))), (-4.0, 12.0)
    problem.bounds = bounds
    first = ctx.pick_int(4)
    off = [(i * 5 % 11) / 8 - 0.5 for i in range(n)]
    mat = np.zeros((n, n))
    for i in range(n):
        mat[i][(i * 3 + 1) % n] += 0.75
        mat[i][i] -= 0.5
        mat[i][n - 1] += 0.125
    rows = mat.tolist()
    for k in range(p["depth"]):
        kind = (first + k) % 4
        g = f
        if kind == 0:
            problem, f = rp.TranslatedProblem(problem, list(off)), (lambda x, g=g: g([a - b for a, b in zip(x, off)]))
        elif kind == 1:
            problem = rp.MatrixTransformedProblem(problem, rows if k % 2 else mat)
            f = lambda x, g=g: g([sum(r[j] * x[j] for j in range(n) if r[j]) for r in rows])
        elif kind == 2:
            nb = (-1.0 - k, 3.0 + k)
            problem, old = rp.ScaledProblem(problem, nb), bounds
            f = lambda x, g=g, old=old, nb=nb: g([old[0] + (v - nb[0]) / (nb[1] - nb[0]) * (old[1] - old[0]) for v in x])
            bounds = nb
        else:
            problem, f = FitnessOffsetProblem(problem, 0.25 + k), (lambda x, g=g, k=k: g(x) + 0.25 + k)
    pts = [shape(kind, n, (-0.5, 0.125, 0.75, 1.0)) for kind in KINDS]
    for at in (0, n // 2, n - 1):
        pts.append(list(pts[-1]))
        pts[-1][at] += 3e-6                       # the next point is close to the last
    for pt in pts:
        x = np.array(pt)
        v, want = problem.evaluate(x), f(pt)
        require(x.tolist() == pt, "the input was changed")
        require(abs(v - want) <= 1e-10 * max(1.0, abs(want)), "%d wrappers of %d dimensions at %r: %r, expected %r", p["depth"], n, pt, v, want)
    require(tuple(problem.bounds) == tuple(bounds), "bounds %r, expected %r", problem.bounds, bounds)
    return first


def spread(k):
    """Classes of normal draws that differ from draw to draw (so that the default matrix is regular)."""
    return (1.5 * math.sin(12.9898 * (k + 1)) + 0.3 * math.cos(3.7 * k * k), -0.4 + 0.9 * math.cos(78.233 * (k + 1)))


def wide_ortho(ctx, p):
    n = p["n"]
    prob = rp.MatrixTransformedProblem.random_orthonormal(rp.RosenbrockProblem(), n)
    m = np.array(prob.matrix)
    require(m.shape == (n, n) and np.allclose(m @ m.T, np.identity(n), atol=1e-8) and np.allclose(m.T @ m, np.identity(n), atol=1e-8), "not orthonormal in %d dimensions", n)
    for kind in KINDS:
        pt = shape(kind, n, (-1.5, 0.0, 0.5, 2.0))
        y = [sum(float(m[i][j]) * pt[j] for j in range(n)) for i in range(n)]
        v = prob.evaluate(np.array(pt))
        require(abs(v - rosenbrock(y)) <= 1e-9 * max(1.0, abs(v)), "the rotated function at %r is %r, expected %r", pt, v, rosenbrock(y))
    return tuple(np.round(m[0][:3], 6))


def wide_noisy(ctx, p):
    """Without noise (all the draws are zero) the value is the quartic itself."""
    n = p["n"]
    pt = shape(ctx.pick(KINDS), n, (-1.28, -0.5, 0.25, 1.28))
    v = rp.NoisyQuarticProblem().evaluate(ctx.pick((list(pt), np.array(pt))))
    require(abs(v - quartic(pt)) <= 1e-10 * max(1.0, quartic(pt)), "%d dimensions at %r: %r, expected %r", n, pt, v, quartic(pt))
    return tuple(pt[:3])


def wide_quadratic(ctx, p):
    n, q = p["n"], p["q"]
    if p["generated"]:
        opt = ctx.pick((0, 1, q // 2, q))
        prob = rp.QuadraticFamilyProblem.generate(n, q, num_global_optima=opt, width_bounds=(2, 3), offset_bounds=(-4, 4), fitness_offset_bounds=(10, 20))
        vals = [float(v) for v in prob.fitness_offsets]
        require(len(vals) == q and vals.count(0.0) == opt and all(10 <= v <= 20 for v in vals if v), "basin values %r for %d global optima", vals, opt)
        for D, R, o in zip(prob.diagonal_matrices, prob.rotation_matrices, prob.offset_vectors):
            require(np.shape(o) == (n,) and all(-4 <= c <= 4 for c in o) and all(2 <= c <= 3 for c in np.diagonal(D)), "basin %r %r", o, D)
            require(np.allclose(np.array(R) @ np.array(R).T, np.identity(n)), "rotation not orthonormal")
        Ds, Rs, os_ = [[np.array(a) for a in l] for l in (prob.diagonal_matrices, prob.rotation_matrices, prob.offset_vectors)]
        if opt:
            require(close(prob.evaluate(np.array(prob.global_optimum)), 0.0), "the recorded optimum has value %r", prob.evaluate(np.array(prob.global_optimum)))
    else:
        Ds = [np.diag([1.0 + (i + j) % 4 for j in range(n)]) for i in range(q)]
        Rs = [np.eye(n)[[(j + i) % n for j in range(n)]] for i in range(q)]
        os_ = [np.array([round(6 * math.sin(1.7 * i + 2.3 * j + 0.9 * i * j), 3) for j in range(n)]) for i in range(q)]
        vals = [float((i * 3) % 4) / 64 for i in range(q)]
        prob = rp.QuadraticFamilyProblem(Ds, Rs, os_, vals)
    require(prob.num_basins == q and prob.dimensions == n, "%d basins of %d dimensions", prob.num_basins, prob.dimensions)
    pts = [o + 0.1 for o in os_] + [np.array(shape(k, n, (-4.0, 0.0, 1.0, 4.0))) for k in KINDS]
    won = set()
    for pt in pts:
        each = []
        for D, R, o, v in zip(Ds, Rs, os_, vals):
            y = R @ (pt - o)
            each.append(float(sum(D[j][j] * y[j] ** 2 for j in range(n))) + v)
        won.add(each.index(min(each)))
        require(close(prob.evaluate(pt), min(each)), "at %r: %r, expected %r", pt.tolist(), prob.evaluate(pt), min(each))
    if not p["generated"]:
        require(len(won) > q // 2, "harness: too few basins are reached")
    return len(won)


def wide_binary(ctx, p):
    n = p["n"]
    base = ctx.pick(("ones", "zeros", "lead", "alt", "thirds"))
    bits = {"ones": [1] * n, "zeros": [0] * n, "lead": [1] * (n - 1) + [0], "alt": [i % 2 for i in range(n)], "thirds": [int(i % 3 > 0) for i in range(n)]}[base]
    flip = ctx.pick((None, 0, n // 2, n - 1))
    if flip is not None:
        bits[flip] ^= 1
    target = ctx.pick((None, "thirds", "ones"))
    ref = [int(i % 3 > 0) for i in range(n)] if target == "thirds" else [1] * n
    tk = {} if target is None else {"target_string": np.array(ref)}
    x = np.array(bits, dtype=ctx.pick((int, np.uint8, float)))
    lead = 0
    while lead < n and bits[lead] == ref[lead]:
        lead += 1
    ones = sum(bits)
    cases = [(bp.MaxOnes(**tk), sum(a == b for a, b in zip(bits, ref))), (bp.LeadingOnes(**tk), lead)]
    if target is None:
        cases += [(bp.DeceptiveTrap(), n if ones == n else n - 1 - ones), (bp.TwoMax(), max(ones, n - ones))]
    for prob, want in cases:
        v = prob.evaluate(x)
        require(v == want and np.ndim(v) == 0 and x.tolist() == bits, "%s of %d bits (%s, flipped %r) is %r, expected %r", type(prob).__name__, n, base, flip, v, want)
    return base, flip


def wide_image(ctx, p):
    w, h = p["size"]
    px = [255 * ((i * i // 3 + i) % 2) for i in range(w * h)]
    flip = ctx.pick((0, 1, w, w * h - 1))
    base = ctx.pick(("same", "inverse", "ones"))
    bits = [int(v == 255) for v in px] if base == "same" else [int(v == 0) for v in px] if base == "inverse" else [1] * (w * h)
    bits[flip] ^= 1
    d = tempfile.mkdtemp(prefix="c26_")
    try:
        path = os.path.join(d, "i.png")
        im = Image.new("L", (w, h))
        im.putdata(px)
        im.save(path)
        prob = bp.ImageProblem(path, size=(w, h))
    finally:
        shutil.rmtree(d)
    want = sum((v == 255) == bool(b) for v, b in zip(px, bits))
    v = prob.evaluate(np.array(bits))
    require(v == want, "%d x %d image: %r matches, expected %r", w, h, v, want)
    return flip


def wide_zdt(ctx, p):
    k, n = p["k"], p["n"]
    kind = ctx.pick(KINDS)
    first = ctx.pick((0.0, 0.37, 1.0))
    if k == 5:
        ones = ctx.pick((0, 1, 17, 30))
        x = [1] * ones + [0] * (30 - ones)
        tail = [[int(j < (i * 2 + len(kind)) % 6) for j in range(5)] for i in range(n - 1)]
        x += [b for t in tail for b in t]
        g = sum((2 + sum(t)) if sum(t) < 5 else 1 for t in tail)
        want = 1 + ones, g / (1 + ones)
    else:
        x = [first] + shape(kind, n - 1, (0.0, 0.1, 0.5, 1.0) if k != 4 else (-5.0, -1.3, 0.25, 5.0))
        want = zdt_oracle(k, x, n)
    prob = getattr(mp, "ZDT%dProblem" % k)(n)
    v = prob.evaluate(np.array(x))
    require(len(v) == 2 and close(v[0], want[0]) and close(v[1], want[1]), "ZDT%d of %d variables %r is %r, expected %r", k, n, x, list(v), want)
    require(len(prob.bounds) == len(x), "%d bounds", len(prob.bounds))
    for at in (1, n // 2, len(x) - 1):
        y = np.array(x)
        y[at] = 6.5 if k != 5 else 2
        try:
            prob.evaluate(y)
        except (AssertionError, ValueError):
            continue
        require(False, "ZDT%d of %d variables accepted the value %r of variable %d", k, n, y[at], at)
    return kind


def scenarios(tier):
    T = tier == "thorough"
    out = []
    for name, (dim, *_ ) in BENCH.items():
        dims = (1, 2, 3) if dim in (None, "N", "G") else (dim,)
        if name == "CosineFamily":
            dims = (1, 2)
        if name in ("Rosenbrock", "Lunacek"):      # Lunacek's default mu_2 does not exist for N = 1
            dims = (2, 3)
        for n in dims:
            out.append(S("bench-%s-%d" % (name, n), bench, {"name": name, "n": n, "twice": n == 2 and (T or name != "CosineFamily")}))
        if T and dim is None and name != "Weierstrass":
            out.append(S("bench-%s-4" % name, bench, {"name": name, "n": 4}))
    out.append(S("refuse", refuse, {}))
    for n in (1, 2) + ((3,) if T else ()):
        out.append(S("noisy-%d" % n, noisy, {"n": n}, z=(-1.0, 1.0), post=noisy_post))
    axis = (-1.0, 0.25, 2.0)
    for base in BASES:
        out.append(S("nest1-" + base, nest, {"base": base, "depth": 1, "own": True, "axis": (-2.0,) + axis}))
        out.append(S("nest2-" + base, nest, {"base": base, "depth": 2, "own": True, "axis": axis}))
        out.append(S("nest3-" + base, nest, {"base": base, "depth": 3, "own": T, "axis": axis}))
        if T:
            out.append(S("nest4-" + base, nest, {"base": base, "depth": 4, "axis": axis}))
    for n in (1, 2, 3):
        out.append(S("offsets-%d" % n, offsets, {"n": n}))
    out.append(S("ortho-1", ortho, {"n": 1, "z": ZS}, z=ZS))
    out.append(S("ortho-2", ortho, {"n": 2, "z": ZS}, z=ZS))
    out.append(S("ortho-3", ortho, {"n": 3, "z": ZG if T else ZG[1:]}, z=ZG if T else ZG[1:]))
    out.append(S("generate-1", generate, {"n": 1, "q": 2}, z=ZG[:2], unit_bins=2, deviations=5, dev_kinds=("r",)))
    out.append(S("generate-1-3", generate, {"n": 1, "q": 3}, z=ZG[:2], unit_bins=3, deviations=3, dev_kinds=("r",)))
    out.append(S("generate-2", generate, {"n": 2, "q": 1}, z=(0.4, 1.0), unit_bins=2))
    out.append(S("translate-random-1", translate_random, {"n": 1, "bins": 5}, unit_bins=5, post=translate_post))
    out.append(S("translate-random-2", translate_random, {"n": 2, "bins": 4}, unit_bins=4, post=translate_post))
    out.append(S("parabaloid", parabaloid, {}))
    for q in (1, 2) + ((3,) if T else ()):
        out.append(S("quadratic-%d" % q, quadratic, {"q": q}))
    for n in (1, 3, 6):
        out.append(S("binary-%d" % n, binary, {"n": n, "target": True}) if n <= (6 if T else 3) else S("binary-%d" % n, binary, {"n": n, "target": False}))
    for n in (2, 4, 5, 8) + ((10,) if T else ()):
        out.append(S("binary-plain-%d" % n, binary, {"n": n, "target": False}))
    out.append(S("binary-4-target", binary, {"n": 4, "target": True}))
    out.append(S("image-22", image, {"size": (2, 2)}))
    out.append(S("image-32", image, {"size": (3, 2)}))
    out.append(S("image-13", image, {"size": (1, 3)}))
    if T:
        out.append(S("image-33", image, {"size": (3, 3)}))
    for k in (1, 2, 3, 4, 6):
        for n in (2, 3) + ((4,) if T else ()):
            out.append(S("zdt%d-%d" % (k, n), zdt, {"k": k, "n": n}))
    out.append(S("zdt-check", zdt_check, {}))
    out.append(S("zdt5-2", zdt5, {"n": 2}))
    out.append(S("zdt5-3", zdt5, {"n": 3}))
    out.append(S("sch", sch, {}))
    for name in BENCH:
        if name in ("Shekel", "Langermann3"):
            continue
        for n in (7, 31, 130) + ((600,) if T and name != "Weierstrass" else ()):
            out.append(S("wide-%s-%d" % (name, n), wide, {"name": name, "n": n}))
    for n, depth in ((12, 4), (40, 3), (3, 14), (110, 2)):
        out.append(S("wide-nest-%d-%d" % (n, depth), wide_nest, {"n": n, "depth": depth}))
        out.append(S("wide-noisy-%d" % n, wide_noisy, {"n": n}, z=(0.0,)))
    out.append(S("wide-noisy-300", wide_noisy, {"n": 300}, z=(0.0,)))
    for n in (6, 12, 33, 70, 150):
        out.append(S("wide-ortho-%d" % n, wide_ortho, {"n": n}, z=spread, deviations=int(n < (80 if T else 40)), dev_kinds=("r",), limit=100000))
    for n, q in ((4, 40), (9, 12), (2, 70)):
        out.append(S("wide-quadratic-%d-%d" % (n, q), wide_quadratic, {"n": n, "q": q, "generated": False}))
        out.append(S("wide-generate-%d-%d" % (n, q), wide_quadratic, {"n": n, "q": q, "generated": True}, z=spread, unit_bins=5, deviations=1 if T else 0,
                     dev_kinds=("r",), limit=100000))
    for n in (12, 63, 300):
        out.append(S("wide-binary-%d" % n, wide_binary, {"n": n}))
    out.append(S("wide-image", wide_image, {"size": (40, 30)}))
    for k in (1, 2, 3, 4, 5, 6):
        for n in (11, 30, 120):
            out.append(S("wide-zdt%d-%d" % (k, n), wide_zdt, {"k": k, "n": n}))
    return out
