"""
Exhaustive explorer for the real LEAP code.

One *execution* runs a scenario function once against the real implementation.
Every source of nondeterminism - inputs picked by the harness, draws from
`random` / `numpy.random`, completion order of (simulated) dask tasks and
injected evaluation faults - is a *choice point*.  `Explorer` enumerates all
choice sequences depth-first by replaying a prefix and branching at the last
point that still has an untried alternative.  A replay that meets a different
choice point than the recorded one is reported as a divergence.

Draws carry exact probabilities, so the explorer also yields the exact outcome
distribution of an operator (probabilistic model checking by enumeration);
harness picks carry no probability and define the group an outcome belongs to.
"""
import os
import sys
import signal
import time
import traceback

REPO = os.environ.get("MC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold on this execution."""


class Divergence(Exception):
    """Replaying a choice prefix met different choice points."""


class NonTermination(BaseException):
    """Raised inside an execution that exceeds its horizon."""


class Run:
    __slots__ = ("prefix", "trace", "prob", "limit", "unit_bins", "z", "expected", "devs", "steps",
                 "big_choice")

    def __init__(self, prefix, expected, limit, unit_bins, z, big_choice):
        self.prefix = prefix
        self.expected = expected
        self.trace = []          # (n, index, kind)
        self.prob = 1.0
        self.limit = limit
        self.unit_bins = unit_bins
        self.z = z
        self.steps = 0
        self.big_choice = big_choice

    def choose(self, n, kind="c", weights=None):
        if n <= 0:
            raise IndexError("choice from an empty range")
        i = len(self.trace)
        if i >= self.limit:
            raise NonTermination("more than %d choice points in one execution" % self.limit)
        if i < len(self.prefix):
            idx = self.prefix[i]
            if self.expected is not None and i < len(self.expected):
                en, ek = self.expected[i]
                if en != n or ek != kind:
                    raise Divergence("choice point %d: expected %s/%d, met %s/%d" % (i, ek, en, kind, n))
            if idx >= n:
                raise Divergence("choice point %d: index %d out of range %d" % (i, idx, n))
        else:
            idx = 0
        self.trace.append((n, idx, kind))
        if kind == "r":
            self.prob *= (weights[idx] if weights is not None else 1.0 / n)
        return idx


CUR = None     # the active Run, or None when nothing is being explored


def active():
    return CUR is not None


class Ctx:
    """What a scenario function sees."""

    def __init__(self, run):
        self.run = run
        self.states = set()

    def pick(self, options):
        """Harness nondeterminism (inputs, schedules, operations); no probability."""
        options = options if isinstance(options, (list, tuple, range)) else list(options)
        return options[self.run.choose(len(options), "p")]

    def pick_int(self, n):
        return self.run.choose(n, "p")

    def fault(self):
        """Inject a fault here?  False is the default answer."""
        return bool(self.run.choose(2, "f"))

    def subset(self, items):
        return [x for x in items if self.run.choose(2, "p")]

    def permutation(self, items):
        items = list(items)
        out = []
        while items:
            out.append(items.pop(self.run.choose(len(items), "p")))
        return out

    def state(self, key):
        self.states.add(key)

    def step(self, k=1):
        self.run.steps += k


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class _Abort(BaseException):
    pass


def _on_timer(signum, frame):
    raise NonTermination("execution used more CPU time than its horizon allows")


def install_timer():
    signal.signal(signal.SIGVTALRM, _on_timer)


class Result:
    __slots__ = ("value", "error", "prob", "trace", "steps", "states")


def execute(fn, params, prefix=(), expected=None, limit=5000, unit_bins=4,
            z=(-2.0, -0.5, 0.25, 1.5), cpu_horizon=60.0, big_choice=64):
    """Run one execution; returns Result (error = None or an exception)."""
    global CUR
    run = Run(prefix, expected, limit, unit_bins, z, big_choice)
    ctx = Ctx(run)
    res = Result()
    res.value = None
    res.error = None
    CUR = run
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu_horizon)
    try:
        res.value = fn(ctx, params)
    except Violation as e:
        res.error = e
    except Divergence:
        raise
    except NonTermination as e:
        res.error = Violation("does not terminate within the horizon: %s" % e)
    except RecursionError as e:
        res.error = Violation("unbounded recursion: %r" % (e,))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:])
        res.error = Violation("unexpected %s: %s [%s]" % (type(e).__name__, e, where))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        CUR = None
    res.prob = run.prob
    res.trace = run.trace
    res.steps = run.steps
    res.states = ctx.states
    return res


class Stats:
    def __init__(self):
        self.executions = 0
        self.choice_points = 0
        self.outcomes = set()
        self.capped = False
        self.samples = []
        self.max_depth = 0

    def as_dict(self):
        return dict(executions=self.executions, choice_points=self.choice_points,
                    outcomes=len(self.outcomes), capped=self.capped, samples=self.samples,
                    max_depth=self.max_depth)


def explore(fn, params, stats, deviations=None, dev_kinds=None, max_runs=None, deadline=None,
            post=None, want_dist=True, **kw):
    """Enumerate all executions of fn(ctx, params).

    deviations: if given, only executions with at most that many non-default
    choices (of the kinds in dev_kinds, default all) are run; everything below
    the bound is covered.
    Returns None or (Violation, choices).
    """
    prefix = []
    expected = None
    dist = {}
    while True:
        res = execute(fn, params, prefix, expected, **kw)
        stats.executions += 1
        trace = res.trace
        stats.choice_points += max(0, len(trace) - max(0, len(prefix) - 1)) + res.steps
        if len(trace) > stats.max_depth:
            stats.max_depth = len(trace)
        if res.error is not None:
            return res.error, [t[1] for t in trace]
        if len(prefix) > len(trace):
            raise Divergence("execution ended before its recorded prefix")
        val = res.value
        stats.outcomes.add(hash((str(params), repr(val))))
        for s in res.states:
            stats.outcomes.add(hash(("s", s)))
        if len(stats.samples) < 2 or (stats.executions in (10, 100, 1000) and len(stats.samples) < 5):
            stats.samples.append(dict(params=repr(params)[:300], choices=[t[1] for t in trace][:60],
                                      outcome=repr(val)[:300]))
        if want_dist and post is not None and val is not None:
            group, outcome = val
            g = dist.setdefault(group, {})
            g[outcome] = g.get(outcome, 0.0) + res.prob
        # backtrack
        cost = None
        if deviations is not None:
            cost = 0
            costs = []
            for (n, idx, kind) in trace:
                costs.append(cost)
                if idx and (dev_kinds is None or kind in dev_kinds):
                    cost += 1
        i = len(trace) - 1
        while i >= 0:
            n, idx, kind = trace[i]
            if idx + 1 < n:
                if deviations is None or (dev_kinds is not None and kind not in dev_kinds) \
                        or costs[i] + 1 <= deviations:
                    break
            i -= 1
        if i < 0:
            break
        prefix = [t[1] for t in trace[:i]] + [trace[i][1] + 1]
        expected = [(t[0], t[2]) for t in trace[:i + 1]]
        if max_runs is not None and stats.executions >= max_runs:
            stats.capped = True
            break
        if deadline is not None and (stats.executions & 63) == 0 and time.monotonic() > deadline:
            stats.capped = True
            break
    if post is not None:
        try:
            for group, d in dist.items():
                post(params, group, d)
        except Violation as e:
            return e, None
        except Exception as e:
            return Violation("distribution check failed: %r" % (e,)), None
    return None


class S:
    """One scenario: a function explored exhaustively within its bound."""

    def __init__(self, name, fn, params=None, post=None, deviations=None, dev_kinds=None, weight=1, **kw):
        self.name, self.fn, self.params, self.post = name, fn, params, post
        self.deviations, self.dev_kinds, self.weight, self.kw = deviations, dev_kinds, weight, kw


# --------------------------------------------------------------------------
# Controlled randomness
# --------------------------------------------------------------------------
def _unit():
    r = CUR
    n = r.unit_bins
    if isinstance(n, tuple):
        if isinstance(n[0], tuple):         # (value, weight) pairs
            return n[r.choose(len(n), "r", [w for _, w in n])][0]
        return n[r.choose(len(n), "r")]
    return (r.choose(n, "r") + 0.5) / n


def _norm():
    r = CUR
    z = r.z(len(r.trace)) if callable(r.z) else r.z       # the classes may depend on how many draws there have been
    return z[r.choose(len(z), "r")]


def _index(n):
    """Uniform index below n; very large ranges are represented by both ends and the middle."""
    r = CUR
    n = int(n)
    if n <= r.big_choice:
        return r.choose(n, "r")
    reps = sorted({0, 1, n // 2, n - 2, n - 1})
    return reps[r.choose(len(reps), "r")]


def _weighted(weights):
    ws = [float(w) for w in weights]
    tot = sum(ws)
    if not (tot > 0) or tot == float("inf"):
        raise ValueError("Total of weights must be greater than zero" if not tot > 0 else
                         "Total of weights must be finite")
    nz = [i for i, w in enumerate(ws) if w > 0]
    k = CUR.choose(len(nz), "r", [ws[i] / tot for i in nz])
    return nz[k]


def install_rng():
    """Replace the module-level draw functions by dispatchers (before leap_ec is imported)."""
    import random
    import numpy as np
    import functools

    def disp(mod, name, ctl):
        real = getattr(mod, name)

        @functools.wraps(real, assigned=("__name__", "__doc__"), updated=())
        def f(*a, **k):
            if CUR is None:
                return real(*a, **k)
            return ctl(*a, **k)
        f._real = real
        setattr(mod, name, f)

    # ---- random ----
    def r_random():
        return _unit()

    def r_uniform(a, b):
        return a + (b - a) * _unit()

    def r_choice(seq):
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        return seq[_index(len(seq))]

    def r_choices(population, weights=None, *, cum_weights=None, k=1):
        n = len(population)
        if cum_weights is not None:
            if weights is not None:
                raise TypeError("Cannot specify both weights and cumulative weights")
            cw = list(cum_weights)
            weights = [cw[0]] + [cw[i] - cw[i - 1] for i in range(1, len(cw))]
        if weights is None:
            if n == 0:
                raise IndexError("list index out of range")
            return [population[_index(n)] for _ in range(k)]
        weights = list(weights)
        if len(weights) != n:
            raise ValueError("The number of weights does not match the population")
        return [population[_weighted(weights)] for _ in range(k)]

    def r_randrange(start, stop=None, step=1):
        rg = range(start) if stop is None else range(start, stop, step)
        if len(rg) == 0:
            raise ValueError("empty range for randrange()")
        return rg[_index(len(rg))]

    def r_randint(a, b):
        return r_randrange(a, b + 1)

    def r_shuffle(x):
        for i in reversed(range(1, len(x))):
            j = _index(i + 1)
            x[i], x[j] = x[j], x[i]

    def r_sample(population, k, *, counts=None):
        if counts is not None:
            population = [p for p, c in zip(population, counts) for _ in range(c)]
        pool = list(population)
        if not 0 <= k <= len(pool):
            raise ValueError("Sample larger than population or is negative")
        return [pool.pop(_index(len(pool))) for _ in range(k)]

    def r_gauss(mu=0.0, sigma=1.0):
        return mu + sigma * _norm()

    def r_getrandbits(k):
        return _index(2 ** k)

    for nm, c in dict(random=r_random, uniform=r_uniform, choice=r_choice, choices=r_choices,
                      randrange=r_randrange, randint=r_randint, shuffle=r_shuffle, sample=r_sample,
                      gauss=r_gauss, normalvariate=r_gauss, getrandbits=r_getrandbits,
                      seed=lambda *a, **k: None).items():
        disp(random, nm, c)

    # ---- numpy.random ----
    npr = np.random

    def shape_of(size):
        if size is None:
            return None
        if np.isscalar(size):
            return (int(size),)
        return tuple(int(s) for s in size)

    def fill(size, draw, dtype=float):
        sh = shape_of(size)
        if sh is None:
            return draw()
        out = np.empty(sh, dtype=dtype)
        flat = out.reshape(-1)
        for i in range(flat.size):
            flat[i] = draw()
        return out

    def fill_bcast(size, args, draw, dtype=float):
        if size is None and all(np.ndim(a) == 0 for a in args):
            return draw(*args)
        if size is None:
            sh = np.broadcast(*[np.asarray(a) for a in args]).shape
        else:
            sh = shape_of(size)
        bs = [np.broadcast_to(np.asarray(a), sh).reshape(-1) for a in args]
        out = np.empty(sh, dtype=dtype)
        flat = out.reshape(-1)
        for i in range(flat.size):
            flat[i] = draw(*[b[i] for b in bs])
        return out

    def n_rand(*dims):
        return fill(dims if dims else None, _unit)

    def n_random(size=None):
        return fill(size, _unit)

    def n_uniform(low=0.0, high=1.0, size=None):
        return fill_bcast(size, (low, high), lambda lo, hi: float(lo) + (float(hi) - float(lo)) * _unit())

    def n_randint(low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = np.zeros_like(np.asarray(low)) if np.ndim(low) else 0, low

        def d(lo, hi):
            n = int(hi) - int(lo) + (1 if endpoint else 0)
            if n <= 0:
                raise ValueError("low >= high")
            return int(lo) + _index(n)
        return fill_bcast(size, (low, high), d, dtype=dtype)

    def n_choice(a, size=None, replace=True, p=None):
        arr = np.arange(a) if np.ndim(a) == 0 and not isinstance(a, (list, tuple)) else \
            (a if isinstance(a, np.ndarray) else None)
        if arr is None:
            arr = np.empty(len(a), dtype=object)
            if all(np.isscalar(x) for x in a):
                arr = np.array(a)
            else:
                for i, x in enumerate(a):
                    arr[i] = x
        n = len(arr)
        if n == 0:
            raise ValueError("a must be non-empty")
        sh = shape_of(size)
        cnt = 1
        for s in (sh or ()):
            cnt *= s
        if p is not None:
            p = list(p)
            if abs(sum(p) - 1) > 1e-8:
                raise ValueError("probabilities do not sum to 1")
        if replace:
            idx = [(_index(n) if p is None else _weighted(p)) for _ in range(cnt)]
        else:
            if cnt > n:
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            left = list(range(n))
            idx = []
            for _ in range(cnt):
                j = _index(len(left)) if p is None else _weighted([p[t] for t in left])
                idx.append(left.pop(j))
        if sh is None:
            return arr[idx[0]]
        return arr[np.array(idx, dtype=int).reshape(sh)] if cnt else arr[:0]

    def n_normal(loc=0.0, scale=1.0, size=None):
        return fill_bcast(size, (loc, scale), lambda m, s: float(m) + float(s) * _norm())

    def n_randn(*dims):
        return fill(dims if dims else None, _norm)

    def n_std_normal(size=None):
        return fill(size, _norm)

    def n_binomial(n, p, size=None):
        from math import comb

        def d(nn, pp):
            nn = int(nn)
            pp = float(pp)
            if not 0 <= pp <= 1:
                raise ValueError("p < 0, p > 1 or p is NaN")
            w = [comb(nn, k) * pp ** k * (1 - pp) ** (nn - k) for k in range(nn + 1)]
            if nn + 1 <= CUR.big_choice:
                return _weighted(w)
            reps = sorted({0, 1, nn // 2, nn - 1, nn})
            return reps[CUR.choose(len(reps), "r")]
        return fill_bcast(size, (n, p), d, dtype=int)

    def n_shuffle(x):
        for i in reversed(range(1, len(x))):
            j = _index(i + 1)
            if isinstance(x, np.ndarray) and x.ndim > 1:
                x[[i, j]] = x[[j, i]]
            else:
                x[i], x[j] = x[j], x[i]

    def n_permutation(x):
        arr = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        n_shuffle(arr)
        return arr

    table = dict(rand=n_rand, random=n_random, random_sample=n_random, ranf=n_random, sample=n_random,
                 uniform=n_uniform, randint=n_randint, random_integers=None, choice=n_choice,
                 normal=n_normal, randn=n_randn, standard_normal=n_std_normal, binomial=n_binomial,
                 shuffle=n_shuffle, permutation=n_permutation, seed=lambda *a, **k: None)
    for nm, c in table.items():
        if c is not None and hasattr(npr, nm):
            disp(npr, nm, c)

    class ControlledGenerator:
        """Stands in for numpy's Generator while an exploration is active."""
        def __init__(self, real):
            self._real_gen = real

        def __getattr__(self, name):
            if CUR is None:
                return getattr(self._real_gen, name)
            if name == "integers":
                return n_randint
            m = table.get(name)
            if m is None:
                return getattr(self._real_gen, name)
            return m
    real_rng = npr.default_rng
    def n_default_rng(seed=None):
        return seed if isinstance(seed, ControlledGenerator) else ControlledGenerator(real_rng(seed))
    npr.default_rng = n_default_rng


# --------------------------------------------------------------------------
# Simulated dask
# --------------------------------------------------------------------------
class FakeWorker:
    id = "mc-worker"
    name = "mc-worker"


class FakeFuture:
    def __init__(self, sim, fn, args, kwargs):
        self.sim = sim
        self.fn, self.args, self.kwargs = fn, args, kwargs
        self.done_ = False
        self.value = None
        self.exc = None
        self.seq = sim.submitted
        sim.submitted += 1
        sim.in_flight += 1

    def run(self):
        if self.done_:
            return
        self.done_ = True
        self.sim.in_flight -= 1
        self.sim.completed += 1
        import copy
        try:
            f, a, k = self.fn, self.args, self.kwargs
            if self.sim.serialise:      # as over the wire: the worker has copies of everything
                f, a, k = copy.deepcopy((f, a, k), self.sim.memo())
            v = f(*a, **k)
            self.value = copy.deepcopy(v, self.sim.memo()) if self.sim.serialise else v
        except (Violation, Divergence):
            raise
        except Exception as e:
            self.exc = e

    def result(self, timeout=None):
        self.run()
        if self.exc is not None:
            raise self.exc
        return self.value

    def exception(self, timeout=None):
        self.run()
        return self.exc

    def done(self):
        return self.done_

    @property
    def status(self):
        if not self.done_:
            return "pending"
        return "error" if self.exc is not None else "finished"

    def cancel(self, *a, **k):
        pass

    def release(self):
        pass


class FakeAsCompleted:
    """Yields futures in an order decided by the explorer."""

    def __init__(self, futures, sim, with_results=False):
        self.sim = sim
        self.pending = list(futures)
        self.with_results = with_results

    def add(self, f):
        self.pending.append(f)

    def update(self, fs):
        for f in fs:
            self.add(f)

    def count(self):
        return len(self.pending)

    def is_empty(self):
        return not self.pending

    def has_ready(self):
        return bool(self.pending)

    def __iter__(self):
        return self

    def __next__(self):
        if not self.pending:
            raise StopIteration
        k = self.sim.next_done(len(self.pending))
        f = self.pending.pop(k)
        f.run()
        self.sim.order.append(f.seq)
        if self.with_results:
            return f, f.result()
        return f


class FakeClient:
    """In-process stand-in for a dask client; nothing runs until a completion is chosen."""

    def __init__(self, serialise=False, keep=(), window=None):
        self.serialise = serialise
        self.window = window       # with many tasks under way: only the oldest few or the newest may complete next
        self.keep = list(keep)     # objects that stay shared although arguments are copied
        self.submitted = 0
        self.completed = 0
        self.in_flight = 0
        self.order = []

    def memo(self):
        return {id(k): k for k in self.keep}

    def next_done(self, n):
        if CUR is None or n < 2:
            return 0
        if self.window and n > self.window:
            k = CUR.choose(self.window, "s")
            return n - 1 if k == self.window - 1 else k
        return CUR.choose(n, "s")

    def submit(self, fn, *args, **kw):
        kw = {k: v for k, v in kw.items() if k not in _DASK_KW}
        return FakeFuture(self, fn, args, kw)

    def map(self, fn, *iterables, **kw):
        kw = {k: v for k, v in kw.items() if k not in _DASK_KW}
        return [FakeFuture(self, fn, a, kw) for a in zip(*iterables)]

    def gather(self, futures, **kw):
        futures = list(futures)
        order = list(futures)
        # complete in a schedule chosen by the explorer
        while order:
            k = self.next_done(len(order))
            f = order.pop(k)
            f.run()
            self.order.append(f.seq)
        return [f.result() for f in futures]


_DASK_KW = {"pure", "workers", "resources", "retries", "priority", "allow_other_workers", "fifo_timeout",
            "actor", "actors", "key", "batch_size"}


def install_dask():
    import distributed
    import dask.distributed as dd
    real_ac = distributed.as_completed
    real_gw = distributed.get_worker

    def as_completed(futures=None, *a, **k):
        fs = list(futures) if futures is not None else []
        if fs and isinstance(fs[0], FakeFuture):
            return FakeAsCompleted(fs, fs[0].sim, k.get("with_results", False))
        if CUR is not None:
            return FakeAsCompleted(fs, FakeClient(), k.get("with_results", False))
        return real_ac(futures, *a, **k)

    def get_worker(*a, **k):
        if CUR is not None:
            return FakeWorker()
        return real_gw(*a, **k)
    for m in (distributed, dd):
        m.as_completed = as_completed
        m.get_worker = get_worker


_booted = False


def boot(dask=False):
    """Own the environment, then import leap_ec from the repository's working tree."""
    global _booted
    if _booted:
        return
    _booted = True
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "agg")
    os.environ.setdefault("SDL_VIDEODRIVER", "dummy")
    import warnings
    warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")
    install_rng()
    if dask:
        install_dask()
    sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)
    import leap_ec
    if not os.path.abspath(leap_ec.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise SystemExit("leap_ec imported from %s, not from %s" % (leap_ec.__file__, REPO))
    install_timer()


# --------------------------------------------------------------------------
# small helpers shared by the checks
# --------------------------------------------------------------------------
def close(a, b, tol=1e-9):
    return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def check_distribution(got, want, what, tol=1e-9):
    """Both directions: no forbidden outcome, every allowed outcome with its exact probability."""
    for o, p in got.items():
        if p > tol and o not in want:
            raise Violation("%s: outcome %r happens with probability %.4f but must not" % (what, o, p))
    for o, p in want.items():
        if abs(got.get(o, 0.0) - p) > 1e-6:
            raise Violation("%s: outcome %r has probability %.6f, should be %.6f" % (what, o, got.get(o, 0.0), p))


def check_upper(got, want, what, slack=1e-9):
    """For searches bounded by deviations: the mass explored of an outcome never exceeds its probability (sound for any bound)."""
    for o, p in got.items():
        w = want(o)
        if p > w * (1 + slack):
            raise Violation("%s: outcome %r has probability of at least %.6g, should be %.6g" % (what, o, p, w))


def threshold(p):
    """Unit draws reduced to: far above p (the default), slightly above p, slightly below p, far below p."""
    if p < 0.5:
        return ((0.5 + p, 1 - 2 * p), (1.5 * p, p), (0.75 * p, p / 2), (0.25 * p, p / 2))
    return ((0.75 + p / 4, (1 - p) / 2), (p + (1 - p) / 4, (1 - p) / 2), (0.75 * p, p / 2), (0.25 * p, p / 2))


def fresh_context():
    return {"leap": {"distrib": {"non_viable": 0}}}
