"""C29: an executable phenotype is scored by exactly what it did."""
import itertools
import math
import os
import shutil
import tempfile
import numpy as np
from gymnasium import spaces
from PIL import Image
from mc.engine import S, require
from leap_ec.individual import Individual
from leap_ec.decoder import IdentityDecoder
from leap_ec.executable_rep.problems import EnvironmentProblem, TruthTableProblem, ImageXYProblem
from leap_ec.executable_rep.executable import RandomExecutable

BOUNDS = {"quick": "every environment behaviour (reward of 2-3 levels, end by termination, truncation or neither, at every step) of up to 2 "
          "runs x 3 steps (within 2-3 deviations: 2 x 12, 12 x 2, 1 x 40), both fitness types and directions, stopping or not; "
          "every Boolean function of 1-2 inputs against every other, every 3-input one against itself, each single change and its "
          "complement, tables of 4-9 inputs within 1-2 deviations, two outputs, padded inputs; every 2x1 and 1x2 image over 3 "
          "colours per channel pattern against every program output; single scenarios: episodes of hundreds of steps, wide images, "
          "truth tables with odd answers and kinds"}


class Env:
    """Plays the part of a gym environment whose behaviour is chosen step by step; checks that it is driven correctly."""

    def __init__(self, ctx, rewards, strict, tuple_space=False):
        self.ctx, self.rewards, self.strict = ctx, rewards, strict
        self.observation_space = spaces.Box(low=-1.0, high=1.0, shape=(3, 2)) if not tuple_space else \
            spaces.Tuple([spaces.Discrete(4), spaces.Box(low=0.0, high=1.0, shape=(2,))])
        self.action_space = spaces.Discrete(3)
        self.log = []            # one list per run: [observation, (action, reward, done, observation), ...]
        self.renders = 0
        self.over = True

    def reset(self, **kw):
        self.log.append([(0.1, len(self.log), 0, 2 ** 53 + 1)])
        self.over = False
        return self.log[-1][0], {}

    def render(self):
        self.renders += 1

    def step(self, action):
        require(self.log, "step before reset")
        require(not (self.over and self.strict), "the environment was stepped after it ended")
        r = self.ctx.pick(self.rewards)
        end = self.ctx.pick(("no", "terminated", "truncated"))
        obs = (0.1, len(self.log) - 1, len(self.log[-1]), 2 ** 53 + 1)
        self.log[-1].append((action, r, end, obs))
        self.over = end != "no"
        return obs, r, end == "terminated", end == "truncated", {}


def environment(ctx, p):
    runs, steps = p["runs"], p["steps"]
    kind = ctx.pick(("reward", "survival"))
    stop = ctx.pick(p.get("stop", (True, False, None)))
    maximize = ctx.pick((None, False))
    gui = ctx.pick((True, False)) if p.get("gui") else False
    env = Env(ctx, p["rewards"], stop is not False)
    kw = {} if stop is None else {"stop_on_done": stop}
    if maximize is not None:
        kw["maximize"] = maximize
    prob = EnvironmentProblem(runs, steps, env, kind, gui, **kw)
    require(prob.maximize == (maximize is None), "direction %r", prob.maximize)
    calls = []

    def program(obs):
        calls.append(obs)
        return len(calls)
    before = 0
    for n in range(p.get("evals", 1)):
        calls.clear()
        env.log.clear()
        if p.get("ind"):
            fit = Individual(program, IdentityDecoder(), prob).evaluate()
        else:
            fit = prob.evaluate(program)
        require(len(env.log) == runs, "%d runs instead of %d", len(env.log), runs)
        want_calls, lengths, sums = [], [], []
        for run in env.log:
            obs = run[0]
            ended = False
            for action, r, end, nxt in run[1:]:
                want_calls.append(obs)
                require(action == len(want_calls), "the program's action %d was not used: %r", len(want_calls), action)
                obs = nxt
                ended = ended or end != "no"
            k = len(run) - 1
            last = run[-1][2] if k else "no"
            require(k == steps or (stop is not False and last != "no"), "a run stopped after %d of %d steps", k, steps)
            lengths.append(len(run))
            sums.append(sum(e[1] for e in run[1:]))
        require(calls == want_calls, "the program saw %r, the observations were %r", calls, want_calls)
        want = sum(sums) / runs if kind == "reward" else sum(lengths) / runs
        require(abs(fit - want) < 1e-9, "%s fitness %r, the runs were %r", kind, fit, env.log)
        require(not gui or env.renders > 0, "not rendered")
    return (kind, round(float(fit), 6))


class Script:
    """An environment that follows a fixed script and ends one of its runs early."""

    def __init__(self, last):
        self.observation_space = spaces.Box(low=-1.0, high=1.0, shape=(1,))
        self.action_space = spaces.Discrete(3)
        self.last, self.log = last, []

    def reset(self, **kw):
        self.log.append([])
        return (len(self.log), 0), {}

    def step(self, action):
        t = len(self.log[-1]) + 1
        self.log[-1].append(action)
        end = self.last.get(len(self.log) - 1) == t
        return (len(self.log), t), reward(len(self.log), t), end, False, {}


def reward(run, t):
    return ((run * 7 + t * 3) % 11) / 7 - 0.4


def lengthy(ctx, p):
    """Many or long runs, one of them ended early by the environment."""
    runs, steps = p["runs"], p["steps"]
    kind = ctx.pick(("reward", "survival"))
    who = ctx.pick(sorted({0, runs // 2, runs - 1}))
    when = ctx.pick((1, steps // 2, steps - 1, steps))
    env = Script({who: when})
    prob = EnvironmentProblem(runs, steps, env, kind, False)
    seen = []

    def program(obs):
        seen.append(obs)
        return len(seen)
    fit = prob.evaluate(program)
    lengths = [when if r == who else steps for r in range(runs)]
    require([len(x) for x in env.log] == lengths, "runs of %r steps, expected %r", [len(x) for x in env.log], lengths)
    require(seen == [(r + 1, t) for r in range(runs) for t in range(lengths[r])], "the program was not given every observation in order")
    require([a for x in env.log for a in x] == list(range(1, len(seen) + 1)), "the program's answers were not what the environment received")
    want = math.fsum(reward(r + 1, t) for r in range(runs) for t in range(1, lengths[r] + 1)) / runs if kind == "reward" else sum(k + 1 for k in lengths) / runs
    require(abs(fit - want) < 1e-9 * max(1.0, abs(want)), "%s fitness %r, expected %r", kind, fit, want)
    return kind, who, when


def spaces_dim(ctx, p):
    opts = [(spaces.Discrete(8), 1), (spaces.Discrete(1), 1), (spaces.Box(low=-1.0, high=2.0, shape=(3, 4)), 12), (spaces.Box(low=0.0, high=1.0, shape=(5,)), 5),
            (spaces.MultiBinary(4), 4), (spaces.MultiDiscrete([2, 3]), 2)]
    k = ctx.pick(p.get("parts", (1, 2, 3)))
    parts = [ctx.pick(opts) for _ in range(k)]
    if k == 1 and ctx.pick((0, 1)):
        space, want = parts[0]
    else:
        space, want = spaces.Tuple([s for s, _ in parts]), sum(d for _, d in parts)
    require(EnvironmentProblem.space_dimensions(space) == want, "%r has %d dimensions, not %r", space, want, EnvironmentProblem.space_dimensions(space))

    class E:
        observation_space = space
        action_space = parts[0][0]
    q = EnvironmentProblem(1, 1, E(), "reward", False)
    require(q.num_inputs == want and q.num_outputs == parts[0][1], "num_inputs %r, num_outputs %r for %r", q.num_inputs, q.num_outputs, space)
    return want


def bad_type(ctx, p):
    kind = ctx.pick(("Reward", "", "fitness", "rewards", "survive"))
    try:
        EnvironmentProblem(1, 1, Env(ctx, (0,), True), kind, False)
    except ValueError:
        return kind
    require(False, "fitness type %r was accepted", kind)


def table_fn(bits, n, outs):
    """The function whose truth table (row by row, output by output) is `bits`; remembers its calls."""
    def f(x):
        f.calls.append(tuple(x))
        row = int("".join(str(int(v)) for v in x[:n]), 2)
        return [bits[row * outs + o] for o in range(outs)]
    f.calls = []
    return f


def truth(ctx, p):
    n, outs = p["n"], p["outs"]
    size = 2 ** n * outs
    if p["free"]:
        fb = [ctx.pick((0, 1)) for _ in range(size)]
        gb = [ctx.pick((0, 1)) for _ in range(size)]
    else:
        fb = [ctx.pick((0, 1)) for _ in range(size)]
        k = ctx.pick_int(size + 2)        # equal, one bit different, or the complement
        gb = list(fb) if k == size else [1 - b for b in fb] if k == size + 1 else [1 - b if i == k else b for i, b in enumerate(fb)]
    pad = p.get("pad", 0)
    f, g = table_fn(fb, n, outs), table_fn(gb, n, outs)
    g.num_inputs = n + pad
    maximize = ctx.pick((None, False))
    kw = {} if maximize is None else {"maximize": maximize}
    prob = TruthTableProblem(f, n, outs, pad_inputs=pad > 0, **kw)
    rows = 2 ** n
    want = sum(fb[r * outs:(r + 1) * outs] == gb[r * outs:(r + 1) * outs] for r in range(rows)) / rows
    for _ in range(2):
        g.calls.clear()
        got = prob.evaluate(g)
        require(abs(got - want) < 1e-12, "score %r of %r against %r, expected %r", got, gb, fb, want)
        require(sorted(g.calls) == [tuple(x) + (0,) * pad for x in itertools.product((0, 1), repeat=n)], "the program was tried on %r", g.calls)
        if pad:             # a program of another width in between
            for other in (n + pad + 1, n):
                g.num_inputs = other
                g.calls.clear()
                require(abs(prob.evaluate(g) - want) < 1e-12, "score with %d inputs", other)
                require(sorted(g.calls) == [tuple(x) + (0,) * (other - n) for x in itertools.product((0, 1), repeat=n)], "a program of %d inputs was tried on %r", other, g.calls)
            g.num_inputs = n + pad
    require(prob.maximize == (maximize is None), "direction")
    return round(want, 6)


def odd_answers(ctx, p):
    """Answers that are nearly right, truthy, too many or too few are not right."""
    good = ctx.pick(([1], [0], [1, 0], [0, 0, 1]))
    bad = ctx.pick(("right", "as float", "two", "half", "short", "long", "empty"))
    wrong = {"right": list(good), "as float": [float(v) for v in good], "two": [v + 2 for v in good], "half": good[:-1] + [0.5],
             "short": good[:-1], "long": good + [0], "empty": []}[bad]
    n = ctx.pick((1, 2, 3))
    where = ctx.pick_int(2 ** n)
    rows = list(itertools.product((0, 1), repeat=n))
    prob = TruthTableProblem(lambda x: list(good), n, len(good))
    got = prob.evaluate(lambda x: wrong if tuple(x) == rows[where] else list(good))
    want = 1.0 if bad in ("right", "as float") else 1 - 1 / 2 ** n
    require(abs(got - want) < 1e-12, "score %r, expected %r: one of %d rows was answered %r instead of %r", got, want, 2 ** n, wrong, good)
    return bad, want


class Arrays(Script):
    """Observations are arrays of various kinds."""
    KINDS = [np.array([0.1, 1e-9, 1e300]), np.array([2 ** 53 + 1, -7]), np.array([True, False]), np.array([[1.5], [0.1]]), np.float32(0.1), 3, [0.1, 0.2], {"a": 1}]

    def reset(self, **kw):
        super().reset(**kw)
        return self.KINDS[0], {}

    def step(self, action):
        _, r, e, tr, i = super().step(action)
        return self.KINDS[len(self.log[-1]) % len(self.KINDS)], r, e, tr, i


def kinds(ctx, p):
    """The program is handed the observation itself, of whatever kind, and its answer, of whatever kind, is passed on."""
    answers = [np.array([0.1, 5.0]), 3, np.float64(0.1), [1, 2], (0.5,), True, None, "up", {"x": 1}]
    first = ctx.pick_int(len(answers))
    env = Arrays({})
    prob = EnvironmentProblem(1, 12, env, ctx.pick(("reward", "survival")), False)
    seen, said = [], []

    def program(obs):
        seen.append(obs)
        said.append(answers[(first + len(said)) % len(answers)])
        return said[-1]

    def same(a, b):
        return a is b or (type(a) is type(b) and getattr(a, "dtype", None) == getattr(b, "dtype", None) and np.array_equal(np.asarray(a, dtype=object), np.asarray(b, dtype=object)))
    prob.evaluate(program)
    require(len(seen) == 12, "%d steps", len(seen))
    for k, o in enumerate(seen):
        require(same(o, Arrays.KINDS[k % 8]), "the program was given %r instead of %r", o, Arrays.KINDS[k % 8])
    for a, b in zip(env.log[0], said):
        require(same(a, b), "the environment was given %r instead of %r", a, b)
    return first


def picture(ctx, p):
    w, h = p["size"]
    levels = (0, 7, 255)
    pix = [tuple(ctx.pick(levels) if c == (i % 3) else 10 * c + i for c in range(3)) for i in range(w * h)]
    out = [[float(ctx.pick((0, 7.9, 200, 300.0, -5.0, 70000.25))) if c == ((i + 1) % 3) else 10 * c + i for c in range(3)] for i in range(w * h)]
    d = tempfile.mkdtemp(prefix="c29_")
    try:
        path = os.path.join(d, "i.png")
        im = Image.new("RGB", (w, h))
        im.putdata(pix)
        im.save(path)
        prob = ImageXYProblem(path)
    finally:
        shutil.rmtree(d)
    seen = []

    def program(xy):
        xs, ys = xy
        seen.append((list(xs), list(ys)))
        return [np.array([out[int(y) * w + int(x)][c] for x, y in zip(xs, ys)]) for c in range(3)]
    v = prob.evaluate(program)
    want = math.sqrt(sum((a - int(b)) ** 2 for t, o in zip(pix, out) for a, b in zip(t, o)))
    require(abs(v - want) < 1e-9, "distance %r, expected %r, of %r to %r", v, want, out, pix)
    require(sorted((x, y) for xs, ys in seen for x, y in zip(xs, ys)) == sorted((x, y) for x in range(w) for y in range(h)), "asked for %r", seen)
    require(not prob.maximize, "a distance is minimized")
    return round(want, 4)


def panorama(ctx, p):
    """Images too large to enumerate: one pixel at a time differs."""
    w, h = p["size"]
    pix = [(i % 256, (3 * i) % 256, (i // w * 5) % 256) for i in range(w * h)]
    odd = ctx.pick_int(w * h)
    by = ctx.pick((1, -300, 10 ** 6))
    d = tempfile.mkdtemp(prefix="c29_")
    try:
        path = os.path.join(d, "i.png")
        im = Image.new("RGB", (w, h))
        im.putdata(pix)
        im.save(path)
        prob = ImageXYProblem(path)
    finally:
        shutil.rmtree(d)

    def program(xy):
        at = [int(y) * w + int(x) for x, y in zip(*xy)]
        return [np.array([pix[k][c] + (by if k == odd and c == odd % 3 else 0) for k in at]) for c in range(3)]
    v = prob.evaluate(program)
    require(abs(v - abs(by)) < 1e-9, "distance %r, expected %r", v, abs(by))
    return odd


def sampled(ctx, p):
    """RandomExecutable: every action of the space, equally likely, whatever the input."""
    n = ctx.pick((1, 2, 5))
    start = ctx.pick((0, 3))
    space = spaces.Discrete(n, start=start)
    space._np_random = np.random.default_rng()
    e = RandomExecutable(None, space)
    return (n, start), tuple(int(e(x)) for x in ("a", None))


def sampled_post(p, group, dist):
    n, start = group
    require(set(dist) == set(itertools.product(range(start, start + n), repeat=2)), "actions %r", sorted(dist))
    require(max(dist.values()) - min(dist.values()) < 1e-9, "not uniform")


def scenarios(tier):
    T = tier == "thorough"
    R = (0.0, 1.5, -2)
    out = [S("env-1x1", environment, {"runs": 1, "steps": 1, "rewards": R, "gui": True, "ind": True}),
           S("env-1x3", environment, {"runs": 1, "steps": 3, "rewards": R}),
           S("env-2x2", environment, {"runs": 2, "steps": 2, "rewards": R}),
           S("env-3x1", environment, {"runs": 3, "steps": 1, "rewards": R}),
           S("env-1x2-twice", environment, {"runs": 1, "steps": 2, "rewards": (0.0, 1.5), "evals": 2}),
           S("env-2x3-stop", environment, {"runs": 2, "steps": 3, "rewards": (1.5, -2), "stop": (True,)})]
    for name, r, s, d in (("long", 2, 12, 2), ("many", 12, 2, 2), ("longer", 1, 40, 1)):
        out.append(S("env-" + name, environment, {"runs": r, "steps": s, "rewards": (1.5, -2)}, deviations=d + (1 if T else 0) + 1))
    if T:
        out += [S("env-1x4", environment, {"runs": 1, "steps": 4, "rewards": R}),
                S("env-2x3", environment, {"runs": 2, "steps": 3, "rewards": (1.5, -2), "stop": (False,)}),
                S("env-3x2", environment, {"runs": 3, "steps": 2, "rewards": (1.0, -2), "stop": (True,)})]
    for r, s in ((30, 6), (2, 1600), (150, 2)):
        out.append(S("lengthy-%d-%d" % (r, s), lengthy, {"runs": r, "steps": s}))
    for size in ((90, 2), (2, 90), (13, 11)):
        out.append(S("panorama-%d-%d" % size, panorama, {"size": size}))
    out += [S("spaces", spaces_dim, {}), S("spaces-many", spaces_dim, {"parts": (5, 12)}, deviations=1), S("bad-type", bad_type, {}), S("sampled", sampled, {}, post=sampled_post)]
    out += [S("odd-answers", odd_answers, {}), S("kinds", kinds, {})]
    for n, o, free in ((1, 1, True), (2, 1, True), (1, 2, True), (3, 1, False), (2, 2, False)) + (((4, 1, False), (1, 3, True)) if T else ()):
        if n == 4:
            continue
        out.append(S("truth-%d-%d" % (n, o), truth, {"n": n, "outs": o, "free": free}))
    out.append(S("truth-6", truth, {"n": 6, "outs": 1, "free": True}, deviations=2))
    out.append(S("truth-9", truth, {"n": 9, "outs": 1, "free": False}, deviations=1))
    out.append(S("truth-4x3", truth, {"n": 4, "outs": 3, "free": False}, deviations=2))
    out.append(S("truth-pad-1", truth, {"n": 2, "outs": 1, "free": True, "pad": 1}))
    out.append(S("truth-pad-2", truth, {"n": 1, "outs": 1, "free": True, "pad": 2}))
    for size in ((1, 1), (2, 1), (1, 2)) + (((2, 2), (3, 1)) if T else ()):
        out.append(S("picture-%d%d" % size, picture, {"size": size}))
    return out
