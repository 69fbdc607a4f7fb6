"""C28: a decoded neural network computes its weights' forward pass."""
import itertools
import math
import time
import numpy as np
from gymnasium import spaces
from mc.engine import S, require
from leap_ec.decoder import IdentityDecoder
from leap_ec.individual import Individual
from leap_ec.executable_rep import neural_network as nn
from leap_ec.executable_rep import executable as ex
from leap_ec.executable_rep.executable import ArgmaxExecutable, WrapperDecoder, KeyboardExecutable, RandomExecutable, Executable
from .common import Table

BOUNDS = {"quick": "every network shape of 2-4 layers with sizes 1-3 (0 for absent hidden layers), every weight vector that is one-hot or "
          "two-hot (value 2), constant, or an irregular ramp, under 5 activations and 4 input vectors; interleaved use of 2-3 "
          "networks over every call order of length 4; every one of 3^5 / 3^6 grid weight vectors of two small shapes; wrong "
          "lengths -3..+3; keyboard histories of length 5; single scenarios: wide and deep networks, zero, equal and negative "
          "weights, weights and inputs of every element type"}


def sigmoid(v):
    return [1.0 / (1.0 + math.exp(-x)) if x > -700 else 0.0 for x in v]


def relu(v):
    return [x if x > 0 else 0.0 for x in v]


def softmax(v):
    m = max(v)
    e = [math.exp(x - m) for x in v]
    return [x / sum(e) for x in e]


def ident(v):
    return list(v)


def order(v):
    """Depends on the position, so a transposed or reversed layer shows."""
    return [x * (i + 1) + i for i, x in enumerate(v)]


ACT = {"default": (None, sigmoid), "sigmoid": (nn.sigmoid, sigmoid), "relu": (nn.relu, relu), "softmax": (nn.softmax, softmax),
       "identity": (lambda x: x, ident), "order": (lambda x: x * (np.arange(len(x)) + 1) + np.arange(len(x)), order)}


def length(shape):
    shape = [s for s in shape if s]
    return sum((a + 1) * b for a, b in zip(shape, shape[1:]))


def forward(shape, w, x, act):
    """Layer l's weights: rows = its inputs then the bias, columns = its outputs, stored row by row, layers one after the other."""
    shape = [s for s in shape if s]
    sig, at = list(x), 0
    for a, b in zip(shape, shape[1:]):
        ins = sig + [1.0]
        sig = act([sum(ins[i] * w[at + i * b + j] for i in range(a + 1)) for j in range(b)])
        at += (a + 1) * b
    return sig


def same(a, b):
    return len(a) == len(b) and all(abs(float(u) - float(v)) <= 1e-9 * max(1.0, abs(float(v))) for u, v in zip(a, b))


def decoder(shape, name):
    f = ACT[name][0]
    return nn.SimpleNeuralNetworkDecoder(shape) if f is None else nn.SimpleNeuralNetworkDecoder(shape, activation=f)


def weight_vectors(n, two):
    yield [0.0] * n
    yield [1.0] * n
    yield [((7 * k) % 5 - 2) * 0.5 + 0.1 * k for k in range(n)]
    yield [(-1.0) ** k * (k + 1) for k in range(n)]
    for k in range(n):
        yield [2.0 if j == k else 0.0 for j in range(n)]
        yield [-1.0 if j == k else 0.25 for j in range(n)]
    if two:
        for a, b in itertools.combinations(range(n), 2):
            yield [2.0 if j in (a, b) else 0.0 for j in range(n)]


INPUTS = {1: [(0.0,), (1.0,), (-2.5,)], 2: [(0.0, 0.0), (1.0, 0.0), (-1.0, 2.0), (0.5, -3.0)],
          3: [(0.0, 0.0, 0.0), (1.0, 2.0, 4.0), (-1.0, 0.0, 0.5), (0, 1, 0)]}


def inputs(n):
    return INPUTS[n] if n in INPUTS else [[0.0] * n, [((3 * i) % 7 - 3) / 4 for i in range(n)], [float(i == n - 1) for i in range(n)]]


def shapes(ctx, p):
    shape = ctx.pick(p["shapes"])
    name = ctx.pick(p["acts"])
    kind = ctx.pick(("array", "list"))
    dec = decoder(ctx.pick((list(shape), tuple(shape))), name)
    n = length(shape)
    act = ACT[name][1]
    real = [s for s in shape if s]
    for w in weight_vectors(n, n <= p["two"]):
        g = np.array(w) if kind == "array" else list(w)
        net = dec.decode(g)
        require(net.num_inputs == real[0] and net.num_outputs == real[-1] and net.num_hidden_layers == len(real) - 2,
                "shape %r: %d inputs, %d outputs, %d hidden layers", shape, net.num_inputs, net.num_outputs, net.num_hidden_layers)
        for x in inputs(real[0]):
            inp = np.array(x) if kind == "list" else list(x)
            out = net(inp)
            want = forward(shape, w, x, act)
            require(same(out, want), "shape %r weights %r activation %s input %r: %r, expected %r", shape, w, name, x, list(out), want)
            require(list(inp) == list(x), "the input was changed to %r", inp)
            ctx.step()
        require(list(g) == w, "the genome was changed to %r", g)
    return (tuple(shape), name)


def types(ctx, p):
    """Whole-number, single-precision and very large or fine weights and inputs, as lists or arrays."""
    shape = ctx.pick(((2, 1), (2, 2, 1), (1, 3, 2), (3, 1)))
    name = ctx.pick(("default", "identity", "order", "relu", "softmax"))
    n = length(shape)
    kind = ctx.pick(("int", "int list", "single", "huge", "fine", "objects"))
    w = [((7 * k) % 5) - 2 + (k == n - 1) for k in range(n)]
    if kind == "single":
        w = [float(np.float32(v + 0.1)) for v in w]
    elif kind in ("huge", "fine", "objects"):
        w = [(v + 1 / 3) * {"huge": 1e5, "fine": 1e-9, "objects": 1}[kind] for v in w]
    g = {"int": np.array(w), "int list": w, "single": np.array(w, dtype=np.float32), "objects": np.array(w, dtype=object)}.get(kind, np.array(w))
    if kind == "objects" and name not in ("identity", "order"):
        g = np.array(w)
    x = ctx.pick(([0.5, 0.25, -0.75], [1, 0, 1], [True, False, True], [3, 1000000, 2], [1e-9, 2e-9, 1 / 3]))[:shape[0]]
    form = ctx.pick(("list", "tuple", "array", "single"))
    inp = {"list": list, "tuple": tuple, "array": np.array, "single": lambda v: np.array(v, dtype=np.float32)}[form](x)
    x = [float(v) for v in inp]
    net = decoder(shape, name).decode(g)
    want = forward(shape, [float(v) for v in w], x, ACT[name][1])
    out = net(inp)
    require(same(out, want) and all(abs(float(a) - b) <= 1e-9 * abs(b) + 1e-15 for a, b in zip(out, want)) , "shape %r, %s weights %r, activation %s, %s input %r: %r, expected %r", shape, kind, w, name, form, x, list(out), want)
    return shape, name, kind


def grid(ctx, p):
    """Every weight vector over three values."""
    shape, name = p["shape"], ctx.pick(("relu", "order", "default"))
    n = length(shape)
    w = [ctx.pick((-1.0, 0.0, 2.0)) for _ in range(n)]
    net = decoder(shape, name).decode(np.array(w))
    for x in INPUTS[shape[0]]:
        require(same(net(list(x)), forward(shape, w, x, ACT[name][1])), "weights %r activation %s input %r: %r, expected %r", w, name, x,
                list(net(list(x))), forward(shape, w, x, ACT[name][1]))
    return tuple(w)


def interleave(ctx, p):
    """Networks of one decoder used alternately, with repeated and reused inputs."""
    shape = ctx.pick(((2, 2, 1), (1, 3), (2, 1, 2, 1)))
    name = ctx.pick(("default", "softmax", "order"))
    dec = decoder(shape, name)
    n = length(shape)
    ws = [[((3 * k + j) % 4) - 1.5 for k in range(n)] for j in range(p["nets"])]
    nets = []
    buf = np.zeros(shape[0])
    for _ in range(p["len"]):
        opts = ["new"] if not nets else (["new"] if len(nets) < p["nets"] else []) + list(range(len(nets)))
        o = ctx.pick(opts)
        if o == "new":
            nets.append(dec.decode(np.array(ws[len(nets)])))
            continue
        x = ctx.pick(INPUTS[shape[0]][:3])
        buf[:] = x                      # the caller reuses its input array
        out = nets[o](buf)
        keep = [float(v) for v in out]
        want = forward(shape, ws[o], x, ACT[name][1])
        require(same(out, want), "network %d of %d at %r: %r, expected %r", o, len(nets), x, list(out), want)
        other = nets[(o + 1) % len(nets)](np.array(INPUTS[shape[0]][1], dtype=float))
        require([float(v) for v in out] == keep, "an earlier output changed to %r", list(out))
    return (shape, name, len(nets))


def refuse(ctx, p):
    shape = ctx.pick(((2, 1), (1, 2, 1), (3, 2), (2, 0, 1), (1, 1, 1, 1)))
    d = ctx.pick((-3, -2, -1, 1, 2, 3))
    n = length(shape)
    dec = decoder(shape, "default")
    g = [0.5] * (n + d)
    g = np.array(g) if ctx.pick((0, 1)) else g
    try:
        dec.decode(g)
    except ValueError:
        return (shape, d)
    require(False, "a genome of %d weights was accepted for shape %r, which has %d", n + d, shape, n)


def activations(ctx, p):
    """The provided activation functions, including where the naive formula overflows."""
    vals = (-1e4, -750.0, -30.0, -1.0, 0.0, 0.5, 3.0, 800.0, 1e5)
    v = [ctx.pick(vals) for _ in range(p["n"])]
    with np.errstate(over="raise", invalid="raise"):
        s, r, m = nn.sigmoid(np.array(v)), nn.relu(np.array(v)), nn.softmax(np.array(v))
    want = [1.0 if x > 700 else 1.0 / (1.0 + math.exp(-x)) if x > -700 else 0.0 for x in v]
    require(same(s, want), "sigmoid of %r is %r", v, s)
    require(same(r, relu(v)), "relu of %r is %r", v, r)
    require(same(m, softmax(v)) and abs(sum(m) - 1) < 1e-9, "softmax of %r is %r", v, m)
    return tuple(v)


def wrapped(ctx, p):
    """ArgmaxExecutable returns the index of the largest output; WrapperDecoder decorates what the wrapped decoder made."""
    shape = ctx.pick(((2, 3), (1, 2, 3), (2, 2)))
    n = length(shape)
    name = ctx.pick(("softmax", "order", "default"))
    base = decoder(shape, name)
    dec = WrapperDecoder(wrapped_decoder=base, decorator=ArgmaxExecutable)
    nets = []
    for j in range(2):
        w = [((5 * k + 3 * j) % 7) - 3 + 0.01 * k for k in range(n)]
        ind = Individual(np.array(w), dec, Table(lambda q: 1.0))
        nets.append((ind.decode(), w))
    for _ in range(3):
        net, w = ctx.pick(nets)
        x = ctx.pick(INPUTS[shape[0]])
        want = forward(shape, w, x, ACT[name][1])
        srt = sorted(want)
        got = net(list(x))
        if srt[-1] - srt[-2] > 1e-6:
            require(got == want.index(max(want)), "argmax of %r is %r", want, got)
        require(net.num_inputs == shape[0] and net.num_outputs == shape[-1], "attributes of the wrapped network are reachable")
    return shape, name


def argmax(ctx, p):
    vals = [ctx.pick((-2, 0, 1, 5)) for _ in range(p["n"])]
    seen = []

    def f(x):
        seen.append(x)
        return vals if ctx.pick((0, 1)) else np.array(vals)
    a = ArgmaxExecutable(f)
    got = a("input")
    require(seen == ["input"], "the wrapped executable was called with %r", seen)
    require(vals[got] == max(vals), "argmax of %r is %r", vals, got)
    return tuple(vals)


def keyboard(ctx, p):
    """The action is that of the last pressed key until that key is released."""
    table = ctx.pick((None, {97: 2, 98: 1, 99: 2}))
    space = spaces.Discrete(10)
    keys = (ord("0"), ord("9"), ord("3"), ord("x")) if table is None else (97, 98, 99)
    mapped = (lambda k: k - 48 if 48 <= k <= 57 else 0) if table is None else table.__getitem__
    e = KeyboardExecutable(None, space) if table is None else KeyboardExecutable(None, space, keymap=lambda k: table[k])
    old, ex.time.sleep = ex.time.sleep, lambda s: None
    try:
        action = 0
        for _ in range(p["len"]):
            k = ctx.pick(keys)
            if ctx.pick(("press", "release")) == "press":
                e.key_press(k, 0)
                action = mapped(k)
            else:
                e.key_release(k, 0)
                if mapped(k) == action:
                    action = 0
            require(e([1, 2, 3]) == action, "action %r instead of %r", e([1]), action)
    finally:
        ex.time.sleep = old
    return action


def graph(ctx, p):
    """The graph shown for a network has exactly its weights on its edges."""
    shape = ctx.pick(((1, 1), (2, 3), (2, 3, 1), (1, 2, 2, 1), (3, 0, 2)))
    n = length(shape)
    mode = ctx.pick(("all", "zeros", "equal", "negative"))
    w = [{"all": k + 1.0, "zeros": (k + 1.0) * (k % 3 != 1), "equal": 0.5, "negative": -k - 0.25}[mode] for k in range(n)]
    g = decoder(shape, "default").decode(np.array(w)).graph
    real = [s for s in shape if s]
    ids = [["i%d" % i for i in range(real[0])]] + [["h%d_%d" % (l, i) for i in range(k)] for l, k in enumerate(real[1:-1])] + [["o%d" % i for i in range(real[-1])]]
    want, at = [], 0
    for l, (a, b) in enumerate(zip(real, real[1:])):
        for i in range(a + 1):
            for j in range(b):
                want.append((ids[l][i] if i < a else "bias", ids[l + 1][j], w[at]))
                at += 1
    got = sorted((u, v, d["weight"]) for u, v, d in g.edges(data=True))
    require(got == sorted(want), "edges %r, expected %r", got, sorted(want))
    require(set(g.nodes) == {"bias"} | {x for l in ids for x in l}, "nodes %r", list(g.nodes))
    return shape


def scenarios(tier):
    T = tier == "thorough"
    out = []
    sizes = (1, 2, 3)
    two = [s for s in itertools.product(sizes, repeat=2)]
    three = [s for s in itertools.product(sizes, (0, 1, 2, 3), sizes)]
    four = [s for s in itertools.product((1, 2, 3) if T else (1, 2), (0, 1, 2) if not T else (0, 1, 2, 3), (1, 3) if not T else (0, 1, 2, 3), (1, 2))]
    acts = ("default", "relu", "softmax", "identity", "order", "sigmoid")
    out.append(S("shapes-2", shapes, {"shapes": two, "acts": acts, "two": 12}))
    for k in range(3):
        out.append(S("shapes-3-%d" % k, shapes, {"shapes": three[k::3], "acts": acts, "two": 24 if T else 0}))
    for k in range(3):
        out.append(S("shapes-4-%d" % k, shapes, {"shapes": four[k::3], "acts": acts if T else ("default", "order", "relu"), "two": 16 if T else 0}))
    if T:
        five = [s for s in itertools.product((1, 2), repeat=5)]
        out.append(S("shapes-5", shapes, {"shapes": five, "acts": acts, "two": 0}))
    wide = [(15, 3, 2), (3, 20, 4), (2, 3, 17), (40, 2), (1, 30, 1)]
    deep = [(2,) * 9, (1,) * 14, (2, 3, 1, 2, 2, 3, 1, 2, 2, 1, 2), (3, 0, 2, 0, 0, 2, 1, 0, 2, 2, 0, 2, 1, 3)]
    out.append(S("shapes-wide", shapes, {"shapes": wide, "acts": ("default", "order", "softmax"), "two": 0}))
    out.append(S("shapes-deep", shapes, {"shapes": deep, "acts": ("identity", "relu", "default"), "two": 0}))
    out.append(S("types", types, {}))
    out.append(S("grid-1-1-1", grid, {"shape": (1, 1, 1)}))
    out.append(S("grid-2-1-1", grid, {"shape": (2, 1, 1)}))
    out.append(S("grid-2-2", grid, {"shape": (2, 2)}))
    if T:
        out.append(S("grid-1-2-1", grid, {"shape": (1, 2, 1)}))
        out.append(S("grid-2-3", grid, {"shape": (2, 3)}))
    out.append(S("interleave-2", interleave, {"nets": 2, "len": 5}))
    out.append(S("interleave-3", interleave, {"nets": 3, "len": 6 if T else 5}))
    out.append(S("refuse", refuse, {}))
    for n in (1, 2, 3):
        out.append(S("activations-%d" % n, activations, {"n": n}))
    out.append(S("wrapped", wrapped, {}))
    for n in (1, 3):
        out.append(S("argmax-%d" % n, argmax, {"n": n}))
    out.append(S("keyboard", keyboard, {"len": 5 if T else 4}))
    out.append(S("graph", graph, {}))
    return out
