"""C16: binary decoders."""
import itertools
import numpy as np
from mc.engine import S, require, close
from leap_ec.binary_rep.decoders import BinaryToIntDecoder, BinaryToIntGreyDecoder, BinaryToRealDecoder, BinaryToRealGreyDecoder

BOUNDS = {"quick": "every bit string of every field layout with up to 3 fields and 9 bits in total (plain and Gray, integer and real, 5 element types), "
                   "every ordered pair of strings through one decoder and through two interleaved decoders for layouts up to 4 bits, "
                   "fields of 16-62 bits and layouts of 45-61 fields at all one-bit, two-bit and complement patterns"}


def plain(bits):
    v = 0
    for b in bits:
        v = v * 2 + int(b)
    return v


def gray(bits):
    """Reflected Gray code by its recursive definition."""
    bits = [int(b) for b in bits]
    if not bits:
        return 0
    rest = gray(bits[1:])
    n = 1 << (len(bits) - 1)
    return rest if bits[0] == 0 else 2 * n - 1 - rest


def expect(layout, bits, code, bounds):
    out, at = [], 0
    for i, w in enumerate(layout):
        v = (gray if code == "gray" else plain)(bits[at:at + w])
        at += w
        if bounds is not None:
            lo, hi = bounds[i]
            v = lo + (hi - lo) * (v / (2 ** w - 1))
        out.append(v)
    return out


def make(layout, code, bounds):
    if bounds is None:
        return (BinaryToIntGreyDecoder if code == "gray" else BinaryToIntDecoder)(*layout)
    cls = BinaryToRealGreyDecoder if code == "gray" else BinaryToRealDecoder
    return cls(*[(w, lo, hi) for w, (lo, hi) in zip(layout, bounds)])


BOUND = [(-5.12, 5.12), (0.0, 1.0), (10, -3)] + [(k / 3 - 20, k * 1.5 + 1) for k in range(120)]


def check(dec, layout, bits, code, bounds, dtype):
    g = np.array(bits, dtype=dtype)
    keep = g.copy()
    v = dec.decode(g)
    require(np.array_equal(g, keep) and g.dtype == keep.dtype, "decoding modified the genome")
    want = expect(layout, bits, code, bounds)
    require(len(v) == len(want), "%d values decoded from %d fields", len(v), len(want))
    for a, b in zip(v, want):
        if bounds is None:
            require(int(a) == b and a == b, "%r with fields %r (%s) decodes to %r, should be %r", bits, layout, code, list(v), want)
        else:
            require(close(float(a), b, 1e-12), "%r with fields %r (%s) decodes to %r, should be %r", bits, layout, code, list(v), want)
    return tuple(v)


def strings(ctx, p):
    """All strings of one layout; the integer map must be a bijection, neighbouring Gray values differ in one bit."""
    layout, code = p["layout"], p["code"]
    bounds = BOUND[:len(layout)] if p["real"] else None
    dec = make(layout, code, bounds)
    n = sum(layout)
    seen = {}
    for bits in itertools.product((0, 1), repeat=n):
        v = check(dec, layout, bits, code, bounds, p["dtype"])
        ctx.step()
        require(v not in seen, "%r and %r decode to the same %r", bits, seen.get(v), v)
        seen[v] = bits
        ctx.state((layout, code, p["real"], bits))
    require(len(seen) == 2 ** n, "not every value is reachable")
    if code == "gray" and len(layout) == 1 and not p["real"]:
        for k in range(2 ** n - 1):
            d = sum(a != b for a, b in zip(seen[(k,)], seen[(k + 1,)]))
            require(d == 1, "neighbours %d and %d differ in %d bits", k, k + 1, d)
    if p["real"]:
        lo, hi = tuple(map(float, (b[0] for b in bounds))), tuple(map(float, (b[1] for b in bounds)))
        require(all(close(a, b) for a, b in zip(check(dec, layout, (0,) * n, code, bounds, p["dtype"]), lo)), "all zeros is not the lower bound")
    return layout


def orders(ctx, p):
    """Two decoders used in turn: results may not depend on the history."""
    decs = []
    for layout, code, real in (p["a"], p["b"]):
        bounds = BOUND[:len(layout)] if real else None
        decs.append((make(layout, code, bounds), layout, code, bounds))
    res = []
    for step in range(p["depth"]):
        d, layout, code, bounds = decs[ctx.pick((0, 1))]
        bits = tuple(ctx.pick((0, 1)) for _ in range(sum(layout)))
        res.append(check(d, layout, bits, code, bounds, int))
    return tuple(res)


def wide(ctx, p):
    layout, code = p["layout"], p["code"]
    bounds = BOUND[:len(layout)] if p["real"] else None
    dec = make(layout, code, bounds)
    n = sum(layout)
    pats = [[0] * n, [1] * n, [i % 2 for i in range(n)]]
    for i in range(n):
        pats.append([int(j == i) for j in range(n)])
        pats.append([int(j != i) for j in range(n)])
        for k in range(i):
            pats.append([int(j in (i, k)) for j in range(n)])
    for b in pats:
        check(dec, layout, tuple(b), code, bounds, int)
        ctx.step()
        ctx.state((layout, code, tuple(b)))
    return layout


def wrong(ctx, p):
    """Only arrays are accepted as genomes."""
    dec = make((2, 1), p["code"], BOUND[:2] if p["real"] else None)
    try:
        r = dec.decode([0, 1, 1])
    except ValueError:
        return "refused"
    require(list(r) == expect((2, 1), (0, 1, 1), p["code"], BOUND[:2] if p["real"] else None), "a list genome decodes to %r", list(r))
    return "ok"


def scenarios(tier):
    big = tier == "thorough"
    out = []
    top = 12 if big else 9
    layouts = [(a,) for a in range(1, top + 1)] + [(a, b) for a in range(1, 6) for b in range(1, 6) if a + b <= top] + \
        [(a, b, c) for a in range(1, 5) for b in range(1, 5) for c in range(1, 5) if a + b + c <= top]
    for layout in layouts:
        for code in ("plain", "gray"):
            for real in (False, True):
                out.append(S("strings-%s-%s-%s" % (layout, code, real), strings, dict(layout=layout, code=code, real=real, dtype=int), weight=2 ** sum(layout)))
    for dt in ("uint8", "int8", "bool", "float"):
        for layout in ((9,), (2, 3), (8, 1), (1, 8)):
            for code in ("plain", "gray"):
                if dt == "float" and code == "gray":
                    continue
                for real in (False, True):
                    out.append(S("dtype-%s-%s-%s-%s" % (dt, layout, code, real), strings, dict(layout=layout, code=code, real=real, dtype=dt), weight=500))
    kinds = [((2,), "plain", False), ((1, 2), "plain", False), ((2, 1), "gray", False), ((3,), "gray", False), ((1, 2), "gray", True), ((2, 1), "plain", True)]
    for a, b in itertools.product(kinds, repeat=2):
        out.append(S("orders-%s-%s" % (a, b), orders, dict(a=a, b=b, depth=3 if big else 2), weight=50))
        if not big:
            out.append(S("orders3-%s-%s" % (a, b), orders, dict(a=a, b=b, depth=4), deviations=4, weight=50))
    for layout in ((16,), (31,), (32, 3), (40,), (62,), (5, 33), (20, 20, 20)):
        for code in ("plain", "gray"):
            for real in (False, True):
                out.append(S("wide-%s-%s-%s" % (layout, code, real), wide, dict(layout=layout, code=code, real=real), weight=100))
    for layout in ((1,) * 45, (2, 1, 3) * 18, (1, 2) * 30 + (8,)):
        for code in ("plain", "gray"):
            for real in (False, True):
                out.append(S("many-%d-%s-%s" % (len(layout), code, real), wide, dict(layout=layout, code=code, real=real), weight=100))
    for code in ("plain", "gray"):
        for real in (False, True):
            out.append(S("list-%s-%s" % (code, real), wrong, dict(code=code, real=real)))
    return out
