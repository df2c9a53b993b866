# -*- coding: utf-8 -*-
"""Common parts of the reference models: written without the code under test"""

import math
import itertools
from fractions import Fraction as F

import numpy as np

import skcurve
from skcurve import Curve, Point, Segment

NAN = float('nan')
INF = float('inf')

# Sizes which a bounded exploration of small sizes does not reach: every size up to 40,
# and the neighbourhoods of the powers of two and ten up to about a thousand
LADDER = sorted(set(range(5, 41)) | {48, 49, 50, 51, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130,
                                     199, 200, 201, 255, 256, 257, 258, 499, 500, 501, 511, 512, 513, 999,
                                     1000, 1001, 1023, 1024, 1025})
LADDER_SHORT = [5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 101, 127, 128, 129, 200,
                256, 257, 500, 513, 1000, 1025]

FLOATS = ('f8', 'f4', 'f2')
INTS = ('i8', 'i4', 'i2', 'i1', 'u8', 'u4', 'u2', 'u1')
DTYPES = FLOATS[:2] + INTS


def same_scalar(a, b):
    return a == b or (a != a and b != b)


def same_rows(a, b):
    """Exact (NaN-aware) equality of nested lists"""
    if isinstance(a, list) or isinstance(b, list):
        return (isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and
                all(same_rows(x, y) for x, y in zip(a, b)))
    return same_scalar(a, b)


def near(a, b, rtol=1e-9, atol=1e-9):
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def near_seq(a, b, rtol=1e-9, atol=1e-9):
    """NaN-aware approximate equality of nested lists of numbers"""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and
                all(near_seq(x, y, rtol, atol) for x, y in zip(a, b)))
    return near(a, b, rtol, atol)


def lst(x):
    """numpy array, number or sequence -> nested lists of Python numbers"""
    return np.asarray(x).tolist()


def mk_curve(rows, t=None, dtype='f8', ndim=None):
    """Curve with exactly the given rows (points)"""
    if not rows:
        return Curve(np.zeros((0, ndim or 2), dtype=dtype), tdata=t)
    return Curve(np.array(rows, dtype=dtype), tdata=t)


def mk_seg(p1, p2, dtype='f8'):
    return Segment(Point(p1, dtype=dtype), Point(p2, dtype=dtype))


def raises(exc, func, *args, **kwargs):
    """True if the call raises exactly an instance of exc; other exceptions go through"""
    try:
        func(*args, **kwargs)
    except exc:
        return True
    return False


def outcome(func, *args, **kwargs):
    """('ok', value) or ('raise', exception type name)"""
    try:
        return 'ok', func(*args, **kwargs)
    except Exception as err:  # noqa
        return 'raise', type(err)


# ---------------------------------------------------------------- exact geometry (rationals)

def fr(p):
    return tuple(F(x) for x in p)


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def mul(a, k):
    return tuple(x * k for x in a)


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def lerp(a, b, t):
    return tuple(x + t * (y - x) for x, y in zip(a, b))


def rank(vectors):
    """Rank of exact vectors (ints or Fractions)"""
    rows = [list(map(F, v)) for v in vectors]
    r = 0
    if not rows:
        return 0
    for c in range(len(rows[0])):
        piv = next((i for i in range(r, len(rows)) if rows[i][c] != 0), None)
        if piv is None:
            continue
        rows[r], rows[piv] = rows[piv], rows[r]
        for i in range(r + 1, len(rows)):
            if rows[i][c] != 0:
                k = rows[i][c] / rows[r][c]
                rows[i] = [x - k * y for x, y in zip(rows[i], rows[r])]
        r += 1
        if r == len(rows):
            break
    return r


def parallel_vecs(u, v):
    """True if u and v are linearly dependent (exact)"""
    n = len(u)
    return all(u[i] * v[j] == u[j] * v[i] for i in range(n) for j in range(i + 1, n))


def collinear_exact(points):
    o = points[0]
    d = None
    for p in points[1:]:
        v = sub(p, o)
        if not any(v):
            continue
        if d is None:
            d = v
        elif not parallel_vecs(d, v):
            return False
    return True


def point_segment_t(a, b, p):
    """The clamped parameter of the point of segment ab nearest to p (exact)"""
    d = sub(b, a)
    dd = dot(d, d)
    if dd == 0:
        return F(0)
    t = F(dot(sub(p, a), d)) / dd
    return min(max(t, F(0)), F(1))


def dist2_point_segment(p, a, b):
    q = lerp(a, b, point_segment_t(a, b, p))
    w = sub(p, q)
    return dot(w, w)


def dist2_segments(a, b, c, d):
    """Exact minimal squared distance of segments ab and cd (ints or Fractions)"""
    best = min(dist2_point_segment(a, c, d), dist2_point_segment(b, c, d),
               dist2_point_segment(c, a, b), dist2_point_segment(d, a, b))
    u, v, w = sub(b, a), sub(d, c), sub(a, c)
    uu, uv, vv, uw, vw = dot(u, u), dot(u, v), dot(v, v), dot(u, w), dot(v, w)
    den = uu * vv - uv * uv
    if den != 0:
        s = F(uv * vw - vv * uw) / den
        t = F(uu * vw - uv * uw) / den
        if 0 <= s <= 1 and 0 <= t <= 1:
            z = sub(lerp(a, b, s), lerp(c, d, t))
            best = min(best, dot(z, z))
    return best


def intersect_exact(a, b, c, d):
    """('NONE',) | ('EXACT', point) | ('OVERLAP', p, q) for segments ab, cd; exact coordinates"""
    if collinear_exact([a, b, c, d]):
        u = sub(b, a)
        if not any(u):
            u = sub(d, c)
        if not any(u):
            return ('OVERLAP', a, a) if a == c else ('NONE',)
        pa, pb = sorted([a, b], key=lambda p: dot(p, u))
        pc, pd = sorted([c, d], key=lambda p: dot(p, u))
        lo = max(pa, pc, key=lambda p: dot(p, u))
        hi = min(pb, pd, key=lambda p: dot(p, u))
        if dot(lo, u) > dot(hi, u):
            return ('NONE',)
        return ('OVERLAP', lo, hi)
    u, v = sub(b, a), sub(d, c)
    if parallel_vecs(u, v):
        return ('NONE',)
    # solve a + s u = c + t v in the first independent pair of coordinates
    w = sub(c, a)
    n = len(a)
    for i in range(n):
        for j in range(i + 1, n):
            det = u[j] * v[i] - u[i] * v[j]
            if det != 0:
                s = F(w[j] * v[i] - w[i] * v[j]) / det
                t = F(w[j] * u[i] - w[i] * u[j]) / det
                p = lerp(a, b, s)
                if p != lerp(c, d, t):
                    return ('NONE',)
                if 0 <= s <= 1 and 0 <= t <= 1:
                    return ('EXACT', p)
                return ('NONE',)
    raise AssertionError('unreachable')


def flt(p):
    return [float(x) for x in p]


def dist(a, b):
    return math.sqrt(math.fsum((float(x) - float(y)) ** 2 for x, y in zip(a, b)))


def lattice(n, d, lo=0):
    return list(itertools.product(range(lo, lo + n), repeat=d))


def windows(seq, n):
    return [seq[i:i + n] for i in range(len(seq) - n + 1)]


def comb_curves(kind, n, teeth=None):
    """A curve of n points along a straight line with teeth which cut the line, and the line, with the pairs of
    segments which meet and the points where they do ('short': the line is one segment; 'long': n segments;
    'self': both are parts of one curve). The teeth are at the first and last points, and around the multiples of
    50 and 64, where the work on a long curve is likely to be divided"""
    if teeth is None:
        teeth = {i for i in range(1, n, 2) if i < 4 or i > n - 4 or any(k % q == 0 for q in (50, 64) for k in (i - 1, i, i + 1))}
    zig = [(i, 2 * (i in teeth)) for i in range(n)]
    cut = [i for i in range(n - 1) if zig[i][1] != zig[i + 1][1]]
    if kind == 'short':
        return zig, [(-1, 1), (n, 1)], [(i, 0, (i + 0.5, 1)) for i in cut]
    if kind == 'long':
        return zig, [(i - 0.25, 1) for i in range(n)], [(i, i, (i + 0.5, 1)) for i in cut]
    line = [(n + 1, 1)] + [(n - 0.75 - k, 1) for k in range(n)]
    return zig + line, None, [(i, n + 1 + (n - 2 - i), (i + 0.5, 1)) for i in cut]


# ------------------------------------------------------------------ small words at other places

def _embed(p, d):
    """Exact image of a point of 2 or 3 dimensions on axes of d dimensions, with other signs and constants"""
    q = list(p) + [0] * (3 - len(p))
    out = {2: [q[1], -q[0]], 3: [q[1], -q[2] - 3, -q[0]], 4: [q[1], 5, -q[0], q[2] - 7], 5: [-3, q[2], q[1], 2, -q[0]]}[d]
    return tuple(out)


PLACES = {
    'negative': lambda p: tuple(-x - 53 for x in p),
    'tiny': lambda p: tuple(x * 2.0 ** -12 for x in p),
    'tiny far': lambda p: tuple((x - 41) * 2.0 ** -10 for x in p),
    'huge': lambda p: tuple((x - 3) * 2.0 ** 24 for x in p),
    'stretched': lambda p: tuple(x * f for x, f in zip(p, (1024, 0.25, -3))),
    'd4': lambda p: _embed(p, 4),
    'd5': lambda p: _embed(p, 5),
    'd4 slanted': lambda p: (p[0], p[-1], p[0] + p[-1], p[0] - 2 * p[1]),
}
# unit of length, the factor of tolerances
UNITS = {'tiny': 2.0 ** -12, 'tiny far': 2.0 ** -10, 'huge': 2.0 ** 24}


def place(word, name):
    return [PLACES[name](p) for p in word]
