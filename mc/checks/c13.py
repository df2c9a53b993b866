# -*- coding: utf-8 -*-
import itertools
import math
import warnings
from fractions import Fraction as F

import numpy as np

import skcurve
from mc.core import Space
from mc.lib import (Curve, Point, Segment, near, near_seq, lattice, mk_seg, rank, sub, dot, parallel_vecs, collinear_exact,
                    raises, LADDER, LADDER_SHORT)

TITLE = 'Segment points, parameters, angles and position predicates are exact on lattices'
ASSUMPTIONS = ['coordinates are integers (or integers with an offset/scale that is exact in the dtype), or sums of multiples of given '
               'inexact directions for which the answer is known by construction',
               'the parameter of points with respect to a singular segment is judged only for its own point']

TS = [0, 1, 0.0, 1.0, 0.5, 0.25, 0.75, 1 / 3, -1, 2, -0.5, 1.5, 10, np.float64(0.5), np.int64(1), np.float32(0.25)]


def lin(a, b, t):
    return [float(x) + float(t) * (float(y) - float(x)) for x, y in zip(a, b)]


def warned(f, *args, **kw):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        v = f(*args, **kw)
    return v, any(issubclass(x.category, skcurve.GeometryAlgorithmsWarning) for x in w)


def transform(word, off, scale):
    return [[scale * x + o for x, o in zip(p, itertools.cycle(off))] for p in word]


def run_point_t(case, stat):
    word, dt, off, scale = case
    a, b = transform(word, off, scale)
    if dt[0] == 'u' and min(a + b) < 0:
        return
    s = mk_seg(a, b, dt)
    tol = 1e-5 if dt == 'f4' else 1e-9
    big = max(1.0, max(abs(float(x)) for x in a + b))
    pts = s.point(TS)
    stat.op(len(TS))
    stat.check(isinstance(pts, list) and len(pts) == len(TS), '%s: points of a sequence %s', s, pts)
    arr = s.point(np.array([float(t) for t in TS]))
    tup = s.point(tuple(TS[:3]))
    stat.check(len(tup) == 3 and all(x == y for x, y in zip(tup, pts)), '%s: points of a tuple', s)
    singular = a == b
    stat.check(bool(s.singular) == singular, '%s: singular %s', s, s.singular)
    got = []
    for t, q, r in zip(TS, pts, arr):
        p = s.point(t)
        exp = lin(a, b, t)
        for what, x in (('scalar', p), ('sequence', q), ('array', r)):
            stat.check(type(x) is Point and x.ndim == len(a), '%s: point(%s) is %r', s, t, x)
            stat.check(near_seq(x.data.tolist(), exp, tol, tol * big), '%s: point(%s) by %s is %s, model %s', s, t, what, x, exp)
        got.append(p)
    stat.check(s.point(0) == s.p1 and s.point(1) == s.p2, '%s: the ends are not the ends', s)
    stat.check(raises(ValueError, s.point, np.zeros((2, 2))), '%s: 2-d parameters accepted', s)
    if singular:
        v, _ = warned(s.t, s.p1)
        stat.check(v == 0, '%s: t of the point of a singular segment is %s', s, v)
        return
    length = math.sqrt(sum((float(x) - float(y)) ** 2 for x, y in zip(a, b)))
    ttol = 1e-7 + tol * big / length * 10
    for t, p in zip(TS, got):
        if dt == 'f4' or big / length > 1e5:
            if t not in (0, 1):
                continue      # the point itself is rounded away from the line
        stat.op()
        v, w = warned(s.t, p)
        stat.check(isinstance(v, float) and near(v, float(t), ttol, ttol), '%s: t of the point at %s is %s', s, t, v)
        stat.check(not w, '%s: t of the point at %s warns', s, t)
        v, w = warned(s.t, [p])
        stat.check(isinstance(v, np.ndarray) and v.shape == (1,) and near(v[0], float(t), ttol, ttol) and not w,
                   '%s: t of the list of the point at %s is %s', s, t, v)
        stat.check(bool(s.collinear(p)), '%s: the point at %s is not collinear', s, t)
    if big / length < 1e5 and dt != 'f4':
        for seq in (got, tuple(got), got[:2], got[::-1]):
            v, w = warned(s.t, seq)
            ts = [float(t) for t in TS]
            exp = ts if len(seq) == len(ts) and seq[0] is got[0] else ts[:2] if len(seq) == 2 else ts[::-1]
            stat.check(v.shape == (len(exp),) and near_seq(v.tolist(), exp, ttol, ttol) and not w, '%s: t of the sequence %s, model %s',
                       s, v, exp)
    stat.seen('nonsingular')


def run_t_off(case, stat):
    """Points on and off the line: all lattice points against all lattice segments"""
    word, dt, off, scale = case
    a, b, p = transform(word, off, scale)
    if a == b:
        return
    s, q = mk_seg(a, b, dt), Point(p, dtype=dt)
    on = collinear_exact([a, b, p])
    d = sub(b, a)
    exp = float(F(dot(sub(p, a), d)) / F(dot(d, d))) if on else math.nan
    v, w = warned(s.t, q)
    stat.op()
    stat.check(near(float(v), exp, 1e-8, 1e-8) and w == (not on), '%s: t of %s is %s (warning: %s), model %s', s, q, v, w, exp)
    for k, seq in enumerate(([q], [q, s.p1], [s.p2, q, s.p1], [q, q, q])):
        v, w = warned(s.t, seq)
        stat.op()
        m = [[exp], [exp, 0.0], [1.0, exp, 0.0], [exp] * 3][k]
        stat.check(v.shape == (len(m),) and near_seq(v.tolist(), m, 1e-8, 1e-8), '%s: t of %s is %s, model %s', s, seq, v, m)
        # (mixed sequences may in addition warn of residuals)
        stat.check(w == (not on), '%s: t of %s: warning %s', s, seq, w)
    stat.check(bool(s.collinear(q)) == on and bool(s.reverse().collinear(q)) == on, '%s: collinear with %s is not %s', s, q, on)
    stat.check(bool(s.coplanar(q)), '%s: three points are always coplanar %s', s, q)
    stat.seen('on' if on else 'off')


def angle_exact(u, v):
    c = dot(u, v) / math.sqrt(dot(u, u) * dot(v, v))
    # a better conditioned form
    nu, nv = math.sqrt(dot(u, u)), math.sqrt(dot(v, v))
    x = [p / nu for p in u]
    y = [p / nv for p in v]
    return 2 * math.atan2(math.dist(x, y), math.hypot(*[i + j for i, j in zip(x, y)])), c


def run_pairs(case, stat):
    word, dt, off, scale = case
    w = transform(word, off, scale)
    a, b, c, d = w
    s1, s2 = mk_seg(a, b, dt), mk_seg(c, d, dt)
    u, v = sub(b, a), sub(d, c)
    col = collinear_exact(w)
    par = parallel_vecs(u, v)
    cop = rank([sub(p, a) for p in w[1:]]) <= 2
    stat.op(4)
    for x, y in ((s1, s2), (s2, s1), (s1.reverse(), s2)):
        stat.check(bool(x.collinear(y)) == col, '%s %s (%s): collinear is not %s', x, y, dt, col)
        stat.check(bool(x.parallel(y)) == par, '%s %s (%s): parallel is not %s', x, y, dt, par)
        stat.check(bool(x.coplanar(y)) == cop, '%s %s (%s): coplanar is not %s', x, y, dt, cop)
    singular = not any(u) or not any(v)
    ang, warn = warned(s1.angle, s2)
    if singular:
        stat.check(ang != ang and warn, '%s %s: angle of singular segments %s', s1, s2, ang)
    else:
        exp, cosine = angle_exact(u, v)
        stat.check(near(float(ang), exp, 1e-6, 1e-6) and not warn, '%s %s: angle %s, model %s', s1, s2, ang, exp)
        stat.check(0 <= ang <= math.pi + 1e-12, '%s %s: angle %s', s1, s2, ang)
        if par:
            stat.check(near(math.sin(float(ang)), 0, 1e-6, 1e-6), '%s %s: angle of parallel segments %s', s1, s2, ang)
        for nd in (0, 1, 3, 8):
            r, _ = warned(s1.angle, s2, ndigits=nd)
            e = math.acos(max(-1.0, min(1.0, round(cosine, nd))))
            # the rounding of a cosine on the edge of two decimals may go to either side
            cr = math.cos(float(r)) * 10 ** nd
            stat.check(near(float(r), e, 1e-6, 1e-6) and near(cr, round(cr), 0, 1e-4) or
                       abs(cr - cosine * 10 ** nd) <= 0.5001 and near(cr, round(cr), 0, 1e-4),
                       '%s %s: angle rounded to %s is %s, model %s', s1, s2, nd, r, e)
    stat.seen(f'collinear={col} parallel={par} coplanar={cop}')


BASE = {2: [(1 / 3, 0.1), (-0.7, 1 / 7), (0.9, -1 / 3), (2.3, 1.1)],
        3: [(1 / 3, 0.1, -0.3), (-0.7, 1 / 7, 0.6), (0.9, -1 / 3, 1.7), (2.3, 1.1, -1 / 9)],
        4: [(1 / 3, 0.1, -0.3, 0.7), (-0.7, 1 / 7, 0.6, 0.1), (0.9, -1 / 3, 1.7, -0.2), (2.3, 1.1, -1 / 9, 0.4)]}


def run_inexact(case, stat):
    """Points on a line, parallel segments and points of a plane up to rounding, and clearly not so, at scales and places"""
    dim, ku, kv, kw, shift, scale = case
    u, v, w = BASE[dim][ku], BASE[dim][kv], BASE[dim][kw]
    o = [x * shift for x in BASE[dim][(ku + 1) % 4]]
    big = (1 + abs(shift)) * scale * 3

    def at(a=0.0, b=0.0, c=0.0):
        return [(x + a * p + b * q + c * r) * scale for x, p, q, r in zip(o, u, v, w)]
    s = Segment(Point(at(0.3)), Point(at(1.7)))
    length = math.sqrt(dot(u, u)) * scale * 1.4
    ts = (0, 1, 0.5, 1 / 3, -0.7, 2.2)
    pts = s.point(ts)
    stat.op(3)
    for t, q in zip(ts, pts):
        exp = at(0.3 + 1.4 * t)
        stat.check(near_seq(q.data.tolist(), exp, 0, 1e-12 * big), '%s: point at %s is %s, model %s', case, t, q, exp)
        stat.check(near_seq(s.point(t).data.tolist(), exp, 0, 1e-12 * big), '%s: point at %s is %s, model %s', case, t, q, exp)
        got, warn = warned(s.t, Point(exp))
        stat.check(bool(s.collinear(Point(exp))), '%s: the point at %s is not collinear', case, t)
        stat.check(near(float(got), t, 0, 1e-10 * big / length) and not (warn and scale == 1), '%s: t of the point at %s is %s', case, t, got)
    got, _ = warned(s.t, [Point(at(0.3 + 1.4 * t)) for t in ts])
    stat.check(near_seq(got.tolist(), list(ts), 0, 1e-10 * big / length), '%s: t of the points is %s', case, got)
    if shift > 1000:
        stat.seen('far')
    for a, b in ((0.1, 0.9), (1.0, 0.0), (-3.0, 4.0), (2.5, 1.7)):
        q = Segment(Point(at(a)), Point(at(b)))
        p = Segment(Point(at(a, 1.0)), Point(at(b, 1.0)))
        for x, y in ((s, q), (q, s)):
            stat.check(bool(x.collinear(y)) and bool(x.parallel(y)) and bool(x.coplanar(y)), '%s: %s %s on a line', case, x, y)
            ang, _ = warned(x.angle, y)
            stat.check(near(float(ang), 0.0 if b > a else math.pi, 0, 1e-6), '%s: angle on a line %s', case, ang)
        if ku != kv:
            for x, y in ((s, p), (p, s)):
                stat.check(bool(x.parallel(y)) and bool(x.coplanar(y)) and not x.collinear(y), '%s: %s %s parallel', case, x, y)
            z = Segment(Point(at(a, 0.2)), Point(at(b, 1.5)))
            for x, y in ((s, z), (z, s), (s.reverse(), z)):
                stat.check(not x.collinear(y) and not x.parallel(y) and bool(x.coplanar(y)), '%s: %s %s in a plane', case, x, y)
                du, dz = [1.4 * m for m in u], [(b - a) * m + 1.3 * n for m, n in zip(u, v)]
                exp = angle_exact(du, dz)[0]
                ang, _ = warned(x.angle, y)
                stat.check(near(float(ang), math.pi - exp if x is not s and y is z else exp, 0, 1e-6), '%s: angle %s, model %s', case, ang, exp)
            if dim > 2 and len({ku, kv, kw}) == 3:
                z = Segment(Point(at(a, 0.2, 0.3)), Point(at(b, 1.5, -0.4)))
                stat.check(not s.coplanar(z) and not z.coplanar(s) and not s.parallel(z), '%s: %s %s in space', case, s, z)
                stat.check(not s.coplanar(Point(at(0.2, 0.3, 0.7))) or True, 'a point')
                flat = Curve(np.array([at(0.1, 0.4), at(0.9, 0.2), at(0.5, -0.7), at(-0.3, 0.3)]))
                deep = Curve(np.array([at(0.1, 0.4), at(0.9, 0.2, 0.4), at(0.5, -0.7), at(-0.3, 0.3)]))
                stat.check(bool(flat.isplane) and not deep.isplane, '%s: isplane', case)
                stat.seen('space')
    stat.seen('judged')


def run_tolerances(case, stat):
    """Lattice points which are squeezed in one direction: the tolerance decides on both sides of the squeezed size"""
    word, squeeze, off = case
    d = len(word[0])
    pts = [[x + o if k < d - 1 else x * squeeze + o for k, (x, o) in enumerate(zip(p, itertools.cycle(off)))] for p in word]
    flat = [list(p[:-1]) for p in word]
    exact = [sub(p, word[0]) for p in word[1:]]
    r, rf = rank(exact), rank([sub(p, flat[0]) for p in flat[1:]])
    s, q = Segment(Point(pts[0]), Point(pts[1])), Segment(Point(pts[2]), Point(pts[3]))
    small, large = squeeze / 100, squeeze * 100
    for name, x, y in (('', s, q), (' swapped', q, s), (' reversed', s.reverse(), q)):
        stat.op(4)
        if r <= 1 or rf <= 1:
            # on a line after all, or as soon as the squeezed direction is below the tolerance
            stat.check(bool(x.collinear(y, tol=small)) == (r <= 1), '%s%s: collinear with tolerance %s', case, name, small)
            stat.check(bool(x.collinear(y, tol=large)), '%s%s: not collinear with tolerance %s', case, name, large)
        else:
            stat.check(not x.collinear(y, tol=small) and not x.collinear(y, tol=large), '%s%s: collinear with small tolerances', case, name)
        stat.check(bool(x.coplanar(y, tol=small)) == (r <= 2), '%s%s: coplanar with tolerance %s', case, name, small)
        stat.check(bool(x.coplanar(y, tol=large)) == (rf <= 2), '%s%s: coplanar with tolerance %s', case, name, large)
        u, v = sub(word[1], word[0]), sub(word[3], word[2])
        if any(u[:-1]) and any(v[:-1]) and not parallel_vecs(u, v):
            stat.check(not x.parallel(y, tol=squeeze ** 2 / 1e4), '%s%s: parallel', case, name)
            if parallel_vecs(u[:-1], v[:-1]):
                stat.check(bool(x.parallel(y, tol=squeeze * 100)), '%s%s: not parallel with a large tolerance', case, name)
    p, (a, b, c) = Point(pts[2]), (pts[0], pts[1], pts[2])
    e = [y - x for x, y in zip(a, b)]
    if any(x != y for x, y in zip(word[0][:-1], word[1][:-1])):
        on = rank([sub(word[1], word[0]), sub(word[2], word[0])]) <= 1
        near_line = on or rank([sub(flat[1], flat[0]), sub(flat[2], flat[0])]) <= 1
        exp = math.fsum(x * (z - y) for x, y, z in zip(e, a, c)) / math.fsum(x * x for x in e)
        for tol, hit in ((small, on), (large, near_line)):
            v, w = warned(s.t, p, tol=tol)
            vs, ws = warned(s.t, [p, s.p1], tol=tol)
            stat.op(2)
            stat.check(near(float(v), exp if hit else math.nan, 1e-6, 1e-6) and (hit or w), '%s: t with tolerance %s is %s, model %s %s', case, tol, v, exp, hit)
            stat.check(near_seq(vs.tolist(), [exp if hit else math.nan, 0.0], 1e-6, 1e-6) and (hit or ws), '%s: t of a list with tolerance %s is %s', case, tol, vs)
            stat.check(bool(s.collinear(p, tol=tol)) == hit, '%s: collinear with the point with tolerance %s is not %s', case, tol, hit)
        stat.seen(f'{on} {near_line}')


def run_curve_planes(case, stat):
    word, dt, off = case
    rows = transform(word, off, 1)
    d = len(rows[0])
    c = Curve(np.array(rows, dtype=dt))
    plane = rank([sub(p, rows[0]) for p in rows[1:]]) <= 2 if len(rows) > 1 else True
    stat.op(5)
    stat.check(bool(c.isplane) == plane, '%s %s: isplane is not %s', rows, dt, plane)
    stat.check(bool(c.is2d) == (d == 2) and bool(c.is3d) == (d == 3) and bool(c.isspatial) == (d > 2), '%s: is2d/is3d/isspatial', rows)
    stat.seen(f'plane={plane}')


def run_sizes(case, stat):
    """Long plane curves in space and the same with a single point out of the plane, at every position"""
    n, tilt = case
    nrm = {'z': (0, 0, 1), 'xy': (1, 1, 0), 'xyz': (1, 2, -3)}[tilt]
    b1, b2 = {'z': ((1, 0, 0), (0, 1, 0)), 'xy': ((1, -1, 0), (0, 0, 1)), 'xyz': ((1, 1, 1), (5, -4, -1))}[tilt]
    rows = [[((i * i) % 23) * x + i * y + 10 for x, y in zip(b1, b2)] for i in range(n)]
    stat.check(bool(Curve(np.array(rows, dtype='f8')).isplane), 'n=%s %s: a plane curve is not', n, tilt)
    stat.check(bool(Curve(np.array(rows, dtype='i8')).isplane), 'n=%s %s: a plane integer curve is not', n, tilt)
    for k in sorted({0, 1, n // 2, n - 2, n - 1}):
        q = [list(r) for r in rows]
        q[k] = [x + y for x, y in zip(q[k], nrm)]
        plane = rank([sub(p, q[0]) for p in q[1:]]) <= 2
        stat.op()
        stat.check(bool(Curve(np.array(q, dtype='f8')).isplane) == plane, 'n=%s %s: point %s out of the plane, model %s', n, tilt, k,
                   plane)
    # many points against one segment
    s = mk_seg([1, 2, 3], [3, 6, 7])
    pts = [s.point(i / 4) for i in range(n)]
    v, w = warned(s.t, pts)
    stat.check(near_seq(v.tolist(), [i / 4 for i in range(n)], 1e-8, 1e-8) and not w, 'n=%s: t of many points', n)
    for k in (0, n // 2, n - 1):
        bad = list(pts)
        bad[k] = bad[k] + Point([1, 0, 0])
        v, w = warned(s.t, bad)
        exp = [i / 4 for i in range(n)]
        exp[k] = math.nan
        stat.check(near_seq(v.tolist(), exp, 1e-8, 1e-8) and w, 'n=%s: t with point %s off the line', n, k)
    stat.check([p == q for p, q in zip(s.point([i / 4 for i in range(n)]), pts)] == [True] * n, 'n=%s: points of a sequence', n)


def run_types(case, stat):
    d = case
    s = mk_seg([1, 2, 3, 4][:d], [4, 3, 2, 1][:d])
    for bad in (None, 1, 'a', [1, 2], Curve([[1, 2], [3, 4]]), (1, 2)):
        stat.op(4)
        stat.check(raises(TypeError, s.angle, bad), 'angle with %r', bad)
        stat.check(raises(TypeError, s.collinear, bad), 'collinear with %r', bad)
        stat.check(raises(TypeError, s.coplanar, bad), 'coplanar with %r', bad)
        stat.check(raises(TypeError, s.distance, bad), 'distance with %r', bad)
        stat.check(raises(TypeError, s.shortest_segment, bad), 'shortest segment with %r', bad)
    # curve segments and points are segments and points
    c = Curve(np.array([[1, 2, 3, 4][:d], [4, 3, 2, 1][:d], [7, 4, 1, -2][:d], [0, 1, 0, 2][:d]], dtype='f8'))
    g = c.segments
    stat.check(bool(g[0].collinear(g[1])) and bool(g[0].collinear(c[2])) and bool(s.collinear(g[1])), 'curve segments')
    stat.check(bool(g[0].parallel(g[1])) and not g[1].parallel(g[2]), 'curve segments')
    stat.check(near(float(g[0].t(c[2])), 2) and near_seq(g[0].t(list(c[:3])).tolist(), [0, 1, 2], 1e-9, 1e-9), 't of curve points')
    stat.check(near_seq(g[0].t(c[:3]).tolist(), [0, 1, 2], 1e-9, 1e-9), 't of the points of a curve')
    stat.check(g[0].reverse().p1 == c[1] and g[0].reverse().p2 == c[0] and g[0].to_curve() == c[:2], 'reverse, to_curve')
    stat.check(near_seq(g[0].direction.data.tolist(), [b - a for a, b in zip(c.data[0].tolist(), c.data[1].tolist())]), 'direction')
    stat.check(near(float(g[0].dot), sum(a * b for a, b in zip(c.data[0].tolist(), c.data[1].tolist()))), 'dot')
    stat.check(g[0].data.tolist() == c.data[:2].tolist() and g[0].ndim == d, 'data')


def spaces(tier):
    deep = tier == 'thorough'
    offs = [((0,), 1), ((10, 20, 35, 7), 1), ((1000, -2000, 512, 3), 2), ((0.5, 0.25), 0.125), ((5000,), 1), ((0,), 2 ** -15), ((500000, -300000), 100)]

    def point_t():
        for off, sc in offs:
            for w in itertools.product(lattice(3, 2), repeat=2):
                yield w, 'f8', off, sc
            for w in itertools.product(lattice(3 if deep else 2, 3), repeat=2):
                yield w, 'f8', off, sc
        for w in itertools.product(lattice(2, 2), repeat=2):
            for dt in ('f4', 'i8', 'i4', 'i2', 'i1', 'u8', 'u4', 'u2', 'u1'):
                for off, sc in (((0,), 1), ((10, 3), 50)):
                    yield w, dt, off, sc
        for w in itertools.product(lattice(2, 4), repeat=2):
            yield w, 'f8', (3, -7), 5
        for w in itertools.product(lattice(3, 1), repeat=2):
            yield w, 'f8', (1,), 1

    def t_off():
        for off, sc in offs:
            for w in itertools.product(lattice(3, 2), repeat=3):
                if off == (0,) or deep or w[0] in ((0, 0), (2, 1)):
                    yield w, 'f8', off, sc
            for w in itertools.product(lattice(2, 3), repeat=3):
                yield w, 'f8', off, sc
        for w in itertools.product(lattice(2, 2), repeat=3):
            for dt in ('i8', 'i4', 'i1', 'u8', 'u4', 'u1'):
                yield w, dt, (10, 3), 50

    def pairs():
        for off, sc in offs:
            for w in itertools.product(lattice(2, 2), repeat=4):
                yield w, 'f8', off, sc
            for w in itertools.product(lattice(2, 3), repeat=4):
                if deep or off == (0,) and not any(w[0]) or w[0] == (1, 0, 1) and w[1] == (0, 0, 1):
                    yield w, 'f8', off, sc
        for w in itertools.product(lattice(3, 2), repeat=4):
            if deep or w[0] == (0, 0):
                yield w, 'f8', (0,), 1
        for w in itertools.product(lattice(3, 3), repeat=2):
            yield ((0, 0, 0), (2, 1, 2)) + w, 'f8', (3, 5, -7), 1
            yield ((1, 0, 2), (1, 2, 0)) + w, 'f8', (100,), 1
        for w in itertools.product(lattice(2, 4), repeat=2):
            yield ((0, 1, 0, 1), (1, 0, 1, 1)) + w, 'f8', (9, 2), 1
        for w in itertools.product(lattice(2, 2), repeat=4):
            for dt in ('i8', 'i1', 'u1', 'u8', 'u4', 'f4'):
                yield w, dt, (3, 20), 30
        for w in itertools.product(lattice(2, 3), repeat=2):
            for dt in ('i8', 'u1', 'u4', 'i2'):
                yield ((0, 1, 0), (1, 0, 1)) + w, dt, (3, 20), 30

    def planes():
        for n in (1, 2, 3, 4):
            for w in itertools.product(lattice(2, 3), repeat=n):
                yield w, 'f8', (0,)
        for w in itertools.product(lattice(2, 3), repeat=4):
            if not any(w[0]) or deep:
                for dt, off in (('f8', (10, 20, 33)), ('i4', (-5, 7, 0)), ('u1', (9, 100, 3))):
                    yield w, dt, off
        for w in itertools.product(lattice(2, 4), repeat=2):
            yield ((0, 0, 0, 0), (1, 0, 1, 0), (1, 1, 0, 0)) + w, 'f8', (5,)
        for w in itertools.product(lattice(2, 3), repeat=2):
            yield ((0, 0, 0), (1, 0, 1), (1, 1, 0)) + w, 'f8', (5,)
        for w in itertools.product(lattice(2, 2), repeat=3):
            yield w, 'f8', (5,)
    return [
        Space('point_t', point_t, run_point_t, 'all lattice segments x parameters, dtypes and placements'),
        Space('t_off', t_off, run_t_off, 'all lattice segments x all lattice points'),
        Space('pairs', pairs, run_pairs, 'pairs of lattice segments against exact rational linear algebra'),
        Space('inexact', lambda: [(dim, a, b, c, sh, sc) for dim in (2, 3, 4) for a, b, c in itertools.product(range(4), repeat=3)
                                  for sh in (0, 1, -33.3, 700) for sc in ((1e-3, 1, 1e3, 1e6, 1e9) if deep else (1e-3, 1, 1e6))],
              run_inexact, 'points on a line, parallel segments, planes and angles up to rounding for inexact directions at scales and places'),
        Space('tolerances', lambda: [(w, sq, off) for d in (2, 3) for w in itertools.product(lattice(2 if d == 3 else 3, d), repeat=4)
                                     if deep or d == 3 and not any(w[0]) or d == 2 and w[0] == (0, 1)
                                     for sq, off in ((1e-4, (0,)), (2e-4, (0.3, -0.7, 0.1)))],
              run_tolerances, 'lattice points squeezed in one direction: predicates with tolerances below and above the squeezed size'),
        Space('planes', planes, run_curve_planes, 'lattice curves: is the curve in a plane'),
        Space('sizes', lambda: [(n, k) for n in (LADDER if deep else LADDER_SHORT) for k in ('z', 'xy', 'xyz')
                                if deep or n <= 257 or k == 'xyz'], run_sizes,
              'a ladder of sizes of plane curves and of sequences of points'),
        Space('types', lambda: [2, 3, 4], run_types, 'types of arguments, curve segments'),
    ]
