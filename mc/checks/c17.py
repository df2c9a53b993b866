# -*- coding: utf-8 -*-
import itertools
import math
from fractions import Fraction as F

import numpy as np

from mc.core import Space
from mc.lib import (Curve, Point, Segment, near, near_seq, lattice, mk_seg, lerp, raises, dist2_point_segment, dist2_segments,
                    parallel_vecs, sub, point_segment_t)

TITLE = 'The shortest segment between segments or to a point is minimal'
ASSUMPTIONS = ['the minimum is computed exactly with rational numbers from the coordinates; the implementation may differ from it by '
               'floating rounding (1e-6 of the extent of the figure)']

OFFS = {'zero': (0, 0, 0, 0), 'plus': (20, 30, 7, 11), 'minus': (-9, -3, -40, -5), 'mixed': (1000, -3, 0, 5)}


def exact(p):
    return tuple(F(float(x)) for x in p)


def place(word, scale, off):
    """Coordinates which are scaled and moved in floating arithmetic"""
    return [tuple(x * scale + o for x, o in zip(p, OFFS[off])) for p in word]


def tol_of(pts):
    extent = max(max(x) - min(x) for x in zip(*pts))
    return 1e-6 * extent + 1e-13 * max(abs(float(x)) for p in pts for x in p)


def on_segment(stat, what, p, a, b, tol):
    d2 = dist2_point_segment(exact(p), exact(a), exact(b))
    stat.check(math.sqrt(d2) <= tol, '%s: the point %s is not on the segment %s %s', what, list(p), list(a), list(b))


def judge(stat, what, res, s1, other, d2, pts):
    """res: the shortest segment from s1 to other (a segment or a point)"""
    tol = tol_of(pts)
    exp = math.sqrt(d2)
    stat.op()
    stat.check(type(res) is Segment, '%s: %r', what, res)
    on_segment(stat, what + ' start', res.p1.data.tolist(), s1[0], s1[1], tol)
    if len(other) == 2:
        on_segment(stat, what + ' end', res.p2.data.tolist(), other[0], other[1], tol)
    else:
        stat.check(res.p2.data.tolist() == [float(x) for x in other[0]], '%s: the end %s is not the point', what, res.p2)
    stat.check(abs(float(res.seglen) - exp) <= tol, '%s: length of the shortest segment %s, model %s', what, res.seglen, exp)


def check_pair(stat, a, b, c, d, dt='f8', full=True):
    pts = [a, b, c, d]
    ea, eb, ec, ed = (exact(np.asarray(p, dtype=dt).tolist()) for p in pts)
    d2 = dist2_segments(ea, eb, ec, ed)
    exp = math.sqrt(d2)
    tol = tol_of(pts)
    s1, s2 = mk_seg(a, b, dt), mk_seg(c, d, dt)
    what = f'{pts} {dt}'
    judge(stat, what, s1.shortest_segment(s2), (ea, eb), (ec, ed), d2, pts)
    r = float(s1.distance(s2))
    stat.op()
    stat.check(abs(r - exp) <= tol, '%s: distance %s, model %s', what, r, exp)
    if full:
        judge(stat, what + ' swapped', s2.shortest_segment(s1), (ec, ed), (ea, eb), d2, pts)
        for x, y in ((s1.reverse(), s2), (s1, s2.reverse()), (s2.reverse(), s1.reverse()), (s2, s1)):
            stat.op()
            stat.check(abs(float(x.distance(y)) - exp) <= tol, '%s: distance of %s and %s is %s, model %s', what, x, y, x.distance(y), exp)
    stat.seen('common point' if d2 == 0 else 'parallel' if parallel_vecs(sub(eb, ea), sub(ed, ec)) else 'apart')


def check_point(stat, a, b, p, dt='f8'):
    pts = [a, b, p]
    ea, eb, ep = (exact(np.asarray(q, dtype=dt).tolist()) for q in pts)
    d2 = dist2_point_segment(ep, ea, eb)
    exp = math.sqrt(d2)
    tol = tol_of(pts)
    s, q = mk_seg(a, b, dt), Point(p, dtype=dt)
    what = f'{pts} {dt}'
    judge(stat, what, s.shortest_segment(q), (ea, eb), (ep,), d2, pts)
    for x, y in ((s, q), (s.reverse(), q), (s, mk_seg(p, p, dt)), (mk_seg(p, p, dt), s)):
        stat.op()
        stat.check(abs(float(x.distance(y)) - exp) <= tol, '%s: distance of %s and %s is %s, model %s', what, x, y, x.distance(y), exp)
    stat.seen('on the segment' if d2 == 0 else 'inside' if 0 < point_segment_t(ea, eb, ep) < 1 else 'end')


def run_pairs(case, stat):
    a, scale, off, dt, n, dim = case
    L = lattice(n, dim)
    for b, c, d in itertools.product(L, repeat=3):
        if dim == 3 and n == 3 and c > d:
            continue
        w = place((a, b, c, d), scale, off)
        check_pair(stat, *w, dt=dt, full=(n == 2))


def run_points(case, stat):
    a, scale, off, dt, n, dim = case
    L = lattice(n, dim)
    ext = lattice(n + 2, dim, -1) if dt[0] != 'u' and dim < 4 else L
    for b, p in itertools.product(L, ext):
        w = place((a, b, p), scale, off)
        check_point(stat, *w, dt=dt)


def run_config(case, stat):
    """One segment against all segments of the family (long, short, nearly parallel, far away)"""
    i, j, scale, off = case
    a, b = FAMILY[i]
    c, d = FAMILY[j]
    check_pair(stat, *place((a, b, c, d), scale, off))


FAMILY = [((0, 0, 0), (1, 0, 0)), ((0, 0, 0), (0, 100, 0)), ((-50, 1, 2), (50, 1, 2)), ((0, 0, 0), (0, 0, 0)), ((3, 4, 0), (3, 4, 12)),
          ((0, 0, 0), (100, 1, 0)), ((0, 0, 1), (100, 0, 1)), ((0, 0, 0), (100, 100, 100)), ((7, 7, 7), (7, 7, 7)), ((1, -1, 1), (-1, 1, -1)),
          ((0, 1, 0), (-100, -1, 3)), ((10, 10, 10), (11, 11, 11)), ((-3, -3, -3), (-30, -30, -30)), ((0, 5, 0), (5, 0, 0)),
          ((2, 2, 0), (2, 2, 9)), ((0, 0, -4), (0, 0, 4)), ((1, 2, 3), (3, 6, 9)), ((-2, -4, -6), (-1, -2, -3)), ((6, 0, 2), (0, 6, 2)),
          ((40, -3, 8), (41, 90, -7))]


def run_curve(case, stat):
    """Segments and points of curves: views, mixed dtypes"""
    rows, dt = case
    c = Curve(np.array(rows, dtype=dt))
    g = c.segments
    for s, q in itertools.product(g, g):
        d2 = dist2_segments(*(exact(p) for p in (rows[s.idx], rows[s.idx + 1], rows[q.idx], rows[q.idx + 1])))
        stat.op(2)
        stat.check(near(float(s.distance(q)), math.sqrt(d2), 1e-6, 1e-6), '%s: %s %s: distance %s, model %s', rows, s, q, s.distance(q),
                   math.sqrt(d2))
        stat.check(near(float(s.distance(Segment(Point(q.p1), Point(q.p2)))), math.sqrt(d2), 1e-6, 1e-6), '%s: %s and free segment', rows, s)
    for s, p in itertools.product(g, c):
        d2 = dist2_point_segment(*(exact(x) for x in (rows[p.idx], rows[s.idx], rows[s.idx + 1])))
        stat.op()
        stat.check(near(float(s.distance(p)), math.sqrt(d2), 1e-6, 1e-6), '%s: %s %s: distance %s, model %s', rows, s, p, s.distance(p),
                   math.sqrt(d2))


INEXACT = {2: [(0.0, 0.0), (1 / 3, 0.1), (-0.7, 1 / 7), (0.9, -1 / 3), (2.3, 1.1), (-1.9, 0.77)],
           3: [(0.0, 0.0, 0.0), (1 / 3, 0.1, -0.3), (-0.7, 1 / 7, 0.6), (0.9, -1 / 3, 1.7), (2.3, 1.1, -1 / 9), (-1.9, 0.77, 0.2)]}


def run_inexact(case, stat):
    """Coordinates which are not exact, at all scales; points on and near the segments up to rounding"""
    dim, a, b, scale, shift = case
    P = [tuple(x * scale + shift * scale * (k + 1) for k, x in enumerate(p)) for p in INEXACT[dim]]
    pa, pb = P[a], P[b]
    on = [tuple(x + (y - x) * t for x, y in zip(pa, pb)) for t in (1 / 3, 0.9, -0.2, 1.4)]
    for c, d in itertools.product(range(len(P)), repeat=2):
        check_pair(stat, pa, pb, P[c], P[d], full=c < d)
    for q in on:
        check_point(stat, pa, pb, q)
        for p in P[1:5]:
            check_pair(stat, pa, pb, q, p, full=False)
        for r in on:
            check_pair(stat, pa, pb, q, r)
    for p in P:
        check_point(stat, pa, pb, p)


def run_types(case, stat):
    kind, = case
    s = mk_seg((0, 0), (1, 1))
    other = {'list': [1, 2], 'tuple': (1, 2), 'array': np.array([1.0, 2.0]), 'none': None, 'number': 1,
             'curve': Curve([(1, 2), (3, 4)])}[kind]
    stat.op(2)
    stat.check(raises(TypeError, s.distance, other), 'distance to %s is accepted', kind)
    stat.check(raises(TypeError, s.shortest_segment, other), 'shortest segment to %s is accepted', kind)


SCALES = (1, 0.1, 37.7, 1000, 2 ** -15)


def spaces(tier):
    deep = tier == 'thorough'

    def pairs():
        for sc, off in itertools.product(SCALES, OFFS):
            for a in lattice(2, 2):
                yield a, sc, off, 'f8', 2, 2
            for a in lattice(2, 1):
                yield a, sc, off, 'f8', 2, 1
        for sc, off in ((1, 'zero'), (0.1, 'minus'), (37.7, 'plus'), (2 ** -15, 'zero')):
            for a in lattice(3, 2):
                yield a, sc, off, 'f8', 3, 2
            for a in lattice(2, 3):
                if deep or (off, sc) == ('zero', 1):
                    yield a, sc, off, 'f8', 2, 3
            for a in lattice(4, 1):
                yield a, sc, off, 'f8', 4, 1
        for dt in ('i8', 'i4', 'i2', 'u1', 'u8', 'f4'):
            for a in lattice(2, 2):
                yield a, 3, 'plus', dt, 2, 2
            for a in lattice(2, 3):
                if deep:
                    yield a, 3, 'plus', dt, 2, 3
        if deep:
            for a in lattice(4, 2):
                yield a, 1, 'plus', 'f8', 4, 2
            for a in lattice(3, 3):
                yield a, 1, 'zero', 'f8', 3, 3
            for a in lattice(2, 4):
                yield a, 1, 'minus', 'f8', 2, 4

    def points():
        for sc, off in itertools.product(SCALES, OFFS if deep else ('zero', 'minus')):
            for a in lattice(3, 2):
                yield a, sc, off, 'f8', 3, 2
            for a in lattice(3, 1):
                yield a, sc, off, 'f8', 3, 1
        for a in lattice(2, 3):
            for off in OFFS:
                yield a, 1, off, 'f8', 2, 3
        for a in lattice(2, 4):
            yield a, 1, 'plus', 'f8', 2, 4
        for dt in ('i8', 'i4', 'i2', 'u1', 'u8', 'f4'):
            for a in lattice(2, 2):
                yield a, 3, 'plus', dt, 2, 2
        if deep:
            for a in lattice(3, 3):
                yield a, 1, 'plus', 'f8', 3, 3
    return [
        Space('pairs', pairs, run_pairs, 'all pairs of lattice segments in 1-4 dimensions with scales, places and dtypes'),
        Space('points', points, run_points, 'all lattice segments and points in and (up to three dimensions) around the lattice'),
        Space('family', lambda: [(i, j, sc, off) for i in range(len(FAMILY)) for j in range(len(FAMILY))
                                 for sc in (SCALES if deep else (0.1, 37.7)) for off in (OFFS if deep else ('zero', 'plus'))], run_config,
              'all pairs of a family of long, short, far, nearly parallel and singular segments'),
        Space('inexact', lambda: [(dim, a, b, sc, sh) for dim in (2, 3) for a in range(6) for b in range(6)
                                  for sc in ((1e-6, 1e-4, 1e-3, 0.7, 1e3, 1e5, 1e7, 1e10, 1e15) if deep else (1e-4, 1e5, 1e10)) for sh in ((0, 1 / 3, 100.1) if deep else (0, 100.1))],
              run_inexact, 'all pairs of segments over inexact points at scales from 1e-4 to 1e10, touching and collinear up to rounding'),
        Space('curve', lambda: [(w, dt) for w in itertools.product(((0, 0, 0), (4, 0, 1), (2, 3, 5), (2, 0, 3)), repeat=4)
                                for dt in ('f8', 'i4', 'u1')], run_curve, 'segments and points of curves'),
        Space('types', lambda: [(k,) for k in ('list', 'tuple', 'array', 'none', 'number', 'curve')], run_types, 'operands of wrong types'),
    ]
