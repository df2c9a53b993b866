# -*- coding: utf-8 -*-
import itertools

import numpy as np

from mc.core import Space
from mc.lib import Curve, Point, Segment, near_seq, near, lattice, mk_seg, collinear_exact, intersect_exact, lerp

TITLE = 'The overlap of collinear segments is the intersection of two intervals'
ASSUMPTIONS = ['coordinates on the line are exact in the dtype']

DIRS = {1: [(1,), (-2,)],
        2: [(1, 0), (0, 1), (1, 1), (1, -1), (-1, 2), (2, 1), (-3, -1), (0, -2), (-1, 0), (5, -3)],
        3: [(1, 0, 0), (0, 1, 0), (0, 0, -1), (1, 1, 1), (1, -1, 0), (-1, 2, -3), (0, 1, -1), (1, 1, -1), (-1, -1, -1), (2, -1, 1),
            (-1, 0, 2)],
        4: [(1, 0, 0, 0), (1, -1, 1, -1), (0, 0, 2, -1), (-1, -2, -3, -4), (0, 0, 0, -1)]}
OFFS = {'zero': (0, 0, 0, 0), 'plus': (20, 30, 7, 11), 'minus': (-9, -3, -40, -5), 'mixed': (1000, -3, 0, 5)}


def check_overlap(stat, what, s1, s2, exp, tol=1e-9, check=(False, True)):
    """exp: None or (lo, hi) ends of the overlap, in any order"""
    for kw in [{}] + [{'check_collinear': x} for x in check]:
        stat.op()
        o = s1.overlap(s2, **kw)
        if exp is None:
            stat.check(o is None, '%s %s: overlap %s, model: nothing', what, kw, o)
            continue
        stat.check(type(o) is Segment, '%s %s: overlap %r, model %s', what, kw, o, exp)
        lo, hi = [float(x) for x in exp[0]], [float(x) for x in exp[1]]
        a, b = o.p1.data.tolist(), o.p2.data.tolist()
        stat.check(near_seq(a, lo, tol, tol) and near_seq(b, hi, tol, tol) or
                   near_seq(a, hi, tol, tol) and near_seq(b, lo, tol, tol), '%s %s: overlap %s, model %s %s', what, kw, o, lo, hi)
        stat.check(o.ndim == s1.ndim, '%s: dimension', what)
        if lo == hi:
            stat.check(bool(o.singular) and o.seglen == 0, '%s: touching segments must have a singular overlap %s', what, o)


def interval(params):
    a, b, c, d = params
    lo, hi = max(min(a, b), min(c, d)), min(max(a, b), max(c, d))
    return None if lo > hi else (lo, hi)


def run_line(case, stat):
    d, direction, off, dt, scale, params = case
    o = OFFS[off][:d]

    def at(k):
        return [x + scale * k * v for x, v in zip(o, direction)]
    pts = [at(k) for k in params]
    if dt[0] == 'u' and min(min(p) for p in pts) < 0 or dt == 'u1' and max(max(p) for p in pts) > 255:
        stat.seen('outside of the dtype')
        return
    iv = interval(params)
    exp = None if iv is None else (at(iv[0]), at(iv[1]))
    s1, s2 = mk_seg(pts[0], pts[1], dt), mk_seg(pts[2], pts[3], dt)
    check_overlap(stat, f'{pts} {dt}', s1, s2, exp)
    check_overlap(stat, f'{pts} {dt} swapped', s2, s1, exp, check=())
    stat.seen('nothing' if exp is None else 'point' if iv[0] == iv[1] else 'segment')


INEXACT = {1: [(1 / 3,), (-0.7,)], 2: [(1 / 3, 0.1), (-0.7, 1 / 7), (0.3, -1.9)], 3: [(1 / 3, 0.1, -0.3), (-0.7, 1 / 7, 0.6), (0.0, 1.1, -1 / 9), (1 / 7, 0.0, 0.0)],
           4: [(1 / 3, 0.1, -0.3, 0.7), (0.0, -0.7, 0.0, 0.1)]}
SHIFTS = [(0.0, 0.0, 0.0, 0.0), (0.1, 1 / 3, -0.7, 2.2), (-7.7, 0.0, 1 / 9, -0.3), (31.1, -77.7, 99.9, 55.5)]


def run_inexact(case, stat):
    """Intervals on lines whose direction and place are not exact; equal parameters give equal points"""
    d, k, shift, scale, params = case
    direction = INEXACT[d][k]

    def at(t):
        return [(o + t * v) * scale for o, v in zip(SHIFTS[shift], direction)]
    pts = [at(t) for t in params]
    iv = interval(params)
    exp = None if iv is None else (at(iv[0]), at(iv[1]))
    s1, s2 = mk_seg(pts[0], pts[1]), mk_seg(pts[2], pts[3])
    for s, q, what in ((s1, s2, ''), (s2, s1, ' swapped')):
        stat.op()
        o = s.overlap(q)
        if exp is None:
            stat.check(o is None, '%s%s: overlap %s, model: nothing', pts, what, o)
        elif iv[0] == iv[1] and o is None:
            # a common end, computed in floating arithmetic from both sides
            stat.seen('touching is lost by rounding')
        else:
            stat.check(type(o) is Segment, '%s%s: overlap %r, model %s', pts, what, o, exp)
            tol = 1e-6 * scale
            a, b = o.p1.data.tolist(), o.p2.data.tolist()
            stat.check(near_seq([a, b], list(exp), 0, tol) or near_seq([b, a], list(exp), 0, tol), '%s%s: overlap %s, model %s', pts, what, o, exp)
    stat.seen('nothing' if exp is None else 'point' if iv[0] == iv[1] else 'segment')


def run_skew(case, stat):
    """Pairs which are not collinear never overlap when the collinearity is checked"""
    word, dt, off = case
    w = [[x + o for x, o in zip(p, OFFS[off])] for p in word]
    s1, s2 = mk_seg(w[0], w[1], dt), mk_seg(w[2], w[3], dt)
    stat.op()
    if not collinear_exact(w):
        o = s1.overlap(s2, check_collinear=True)
        stat.check(o is None, '%s: overlap of segments which are not collinear %s', w, o)
        stat.seen('not collinear')
        return
    r = intersect_exact(*w)
    check_overlap(stat, f'{w} {dt}', s1, s2, None if r[0] == 'NONE' else (r[1], r[2]))
    stat.seen(r[0])


def run_curve(case, stat):
    """Segments of a curve which folds on a line"""
    d, direction, params = case
    rows = [[5 + k * v for v in direction] for k in params]
    c = Curve(np.array(rows, dtype='f8'))
    g = c.segments
    for i, j in itertools.product(range(len(g)), repeat=2):
        iv = interval((params[i], params[i + 1], params[j], params[j + 1]))
        exp = None if iv is None else ([5 + iv[0] * v for v in direction], [5 + iv[1] * v for v in direction])
        check_overlap(stat, f'{rows} {i} {j}', g[i], g[j], exp)
        r = g[i].intersect(g[j])
        stat.check(bool(r) == (exp is not None), '%s: intersection of %s %s', rows, i, j)
        if exp:
            stat.check(near(float(r.intersect_segment.seglen), float(g[i].overlap(g[j]).seglen)), '%s: overlap and intersection', rows)
            mid = [float(x) for x in lerp(exp[0], exp[1], 0.5)]
            stat.check(near_seq(r.intersect_point.data.tolist(), mid, 1e-9, 1e-9), '%s: middle point of the overlap', rows)


def spaces(tier):
    deep = tier == 'thorough'
    allp = list(itertools.product(range(5 if deep else 4), repeat=4))

    def line():
        for d, dirs in DIRS.items():
            for v in dirs:
                for off in OFFS:
                    for p in (allp if off in ('zero', 'plus') or deep else itertools.product((0, 1, 3), repeat=4)):
                        yield d, v, off, 'f8', 1, p
        for d in (2, 3):
            for v in DIRS[d]:
                for dt in ('i8', 'i4', 'i2', 'u1', 'u4', 'u8', 'f4'):
                    for p in itertools.product((0, 1, 2), repeat=4):
                        yield d, v, 'plus', dt, 3, p
                for sc in (0.25, 1000):
                    for p in itertools.product((0, 1, 2), repeat=4):
                        yield d, v, 'minus', 'f8', sc, p

    def skew():
        for w in itertools.product(lattice(2, 2), repeat=4):
            for off in OFFS:
                yield w, 'f8', off
            yield w, 'i8', 'plus'
            yield w, 'u1', 'plus'
        for w in itertools.product(lattice(3, 2), repeat=4):
            if deep or w[0] in ((0, 0), (1, 1)):
                yield w, 'f8', 'plus'
        for w in itertools.product(lattice(2, 3), repeat=4):
            if deep or not any(w[0]):
                yield w, 'f8', 'minus'
        for w in itertools.product(lattice(3, 3), repeat=1):
            for q in ((0, 0, 0), (1, 1, 1), (2, 2, 2), (2, 1, 0)):
                yield ((0, 0, 0), (2, 2, 2)) + w + (q,), 'f8', 'mixed'
    return [
        Space('line', line, run_line, 'all pairs of intervals on lines of all directions, orientations, places and dtypes'),
        Space('inexact', lambda: [(d, k, sh, sc, p) for d in INEXACT for k in range(len(INEXACT[d])) for sh in range(4)
                                  for sc in ((1e-5, 1e-3, 0.1, 1, 1e3, 1e6, 1e9, 1e12) if deep else (1e-3, 1, 1e6, 1e10))
                                  for p in itertools.product((0.0, 1 / 3, 0.7, 1.1) if not deep else (0.0, 1 / 3, 0.7, 1.1, 2.3), repeat=4)],
              run_inexact, 'all pairs of intervals on lines of inexact directions and places, scales from 1e-3 to 1e10'),
        Space('skew', skew, run_skew, 'pairs of lattice segments, collinear or not'),
        Space('curve', lambda: [(d, v, p) for d in (2, 3) for v in DIRS[d] for p in itertools.product(range(3), repeat=4)],
              run_curve, 'segments of curves which fold on a line'),
    ]
