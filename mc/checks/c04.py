# -*- coding: utf-8 -*-
import itertools

import numpy as np

from mc.core import Space
from mc.editing import make
from mc.lib import Curve, Point, skcurve, same_rows, LADDER, LADDER_SHORT

TITLE = 'Curves and points are sequences, with index-aware point and segment views'
BAD = (TypeError, IndexError)


def rows_of(c):
    return c.data.tolist()


def refuse(stat, what, func):
    stat.op()
    try:
        r = func()
    except BAD:
        stat.validated += 1
        return
    stat.check(False, '%s: gave %r instead of IndexError or TypeError', what, r)


def check_view(stat, c, m, i, cp, what):
    """cp is the view of the point i >= 0"""
    stat.check(isinstance(cp, skcurve.CurvePoint), '%s: not a curve point: %r', what, cp)
    stat.check(int(cp.idx) == i, '%s: idx %s', what, cp.idx)
    stat.check(cp.curve is c, '%s: curve is other', what)
    stat.check(cp.data.tolist() == m.rows[i], '%s: data %s, model %s', what, cp.data, m.rows[i])
    stat.check(cp.ndim == m.ndim and len(cp) == m.ndim, '%s: ndim %s', what, cp.ndim)
    if m.t is not None:
        stat.check(cp.t == m.t[i], '%s: t %s, model %s', what, cp.t, m.t[i])
    else:
        stat.check(cp.t == c.t[i] == c.cumarclen[i], '%s: t %s', what, cp.t)


def check_sub(stat, m, idx, c, what):
    stat.op()
    exp = [m.rows[i] for i in idx]
    stat.check(isinstance(c, Curve) and c.size == len(idx) and c.ndim == m.ndim and c.dtype == m.dtype,
               '%s: shape or type %r', what, c)
    stat.check(rows_of(c) == exp, '%s: points %s, model %s', what, rows_of(c), exp)
    stat.check(c.isparametric == (m.t is not None), '%s: isparametric', what)
    if m.t is not None:
        stat.check(c.t.tolist() == [m.t[i] for i in idx], '%s: t', what)


def scalars(c, m, stat, ints):
    n, d = m.n, m.ndim
    stat.check(len(c) == n == c.size, 'len %s, model %s', len(c), n)
    stat.check(bool(c) is (n > 0), 'bool %s for size %s', bool(c), n)
    stat.check(c.is2d == (d == 2) and c.is3d == (d == 3) and c.isspatial == (d > 2), 'is2d/is3d/isspatial')
    for i in ints:
        for typ in (int, np.int64, np.int32, np.int8, np.uint8):
            if typ is np.uint8 and not 0 <= i < 250 or typ is np.int8 and not -120 <= i < 120:
                continue
            if -n <= i < n:
                stat.op()
                check_view(stat, c, m, i % n, c[typ(i)], f'c[{typ.__name__}({i})]')
                stat.seen('point')
            else:
                refuse(stat, f'c[{typ.__name__}({i})]', lambda: c[typ(i)])
                stat.seen('index refused')

    pts = list(c)
    stat.check(len(pts) == n, 'iteration gives %s points', len(pts))
    for i, p in enumerate(pts):
        check_view(stat, c, m, i, p, f'iteration {i}')
    stat.check([p.data.tolist() for p in reversed(c)] == m.rows[::-1], 'reversed iteration')
    stat.check([int(p.idx) for p in reversed(c)] == list(range(n))[::-1], 'reversed iteration idx')

    segs = c.segments
    stat.op()
    stat.check(len(segs) == max(n - 1, 0), '%s segments of %s points', len(segs), n)
    for i, s in enumerate(segs):
        stat.check(isinstance(s, skcurve.CurveSegment) and int(s.idx) == i and s.curve is c, 'segment %s idx/curve', i)
        check_view(stat, c, m, i, s.p1, f'segment {i} p1')
        check_view(stat, c, m, i + 1, s.p2, f'segment {i} p2')
        stat.check(s.data.tolist() == [m.rows[i], m.rows[i + 1]] and s.ndim == d, 'segment %s data', i)
    m1 = n - 1
    for i in [k for k in ints if n < 10 or abs(k) >= n - 3 or abs(k) < 2]:
        if -m1 <= i < m1:
            s = skcurve.CurveSegment(c, i)
            stat.check(int(s.idx) == i % m1 and s.data.tolist() == [m.rows[i % m1], m.rows[i % m1 + 1]],
                       'CurveSegment(c, %s): idx %s data %s', i, s.idx, s.data.tolist())
        else:
            stat.op()
            try:
                s = skcurve.CurveSegment(c, i)
            except (ValueError, IndexError):
                stat.validated += 1
            else:
                stat.check(False, 'CurveSegment(c, %s) of %s points gave %r', i, n, s)

    cols = [[r[k] for r in m.rows] for k in range(d)]
    for k in range(-d, d):
        stat.op()
        stat.check(c.values(k).tolist() == cols[k], 'values(%s): %s', k, c.values(k))
    for ax in skcurve.Axis:
        if ax < d:
            stat.check(c.values(ax).tolist() == cols[int(ax)], 'values(%s)', ax)
    stat.check([v.tolist() for v in c.values()] == cols, 'values()')
    for bad in (d, d + 1, 'x', 1.0):
        stat.op()
        try:
            r = c.values(bad)
        except ValueError:
            stat.validated += 1
        else:
            stat.check(False, 'values(%r) gave %r instead of ValueError', bad, r)


def run_curve(case, stat):
    n, d, dt, par = case
    m, c = make(n, d, dt, par)
    scalars(c, m, stat, range(-2 * n - 3, 2 * n + 4))

    bounds = [None] + list(range(-n - 2, n + 3))
    for a in bounds:
        for b in bounds:
            for st in (None, 1, 2, 3, n + 1, -1, -2, -3):
                idx = list(range(n))[a:b:st]
                check_sub(stat, m, idx, c[a:b:st], f'c[{a}:{b}:{st}]')
                stat.seen(f'slice of {len(idx)}')
    for length in (1, 2):
        for q in itertools.product(range(-n - 1, n + 1), repeat=length):
            forms = (list(q), tuple(q), np.array(q), np.array(q, dtype=np.int16))
            if all(-n <= i < n for i in q):
                for f in forms:
                    check_sub(stat, m, [i % n for i in q], c[f], f'c[{f!r}]')
            else:
                refuse(stat, f'c[{q}]', lambda: c[list(q)])
    if n <= 5:
        for mask in itertools.product((False, True), repeat=n):
            idx = [i for i in range(n) if mask[i]]
            check_sub(stat, m, idx, c[np.array(mask, dtype=bool)], f'c[mask {mask}]')
            if n:
                check_sub(stat, m, idx, c[list(mask)], f'c[list mask {mask}]')
            stat.seen(f'mask of {len(idx)}')
        for bad in ([True] * (n + 1), [False] * (n + 1) + [True]):
            refuse(stat, f'c[{bad}]', lambda: c[np.array(bad)])
    for bad in (1.5, None, 'a', 2j, {0}, {0: 1}, np.float64(0), object(), [[0]], [['a']], ['a'], np.zeros((1, 1), int)):
        refuse(stat, f'c[{bad!r}]', lambda: c[bad])

    for i in range(n):
        for j in range(n):
            for e in (True, False):
                for a, b in ((i, j), (i - n, j - n)):
                    idx = list(range(i, j + (1 if e else 0)))
                    check_sub(stat, m, idx, c[a].subcurve(c[b], endpoint=e), f'c[{a}].subcurve(c[{b}], {e})')
        check_sub(stat, m, list(range(i, n)), c[i].subcurve(c[-1]), f'c[{i}].subcurve(c[-1])')
    if n:
        other = Curve(c)
        for bad, exc in ((other[0], ValueError), (Point(m.rows[0]), TypeError), (0, TypeError), (c, TypeError)):
            stat.op()
            try:
                r = c[0].subcurve(bad)
            except exc:
                stat.validated += 1
            else:
                stat.check(False, 'subcurve(%r) gave %r', bad, r)


def run_sizes(case, stat):
    n, d, dt, par = case
    m, c = make(n, d, dt, par)
    near_ends = sorted({-2 * n, -n - 1, -n, -n + 1, -1, 0, 1, n // 2, n - 2, n - 1, n, n + 1, 2 * n})
    scalars(c, m, stat, near_ends)
    for a in [None] + near_ends:
        for b in [None] + near_ends:
            for st in (None, 2, 7, -1, -3):
                check_sub(stat, m, list(range(n))[a:b:st], c[a:b:st], f'c[{a}:{b}:{st}]')
    for q in ([0, -1], list(range(-n, 0)), [n - 1, 0, n // 2]):
        check_sub(stat, m, [i % n for i in q], c[q], f'c[{q[:5]}..]')


def run_point(case, stat):
    d, dt = case
    vals = [3, -1, 4, 1, -5, 9][:d]
    p = Point(vals, dtype=dt)
    stat.check(len(p) == d == p.ndim, 'len %s', len(p))
    stat.check(bool(p) is (d > 0), 'bool %s', bool(p))
    stat.check([float(v) for v in p] == vals and [float(v) for v in reversed(p)] == vals[::-1], 'iteration')
    for i in range(-2 * d - 2, 2 * d + 3):
        if -d <= i < d:
            stat.op()
            stat.check(float(p[i]) == vals[i] and float(p[np.int64(i)]) == vals[i], 'p[%s] = %s', i, p[i])
            stat.check(p[i].dtype == p.dtype, 'p[%s] dtype', i)
        else:
            refuse(stat, f'p[{i}]', lambda: p[i])
    bounds = [None] + list(range(-d - 1, d + 2))
    for a in bounds:
        for b in bounds:
            for st in (None, 1, 2, -1, -2):
                stat.op()
                q = p[a:b:st]
                stat.check(isinstance(q, Point) and q.data.tolist() == vals[a:b:st] and q.dtype == p.dtype,
                           'p[%s:%s:%s] = %r', a, b, st, q)
                stat.seen(f'slice of {len(q)}')
    for q in itertools.product(range(-d, d), repeat=2):
        stat.op()
        r = p[list(q)]
        stat.check(isinstance(r, Point) and r.data.tolist() == [vals[i] for i in q], 'p[%s] = %r', q, r)
    for bad in (1.5, 'a', {0}, object()):
        refuse(stat, f'p[{bad!r}]', lambda: p[bad])
    # the protocol of a sequence, as the methods which it inherits
    for v in set(vals):
        stat.check(p.index(v) == vals.index(v) and p.count(v) == vals.count(v) and v in p, 'index/count/in of %s', v)
    stat.check(p.count(77) == 0 and 77 not in p, 'index/count/in of an absent coordinate')


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('curve', lambda: [(n, d, dt, par) for n in range(0, 9 if deep else 7) for d in (2, 3, 4)
                                for dt in (('f8', 'i4', 'f4') if deep else ('f8', 'i4')) for par in (False, True)],
              run_curve, 'all integers, slices, index lists of 1-2, masks, sub-curves for curves of 0-6 points (0-8 deep)'),
        Space('point', lambda: [(d, dt) for d in range(0, 7) for dt in ('f8', 'f4', 'i8', 'i2')], run_point,
              'all integers, slices and index pairs for points of 0-6 dimensions'),
        Space('sizes', lambda: [(n, d, dt, par) for n in (LADDER if deep else LADDER_SHORT) for d, dt in ((2, 'f8'), (3, 'i8'))
                                for par in (False, True)], run_sizes,
              'indices and slices near both ends and the middle on a ladder of sizes up to 1025 points'),
    ]
