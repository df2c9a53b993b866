# -*- coding: utf-8 -*-
import copy
import itertools

import numpy as np

from mc.core import Space
from mc.lib import Curve, Point, Segment, near, skcurve, same_rows, raises, LADDER_SHORT, NAN, INF

TITLE = 'Every accepted representation of the same data builds the same object'

DTS = ('f8', 'f4', 'f2', 'i8', 'i4', 'i2', 'i1', 'u8', 'u4', 'u2', 'u1', 'c16')


def rows_for(n, d):
    return [[(5 * i + 3 * k * k) % 13 + (i if k == 0 else 0) for k in range(d)] for i in range(n)]


def expect(stat, what, c, rows, ndim, dtype, t=None):
    stat.op()
    stat.check(type(c) is Curve, '%s: %r', what, c)
    stat.check(c.size == len(rows) and c.ndim == ndim, '%s: size %s, ndim %s; model %s, %s', what, c.size, c.ndim,
               len(rows), ndim)
    stat.check(c.dtype == np.dtype(dtype) == c.data.dtype, '%s: dtype %s, model %s', what, c.dtype, dtype)
    stat.check(c.data.shape == (len(rows), ndim), '%s: shape %s', what, c.data.shape)
    got = c.data.tolist()
    if FINE and rows and rows[0][0] in FINE and np.dtype(dtype).kind != 'c':
        rows = np.array(rows, dtype='f8').astype(dtype).tolist()
    stat.check(same_rows(got, [list(r) for r in rows]), '%s: points %s, model %s', what, got[:9], rows[:9])
    stat.check(c.isparametric == (t is not None), '%s: isparametric %s', what, c.isparametric)
    if t is not None:
        stat.check(c.t.tolist() == list(t) and c.t.dtype == np.float64, '%s: t %s, model %s', what, c.t, t)


# coordinates which rounding or single precision would change
FINE = [0.1, -1 / 3, 12345.678901234567, 2.7e-5, -1e6 / 7, 1 + 2 ** -52, 1e-9 / 3]


def fine_rows(n, d):
    return [[FINE[(i + 2 * k) % 7] for k in range(d)] for i in range(n)]


def refuse(stat, what, exc, func, *args, **kwargs):
    stat.op()
    try:
        r = func(*args, **kwargs)
    except exc:
        stat.validated += 1
        stat.seen('refused')
        return
    except Exception as err:
        stat.check(False, '%s: raised %s (%s) instead of %s', what, type(err).__name__, err, exc)
    stat.check(False, '%s: accepted, gave %r', what, r)


def layouts(rows, n, d, dt):
    """(name, array, axis) of every memory layout which holds the same points"""
    a = np.array(rows, dtype=dt).reshape(n, d)
    yield 'C', a.copy(), 0
    yield 'F', np.asfortranarray(a), 0
    yield 'negative axis', a.copy(), -2
    yield 'transposed', np.ascontiguousarray(a.T), 1
    yield 'transposed view', a.T, 1
    yield 'transposed, negative axis', a.T.copy(), -1
    wide = np.zeros((2 * n + 1, 2 * d + 1), dtype=dt)
    wide[::2, ::2][:n, :d] = a
    yield 'strided view', wide[::2, ::2][:n, :d], 0
    yield 'reversed view', a[::-1].copy()[::-1], 0
    yield 'reversed columns view', a[:, ::-1].copy()[:, ::-1], 0
    ro = a.copy()
    ro.flags.writeable = False
    yield 'read-only', ro, 0
    rec = np.zeros((n, d), dtype=np.dtype(dt).newbyteorder('>'))
    rec[...] = a
    # N-dimensional arrays: points along the axis, the rest is flattened
    if d == 4 and n:
        yield '3-d, axis 0', a.reshape(n, 2, 2), 0
        yield '3-d, axis 1', np.ascontiguousarray(a.reshape(n, 2, 2).transpose(1, 0, 2)), 1
        yield '3-d, axis 2', np.ascontiguousarray(a.reshape(n, 2, 2).transpose(1, 2, 0)), 2
        yield '3-d, axis -1', np.ascontiguousarray(a.reshape(n, 2, 2).transpose(1, 2, 0)), -1


def run_curve(case, stat):
    n, d, dt = case
    rows = rows_for(n, d)
    t = [0.5 * i * i - 1 for i in range(n)]
    tforms = [None] + ([t, tuple(t), np.array(t), np.array(t, dtype='f4')] if n else [[]])
    if dt == 'fine':
        rows, dt = fine_rows(n, d), 'f8'
        t = [-1 / 3, 0.1, 0.1 + 1e-12, 5.123456789012, 1e6 / 7, 1e6 / 7 + 1e-9][:n]
        tforms = [None] + ([t, tuple(t), np.array(t)] if n else [[]])

    for name, arr, axis in layouts(rows, n, d, dt):
        if n == 0 and axis in (1, -1):
            pass
        for tf in (None, t):
            expect(stat, f'{name} array', Curve(arr, axis=axis, tdata=tf), rows, d, dt, tf)
            if axis == 0:
                expect(stat, f'{name} array, default axis', Curve(arr, tdata=tf), rows, d, dt, tf)
            stat.seen(name)
        for other in ('f8', 'i4', np.float32, float, int, np.dtype('i8')):
            if dt == 'c16':
                continue
            expect(stat, f'{name} array, dtype={other}', Curve(arr, axis=axis, dtype=other), rows, d, other)
        for nd in range(2, 7):
            exp = [r + [0] * max(nd - d, 0) for r in rows]
            expect(stat, f'{name} array, ndmin={nd}', Curve(arr, axis=axis, ndmin=nd, tdata=t), exp, max(nd, d), dt, t)
        for bad in (arr.ndim, arr.ndim + 1, -arr.ndim - 1):
            if n:
                refuse(stat, f'{name}: axis={bad}', ValueError, Curve, arr, axis=bad)

    # sequences of coordinates (or of points, with axis=0)
    if n:
        cols = [[r[k] for r in rows] for k in range(d)]
        seqs = [('lists', cols), ('tuples', tuple(map(tuple, cols))), ('arrays', [np.array(c, dtype=dt) for c in cols]),
                ('mixed', [cols[0]] + [np.array(c, dtype=dt) for c in cols[1:]])]
        for nm, seq in seqs:
            if dt == 'c16' and nm in ('arrays', 'mixed'):
                continue
            for tf in tforms:
                expect(stat, nm, Curve(seq, tdata=tf), rows, d, 'f8', None if tf is None else t)
            expect(stat, nm + ' axis=1', Curve(seq, axis=1), rows, d, 'f8')
            expect(stat, nm + ' axis=-1', Curve(seq, axis=-1), rows, d, 'f8')
            expect(stat, nm + ' dtype', Curve(seq, dtype=dt), rows, d, dt)
            expect(stat, nm + ' ndmin', Curve(seq, ndmin=d + 1, dtype=dt), [r + [0] for r in rows], d + 1, dt)
            stat.seen(nm)
        for nm, seq in (('rows', rows), ('tuple rows', [tuple(r) for r in rows]), ('points', [Point(r) for r in rows])):
            expect(stat, nm + ' axis=0', Curve(seq, axis=0), rows, d, 'f8')
            expect(stat, nm + ' axis=-2', Curve(seq, axis=-2, dtype='f4'), rows, d, 'f4')

    # curves
    for tf in (None, t):
        src = Curve(np.array(rows, dtype=dt).reshape(n, d), tdata=tf)
        for nm, f in (('Curve(curve)', Curve), ('copy', copy.copy), ('deepcopy', copy.deepcopy)):
            r = f(src)
            expect(stat, nm, r, rows, d, dt, tf)
            stat.check(r is not src, '%s is the same object', nm)
        if dt != 'c16':
            expect(stat, 'Curve(curve, dtype)', Curve(src, dtype='f4'), rows, d, 'f4', tf)
        expect(stat, 'Curve(curve, ndmin)', Curve(src, ndmin=d + 2), [r + [0, 0] for r in rows], d + 2, dt, tf)
        # tdata and axis are documented as ignored for curves
        expect(stat, 'Curve(curve, tdata)', Curve(src, tdata=[9.] * n), rows, d, dt, tf)
        expect(stat, 'Curve(curve, axis)', Curve(src, axis=1), rows, d, dt, tf)

    # refusals
    arr = np.array(rows, dtype=dt).reshape(n, d)
    for bad in (t + [1.0], t[:-1] if n > 1 else [1.0, 2.0], [t] if n != 1 else [[1.0]], 5.0):
        if n == 0 and isinstance(bad, list) and len(bad) == 0:
            continue
        refuse(stat, f'tdata {bad}', ValueError, Curve, arr, tdata=bad)
    for bad in (1, 0, -1):
        refuse(stat, f'ndmin={bad}', ValueError, Curve, arr, ndmin=bad)
    for bad in (str, 'U4', object, bool, 'M8[s]', np.bool_, 'S3'):
        refuse(stat, f'dtype={bad}', ValueError, Curve, arr, dtype=bad)
    if n:
        refuse(stat, '1-d array', ValueError, Curve, arr[:, 0].copy())
        refuse(stat, 'one column', ValueError, Curve, arr[:, :1].copy())
        refuse(stat, 'one list of coordinates', ValueError, Curve, [list(arr[:, 0])])
        refuse(stat, 'bool array', ValueError, Curve, arr.astype(bool))
        refuse(stat, 'str array', ValueError, Curve, arr.astype(str))
        refuse(stat, 'object array', ValueError, Curve, arr.astype(object))


def run_empty(case, stat):
    name, nd, dt = case
    forms = {
        '[]': ([], 2), '[[], []]': ([[], []], 2), '()': ((), 2), '[[], [], []]': ([[], [], []], None),
        'np.array([])': (np.array([], dtype=dt), 2), 'zeros((0, 2))': (np.zeros((0, 2), dtype=dt), 2),
        'zeros((0, 3))': (np.zeros((0, 3), dtype=dt), 3), 'zeros((0, 4))': (np.zeros((0, 4), dtype=dt), 4),
        'Curve([])': (Curve([], dtype=dt), 2), 'Curve 3d': (Curve(np.zeros((0, 3), dtype=dt)), 3),
        'slice': (Curve(np.zeros((2, 3), dtype=dt))[2:], 3),
    }
    data, d = forms[name]
    own = isinstance(data, (np.ndarray, Curve))
    if d is None:
        c = Curve(data)
        stat.op()
        stat.check(c.size == 0 and c.ndim >= 2 and c.dtype == np.float64 and not c, 'empty: %r', c)
        return
    edt = dt if own else 'f8'
    expect(stat, name, Curve(data), [], d, edt)
    expect(stat, name + ' ndmin', Curve(data, ndmin=nd), [], max(d, nd), edt)
    expect(stat, name + ' dtype', Curve(data, dtype='i4'), [], d, 'i4')
    c = Curve(data)
    stat.check(not c and list(c) == [] and c.arclen == 0 and len(c.segments) == 0, 'empty curve behaves as empty')
    if not isinstance(data, Curve):
        expect(stat, name + ' tdata', Curve(data, tdata=[]), [], d, edt, [])
        refuse(stat, name + ' bad tdata', ValueError, Curve, data, tdata=[1.0])


def run_point(case, stat):
    d, dt = case
    vals = [3, 1, 4, 1, 5][:d]
    fine = dt == 'fine'
    if fine:
        vals, dt = FINE[:d], 'f8'

    def check(what, p, dtype):
        stat.op()
        stat.check(type(p) is Point and p.ndim == d == len(p) and p.dtype == np.dtype(dtype) and
                   p.data.tolist() == np.array(vals).astype(dtype).tolist() and p.data.shape == (d,), '%s: %r, model %s %s', what, p, vals, dtype)

    arr = np.array(vals, dtype=dt)
    wide = np.zeros(2 * d + 1, dtype=dt)
    wide[1::2] = vals
    forms = [('list', vals), ('tuple', tuple(vals)), ('array', arr), ('strided', wide[1::2]), ('reversed', arr[::-1].copy()[::-1]),
             ('point', Point(vals, dtype=dt)), ('range-like', [np.dtype(dt).type(v) for v in vals])]
    if d >= 2:
        forms.append(('curve point', Curve(np.array([[0] * d, vals], dtype=dt))[1]))
    for nm, f in forms:
        if dt == 'c16':
            check(nm, Point(f, dtype='c16'), 'c16')
            continue
        check(nm, Point(f), 'f8')
        for other in ('f8', 'f4', 'i8', 'i2', float, int, np.float32):
            check(f'{nm} dtype={other}', Point(f, dtype=other), other)
        stat.seen(nm)
    if dt != 'c16':
        p = Point(vals, dtype=dt)
        for f in (copy.copy, copy.deepcopy):
            r = f(p)
            stat.check(r is not p and r.data.tolist() == vals, 'copy of the point: %r', r)
    refuse(stat, '2-d data', ValueError, Point, [vals, vals] if d else [[1, 2], [3, 4]])
    refuse(stat, '2-d array', ValueError, Point, np.zeros((1, max(d, 1))))
    for bad in (str, 'U4', object, bool, 'M8[s]', np.bool_):
        refuse(stat, f'dtype={bad}', ValueError, Point, vals, dtype=bad)


def run_segment(case, stat):
    d, dt = case
    a, b = [1, 2, 3, 4][:d], [4, 6, 3, -1][:d]
    if dt == 'fine':
        a, b, dt = FINE[:d], FINE[3:3 + d], 'f8'
    p, q = Point(a, dtype=dt), Point(b, dtype=dt)
    s = Segment(p, q)
    stat.op(6)
    stat.check(s.p1.data.tolist() == a and s.p2.data.tolist() == b and s.ndim == d, 'ends %r', s)
    stat.check(s.data.tolist() == [a, b], 'data %s', s.data)
    stat.check(s.direction.data.tolist() == [y - x for x, y in zip(a, b)], 'direction %s', s.direction)
    stat.check(near(float(s.dot), sum(x * y for x, y in zip(a, b)), 1e-12, 1e-12), 'dot %s', s.dot)
    stat.check(abs(float(s.seglen) - sum((y - x) ** 2 for x, y in zip(a, b)) ** .5) < (1e-5 if dt != 'f8' else 1e-9), 'seglen %s', s.seglen)
    r = s.reverse()
    stat.check(r.p1.data.tolist() == b and r.p2.data.tolist() == a, 'reverse %r', r)
    stat.check(not s.singular and Segment(p, p).singular, 'singular')
    if d >= 2:
        c = s.to_curve()
        stat.check(type(c) is Curve and c.data.tolist() == [a, b] and not c.isparametric, 'to_curve %r', c)
        c2 = Curve(np.array([a, b, a], dtype=dt), tdata=[0, 1, 5])
        c = c2.segments[1].to_curve()
        stat.check(c.data.tolist() == [b, a], 'to_curve of the curve segment %r', c)
        m = Segment(c2[0], q)
        stat.check(m.data.tolist() == [a, b], 'segment from curve point %r', m)
    refuse(stat, 'list end', TypeError, Segment, a, q)
    refuse(stat, 'list end', TypeError, Segment, p, b)
    refuse(stat, 'None end', TypeError, Segment, p, None)
    refuse(stat, 'different dimensions', ValueError, Segment, p, Point(b + [1]))
    refuse(stat, 'different dimensions', ValueError, Segment, Point(a + [1]), q)
    refuse(stat, 'zero dimension', ValueError, Segment, Point([]), Point([]))


def run_sizes(case, stat):
    n, d, dt = case
    rows = rows_for(n, d)
    t = [0.25 * i for i in range(n)]
    for name, arr, axis in layouts(rows, n, d, dt):
        expect(stat, f'n={n} {name}', Curve(arr, axis=axis, tdata=t), rows, d, dt, t)
    expect(stat, f'n={n} lists', Curve([[r[k] for r in rows] for k in range(d)], ndmin=d + 1, tdata=np.array(t)),
           [r + [0] for r in rows], d + 1, 'f8', t)


def run_special(case, stat):
    """NaN, infinite, signed-zero, huge and tiny values are kept"""
    vals = [NAN, INF, -INF, 1e300, 5e-324, -1.5, 2 ** 53 + 1.0]
    rows = [[vals[i], vals[j]] for i, j in itertools.product(range(len(vals)), repeat=2)]
    for n in (1, 2, len(rows)):
        for name, arr, axis in layouts(rows[:n], n, 2, 'f8'):
            expect(stat, name, Curve(arr, axis=axis), rows[:n], 2, 'f8')
        expect(stat, 'lists', Curve([[r[0] for r in rows[:n]], [r[1] for r in rows[:n]]]), rows[:n], 2, 'f8')
    big = [[2 ** 62 + 1, -2 ** 62 - 3], [2 ** 53 + 1, 7]]
    expect(stat, 'big ints', Curve(np.array(big)), big, 2, 'i8')
    expect(stat, 'big ints copy', Curve(Curve(np.array(big))), big, 2, 'i8')
    for i in range(len(vals)):
        stat.op()
        stat.check(same_rows(Point([vals[i], 1.0]).data.tolist(), [vals[i], 1.0]), 'point %s', vals[i])


def spaces(tier):
    deep = tier == 'thorough'
    return [
        Space('curve', lambda: [(n, d, dt) for n in range(0, 7 if deep else 5) for d in (2, 3, 4) for dt in DTS + ('fine',)], run_curve,
              'all layouts x axis x dtype x ndmin x tdata forms for 0-4 points, 2-4 dimensions, 12 dtypes'),
        Space('empty', lambda: [(nm, nd, dt) for nm in ('[]', '[[], []]', '()', '[[], [], []]', 'np.array([])',
                                'zeros((0, 2))', 'zeros((0, 3))', 'zeros((0, 4))', 'Curve([])', 'Curve 3d', 'slice')
                                for nd in (2, 3, 4, 5) for dt in ('f8', 'f4', 'i8', 'u1')], run_empty,
              'all representations of no points'),
        Space('point', lambda: [(d, dt) for d in range(0, 6) for dt in DTS + ('fine',)], run_point, 'points of 0-5 dimensions'),
        Space('segment', lambda: [(d, dt) for d in range(1, 5) for dt in ('f8', 'f4', 'i8', 'i4', 'i1', 'fine')], run_segment,
              'segments of 1-4 dimensions'),
        Space('sizes', lambda: [(n, d, dt) for n in LADDER_SHORT for d, dt in ((2, 'f8'), (3, 'i4'), (4, 'f4'))], run_sizes,
              'layouts on a ladder of sizes'),
        Space('special', lambda: [0], run_special, 'non-finite, huge and tiny values in every layout'),
    ]
