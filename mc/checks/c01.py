# -*- coding: utf-8 -*-
import copy
import itertools
import operator

import numpy as np

import skcurve
from mc.core import Space
from mc.lib import Curve, Point, Segment, LADDER_SHORT, NAN, raises

TITLE = 'Curves, points and segments are immutable and share no memory with callers'
ASSUMPTIONS = ['derived, cached value arrays (chord lengths, derivatives) are not the data of the curve',
               'only public attributes and operations are used; flags of arrays are not forced by the caller']


# ------------------------------------------------------------------ snapshots

def snap(obj):
    """Everything which must never change, bit by bit"""
    if isinstance(obj, Curve):
        return ('curve', obj.data.tobytes(), obj.data.shape, str(obj.data.dtype), obj.size, obj.ndim, obj.isparametric,
                obj.t.tobytes() if obj.isparametric else None, len(obj))
    if isinstance(obj, Point):
        s = ('point', obj.data.tobytes(), obj.data.shape, str(obj.data.dtype), obj.ndim)
        if isinstance(obj, skcurve.CurvePoint):
            s += (obj.idx, id(obj.curve))
        return s
    if isinstance(obj, Segment):
        s = ('segment', snap(obj.p1), snap(obj.p2))
        if isinstance(obj, skcurve.CurveSegment):
            s += (obj.idx, id(obj.curve))
        return s
    if isinstance(obj, np.ndarray):
        return 'array', obj.tobytes() if obj.dtype != object else tuple(obj.tolist()), obj.shape, str(obj.dtype), obj.strides
    return repr(obj)


class Pool:
    """All the objects which are alive, with the snapshots taken when they appeared"""

    def __init__(self, stat):
        self.stat = stat
        self.items = []

    def add(self, name, obj):
        self.items.append((name, obj, snap(obj)))
        return obj

    def verify(self, after):
        for name, obj, s in self.items:
            self.stat.check(snap(obj) == s, 'after %s: %s has changed: %s', after, name, obj)

    def arrays(self):
        return [(n, o) for n, o, _ in self.items if isinstance(o, np.ndarray)]


def writes(arr):
    """All in-place writes to try on an array; returns the number of those which were not refused"""
    ok = 0
    for f in (lambda: arr.__setitem__(Ellipsis, 77), lambda: arr.__setitem__(0, 77), lambda: operator.iadd(arr, 1),
              lambda: arr.fill(5), lambda: np.copyto(arr, 3), lambda: arr.sort(axis=0), lambda: arr.put([0], [9]),
              lambda: np.add(arr, 1, out=arr)):
        try:
            f()
            ok += 1
        except (ValueError, TypeError):
            pass
    return ok


def check_readonly(stat, what, obj):
    if isinstance(obj, Curve):
        arrs = [('data', obj.data)] + [('values', v) for v in obj.values()] + ([('t', obj.t)] if obj.isparametric else [])
        if obj.size:
            arrs += [('point data', obj[0].data), ('last point data', obj[-1].data)]
    elif isinstance(obj, Point):
        arrs = [('data', obj.data)]
    elif isinstance(obj, Segment):
        arrs = [('p1', obj.p1.data), ('p2', obj.p2.data)]
    else:
        return
    before = snap(obj)
    for name, a in arrs:
        if a.size == 0:
            continue
        stat.op()
        n = writes(a)
        stat.check(n == 0, '%s: %s array of %r accepts %d kinds of in-place writes', what, name, obj, n)
        for nm, v in (('view', a.view()), ('slice', a[:1]), ('reshaped', a.reshape(-1)), ('transposed', a.T)):
            if np.shares_memory(v, a):
                stat.check(writes(v) == 0, '%s: %s of %s accepts writes', what, nm, name)
    stat.check(snap(obj) == before, '%s: changed by refused writes', what)
    if isinstance(obj, Segment):
        d = obj.data
        writes(d)
        stat.check(snap(obj) == before, '%s: changed by writing to the array of the segment', what)
    for attr in ('data', 'dtype', 'ndim'):
        if hasattr(type(obj), attr):
            stat.check(raises(AttributeError, setattr, obj, attr, getattr(obj, attr)), '%s: %s can be set', what, attr)
    for attr in (('size', 'isparametric') if isinstance(obj, Curve) else ('p1', 'p2') if isinstance(obj, Segment) else ()):
        stat.check(raises(AttributeError, setattr, obj, attr, getattr(obj, attr)), '%s: %s can be set', what, attr)
    if not isinstance(obj, Segment):
        stat.check(raises(TypeError, operator.setitem, obj, 0, 1), '%s: item assignment', what)
        stat.check(raises(TypeError, operator.delitem, obj, 0), '%s: item deletion', what)


# ------------------------------------------------------------------ construction from the arrays of callers

DATA = {2: [[1, 2], [3, 5], [4, 1], [7, 0], [8, 3]], 3: [[1, 2, 3], [3, 5, 1], [4, 1, 2], [7, 0, 5], [8, 3, 1]],
        4: [[1, 2, 3, 0], [3, 5, 1, 2], [4, 1, 2, 9], [7, 0, 5, 5], [8, 3, 1, 4]]}


def layouts(rows, dt):
    a = np.array(rows, dtype=dt)
    n, d = a.shape
    big = np.zeros((2 * n, 3 * d), dtype=dt)
    big[::2, ::3] = a
    f = np.asfortranarray(a)
    neg = np.ascontiguousarray(a[::-1])
    yield 'C', a.copy(), lambda x: x, 0
    yield 'F', f, lambda x: x, 0
    yield 'strided', big, lambda x: x[::2, ::3], 0
    yield 'reversed', neg, lambda x: x[::-1], 0
    yield 'axis1', np.ascontiguousarray(a.T), lambda x: x, 1
    yield 'axis-1', np.ascontiguousarray(a.T), lambda x: x, -1
    yield 'transposed view', np.ascontiguousarray(a.T), lambda x: x.T, 0
    if d % 2 == 0:
        yield '3d', a.copy().reshape(n, 2, d // 2), lambda x: x, 0
    yield 'swapped', a.astype(a.dtype.newbyteorder()), lambda x: x, 0


def run_callers(case, stat):
    """Arrays of the caller are copied by every constructor and by every operation which takes one"""
    d, dt, to, n = case
    rows = DATA[d][:n]
    for name, base, view, axis in layouts(rows, dt):
        for par in (None, 'list', 'f8', 'i8', 'strided'):
            tb = None
            if par == 'strided':
                tb = np.arange(4 * n, dtype='f8')
                tv = tb[::2][:n]
            elif par == 'list':
                tv = [float(i) for i in range(n)]
            elif par:
                tb = np.arange(n).astype(par)
                tv = tb.view()
            else:
                tv = None
            for frozen in (False, True):
                arr = view(base).view()
                before = base.tobytes()
                if frozen:
                    arr.flags.writeable = False
                    if tb is not None:
                        tv.flags.writeable = False
                flag = arr.flags.writeable
                kw = {} if to is None else {'dtype': to}
                c = Curve(arr, tdata=tv, axis=axis, **kw)
                stat.op()
                what = f'{name} {dt}->{to} par={par} frozen={frozen}'
                stat.check(base.tobytes() == before, '%s: the array of the caller has changed', what)
                stat.check(arr.flags.writeable == flag, '%s: writeable flag of the caller has changed', what)
                stat.check(not np.shares_memory(c.data, base), '%s: the curve shares memory with the caller', what)
                if tb is not None:
                    stat.check(not np.shares_memory(c.t, tb) and tb.flags.writeable, '%s: t shares memory', what)
                s = snap(c)
                base[...] = 99
                if tb is not None:
                    tb[...] = -5
                if isinstance(tv, list):
                    tv[:] = [-1.0] * n
                stat.check(snap(c) == s, '%s: the curve follows the array of the caller', what)
                check_readonly(stat, what, c)
                base[...] = np.frombuffer(before, dtype=base.dtype).reshape(base.shape)
                if tb is not None:
                    tb[...] = np.arange(tb.size)
                if isinstance(tv, list):
                    tv[:] = [float(i) for i in range(n)]
                stat.seen(name)
    # points
    for a in (np.array(rows[0], dtype=dt), np.array(rows[0] * 2, dtype=dt)[::2], np.array(rows[0], dtype=dt)[::-1]):
        p = Point(a) if to is None else Point(a, dtype=to)
        s = snap(p)
        stat.check(not np.shares_memory(p.data, a) and a.flags.writeable, 'point shares memory with the caller')
        a[...] = 88
        stat.check(snap(p) == s, 'point follows the array of the caller')
        check_readonly(stat, 'point', p)
        # a read-only window to memory which the caller may change
        v = a.view()
        v.flags.writeable = False
        p = Point(v) if to is None else Point(v, dtype=to)
        s = snap(p)
        stat.check(not np.shares_memory(p.data, a) and a.flags.writeable, 'point shares memory with a read-only view')
        a[...] = 77
        stat.check(snap(p) == s, 'point follows the array of the caller (read-only view)')
    # lists of lists, lists of arrays, lists of points
    cols = [list(x) for x in zip(*rows)]
    arrs = [np.array(x, dtype=dt) for x in cols]
    c1, c2 = Curve(cols), Curve(arrs)
    s1, s2 = snap(c1), snap(c2)
    for x, y in zip(cols, arrs):
        x[:] = [0] * n
        y[...] = 0
    stat.check(snap(c1) == s1 and snap(c2) == s2, 'curve follows the lists of the caller')


def run_arguments(case, stat):
    """Arrays given to operations are neither kept nor changed"""
    d, dt, par = case
    rows = DATA[d]
    n = len(rows)
    pool = Pool(stat)
    c = pool.add('curve', Curve(np.array(rows, dtype=dt), tdata=[0., 1., 2.5, 4., 5.] if par else None))
    ft = Curve(np.array(rows, dtype='f8'), tdata=c.t.copy())
    pool.add('float curve', ft)

    calls = []

    def arg(name, a, fn):
        calls.append((name, a, fn))

    idx = np.array([0, 2, 4])
    arg('insertdim', np.arange(n).astype(dt), lambda a: c.insertdim(1, a))
    arg('appenddim', np.arange(n).astype(dt), lambda a: c.appenddim(a))
    arg('getitem indices', idx.copy(), lambda a: c[a])
    arg('getitem negative', np.array([-1, 0, -2]), lambda a: c[a])
    arg('getitem mask', np.array([True, False, True, True, False]), lambda a: c[a])
    arg('delete indices', np.array([-1, 0]), lambda a: c.delete(a))
    arg('insert indices', np.array([0, -1]), lambda a: c.insert(a, c[:2]))
    arg('drop mask', np.array([True, False, True, True, False]), lambda a: c.drop(lambda data: a))
    arg('drop matrix', np.zeros((n, d), dtype=bool), lambda a: c.drop(lambda data: a))
    arg('drop indices', np.array([1, -1]), lambda a: c.drop(lambda data: a))
    arg('copy', np.array(rows, dtype=dt), lambda a: Curve(Curve(a)))
    for m in ('linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps'):
        t0, t1 = float(ft.t[0]), float(ft.t[-1])
        for g in (np.linspace(t0, t1, 7), np.linspace(t0, t1, 14)[::2], np.array(ft.t)):
            arg(f'grid {m}', g, lambda a, m=m: ft.interpolate(a, m))
        arg(f'interpolator grid {m}', np.linspace(t0, t1, 4), lambda a, m=m: skcurve.get_interpolator(m, ft)(a))
    arg('weights spline', np.ones(n), lambda a: ft.interpolate(6, 'spline', weights=a))
    arg('weights csaps', np.ones(n), lambda a: ft.interpolate(6, 'csaps', weights=a, smooth=0.9))
    arg('window', np.ones(3), lambda a: c.smooth('window', window_size=3, window_type=lambda k: a))
    arg('window int', np.array([1, 2, 1]), lambda a: c.smooth('window', window_size=3, window_type=lambda k: a))
    arg('segment t', np.array([0.0, 0.5, 1.0]), lambda a: c.segments[0].point(a))
    arg('segment t int', np.array([0, 1]), lambda a: c.segments[0].point(a))
    arg('metric', np.ones(d), lambda a: c[0].distance(c[1], 'seuclidean', V=a))
    arg('metric matrix', np.eye(d), lambda a: c[0].distance(c[1], 'mahalanobis', VI=a))
    arg('isequal', np.arange(4.0), lambda a: skcurve.isequal(a, a))
    arg('allequal', np.arange(4.0).reshape(2, 2), lambda a: skcurve.allequal(a, a, axis=1))
    arg('dot1d', np.arange(4.0).reshape(2, 2), lambda a: skcurve.dot1d(a, a))

    class Grid(skcurve.InterpolationGrid):
        def __init__(self, a):
            self.a = a

        def __call__(self, curve):
            return self.a
    arg('grid object', np.linspace(float(ft.t[0]), float(ft.t[-1]), 5), lambda a: ft.interpolate(Grid(a), 'linear'))

    for name, a, fn in calls:
        for frozen in (False, True):
            b = a.copy()
            if frozen:
                b.flags.writeable = False
            s = snap(b)
            res = fn(b)
            stat.op()
            stat.check(snap(b) == s, '%s: the argument has been changed to %s', name, b)
            stat.check(b.flags.writeable == (not frozen), '%s: the flag of the argument has changed', name)
            if isinstance(res, list):
                objs = res
            else:
                objs = [res]
            for o in objs:
                if isinstance(o, (Curve, Point, Segment)):
                    so = snap(o)
                    if not frozen:
                        b[...] = b[::-1].copy()
                        b[...] = 0
                    stat.check(snap(o) == so, '%s: the result follows the argument', name)
                    check_readonly(stat, name, o)
            pool.verify(name)
            stat.seen(name.split()[0])
    # lists stay as they were
    for name, a, fn in (('indices', [0, -1], lambda a: c[a]), ('delete', [0, -1], lambda a: c.delete(a)),
                        ('insert', [0, 1], lambda a: c.insert(a, c[:2])),
                        ('points', [c[0], c[1]], lambda a: c.segments[0].t(a)),
                        ('ts', [0.0, 1.0], lambda a: c.segments[0].point(a)),
                        ('grid', [float(x) for x in ft.t], lambda a: ft.interpolate(a, 'linear')),
                        ('values', [1] * n, lambda a: c.insertdim(0, a))):
        b = list(a)
        fn(b)
        stat.op()
        stat.check(len(a) == len(b) and all(x is y for x, y in zip(a, b)), '%s: the list has been changed', name)
    check_readonly(stat, 'curve', c)


# ------------------------------------------------------------------ operation sequences

def _reg():
    """User methods which give their own (shared, writable) arrays"""
    global SHARED
    SHARED = {}
    if 'mc-c01' in skcurve.smooth_methods():
        return

    @skcurve.register_smooth_method('mc-c01')
    def method(curve, kind=0):
        if kind == 0:
            return curve.data
        SHARED['smooth'] = np.array(curve.data, dtype=np.float64)
        return SHARED['smooth']

    @skcurve.register_interpolator('mc-c01')
    class Interp(skcurve.InterpolatorBase):
        def _interpolate(self, grid):
            a = np.zeros((grid.size, self.curve.ndim), dtype=self.curve.dtype)
            SHARED['interp'] = a
            SHARED['grid'] = grid
            return a


def ops():
    """name -> func(curve, other, point); the result (or its parts) joins the pool"""
    o = {}

    def op(f):
        o[f.__name__] = f
        return f

    def mk(name, f):
        o[name] = f

    mk('slice', lambda c, x, p: c[1:])
    mk('slice_step', lambda c, x, p: c[::-1])
    mk('full_slice', lambda c, x, p: c[:])
    mk('empty_slice', lambda c, x, p: c[:0])
    mk('indices', lambda c, x, p: c[[0, -1]])
    mk('mask', lambda c, x, p: c[np.arange(c.size) % 2 == 0])
    mk('item', lambda c, x, p: c[0])
    mk('points', lambda c, x, p: list(c))
    mk('copy', lambda c, x, p: copy.copy(c))
    mk('deepcopy', lambda c, x, p: copy.deepcopy(c))
    mk('Curve', lambda c, x, p: Curve(c))
    mk('Curve_dtype', lambda c, x, p: Curve(c, dtype='f4'))
    mk('Curve_ndmin', lambda c, x, p: Curve(c, ndmin=c.ndim + 1))
    mk('Curve_data', lambda c, x, p: Curve(c.data))
    mk('Curve_values', lambda c, x, p: Curve(list(c.values())))
    mk('Curve_points', lambda c, x, p: Curve(list(c), axis=0))
    mk('concat', lambda c, x, p: c + x)
    mk('concat_self', lambda c, x, p: c + c)
    mk('insert_point', lambda c, x, p: c.insert(1, p))
    mk('insert_curve', lambda c, x, p: c.insert(0, x))
    mk('append', lambda c, x, p: c.append(x))
    mk('append_point', lambda c, x, p: c.append(c[0]))
    mk('delete', lambda c, x, p: c.delete(0))
    mk('delete_slice', lambda c, x, p: c.delete(slice(0, 2)))
    mk('delete_none', lambda c, x, p: c.delete([]))
    mk('reverse', lambda c, x, p: c.reverse())
    mk('coorientplane', lambda c, x, p: c.coorientplane(0, 1))
    mk('coorientplane_back', lambda c, x, p: c.coorientplane(1, 0))
    mk('unique', lambda c, x, p: c.unique())
    mk('drop', lambda c, x, p: c.drop(np.isnan))
    mk('drop_writing', lambda c, x, p: c.drop(lambda data: (writes(data), np.zeros(len(data), dtype=bool))[1]))
    mk('nonsingular', lambda c, x, p: c.nonsingular())
    mk('insertdim', lambda c, x, p: c.insertdim(0))
    mk('insertdim_values', lambda c, x, p: c.insertdim(0, c.values(0)))
    mk('appenddim', lambda c, x, p: c.appenddim(c.values(-1)))
    mk('deletedim', lambda c, x, p: c.appenddim().deletedim(0))
    mk('subcurve', lambda c, x, p: c[0].subcurve(c[-1]))
    mk('subcurve_part', lambda c, x, p: c[0].subcurve(c[-1], endpoint=False))
    mk('segments', lambda c, x, p: c.segments.tolist())
    mk('to_curve', lambda c, x, p: [s.to_curve() for s in c.segments])
    mk('seg_reverse', lambda c, x, p: [s.reverse() for s in c.segments])
    mk('seg_point', lambda c, x, p: [c.segments[0].point(0), c.segments[0].point(1.0), c.segments[0].point(0.25)] +
       c.segments[0].point([0, 1]))
    mk('seg_shortest', lambda c, x, p: [c.segments[0].shortest_segment(x.segments[0]), c.segments[0].shortest_segment(p),
                                        c.segments[0].shortest_segment(c[-1])])
    mk('seg_overlap', lambda c, x, p: [c.segments[0].overlap(c.segments[0])])
    mk('seg_props', lambda c, x, p: [[s.angle(t), s.parallel(t), s.collinear(t), s.coplanar(t), s.collinear(p), s.distance(t),
                                      s.seglen, s.dot, s.singular, s.t(s.p1), s.t([s.p1, s.p2])] and s.direction
                                     for s in c.segments for t in x.segments])
    mk('intersect', lambda c, x, p: [r.intersect_segment for r in c.intersect(x)] + [r.intersect_point for r in c.intersect(x)])
    mk('intersect_self', lambda c, x, p: [r.segment1 for r in c.intersect()])
    mk('intersect_almost', lambda c, x, p: [r.intersect_segment for r in c.intersect(x, method='almost', dist_tol=3.0,
                                                                                    remove_extra=True, correct_overlap=True)])
    mk('smooth_window', lambda c, x, p: c.smooth('window', window_size=3))
    mk('smooth_savgol', lambda c, x, p: c.smooth('savgol', window_length=3, polyorder=1, mode='nearest'))
    mk('smooth_user', lambda c, x, p: c.smooth('mc-c01'))
    mk('smooth_user_buffer', lambda c, x, p: c.smooth('mc-c01', kind=1))
    mk('interp_user', lambda c, x, p: Curve(c, dtype='f8').nonsingular().interpolate(4, 'mc-c01'))
    mk('interp_linear', lambda c, x, p: Curve(c, dtype='f8').nonsingular().interpolate(5, 'linear'))
    mk('interp_cubic', lambda c, x, p: Curve(c, dtype='f8').nonsingular().interpolate(5, 'cubic'))
    mk('interp_own_grid', lambda c, x, p: Curve(c, dtype='f8').interpolate(c.t, 'linear'))
    mk('diffgeom', lambda c, x, p: [getattr(c, a) for a in DIFF] and [])
    mk('diffgeom_point', lambda c, x, p: [getattr(q, a) for a in DIFF for q in c] and [])
    mk('lengths', lambda c, x, p: [c.t, c.chordlen, c.arclen, c.cumarclen, c.isplane, c.isspatial, c.is2d, c.is3d] and [])
    mk('queries', lambda c, x, p: [p in c, x in c, c == x, c.count(p), c.index(c[-1]), repr(c), repr(p), str(x), bool(c),
                                   hash is None, list(c.values()), c.values(0)] and [])
    mk('point_ops', lambda c, x, p: [p + p, p - c[0], c[0] * 2, 2 * c[0], c[0] / 3, c[0] // 2, 1 - p, copy.copy(p),
                                     copy.deepcopy(c[0]), Point(p), Point(c[0]), p[:1], c[0][:], p[::-1]])
    mk('point_iops', iops)
    mk('point_values', lambda c, x, p: [p @ c[0], p.norm(), p.distance(c[0]), p.distance(c[0], 'cityblock'), len(p), list(p)] and [])
    return o


DIFF = ['firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'normal', 'binormal', 'speed', 'frenet1', 'frenet2', 'frenet3',
        'curvature', 'torsion', 'cumarclen']


def iops(c, x, p):
    q = p
    q += 1
    q -= c[0]
    q *= 2
    q /= 3
    q //= 2
    d = c
    d += x
    return [q, d]


OPS = ops()
PAIR_SKIP = ()


def apply(stat, pool, name, c, x, p, depth):
    """Applies one operation (which may be refused for the shape of the curve) and adds its results to the pool"""
    try:
        res = OPS[name](c, x, p)
    except (ValueError, IndexError, TypeError, skcurve.InterpolationError, skcurve.SmoothingError) as err:
        # refused (an empty curve has no point 0, for example); nothing may have changed all the same
        stat.seen(f'refused {type(err).__name__}')
        return []
    finally:
        stat.op()
    out = []
    for r in (res if isinstance(res, list) else [res]):
        if isinstance(r, (Curve, Point, Segment)):
            out.append(r)
            for an, a in pool.arrays():
                arrs = [r.data] if not isinstance(r, Segment) else [r.p1.data, r.p2.data]
                for b in arrs:
                    stat.check(not np.shares_memory(a, b), '%s: the result shares memory with %s', name, an)
    return out


def run_sequences(case, stat):
    d, dt, par, n, first = case
    _reg()
    rows = DATA[d][:n]
    if n == 4:
        rows = rows[:3] + [rows[0]]
    pool = Pool(stat)
    a = pool.add('data array', np.array(rows, dtype=dt))
    tt = pool.add('t array', np.array([0., 1., 2.5, 4., 5.][:n]))
    c = pool.add('curve', Curve(a, tdata=tt if par else None))
    a2 = pool.add('other array', np.array([[v + 1 for v in r] for r in DATA[d][:3]], dtype=dt))
    x = pool.add('other curve', Curve(a2, tdata=[1., 2., 3.] if par else None))
    pa = pool.add('point array', np.array(DATA[d][1], dtype=dt))
    p = pool.add('point', Point(pa, dtype=dt))
    pool.add('curve point', c[0])
    pool.add('curve segment', c.segments[0])
    out1 = apply(stat, pool, first, c, x, p, 1)
    pool.verify(first)
    for i, r in enumerate(out1[:6]):
        pool.add(f'result {i} of {first}', r)
        check_readonly(stat, first, r)
    for i, r in enumerate(out1):
        for k, b in list(SHARED.items()):
            arrs = [r.data] if not isinstance(r, Segment) else [r.p1.data, r.p2.data]
            stat.check(not any(np.shares_memory(b, q) for q in arrs), '%s: shares memory with the buffer of a user method', first)
            if isinstance(r, Curve) and r.isparametric:
                stat.check(not np.shares_memory(r.t, b), '%s: t shares memory with the buffer of a user method', first)
    for k, b in SHARED.items():
        b[...] = 1234
    pool.verify(f'{first}, writing to user buffers')
    SHARED.clear()
    pool.verify('readonly tests')
    subj = [c] + [r for r in out1[:2] if isinstance(r, Curve) and r.ndim == d]
    for r in out1[:1]:
        if isinstance(r, Point) and r.ndim == d:
            p = r
    for second in OPS:
        for s in subj:
            apply(stat, pool, second, s, x if s.dtype == x.dtype else Curve(x, dtype=s.dtype), p, 2)
        pool.verify(f'{first}; {second}')
        stat.state((d, dt, par, n, first, second))
    # the arrays of the caller change at the end: nothing follows them
    for name, arr in pool.arrays():
        arr[...] = 0
    pool.items = [it for it in pool.items if not isinstance(it[1], np.ndarray)]
    pool.verify('the arrays of the caller have been changed')
    stat.seen(first)


def run_sizes(case, stat):
    n, par = case
    rows = np.array([[i, (i * i) % 17, (3 * i) % 11] for i in range(n)], dtype='f8')
    t = np.arange(n, dtype='f8')
    src = rows.copy()
    c = Curve(src, tdata=t if par else None)
    s = snap(c)
    stat.check(not np.shares_memory(c.data, src) and not np.shares_memory(c.t, t), 'n=%s: shares memory', n)
    src[...] = -1
    t[...] = -1
    stat.check(snap(c) == s, 'n=%s: the curve follows the caller', n)
    check_readonly(stat, f'n={n}', c)
    x = Curve(rows + 1)
    _reg()
    for name in ('slice', 'full_slice', 'slice_step', 'indices', 'mask', 'copy', 'Curve', 'concat', 'insert_point',
                 'insert_curve', 'append', 'delete', 'reverse', 'unique', 'drop', 'nonsingular', 'insertdim', 'deletedim',
                 'smooth_window', 'smooth_user', 'interp_linear', 'diffgeom', 'lengths', 'coorientplane_back', 'subcurve'):
        res = OPS[name](c, x, Point([1, 2, 3]))
        stat.op()
        stat.check(snap(c) == s, 'n=%s: changed by %s', n, name)
        if isinstance(res, Curve):
            check_readonly(stat, f'n={n} {name}', res)
            stat.check(res is not c, 'n=%s: %s returned the curve itself', n, name)


def spaces(tier):
    deep = tier == 'thorough'
    dts = ['f8', 'f4', 'i8', 'i4', 'u1', 'i2', 'f2']

    def callers():
        for d in (2, 3, 4):
            for dt in dts:
                for to in (None, 'f8', 'f4', 'i8', dt):
                    for n in ((1, 2, 3, 5) if deep else (1, 3)):
                        yield d, dt, to, n

    def seqs():
        for first in OPS:
            yield 2, 'f8', True, 5, first
            yield 3, 'f8', False, 5, first
            yield 2, 'f8', False, 4, first
            yield 3, 'i8', True, 4, first
            if deep:
                for d in (2, 3, 4):
                    for dt in ('f8', 'i8', 'f4', 'u1'):
                        for par in (True, False):
                            for n in (2, 3, 5):
                                yield d, dt, par, n, first
    return [
        Space('callers', callers, run_callers, 'all memory layouts x dtypes x conversions x parametrization sources'),
        Space('arguments', lambda: [(d, dt, par) for d in (2, 3, 4) for dt in ('f8', 'f4', 'i8', 'u1') for par in (False, True)],
              run_arguments, 'every operation which takes an array or a list'),
        Space('sequences', seqs, run_sequences, f'all ordered pairs of {len(OPS)} operations; every live object is compared bit '
                                                'by bit after every operation'),
        Space('sizes', lambda: [(n, par) for n in (LADDER_SHORT if not deep else list(range(3, 130)) + [257, 1000, 1025])
                                for par in (False, True)],
              run_sizes, 'a ladder of sizes'),
    ]
