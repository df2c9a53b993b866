# -*- coding: utf-8 -*-
"""C23: histories of operations: results depend on arguments only, global state is left alone

The value of each operation is taken in a fresh process; then all ordered pairs (and longer histories) of
operations are executed, each history in a fresh process, on shared objects and on equal new objects.
"""

import copy
import gc
import itertools
import os
import pickle
import random
import signal
import sys
import threading
import warnings

import numpy as np

import skcurve
from skcurve import (Curve, CurvePoint, CurveSegment, Point, Segment, InterpolationGrid, SegmentsIntersection,
                     UniformExtrapolationGrid as EG, UniformInterpolationGrid as UG, PreservedSpeedInterpolationGrid as PG)
from skcurve import curves as generators

from mc.core import Space, Stat, Violation
from mc.lib import near

TITLE = 'Results do not depend on earlier calls, and global state is left alone'

ASSUMPTIONS = [
    'values are compared with a relative tolerance of 1e-9 (sums of arrays may depend on the alignment of memory)',
    'the fresh value of an operation is taken in a forked process which has run nothing but the imports and the construction of the objects',
]


class World:
    """The objects on which the operations act; two worlds have equal objects"""

    def __init__(self):
        self.a = Curve(np.array([(0, 0), (3, 1), (4, 4), (1, 3), (0, 6), (2, 2)], dtype='f8'))
        self.b = Curve(np.array([(0, 1), (2, 4), (4, 0), (6, 5), (0, 3)], dtype='f8'), tdata=[0, 1, 2.5, 3, 7])
        self.c = Curve(np.array([(0, 0, 0), (1, 2, 1), (3, 2, 5), (4, 0, 4), (2, 2, 2)], dtype='f8'))
        self.d = Curve(np.array([(0, 0, 1), (1, 5, 1), (3, 3, 3), (3, 3, 3), (5, 0, 2)], dtype='i4'), tdata=[1, 2, 3, 4, 5])
        self.e = Curve(np.array([(0, 0), (0, 0), (1, 1), (2, 2), (np.nan, 1), (5, 0)], dtype='f4'))
        self.z = Curve(np.zeros((0, 2)))
        self.one = Curve(np.array([(1, 2)], dtype='f8'))
        self.big = generators.lissajous(p_count=60)
        self.s = Segment(Point([0, 0]), Point([4, 4]))
        self.r = Segment(Point([0, 4]), Point([4, 0]))
        self.s3 = Segment(Point([0, 0, 0]), Point([4, 4, 0]))
        self.r3 = Segment(Point([0, 4, 1]), Point([4, 0, 1]))
        self.p = Point([1, 2])
        self.q = Point([3, 1, 2], dtype='i4')


def canon(x, depth=0):
    """Plain nested tuples of numbers and strings"""
    if isinstance(x, Curve):
        return ('Curve', str(x.dtype), x.isparametric, x.data.shape, x.data.tolist(), x.t.tolist())
    if isinstance(x, CurvePoint):
        return ('CurvePoint', x.idx, x.data.tolist(), float(x.t))
    if isinstance(x, CurveSegment):
        return ('CurveSegment', x.idx, x.data.tolist())
    if isinstance(x, Point):
        return ('Point', str(x.dtype), x.data.tolist())
    if isinstance(x, Segment):
        return ('Segment', x.data.tolist())
    if isinstance(x, SegmentsIntersection):
        return ('SI', canon(x.segment1), canon(x.segment2), x.intersect_type.name, canon(x.intersect_point), canon(x.intersect_segment))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('objects', [canon(v) for v in x.tolist()])
        return ('array', str(x.dtype), x.shape, x.tolist())
    if isinstance(x, np.generic):
        return ('scalar', str(x.dtype), x.item())
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if x is None or isinstance(x, (bool, int, float, str, complex)):
        return x
    if hasattr(x, '__next__'):
        return [canon(v) for v in x]
    return type(x).__name__


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return near(a, b, 1e-9, 1e-9)
    return type(a) is type(b) and a == b


PROPS = ['t', 'chordlen', 'arclen', 'cumarclen', 'segments', 'speed', 'firstderiv', 'secondderiv', 'thirdderiv', 'frenet1', 'frenet2', 'frenet3',
         'curvature', 'torsion', 'tangent', 'normal', 'binormal', 'isplane']


def prop(obj, name):
    return getattr(obj, name)


OPS = {}


def op(name):
    def deco(f):
        OPS[name] = f
        return f
    return deco


def _fill():
    for n in PROPS:
        if hasattr(Curve, n):
            for o in 'ac':
                OPS[f'{o}.{n}'] = lambda w, _o=o, _n=n: getattr(getattr(w, _o), _n)
    add = OPS.__setitem__
    add('e.speed', lambda w: w.e.speed)
    add('e.curvature', lambda w: w.e.curvature)
    add('d.torsion', lambda w: w.d.torsion)
    add('d.chordlen', lambda w: w.d.chordlen)
    add('z.arclen', lambda w: w.z.arclen)
    add('repr', lambda w: [repr(w.a), repr(w.big), repr(w.p), repr(w.s), repr(w.a[1])])
    add('eq', lambda w: [w.a == w.b, w.a == w.a.reverse().reverse(), w.d == w.d, w.e == w.e, w.p == Point([1, 2]), w.s == w.r])
    add('contains', lambda w: [w.p in w.a, Point([3, 1]) in w.a, w.a[1:3] in w.a, w.b in w.a])
    add('index', lambda w: [w.a.index(Point([4, 4])), w.a.count(Point([4, 4])), w.d.count(Point([3, 3, 3]))])
    add('index-miss', lambda w: w.a.index(w.p))
    add('getitem', lambda w: [w.a[1], w.a[-1], w.a[1:4], w.b[::2], w.b[[0, 2]], w.c[w.c.values(0) > 1]])
    add('getitem-bad', lambda w: w.a[17])
    add('points', lambda w: [[p, p.t, p.curvature, p.speed] for p in w.b])
    add('subcurve', lambda w: w.b[1].subcurve(w.b[3]))
    add('add', lambda w: w.a + w.b)
    add('reverse', lambda w: [w.a.reverse(), w.b.reverse()])
    add('insert', lambda w: [w.a.insert(1, w.p), w.b.insert(2, w.a), w.a.insert([0, 3], Point([9, 9]))])
    add('append', lambda w: [w.a.append(w.p), w.b.append(w.a)])
    add('delete', lambda w: [w.a.delete(1), w.b.delete([0, -1]), w.c.delete(slice(1, 3))])
    add('values', lambda w: [list(w.a.values()), w.c.values('z') if False else w.c.values(2)])
    add('dims', lambda w: [w.a.appenddim(), w.a.insertdim(0, [1] * 6), w.c.deletedim(1)])
    add('unique', lambda w: [w.d.unique(), w.e.unique(), w.a.unique()])
    add('drop', lambda w: w.a.drop(lambda c: c.values(0) > 2))
    add('nonsingular', lambda w: [w.e.nonsingular(), w.d.nonsingular()])
    add('coorient', lambda w: [w.c.coorientplane(), w.a.coorientplane()])
    add('copy', lambda w: [copy.copy(w.a), copy.deepcopy(w.b), pickle.loads(pickle.dumps(w.c))])
    for m in ('linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps'):
        add(f'interp-{m}', lambda w, _m=m: [w.a.interpolate(7, _m), w.b.interpolate([0, 1, 2, 7], _m)])
    add('interp-dup', lambda w: w.e.interpolate(7, 'cubic'))
    add('interp-unknown', lambda w: w.a.interpolate(7, 'zzz'))
    add('interp-warn', lambda w: w.b.interpolate([1, 2, 3], 'linear'))
    add('interp-empty', lambda w: w.z.interpolate(5, 'linear'))
    add('grids', lambda w: [UG(5)(w.a), UG(1.5, 'length')(w.b), PG(9)(w.a), EG(UG(4), 2, 1)(w.b)])
    add('interp-grid', lambda w: [w.a.interpolate(EG(UG(4), 1, 1), 'spline'), w.b.interpolate(PG(6), 'pchip')])
    add('smooth-window', lambda w: [w.a.smooth('window', window_size=3), w.d.smooth('window', window_size=4, window_type='boxcar', mode='wrap')])
    add('smooth-savgol', lambda w: [w.a.smooth('savgol', window_length=5, polyorder=2), w.b.smooth('savgol', window_length=3, polyorder=1, mode='nearest')])
    add('smooth-bad', lambda w: w.a.smooth('window', window_size=3, mode='zzz'))
    add('int-exact', lambda w: [w.s.intersect(w.r), w.a[1:4].intersect(w.b[:3])])
    add('int-self', lambda w: [w.b.intersect(), w.d.intersect()])
    add('int-almost', lambda w: [w.s3.intersect(w.r3, method='almost', dist_tol=1.5), w.c.intersect(w.d, method='almost', dist_tol=0.5)])
    add('int-almost2', lambda w: [w.a.intersect(w.b, method='almost'), w.a.intersect(method='almost'), w.c.intersect(w.s3, method='almost', dist_tol=2, remove_extra=True)])
    add('int-bad', lambda w: w.a.intersect(w.s3))
    add('int-unknown', lambda w: w.a.intersect(w.s, method='zzz'))
    add('int-methods', lambda w: [skcurve.intersect_methods(), skcurve.default_intersect_method(), skcurve.interp_methods(), skcurve.smooth_methods(), skcurve.known_metrics()])
    add('seg-angle', lambda w: [w.s.angle(w.r), w.s.angle(w.s), w.s3.angle(w.r3, 3)])
    add('seg-pred', lambda w: [w.s.parallel(w.r), w.s.collinear(w.p), w.s3.coplanar(w.r3), w.s.collinear(w.r), w.s.parallel(w.s.reverse())])
    add('seg-t', lambda w: [w.s.point(0.3), w.s.point([0, 1]), w.s.t(Point([1, 1])), w.s.t(Point([1, 2])), w.s.t([Point([1, 1]), Point([1, 3])])])
    add('seg-overlap', lambda w: [w.s.overlap(Segment(Point([1, 1]), Point([9, 9]))), w.s.overlap(w.r)])
    add('seg-distance', lambda w: [w.s.distance(w.r), w.s3.distance(w.r3), w.s.distance(w.p), w.s3.shortest_segment(w.r3), w.s.shortest_segment(w.p), w.s3.shortest_segment(w.q)])
    add('seg-parallel', lambda w: w.s3.shortest_segment(Segment(Point([0, 0, 1]), Point([4, 4, 1]))))
    add('seg-curve', lambda w: [w.s.to_curve(), w.s.reverse(), w.s.seglen, w.s.direction, w.s.dot, w.s.singular])
    add('pt-ops', lambda w: [w.p + 1, 2 * w.p, w.p / 2, 7 // w.p, w.p @ Point([3, 4]), w.q - w.q, w.q // 2])
    add('pt-div0', lambda w: [w.p / 0, Point([0, 1]) / Point([0, 0])])
    add('pt-metric', lambda w: [w.p.distance(Point([4, 6])), w.p.distance(Point([4, 6]), 'cityblock'), w.p.distance(Point([4, 6]), 'minkowski', p=3), w.p.norm])
    add('pt-metric-bad', lambda w: w.p.distance(w.p, 'zzz'))
    add('pt-ndim', lambda w: w.p + w.q)
    add('build', lambda w: [Curve([[1, 2, 3], [4, 5, 6]]), Curve(w.a), Curve(w.p), Curve(w.s), Curve([w.p, w.p]), Curve(np.zeros((2, 3)), axis=1), Curve([])])
    add('build-bad', lambda w: Curve(np.array([['x', 'y'], ['z', 'w']])))
    add('build-bad-t', lambda w: Curve(np.zeros((3, 2)), tdata=[0, 0, 1]))
    add('generators', lambda w: [generators.arc(p_count=5), generators.helix(p_count=5), generators.euler_spiral(p_count=5), generators.lemniscate_of_bernoulli(p_count=4)])
    add('numeric', lambda w: [skcurve.isequal(np.array([1, 2]), np.array([1.0, 2.5])), skcurve.allequal(np.zeros(3), np.zeros(3)), skcurve.dot1d(np.ones((2, 3)), np.ones((2, 3)))])


_fill()
NAMES = sorted(OPS)


def global_state():
    filters = list(warnings.filters)
    return {
        'errstate': repr(sorted(np.geterr().items())),
        'errcall': repr(np.geterrcall()),
        'bufsize': np.getbufsize(),
        'printoptions': repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items())),
        'warning filters': repr(filters),
        'showwarning': id(warnings.showwarning),
        'numpy random state': (lambda st: (hash(st[1].tobytes()), st[2:]))(np.random.get_state()),
        'random state': hash(random.getstate()),
        'recursion limit': sys.getrecursionlimit(),
        'hooks': (id(sys.excepthook), id(sys.stdout), id(sys.stderr), id(sys.displayhook)),
        'threads': threading.active_count(),
        'gc': (gc.isenabled(),),
        'cwd': os.getcwd(),
        'environ': repr(sorted(os.environ.items())),
        'methods': repr((sorted(skcurve.intersect_methods()), sorted(skcurve.interp_methods()), sorted(skcurve.smooth_methods()), skcurve.known_metrics())),
        'default method': skcurve.default_intersect_method(),
        'not intersected': repr(skcurve.NOT_INTERSECTED),
    }


def world_state(w):
    return [(k, v.data.tobytes(), v.t.tobytes() if isinstance(v, Curve) else b'') for k, v in sorted(vars(w).items())]


def run_op(name, w):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        before = list(warnings.filters), warnings.showwarning, warnings.formatwarning
        try:
            out = 'ok', canon(OPS[name](w))
        except Exception as err:
            out = 'raise', type(err).__name__, str(err)[:60]
        # what the end of this block restores
        if (list(warnings.filters), warnings.showwarning, warnings.formatwarning) != before:
            raise Violation(f'{name} has changed the filters of warnings')
    ours = sorted(str(r.category.__name__) + ': ' + str(r.message)[:60] for r in rec if issubclass(r.category, UserWarning))
    return out, ours


def start(func):
    """Starts func() in a forked process"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                res = 'ok', func()
            except Violation as err:
                res = 'violation', str(err)
            except BaseException as err:
                res = 'violation', f'unexpected exception {type(err).__name__}: {err}'
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(wr)
    return pid, rd


def finish(job):
    """The result of a started process"""
    pid, rd = job
    try:
        with os.fdopen(rd, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        pid = None
    finally:
        if pid is not None:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
    if not data:
        raise Violation('the process of a history ended without a result')
    kind, res = pickle.loads(data)
    if kind == 'violation':
        raise Violation(res)
    return res


def child(func):
    return finish(start(func))


_fresh = {}


def fresh_all():
    """The value of each operation in a process of its own"""
    signal.alarm(0)
    np.seterr(all='ignore')
    for k in range(0, len(NAMES), 8):
        jobs = [(name, start(lambda _n=name: run_op(_n, World()))) for name in NAMES[k:k + 8]]
        for name, job in jobs:
            try:
                _fresh[name] = finish(job)
            except Violation as err:
                _fresh[name] = (('violation', str(err)), [])


def fresh(name):
    return _fresh[name]


def diff_state(a, b):
    return [k for k in a if a[k] != b[k]]


def run_pairs(case, stat):
    """All histories (first, ..., x) for every x: the value of x is the fresh one"""
    prefix, mode = case

    def history(last):
        def go():
            w = World()
            g = global_state()
            ws = world_state(w)
            for name in prefix:
                run_op(name, w)
            if mode == 'new':
                w2 = World()
            else:
                w2 = w
            out = run_op(last, w2)
            out2 = run_op(last, w2)
            g2 = global_state()
            if diff_state(g, g2):
                raise Violation(f'history {prefix + (last,)} has changed the global state: {diff_state(g, g2)}')
            if world_state(w) != ws:
                raise Violation(f'history {prefix + (last,)} has changed the objects')
            return out, out2
        return go
    for last in NAMES:
        exp = fresh(last)
        out, out2 = child(history(last))
        stat.op(len(prefix) + 2)
        # derived values are kept by the objects, so that a warning comes with the first access only
        stat.check(same(out[0], exp[0]) and (mode == 'shared' or out[1] == exp[1]), 'history %s: %s, fresh value %s', prefix + (last,), out, exp)
        stat.check(same(out2[0], exp[0]), 'history %s twice: %s, fresh value %s', prefix + (last,), out2, exp)
        stat.seen(exp[0][0])


def run_alternate(case, stat):
    """For every x: new objects, the given operation, x, x (in the process of the worker, after all earlier histories)"""
    first, mode = case
    exps = [fresh(x) for x in NAMES]

    for x, exp in zip(NAMES, exps):
        w = World()
        g = global_state()
        ws = world_state(w)
        run_op(first, w)
        w2 = w if mode == 'shared' else World()
        out, out2 = run_op(x, w2), run_op(x, w2)
        stat.op(3)
        changed = diff_state(g, global_state())
        stat.check(not changed, '%s, %s have changed the global state: %s', first, x, changed)
        stat.check(world_state(w) == ws and world_state(w2) == ws, '%s, %s have changed the objects', first, x)
        stat.check(same(out[0], exp[0]) and (mode == 'shared' or out[1] == exp[1]), '%s after %s: %s, fresh value %s', x, first, out, exp)
        stat.check(same(out2[0], exp[0]), '%s twice after %s: %s, fresh value %s', x, first, out2, exp)
        stat.seen(exp[0][0])


def run_long(case, stat):
    """One process runs all operations in an order which starts with the given one; each has its fresh value"""
    start, step, mode = case
    n = len(NAMES)
    order = [NAMES[(start + step * k) % n] for k in range(n)]
    if len(set(order)) != n:
        order += [x for x in NAMES if x not in set(order)]
    exps = [fresh(x) for x in order]

    def go():
        w = World()
        g = global_state()
        outs = []
        for x in order:
            outs.append(run_op(x, w if mode == 'shared' else World()))
            g2 = global_state()
            if diff_state(g, g2):
                raise Violation(f'{x} has changed the global state: {diff_state(g, g2)}')
        return outs
    outs = child(go)
    for x, out, exp in zip(order, outs, exps):
        stat.op()
        stat.check(same(out[0], exp[0]) and (mode == 'shared' or out[1] == exp[1]), '%s after %s: %s, fresh value %s', x, order[:order.index(x)][-8:], out, exp)


# Calls of one function which differ in the values of parameters, or in objects which are alike in some way
# (the same data with another dtype or parametrization, the same shape and ends with other data)

class Like:
    def __init__(self):
        rows = [(0, 0), (3, 1), (4, 4), (1, 3), (0, 6), (2, 2), (5, 1)]
        other = [(0, 0), (1, 3), (2, 5), (6, 2), (4, 0), (3, 3), (5, 1)]
        self.a = Curve(np.array(rows, dtype='f8'))
        self.b = Curve(np.array(other, dtype='f8'))
        self.t = Curve(np.array(rows, dtype='f8'), tdata=[0, 1, 2, 4, 5, 7, 9])
        self.u = Curve(np.array(rows, dtype='f8'), tdata=[0, 0.5, 2, 3, 5, 8, 9])
        self.f = Curve(np.array(rows, dtype='f4'))
        self.i = Curve(np.array(rows, dtype='i8'))
        self.r = self.a.reverse()
        self.s = Segment(Point([0, 0]), Point([4, 4]))
        self.q = Segment(Point([0, 0]), Point([4, 3.9]))
        self.p = Point([1, 2, 3])
        self.o = Point([2, 0, 1])

    def __getattr__(self, name):
        """The objects which are called with different arguments, made at the first use"""
        if name not in SHARED:
            raise AttributeError(name)
        obj = SHARED[name](self)
        setattr(self, name, obj)
        return obj


class Made(dict):
    """Objects by keys, made at the first use"""

    def __init__(self, keys, make):
        self.names, self.make = list(keys), make

    def __missing__(self, key):
        self[key] = self.make(key)
        return self[key]

    def __iter__(self):
        return iter(self.names)


def grid_objects():
    return {
        'uniform': UG(4), 'length': UG(1.5, 'length'), 'speed': PG(5), 'speed cubic': PG(5, 'cubic'), 'extra': EG(UG(3), 1, 2), 'extra fine': EG(UG(5), 2, 1),
        'extra length': EG(UG(3), 1.5, 2.5, kind='length'), 'extra both': EG(UG(1.5, 'length'), 1.5, 0.5, kind='length'), 'extra pair': EG(UG(1.5, 'length'), 1, 1),
    }


ALMOST = [{'dist_tol': 0.3}, {'dist_tol': 1.0}, {'dist_tol': 1.0, 'remove_extra': True, 'extra_tol': 2.0, 'correct_overlap': True}]
METRICS = {m: (m, {}) for m in ('euclidean', 'cityblock', 'chebyshev', 'cosine', 'canberra', 'minkowski', 'braycurtis')}
METRICS['m3'] = ('minkowski', {'p': 3})
METRICS['se'] = ('seuclidean', {'V': [1, 2, 3]})
INTERPS = [(m, o) for m in sorted(skcurve.interp_methods()) for o in 'at']
SHARED = {
    'grids': lambda w: grid_objects(),
    'interps': lambda w: Made(INTERPS, lambda k: skcurve.get_interpolator(k[0], getattr(w, k[1]))),
    'exact': lambda w: skcurve.get_intersect_method('exact'),
    'almost': lambda w: [skcurve.get_intersect_method('almost', **kw) for kw in ALMOST],
    'metrics': lambda w: Made(METRICS, lambda k: skcurve.get_metric(METRICS[k][0], **METRICS[k][1])),
    'smooths': lambda w: {m: skcurve.get_smooth_method(m) for m in skcurve.smooth_methods()},
}


def variants():
    g = {}

    def add(group, *funcs):
        g.setdefault(group, []).extend(funcs)
    names = 'abtufir'
    for n in PROPS:
        if hasattr(Curve, n):
            add('derived ' + n, *[lambda w, _o=o, _n=n: getattr(getattr(w, _o), _n) for o in names])
    for m in ('linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps'):
        for o in 'abtuf':
            add('interpolate ' + m, lambda w, _o=o, _m=m: getattr(w, _o).interpolate(6, _m), lambda w, _o=o, _m=m: getattr(w, _o).interpolate(UG(4), method=_m))
        add('interpolate ' + m, lambda w, _m=m: w.t.interpolate([0, 1, 3, 9], _m), lambda w, _m=m: w.t.interpolate([0, 2, 3, 9], _m), lambda w, _m=m: w.u.interpolate((0, 2, 3, 9), _m))
    for bc in ('natural', 'clamped', 'not-a-knot'):
        for ex in (None, True, False):
            add('cubic params', lambda w, _b=bc, _e=ex: w.t.interpolate([-1, 0, 3, 9, 10], 'cubic', bc_type=_b, extrapolate=_e))
    for m in ('linear', 'hermite', 'pchip'):
        for ex in (True, False):
            add('extrapolate', lambda w, _m=m, _e=ex: w.t.interpolate([-1, 0, 3, 9, 10], _m, extrapolate=_e))
    for k in (1, 2, 3, 4):
        for s in (0.0, 2.0):
            add('spline params', lambda w, _k=k, _s=s: w.t.interpolate([0, 3, 9], 'spline', k=_k, smooth=_s))
    for wt in (None, [1, 1, 1, 5, 1, 1, 1], [1, 9, 1, 1, 1, 1, 1]):
        add('spline weights', lambda w, _w=wt: w.t.interpolate([0, 3, 9], 'spline', smooth=3.0, weights=_w))
        for s in (0.5, 0.9, 1.0, None):
            add('csaps params', lambda w, _w=wt, _s=s: w.t.interpolate([0, 3, 9], 'csaps', smooth=_s, weights=_w))
    for n in (3, 5, 4):
        for c in 'abt':
            add('grids', lambda w, _n=n, _c=c: UG(_n)(getattr(w, _c)), lambda w, _n=n, _c=c: UG(_n * 0.5, 'length')(getattr(w, _c)),
                lambda w, _n=n, _c=c: PG(_n)(getattr(w, _c)), lambda w, _n=n, _c=c: EG(UG(_n), 2, _n)(getattr(w, _c)),
                lambda w, _n=n, _c=c: EG(UG(_n), 1.5, 3.5, kind='length')(getattr(w, _c)))
    for c in 'abf':
        for n in (3, 5, 2, 4):
            for ty in ('hann', 'boxcar', 'triang', ('gaussian', 1.5), ('gaussian', 0.7)):
                add('window', lambda w, _c=c, _n=n + 1, _t=ty: getattr(w, _c).smooth('window', window_size=_n, window_type=_t))
    for mode in ('reflect', 'nearest', 'mirror', 'wrap', 'constant'):
        for cv in (0.0, 3.0):
            add('window modes', lambda w, _m=mode, _v=cv: w.a.smooth('window', window_size=3, mode=_m, cval=_v))
            if mode != 'reflect':
                add('savgol', lambda w, _m=mode, _v=cv: w.a.smooth('savgol', window_length=5, polyorder=2, mode=_m, cval=_v))
    for wl, po, de, dl in ((5, 2, 0, 1), (5, 3, 0, 1), (3, 2, 0, 1), (5, 2, 1, 1), (5, 2, 1, 0.5), (7, 2, 0, 1), (5, 2, 2, 1)):
        for c in 'abf':
            add('savgol', lambda w, _c=c, _a=(wl, po, de, dl): getattr(w, _c).smooth('savgol', window_length=_a[0], polyorder=_a[1], deriv=_a[2], delta=_a[3]))
    for tol in (0.1, 1.0, 0.5, 1e-6):
        add('almost', lambda w, _t=tol: w.a.intersect(w.b, method='almost', dist_tol=_t), lambda w, _t=tol: w.a.intersect(method='almost', dist_tol=_t),
            lambda w, _t=tol: w.s.intersect(Segment(Point([4.3, 4]), Point([9, 5])), method='almost', dist_tol=_t))
        for ext in (0.1, 2.0):
            for co in (False, True):
                add('almost params', lambda w, _t=tol, _e=ext, _c=co: w.a.intersect(w.b, method='almost', dist_tol=_t, remove_extra=True, extra_tol=_e, correct_overlap=_c),
                    lambda w, _t=tol, _e=ext, _c=co: w.a.intersect(w.b, method='almost', dist_tol=_t, extra_tol=_e, correct_overlap=_c))
    for o in names:
        add('exact', lambda w, _o=o: getattr(w, _o).intersect(), lambda w, _o=o: w.a.intersect(getattr(w, _o)), lambda w, _o=o: getattr(w, _o).intersect(w.s),
            lambda w, _o=o: getattr(w, _o).intersect(w.b, 'exact', feps=1e-9))
        add('edit', lambda w, _o=o: getattr(w, _o).reverse(), lambda w, _o=o: getattr(w, _o).unique(), lambda w, _o=o: getattr(w, _o).nonsingular(),
            lambda w, _o=o: getattr(w, _o) + w.t, lambda w, _o=o: getattr(w, _o).delete([1, 2]), lambda w, _o=o: getattr(w, _o).delete([2, 3]),
            lambda w, _o=o: getattr(w, _o)[1:4], lambda w, _o=o: getattr(w, _o)[2:5], lambda w, _o=o: getattr(w, _o)[1:5:2],
            lambda w, _o=o: getattr(w, _o).insert(2, w.b), lambda w, _o=o: getattr(w, _o).insert(3, w.b[:2]),
            lambda w, _o=o: getattr(w, _o).values(0).copy(), lambda w, _o=o: getattr(w, _o).values(1).copy(), lambda w, _o=o: getattr(w, _o).insertdim(1),
            lambda w, _o=o: getattr(w, _o).insertdim(1, [1, 2, 3, 4, 5, 6, 7]), lambda w, _o=o: getattr(w, _o).insertdim(0, [1, 2, 3, 4, 5, 6, 8]))
        add('find', lambda w, _o=o: getattr(w, _o).index(Point([4, 4])), lambda w, _o=o: getattr(w, _o).index(Point([0, 0]), 0, 3), lambda w, _o=o: getattr(w, _o).count(Point([2, 2])),
            lambda w, _o=o: w.a == getattr(w, _o), lambda w, _o=o: w.b == getattr(w, _o), lambda w, _o=o: getattr(w, _o)[2:4] in w.a, lambda w, _o=o: getattr(w, _o)[1] in w.b)
        add('views', *[lambda w, _o=o, _k=k: [getattr(w, _o)[_k], getattr(w, _o)[_k].curvature, getattr(w, _o)[_k].t, getattr(w, _o).segments[_k].chordlen] for k in (0, 3, 5)])
    mets = [(m, {}) for m in ('euclidean', 'cityblock', 'chebyshev', 'sqeuclidean', 'cosine', 'canberra', 'braycurtis', 'correlation', 'minkowski')]
    mets += [('minkowski', {'p': p}) for p in (1, 3, 2.5)] + [('minkowski', {'p': 2, 'w': w}) for w in ([1, 2, 3], [3, 2, 1])]
    mets += [('seuclidean', {'V': v}) for v in ([1, 2, 3], [3, 1, 1])] + [('wminkowski', {'p': 2, 'w': w}) for w in ([1, 2, 3], [3, 2, 1])]
    for m, kw in mets:
        add('metrics', lambda w, _m=m, _k=kw: w.p.distance(w.o, _m, **_k), lambda w, _m=m, _k=kw: skcurve.get_metric(_m, **_k)(w.p.data, w.o.data * 2))
    for k in (None, 0, 1, 3, 8):
        add('angle', lambda w, _k=k: w.s.angle(w.q, _k), lambda w, _k=k: w.q.angle(w.s.reverse(), ndigits=_k))
    for tol in (1e-3, 1e-1, 1e-12):
        add('tolerances', lambda w, _t=tol: w.s.parallel(w.q, tol=_t), lambda w, _t=tol: w.s.collinear(w.q, tol=_t), lambda w, _t=tol: w.s.collinear(Point([2, 2.01]), tol=_t),
            lambda w, _t=tol: w.s.t(Point([2, 2.01]), tol=_t), lambda w, _t=tol: w.s.t([Point([2, 2.01]), Point([1, 1])], tol=_t),
            lambda w, _t=tol: Segment(Point([0, 0, 0]), Point([1, 1, 0])).coplanar(Segment(Point([0, 1, 1e-2]), Point([1, 0, -1e-2])), tol=_t))
    for t in (0.25, 0.5, [0.25, 0.5], [0.5, 0.25], np.array([0.25, 0.75])):
        add('point', lambda w, _t=t: w.s.point(_t), lambda w, _t=t: w.q.point(_t))
    for x in (w2 for w2 in ([1, 1], [4, 3.9], [5, 0])):
        add('nearest', lambda w, _x=x: w.s.shortest_segment(Point(_x)), lambda w, _x=x: w.q.distance(Point(_x)), lambda w, _x=x: w.s.distance(Segment(Point(_x), Point([9, 1]))),
            lambda w, _x=x: w.s.overlap(Segment(Point(_x), Point([9, 9])), check_collinear=True), lambda w, _x=x: w.s.overlap(Segment(Point(_x), Point([9, 9]))))
    for n in (3, 5, 4):
        add('generators', *[lambda w, _n=n, _f=f, _k=k: _f(p_count=_n, **_k) for f, k in (
            (generators.arc, {}), (generators.arc, {'r': 2.0}), (generators.arc, {'t_stop': 1.0}), (generators.helix, {}), (generators.helix, {'a': 2.0}), (generators.helix, {'b': 2.0}),
            (generators.lissajous, {}), (generators.lissajous, {'d': 1.0}), (generators.euler_spiral, {}), (generators.lemniscate_of_bernoulli, {'c': 2.0}),
            (generators.archimedean_spiral, {'a': 1.0}), (generators.archimedean_spiral, {'b': 1.0}), (generators.irregular_helix, {}), (generators.irregular_helix, {'z_stop': 5.0}))])
    raw = [[1, 2, 3], [4, 5, 6], [7, 8, 9]]
    for kw in ({}, {'axis': 0}, {'axis': 1}, {'ndmin': 4}, {'ndmin': 5}, {'dtype': 'f4'}, {'dtype': 'i8'}, {'tdata': [0, 1, 2]}, {'tdata': [0, 2, 3]}):
        add('build', lambda w, _k=kw: Curve(raw, **_k), lambda w, _k=kw: Curve(np.array(raw), **_k), lambda w, _k=kw: Curve(np.array(raw)[::-1], **_k))
    for kw in ({}, {'atol': 1.0}, {'rtol': 0.5}, {'atol': 0.1}):
        add('numeric', lambda w, _k=kw: skcurve.isequal(np.array([1.0, 2.0]), np.array([1.5, 2.0]), **_k), lambda w, _k=kw: skcurve.allequal(np.array([1.0, 2.0]), np.array([1.05, 2.0]), **_k))
    # one object (a grid, an interpolator, a method of intersection, a metric) called with different arguments
    for kind in grid_objects():
        for o in 'abturi':
            add('shared grid ' + kind, lambda w, _g=kind, _o=o: w.grids[_g](getattr(w, _o)))
        add('shared grid ' + kind, lambda w, _g=kind: w.a.interpolate(w.grids[_g], 'linear'), lambda w, _g=kind: w.b.interpolate(w.grids[_g], 'cubic'),
            lambda w, _g=kind: EG(UG(3), 1, 1)(w.b), lambda w, _g=kind: w.grids[_g](w.t[1:5]), lambda w, _g=kind: w.grids[_g](w.a[0:2]))
    for m, o in INTERPS:
        for x in (4, 6, [0, 1, 3, 9], [0, 2, 3, 9], [3], UG(5), PG(4), EG(UG(4), 1, 1), np.array([0, 2, 4, 9.0]), (0, 1, 3, 9)):
            add(f'shared interpolator {m} {o}', lambda w, _k=(m, o), _x=x: w.interps[_k](_x))
        add(f'shared interpolator {m} {o}', lambda w, _m=m: w.b.interpolate(4, _m))
    ends = [([0, 0], [4, 4]), ([0, 4], [4, 0]), ([1, 1], [6, 6]), ([0, 1], [4, 5]), ([4, 4], [5, 9]), ([0, 0.4], [4, 4.4]), ([9, 9], [9.2, 12]), ([2, 2], [2, 2])]
    for (a, b), (c, d) in itertools.product(ends[:4], ends):
        add('shared exact', lambda w, _e=(a, b, c, d): w.exact(Segment(Point(_e[0]), Point(_e[1])), Segment(Point(_e[2]), Point(_e[3]))))
        for k in range(3):
            add(f'shared almost {k}', lambda w, _k=k, _e=(a, b, c, d): w.almost[_k](Segment(Point(_e[0]), Point(_e[1])), Segment(Point(_e[2]), Point(_e[3]))))
    for x, y in itertools.permutations('abtr', 2):
        add('shared exact', lambda w, _x=x, _y=y: w.exact(getattr(w, _x), getattr(w, _y)), lambda w, _x=x: w.exact(getattr(w, _x), getattr(w, _x)))
        for k in range(3):
            add(f'shared almost {k}', lambda w, _k=k, _x=x, _y=y: w.almost[_k](getattr(w, _x), getattr(w, _y)), lambda w, _k=k, _x=x, _y=y: w.almost[_k](getattr(w, _x), getattr(w, _x)))
    pts = [[1, 2, 3], [2, 0, 1], [-1, 5, 0.5], [3, 3, 3]]
    for m in METRICS:
        for x, y in itertools.permutations(pts, 2):
            add('shared metric ' + m, lambda w, _m=m, _x=x, _y=y: w.metrics[_m](np.array(_x, dtype='f8'), np.array(_y, dtype='f8')))
        add('shared metric ' + m, lambda w, _m=m: w.p.distance(w.o, w.metrics[_m]), lambda w, _m=m: w.o.distance(w.p * 2, w.metrics[_m]))
    for o in 'abtufi':
        add('shared smooth', lambda w, _o=o: w.smooths['window'](getattr(w, _o), window_size=3), lambda w, _o=o: w.smooths['window'](getattr(w, _o), window_size=5),
            lambda w, _o=o: w.smooths['savgol'](getattr(w, _o), 5, 2), lambda w, _o=o: w.smooths['savgol'](getattr(w, _o), 3, 2))
    return g


VARIANTS = variants()


def run_variants(case, stat):
    """One process for each first call: it runs the call, then all ordered pairs of calls of the group; each has its fresh value"""
    group, first = case
    funcs = VARIANTS[group]

    def call(k, w):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                return 'ok', canon(funcs[k](w))
            except Exception as err:
                return 'raise', type(err).__name__

    order = [first]
    n = len(funcs)
    if n <= 24:
        for a in range(n):
            for b in range(n):
                order += [a, b]
    else:
        for step in (1, n - 1, 2, 3, 5):
            order += [(first + step * k) % n for k in range(n)]

    def go():
        outs = {}
        shared = Like()
        bad = []
        for pos, k in enumerate(order):
            for w in (shared, Like()) if pos % 3 == 0 else (shared,):
                out = call(k, w)
                exp = outs.setdefault(k, out)
                if not same(out, exp):
                    bad.append((order[max(0, pos - 3):pos + 1], out, exp))
        return outs, bad
    outs, bad = child(go)
    stat.op(len(order))
    stat.check(not bad, '%s: call %s', group, bad[:1])
    stat.check(same(outs[first], _variant_fresh(group, first)), '%s: call %s', group, first)
    for k in outs:
        stat.check(same(outs[k], _variant_fresh(group, k)), '%s: call %s after call %s gives %s, fresh value %s', group, k, first, outs[k], _variant_fresh(group, k))
    stat.seen(group)


_variants_fresh = {}


def _variant_fresh(group, k):
    return _variants_fresh[group][k]


def variants_fresh():
    """The values of the calls of a group, each in a process of its own"""
    jobs = []

    def call(f):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                return 'ok', canon(f(Like()))
            except Exception as err:
                return 'raise', type(err).__name__

    def flush():
        for group, k, job in jobs:
            _variants_fresh.setdefault(group, {})[k] = finish(job)
        jobs.clear()
    for group, funcs in VARIANTS.items():
        for k, f in enumerate(funcs):
            jobs.append((group, k, start(lambda f=f: call(f))))
            if len(jobs) == 8:
                flush()
    flush()


SETTINGS = ['default', 'raise-filter', 'errstate-warn', 'print', 'seed', 'gc']


def run_settings(case, stat):
    """Results under changed global settings are the same, and the settings are kept"""
    name, setting = case
    exp = fresh(name)

    def go():
        w = World()
        if setting == 'errstate-warn':
            np.seterr(all='warn')
        elif setting == 'print':
            np.set_printoptions(precision=3, suppress=True)
        elif setting == 'seed':
            np.random.seed(5)
            random.seed(7)
        elif setting == 'raise-filter':
            warnings.simplefilter('error', category=DeprecationWarning)
        elif setting == 'gc':
            gc.disable()
        elif setting == 'ignore':
            warnings.simplefilter('ignore')
        g = global_state()
        out = run_op(name, w)
        g2 = global_state()
        if diff_state(g, g2):
            raise Violation(f'{name} under {setting} has changed the global state: {diff_state(g, g2)}')
        return out
    out = child(go)
    stat.op()
    if name != 'repr' or setting != 'print':
        stat.check(same(out[0], exp[0]), '%s under %s: %s, fresh value %s', name, setting, out, exp)
    stat.seen(setting)


PLOTS = [{}, {'label': 'x', 'color': 'red'}, {'param': 't'}, {'param': 'curvature', 'marker': 'o'}, {'param': 'cumarclen', 'param_cmap': 'jet'}, {'show_normals': True},
         {'param': 'zzz'}, {'bad_keyword': 1}]


def run_plots(case, stat):
    """Plotting leaves the settings of matplotlib and the other figures alone"""
    curve, k, again, own = case
    # in the parent process, so that it happens once
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from skcurve.plot import curveplot

    def go():
        w = World()
        fig0, ax0 = plt.subplots()
        ax0.plot([0, 1], [1, 0])
        figs = plt.get_fignums()
        g, ws = global_state(), world_state(w)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            before = {x: repr(v) for x, v in matplotlib.rcParams.items()}, list(warnings.filters), matplotlib.get_backend(), plt.isinteractive()
            try:
                c = getattr(w, curve)
                axes = {} if not own else {'axes': plt.figure().add_subplot(1, 1, 1, projection='3d' if c.is3d else None)}
                n = len(plt.get_fignums())
                plot = curveplot(c, **axes, **PLOTS[k])
                for x in again:
                    plot.curveplot(c, **PLOTS[x])
                made = len(plt.get_fignums()) - n
            except Exception as err:
                made = type(err).__name__
            after = {x: repr(v) for x, v in matplotlib.rcParams.items()}, list(warnings.filters), matplotlib.get_backend(), plt.isinteractive()
        if before != after:
            raise Violation(f'{case}: settings have changed: {[x for x in before[0] if before[0][x] != after[0].get(x)]}')
        if diff_state(g, global_state()) or world_state(w) != ws:
            raise Violation(f'{case} has changed the global state or the objects: {diff_state(g, global_state())}')
        if plt.get_fignums()[:len(figs)] != figs or len(ax0.lines) != 1 or ax0.collections or len(fig0.axes) != 1:
            raise Violation(f'{case} has drawn into a foreign figure')
        if isinstance(made, int) and made != (0 if own else 1):
            raise Violation(f'{case} has created {made} figures')
        plt.close('all')
        return made
    out = child(go)
    stat.op(1 + len(again))
    stat.seen(str(out))


def spaces(tier):
    fresh_all()
    variants_fresh()
    deep = tier == 'thorough'
    n = len(NAMES)
    heavy = ['a.curvature', 'd.torsion', 'int-almost2', 'int-exact', 'interp-csaps', 'smooth-window', 'seg-distance', 'unique', 'pt-metric', 'grids', 'int-unknown',
             'generators', 'repr', 'build', 'drop']

    def pairs():
        for a in NAMES if deep else []:
            yield (a,), 'shared'
            yield (a,), 'new'
        if deep:
            for a, b in itertools.permutations(heavy, 2):
                yield (a, b), 'shared'

    def longs():
        for s in range(n):
            if deep or s < 20:
                yield s, 1, 'shared'
                yield s, n - 1, 'new'
            if deep:
                for step in range(2, 12):
                    yield s, step, 'shared'
    return ([Space('pairs', pairs, run_pairs, 'all ordered pairs of %d operations and histories of three over %d, each in its own process' % (n, len(heavy)))] if deep else []) + [
        Space('alternate', lambda: [(a, m) for a in NAMES for m in (('shared', 'new') if deep else ('new',))], run_alternate, 'all ordered pairs of %d operations, one process for each first operation' % n),
        Space('long', longs, run_long, 'rotations of all operations forwards and backwards in one process'),
        Space('variants', lambda: [(g, k) for g, f in VARIANTS.items() for k in range(len(f)) if deep or k in (0, len(f) // 2, len(f) - 1)], run_variants,
              '%d calls in %d groups; the calls of a group differ in parameters or in objects which are alike: ordered pairs of the calls in one process, for each first call'
              % (sum(len(f) for f in VARIANTS.values()), len(VARIANTS))),
        Space('plots', lambda: [(c, k, again, own) for c in 'abc' for k in range(len(PLOTS)) for again in ((), (0,), (2, 1)) for own in (False, True)], run_plots,
              'plots and further plots on their axes, on new and on given figures'),
        Space('settings', lambda: [(a, s) for a in NAMES for s in SETTINGS], run_settings, 'each operation under each global setting'),
    ]
