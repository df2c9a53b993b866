# -*- coding: utf-8 -*-
import copy
import itertools

import numpy as np

import skcurve
from mc.core import Space
from mc.lib import Curve, Point, LADDER_SHORT, LADDER, lattice

TITLE = 'Curve, point and segment views report the same values in any access order'
ASSUMPTIONS = ['the arrays which the properties return are only read']

PROPS = ['t', 'chordlen', 'arclen', 'cumarclen', 'firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'normal', 'binormal', 'speed',
         'frenet1', 'frenet2', 'frenet3', 'curvature', 'torsion']
PER_POINT = ['t', 'cumarclen', 'firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'normal', 'binormal', 'speed',
             'frenet1', 'frenet2', 'frenet3', 'curvature', 'torsion']

ROWS = {
    2: [[0, 0], [1, 2], [3, 3], [4, 7], [2, 8], [0, 5]],
    3: [[0, 0, 1], [1, 2, 0], [3, 3, 4], [4, 7, 2], [2, 8, 9], [0, 5, 5]],
    4: [[0, 0, 1, 2], [1, 2, 0, 5], [3, 3, 4, 1], [4, 7, 2, 7], [2, 8, 9, 0], [0, 5, 5, 3]],
    'singular': [[0, 0], [1, 1], [1, 1], [1, 1], [2, 2], [3, 3]],
    'nan': [[0, 0, 0], [1, 2, 1], [float('nan'), 1, 1], [3, 1, 2], [4, 4, 4], [5, 0, 1]],
}


def build(kind, dt, par, n=6):
    rows = ROWS[kind][:n]
    return Curve(np.array(rows, dtype=dt).reshape(n, -1) if rows else np.zeros((0, 2), dtype=dt),
                 tdata=[0., 1., 2.5, 3., 4., 7.][:n] if par else None)


def bits(v):
    a = np.asarray(v)
    return a.shape, str(a.dtype), a.tobytes()


def reference(c_func):
    """Each value from its own fresh curve"""
    return {p: bits(getattr(c_func(), p)) for p in PROPS}


# accesses: (name, function(curve) -> list of (property, value bits of the curve or (index, value)))

def acc_curve(p):
    def f(stat, c, ref, arr, what):
        stat.op()
        v = getattr(c, p)
        stat.check(bits(v) == ref[p], '%s: %s of the curve is %s', what, p, v)
        return v
    return f


def acc_point(p, i):
    def f(stat, c, ref, arr, what):
        if not c.size:
            return
        k = i % c.size
        stat.op()
        q = c[k]
        v = getattr(q, p)
        stat.check(bits(v) == bits(arr[p][k]), '%s: %s of point %s is %s, model %s', what, p, k, v, arr[p][k])
        stat.check(bits(getattr(q, p)) == bits(arr[p][k]), '%s: %s of point %s is another when read again', what, p, k)
        stat.check(bits(getattr(c, p)[k]) == bits(arr[p][k]), '%s: %s of the curve at %s', what, p, k)
    return f


def acc_segments(stat, c, ref, arr, what):
    for i, s in enumerate(c.segments):
        stat.op()
        stat.check(bits(np.float64(s.chordlen)) == bits(np.float64(arr['chordlen'][i])), '%s: chordlen of segment %s', what, i)
        stat.check(bits(np.float64(s.p2.cumarclen)) == bits(arr['cumarclen'][i + 1]), '%s: cumarclen of the end of segment %s', what,
                   i)
        stat.check(s.p1.idx == i and s.p2.idx == i + 1 and s.idx == i, '%s: indices of segment %s', what, i)


def acc_all_points(stat, c, ref, arr, what):
    for i, q in enumerate(c):
        for p in PER_POINT:
            stat.op()
            v = getattr(q, p)
            stat.check(bits(v) == bits(arr[p][i]), '%s: %s of point %s is %s, model %s', what, p, i, v, arr[p][i])


def other_use(f):
    def g(stat, c, ref, arr, what):
        stat.op()
        try:
            f(c)
        except Exception:  # what the operation gives is not judged here
            pass
    return g


ACCESS = {p: acc_curve(p) for p in PROPS}
ACCESS.update({f'point.{p}': acc_point(p, i) for i, p in enumerate(PER_POINT)})
ACCESS['segments'] = acc_segments
ACCESS['points'] = acc_all_points
ACCESS.update({
    'use.nonsingular': other_use(lambda c: c.nonsingular()),
    'use.interpolate': other_use(lambda c: c.interpolate(5, 'hermite')),
    'use.smooth': other_use(lambda c: c.smooth('window', window_size=3)),
    'use.intersect': other_use(lambda c: c.intersect()),
    'use.coorient': other_use(lambda c: c.coorientplane(1, 0)),
    'use.copy': other_use(lambda c: (copy.copy(c), copy.deepcopy(c), Curve(c))),
    'use.speedgrid': other_use(lambda c: skcurve.PreservedSpeedInterpolationGrid(9)(c)),
    'use.isplane': other_use(lambda c: (c.isplane, c.isspatial, repr(c))),
})


def run_sequence(case, stat):
    kind, dt, par, n, first, depth = case

    def mk():
        return build(kind, dt, par, n)
    ref = reference(mk)
    arr = {p: getattr(mk(), p) for p in PROPS}
    for rest in itertools.product(ACCESS, repeat=depth - 1):
        c = mk()
        seq = (first,) + rest
        stat.state((kind, dt, par, n) + seq)
        for k, name in enumerate(seq):
            ACCESS[name](stat, c, ref, arr, seq[:k + 1])
        # the first one again, after all the others
        ACCESS[first](stat, c, ref, arr, seq + (first,))
    stat.seen(first)


DERIVE = {
    'slice': lambda c: c[1:],
    'slice2': lambda c: c[:-1],
    'step': lambda c: c[::2],
    'whole': lambda c: c[:],
    'indices': lambda c: c[[0, 2, 1]],
    'mask': lambda c: c[np.arange(c.size) != 1],
    'reverse': lambda c: c.reverse(),
    'copy': copy.copy,
    'deepcopy': copy.deepcopy,
    'Curve': Curve,
    'dtype': lambda c: Curve(c, dtype='f4'),
    'ndmin': lambda c: Curve(c, ndmin=4),
    'insert': lambda c: c.insert(1, c[0]),
    'append': lambda c: c.append(c[:2]),
    'delete': lambda c: c.delete(1),
    'concat': lambda c: c + c,
    'unique': lambda c: c.unique(),
    'drop': lambda c: c.drop(np.isnan),
    'nonsingular': lambda c: c.nonsingular(),
    'insertdim': lambda c: c.insertdim(0),
    'appenddim': lambda c: c.appenddim(),
    'deletedim': lambda c: c.appenddim().deletedim(0),
    'coorient': lambda c: c.coorientplane(1, 0),
    'subcurve': lambda c: c[1].subcurve(c[-1]),
    'smooth': lambda c: c.smooth('window', window_size=3),
    'interpolate': lambda c: Curve(c, dtype='f8').nonsingular().interpolate(7, 'linear'),
    'to_curve': lambda c: c.segments[0].to_curve(),
}


def run_derived(case, stat):
    """No cached value passes to a derived curve: it reports what a fresh curve with the same data does"""
    kind, dt, par, how = case
    for warm in ((), tuple(PROPS), ('curvature',), ('torsion', 't'), ('arclen', 'cumarclen'), ('firstderiv',)):
        c = build(kind, dt, par)
        for p in warm:
            getattr(c, p)
        for q in c[:2]:
            for p in warm:
                if p in PER_POINT:
                    getattr(q, p)
        cached = {p: bits(getattr(c, p)) for p in warm}
        x = DERIVE[how](c)
        stat.op()
        fresh = Curve(np.array(x.data.tolist(), dtype=x.dtype).reshape(x.data.shape), tdata=x.t.tolist() if x.isparametric else None)
        for p in PROPS:
            stat.op()
            stat.check(bits(getattr(x, p)) == bits(getattr(fresh, p)), '%s of %s (%s read before): %s is %s, of a fresh curve %s', how,
                       kind, warm, p, getattr(x, p), getattr(fresh, p))
        for i, q in enumerate(x):
            for p in PER_POINT:
                stat.check(bits(getattr(q, p)) == bits(getattr(fresh, p)[i]), '%s: %s of point %s of the derived curve', how, p, i)
            stat.check(q.curve is x and q.idx == i, '%s: point %s belongs to another curve', how, i)
        for i, s in enumerate(x.segments):
            stat.check(bits(np.float64(s.chordlen)) == bits(np.float64(fresh.chordlen[i])) and s.curve is x, '%s: segment %s', how, i)
        for p in warm:
            stat.check(bits(getattr(c, p)) == cached[p], '%s: %s of the original changed', how, p)
    stat.seen(how)


def run_two_curves(case, stat):
    """Interleaved accesses of two curves of the same shape do not mix"""
    p1, p2, par = case
    ra, rb = ROWS[3], [[v + (i + k) % 3 for k, v in enumerate(r)] for i, r in enumerate(ROWS[3])]

    def mk(r):
        return Curve(np.array(r, dtype='f8'), tdata=list(range(6)) if par else None)
    fa, fb = reference(lambda: mk(ra)), reference(lambda: mk(rb))
    a, b = mk(ra), mk(rb)
    for p in (p1, p2):
        stat.op(2)
        stat.check(bits(getattr(a, p)) == fa[p], '%s of the first curve (%s)', p, case)
        stat.check(bits(getattr(b, p)) == fb[p], '%s of the second curve (%s)', p, case)
    qa, qb = a[2], b[2]
    for p in (p1, p2):
        if p in PER_POINT:
            stat.check(bits(getattr(qa, p)) == bits(getattr(mk(ra), p)[2]), '%s of a point of the first curve', p)
            stat.check(bits(getattr(qb, p)) == bits(getattr(mk(rb), p)[2]), '%s of a point of the second curve', p)
    # points with the same index, an own cache each, of the same curve
    for p in PER_POINT:
        vals = [bits(getattr(q, p)) for q in (a[0], a[-1], a[0], a[1], a[-1])]
        stat.check(vals[0] == vals[2] and vals[1] == vals[4], '%s of repeated points', p)


def run_sizes(case, stat):
    n, d, par = case
    rows = np.array([[(i * i * (k + 2) + i) % 31 + i for k in range(d)] for i in range(n)], dtype='f8')
    t = np.arange(n) * 0.5 if par else None
    ref = {p: getattr(Curve(rows, tdata=t), p) for p in PROPS}
    c, r = Curve(rows, tdata=t), Curve(rows, tdata=t)
    for p in PROPS:
        stat.op()
        stat.check(bits(getattr(c, p)) == bits(ref[p]), 'n=%s %s in order', n, p)
    for p in PROPS[::-1]:
        stat.check(bits(getattr(r, p)) == bits(ref[p]), 'n=%s %s in the opposite order', n, p)
    for i in sorted({0, 1, n // 2, n - 2, n - 1}):
        for p in PER_POINT:
            stat.op()
            stat.check(bits(getattr(c[i], p)) == bits(ref[p][i]), 'n=%s %s of point %s', n, p, i)
            stat.check(bits(getattr(c[i - n], p)) == bits(ref[p][i]), 'n=%s %s of point %s', n, p, i - n)
        if i < n - 1:
            s = c.segments[i]
            stat.check(bits(np.float64(s.chordlen)) == bits(np.float64(ref['chordlen'][i])), 'n=%s chordlen of segment %s', n, i)


def spaces(tier):
    deep = tier == 'thorough'

    def seqs():
        for first in ACCESS:
            for kind, dt, par, n in ((2, 'f8', False, 6), (3, 'f8', True, 6), ('singular', 'f8', True, 6)):
                yield kind, dt, par, n, first, 2
            if deep:
                for kind, dt, par, n in ((4, 'f8', False, 6), (3, 'i8', False, 6), (2, 'f4', True, 5), (3, 'f8', False, 3),
                                         (2, 'f8', True, 2), (2, 'u1', False, 4), ('nan', 'f8', False, 6), (2, 'f8', False, 1)):
                    yield kind, dt, par, n, first, 2
                yield 3, 'f8', True, 4, first, 3
            else:
                for kind, dt, par, n in ((4, 'i4', False, 5), ('nan', 'f8', True, 6), (2, 'f4', False, 3)):
                    yield kind, dt, par, n, first, 2
    kinds = [(2, 'f8', False), (2, 'f8', True), (3, 'f8', True), (3, 'i8', False), ('singular', 'f8', True), ('nan', 'f8', False),
             (4, 'f4', True)]
    return [
        Space('sequences', seqs, run_sequence, f'all ordered {"pairs and triples" if deep else "pairs"} of {len(ACCESS)} accesses'),
        Space('derived', lambda: [k + (h,) for k in kinds for h in DERIVE], run_derived,
              'all ways to derive a curve x sets of values read before'),
        Space('two_curves', lambda: [(p, q, par) for p in PROPS for q in PROPS for par in (False, True)], run_two_curves,
              'interleaved accesses of two curves'),
        Space('sizes', lambda: [(n, d, par) for n in (LADDER if deep else LADDER_SHORT) for d in (2, 3) for par in (False, True)],
              run_sizes, 'a ladder of sizes'),
    ]
