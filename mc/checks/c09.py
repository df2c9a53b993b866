# -*- coding: utf-8 -*-
import itertools
import math
import warnings

import numpy as np

import skcurve
from mc.core import Space
from mc.lib import Curve, near, near_seq, lattice, place, PLACES, LADDER, LADDER_SHORT

TITLE = 'Derivatives, Frenet frame, curvature and torsion satisfy their definitions'
ASSUMPTIONS = ['vectors whose norm is within the absolute tolerance 1e-8 of zero are "not well defined" (as documented by the '
               'warning); norms between 1e-9 and 1e-6 are not judged']

NAMES = ['firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'normal', 'binormal', 'speed', 'frenet1', 'frenet2', 'frenet3',
         'curvature', 'torsion']
ZERO = 1e-8


# ------------------------------------------------------------------ the reference, plain Python

def gradient(rows):
    """Second-order accurate finite differences (one-sided of the second order at the ends), unit step"""
    n = len(rows)
    d = len(rows[0]) if rows else 0
    if n < 2:
        return [[0.0] * d for _ in rows]
    if n == 2:
        v = [b - a for a, b in zip(*rows)]
        return [v, list(v)]
    out = [[(-3 * a + 4 * b - c) / 2 for a, b, c in zip(rows[0], rows[1], rows[2])]]
    for i in range(1, n - 1):
        out.append([(b - a) / 2 for a, b in zip(rows[i - 1], rows[i + 1])])
    out.append([(3 * a - 4 * b + c) / 2 for a, b, c in zip(rows[-1], rows[-2], rows[-3])])
    return out


def norm(v):
    return math.sqrt(math.fsum(x * x for x in v))


def dot(u, v):
    return math.fsum(a * b for a, b in zip(u, v))


def div(a, b):
    if b == 0:
        return math.nan if a == 0 or a != a else math.copysign(math.inf, a)
    return a / b


class Ref:
    """All quantities of a curve by their definitions"""

    def __init__(self, rows, size=1.0):
        # size: the order of magnitude of coordinates (rounding errors are relative to it, the threshold is not)
        self.size = float(size)
        self.rows = rows = [[float(x) for x in r] for r in rows]
        n = len(rows)
        d = len(rows[0]) if rows else 0
        self.firstderiv = self.tangent = gradient(rows)
        self.secondderiv = gradient(self.firstderiv)
        self.thirdderiv = gradient(self.secondderiv)
        self.speed = [norm(v) for v in self.tangent]
        self.frenet1, self.bad1, amb1 = self.unit(self.tangent)
        self.normal = [[s - dot(a, e1) * x for s, x in zip(a, e1)] for a, e1 in zip(self.secondderiv, self.frenet1)]
        self.frenet2, self.bad2, amb2 = self.unit(self.normal)
        self.binormal = [[t - dot(a, e1) * x - dot(a, e2) * y for t, x, y in zip(a, e1, e2)]
                         for a, e1, e2 in zip(self.thirdderiv, self.frenet1, self.frenet2)]
        self.frenet3, self.bad3, amb3 = self.unit(self.binormal)
        if d == 2:
            self.curvature = [div(f[0] * s[1] - f[1] * s[0], (f[0] ** 2 + f[1] ** 2) ** 1.5)
                              for f, s in zip(self.firstderiv, self.secondderiv)]
        else:
            self.curvature = [div(norm(g), v) for g, v in zip(gradient(self.frenet1), self.speed)]
        self.torsion = [div(dot(g, e3), v) for g, e3, v in zip(gradient(self.frenet2), self.frenet3, self.speed)]
        self.ambiguous1, self.ambiguous2, self.ambiguous3 = amb1, amb2, amb3

    def unit(self, vectors):
        """Unit vectors; vectors of zero norm stay as they are (not well defined)"""
        out, bad, amb = [], False, False
        for v in vectors:
            m = norm(v)
            if m <= ZERO:
                bad = True
                out.append(list(v))
            else:
                out.append([x / m for x in v])
            if 1e-14 * self.size < m < (2e-8 if self.size < 1e-3 else 1e-6 * max(1.0, self.size)):
                amb = True
        return out, bad, amb


def get(c, name):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        val = getattr(c, name)
    return val, sum(1 for x in w if issubclass(x.category, skcurve.DifferentialGeometryWarning)), w


DEPENDS = {  # quantities which need unit vectors of an order
    'firstderiv': 0, 'secondderiv': 0, 'thirdderiv': 0, 'tangent': 0, 'speed': 0, 'frenet1': 1, 'normal': 1,
    'frenet2': 2, 'binormal': 2, 'frenet3': 3, 'torsion': 3,
}


def check_curve(stat, rows, dt='f8', what='', tol=1e-9, points=True, par=False, names=NAMES, size=1.0, careful=False):
    n, d = len(rows), len(rows[0]) if rows else 0
    arr = np.array(rows, dtype=dt)
    t = list(range(n)) if par else None
    ref = Ref(arr.tolist(), size)
    scaled = {'frenet1': 0, 'frenet2': 0, 'frenet3': 0, 'curvature': -1, 'torsion': -1}     # the others are lengths
    # conditioning: where a vector is numerically zero but not exactly, unit vectors built upon it are noise
    noisy = 9
    for order, amb in ((1, ref.ambiguous1), (2, ref.ambiguous2), (3, ref.ambiguous3)):
        if amb:
            noisy = order
            break
    for name in names:
        if careful and (ref.bad1 or ref.bad2 or ref.bad3) and DEPENDS.get(name, 1) == 3:
            continue
        c = Curve(arr, tdata=t)      # a fresh object: every warning of the quantity appears
        got, warned, ws = get(c, name)
        stat.op()
        dep = DEPENDS.get(name, 1 if d > 2 else 0)      # curvature
        exp = getattr(ref, name)
        shape = (n,) if name in ('speed', 'curvature', 'torsion') else (n, d)
        stat.check(isinstance(got, np.ndarray) and got.shape == shape and got.dtype.kind == 'f', '%s %s: %s of shape %s', what, name,
                   type(got), getattr(got, 'shape', None))
        if dep < noisy:
            # vectors which are not well defined are rounding errors of the coordinates
            noise = 1e-13 * size if dep and (ref.bad1 or ref.bad2 or ref.bad3) else 0.0
            stat.check(near_seq(got.tolist(), exp, tol, max(tol, noise) * float(size) ** scaled.get(name, 1)), '%s %s %s: %s, model %s', what, rows[:6], name, got.tolist()[:6],
                       exp[:6])
        elif dep == noisy and name in ('normal', 'binormal'):
            stat.check(near_seq(got.tolist(), exp, 1e-5, 1e-5 * size), '%s %s: %s, model %s', what, name, got.tolist()[:6], exp[:6])
        # warnings
        few = n < 3
        if name == 'curvature' and d == 2:
            bad = False
        else:
            bad = (dep >= 1 and ref.bad1) or (dep >= 2 and ref.bad2) or (dep >= 3 and ref.bad3)
        if not (noisy <= dep) or few or (noisy > 1 and dep >= 1 and ref.bad1):
            stat.check((warned > 0) == bool(few or bad), '%s %s %s: %s warnings (%s), model: few=%s not well defined=%s', what, rows,
                       name, warned, [str(x.message)[:50] for x in ws], few, bad)
        stat.seen(f'{name} {"warns" if warned else "silent"}')
        if points and n and name != 'tangent':
            for i in sorted({0, n // 2, n - 1}):
                v = getattr(c[i], name)
                stat.check(np.array_equal(np.asarray(v), got[i]) or (np.isnan(v).all() and np.isnan(got[i]).all()),
                           '%s %s of point %s is %s', what, name, i, v)
    # orthonormality of what the code itself gives
    utol = max(1e-7, tol)
    c = Curve(arr)
    e1, e2, e3 = (getattr(c, f'frenet{k}').tolist() for k in (1, 2, 3))
    small = 1e-6 * max(1.0, size) if size > 1e-3 else 2e-8
    for i in range(n):
        m1, m2, m3 = norm(ref.tangent[i]), norm(ref.normal[i]), norm(ref.binormal[i])
        if m1 > small:
            stat.check(near(norm(e1[i]), 1, tol), '%s: |e1| = %s', what, norm(e1[i]))
            if m2 > small:
                stat.check(near(norm(e2[i]), 1, tol) and near(dot(e1[i], e2[i]), 0, utol, utol), '%s: e1=%s e2=%s', what, e1[i],
                           e2[i])
                if m3 > small:
                    stat.check(near(norm(e3[i]), 1, tol) and near(dot(e1[i], e3[i]), 0, utol, utol) and
                               near(dot(e2[i], e3[i]), 0, utol, utol), '%s: e1=%s e2=%s e3=%s', what, e1[i], e2[i], e3[i])


def run_lattice(case, stat):
    word, dt, scale = case[:3]
    careful = len(case) > 3     # inexact words: what is divided by rounding errors is not judged
    rows = [[x * scale for x in p] for p in word]
    check_curve(stat, rows, dt, f'{dt}', points=len(word) < 4, tol=2e-3 if dt in ('f4', 'f2') else 1e-9, size=scale, careful=careful)


def run_empty(case, stat):
    n, d, dt, par = case
    arr = np.array([[3, 1, 2, 5][:d]] * n, dtype=dt).reshape(n, d)
    for name in NAMES:
        c = Curve(arr, tdata=[2.0] * n if par else None)
        got, warned, ws = get(c, name)
        stat.op()
        shape = (n,) if name in ('speed', 'curvature', 'torsion') else (n, d)
        stat.check(got.shape == shape, 'n=%s d=%s %s: shape %s', n, d, name, got.shape)
        if n and shape == (n, d):
            stat.check(not got.any(), '%s of a single point: %s', name, got)
        if n == 1:
            stat.check(warned > 0, '%s of a single point does not warn', name)
            v = getattr(c[0], name)
            stat.check(np.shape(v) == shape[1:], '%s of the point of a single-point curve: %s', name, v)
        if n == 0:
            stat.check(warned == 0, '%s of an empty curve warns: %s', name, [str(x.message) for x in ws])


def poly_rows(n, d, deg):
    out = []
    for i in range(n):
        x = i - n // 2
        r = [float(x), 0.25 * x ** 2, 0.01 * x ** 3, 1 + 0.5 * x][:d] if deg == 3 else \
            [float(x), 0.125 * x ** 2, 3.0 - 2 * x + 0.5 * x ** 2, 0.25 * x ** 2 - x][:d] if deg == 2 else \
            [float(x), 2.0 * x + 1, -x / 2, 5.0][:d]
        out.append(r)
    return out


def run_sizes(case, stat):
    n, d, dt, kind = case
    if kind == 'circle':
        h = 2 * math.pi / 48
        rows = [[3 * math.cos(h * i) + 1, 3 * math.sin(h * i) - 2, h * i, math.cos(2 * h * i)][:d] for i in range(n)]
    elif kind == 'zigzag':
        rows = [[float((i * i * (k + 2) + i) % 13) + i for k in range(d)] for i in range(n)]
    elif kind == 'int':
        rows = [[(i * i * (k + 1) + 3 * i) % 97 for k in range(d)] for i in range(n)]
    else:
        rows = poly_rows(n, d, kind)
    tol = 5e-3 if dt == 'f4' else 1e-7
    names = NAMES
    if dt == 'f4':
        names = ['firstderiv', 'secondderiv', 'tangent', 'speed', 'frenet1', 'normal']
    check_curve(stat, rows, dt, f'{kind} n={n} d={d} {dt}', tol=tol, points=n < 40, names=names)
    if kind in (1, 2):
        # second-order differences are exact for quadratics, to the ends of the curve
        c = Curve(np.array(rows))
        a = rows
        exp = []
        for i in range(n):
            x = i - n // 2
            exp.append(([1.0, 0.25 * x, -2.0 + x, 0.5 * x - 1] if kind == 2 else [1.0, 2.0, -0.5, 0.0])[:d])
        if n >= 3:
            stat.check(near_seq(c.firstderiv.tolist(), exp, 1e-9, 1e-7), '%s n=%s: first derivative is not exact', kind, n)
    if kind == 'circle' and d == 2 and dt == 'f8' and n >= 7:
        c = Curve(np.array(rows))
        k = c.curvature[3:-3]
        stat.check(near_seq(k.tolist(), [1 / 3] * len(k), 1e-2, 1e-2), 'curvature of a circle: %s', k[:5])
        stat.check(near_seq(Curve(np.array(rows[::-1])).curvature[3:-3].tolist(), [-1 / 3] * len(k), 1e-2, 1e-2),
                   'curvature of a clockwise circle')


def spaces(tier):
    deep = tier == 'thorough'

    def lat():
        for n in (1, 2, 3):
            for w in itertools.product(lattice(3, 2), repeat=n):
                yield w, 'f8', 1
        for n in (1, 2, 3):
            for w in itertools.product(lattice(2, 3), repeat=n):
                yield w, 'f8', 2
        for n in (2, 3):
            for w in itertools.product(lattice(2, 2), repeat=n):
                for dt in ('f4', 'i8', 'i4', 'i2', 'u1', 'u4', 'i1', 'u8', 'f2'):
                    yield w, dt, 5
        for w in itertools.product(lattice(2, 2), repeat=5):
            yield w, 'f8', 1
        for w in itertools.product(lattice(2, 3), repeat=4):
            if deep or not any(w[0]):
                yield w, 'f8', 1
        for w in itertools.product(lattice(3, 2), repeat=4):
            if deep or not any(w[0]):
                yield w, 'f8', 1
        # very small and very large curves (powers of two: the same words exactly)
        for scale in (2.0 ** -18, 2.0 ** 20):
            for n in (2, 3, 4):
                for w in itertools.product(lattice(2, 2), repeat=n):
                    yield w, 'f8', scale
            for w in itertools.product(lattice(2, 3), repeat=3):
                yield w, 'f8', scale
            for w in itertools.product(lattice(2, 3), repeat=3):
                if deep or w[0] > w[1]:
                    yield ((0, 0, 0), (1, 0, 0)) + w, 'f8', scale
        for w in itertools.product([(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 1), (0, 0, 1, 0), (1, 1, 1, 1)], repeat=4 if deep else 3):
            yield w, 'f8', 1
        for name in PLACES:
            if name == 'huge':      # rounding errors of undefined vectors are above the absolute threshold
                continue
            for n in (2, 3, 4):
                for w in itertools.product(lattice(2, 2), repeat=n):
                    if all(p != q for p, q in zip(w, w[1:])) and (deep or n < 4 or not any(w[0])):
                        yield tuple(place(w, name)), 'f8', 1, True
            for w in itertools.product(lattice(2, 3), repeat=3):
                if all(p != q for p, q in zip(((0, 0, 0),) + w, w)):
                    yield tuple(place(((0, 0, 0),) + w, name)), 'f8', 1, True

    def sizes():
        for n in (LADDER if deep else LADDER_SHORT):
            for d in (2, 3, 4):
                for kind in (1, 2, 3, 'circle', 'zigzag'):
                    if kind == 3 and n > 300:
                        continue
                    yield n, d, 'f8', kind
            yield n, 2, 'f4', 'circle'
            for dt in ('i4', 'u1', 'i8'):
                yield n, 3, dt, 'int'
    return [
        Space('lattice', lat, run_lattice, 'all words of up to 3 points and 4 points (which start from the origin '
                                           'in the quick tier), 5 points of the unit square, small dtypes'),
        Space('empty', lambda: [(n, d, dt, par) for n in (0, 1) for d in (2, 3, 4) for dt in ('f8', 'f4', 'i8', 'u1')
                                for par in (False, True)], run_empty, 'empty and single-point curves'),
        Space('sizes', sizes, run_sizes, 'a ladder of sizes of lines, parabolas, cubics, circles/helices and zigzags'),
    ]
