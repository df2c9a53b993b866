# -*- coding: utf-8 -*-
import itertools
import math

import numpy as np

import skcurve
from skcurve import UniformInterpolationGrid as UG, UniformExtrapolationGrid as EG, PreservedSpeedInterpolationGrid as PG
from mc.core import Space
from mc.lib import Curve, near_seq, near, mk_curve, raises, outcome, lst, place, PLACES, LADDER, LADDER_SHORT, NAN, INF

TITLE = 'Interpolation grids cover the parametrization as specified'
ASSUMPTIONS = ['curves without singular segments (the parametrization is strictly increasing)',
               'the preserved-speed grid of the kinds nearest, zero, previous and next is not judged (they repeat values)']


def words(nd, n):
    pts = [(0, 0, 0), (3, 4, 0), (1, 1, 2), (-5, 2, 7)]
    for w in itertools.product(range(4), repeat=n):
        if all(a != b for a, b in zip(w, w[1:])):
            yield [pts[k][:nd] for k in w]


TS = {2: [(0, 1), (-3, 5.5)], 3: [(0, 1, 5), (-2, 0.5, 1)], 4: [(0, 1, 2, 3), (-3, -2.5, 4, 7)], 5: [(10, 12, 13, 17, 17.5)]}


def uniform(a, b, n):
    return [a + (b - a) * k / (n - 1) for k in range(n)]


def check_grid(stat, what, g, exp, c, before, tol=1e-9):
    stat.op()
    stat.check(isinstance(g, np.ndarray) and g.ndim == 1 and g.dtype == np.float64, '%s: grid %r', what, g)
    sz = max(1.0, max(abs(x) for x in exp))
    stat.check(near_seq(lst(g), exp, tol, tol * sz), '%s: grid %s, model %s', what, lst(g)[:12], exp[:12])
    stat.check(bool((np.diff(g) > 0).all()), '%s: not strictly increasing %s', what, lst(g)[:12])
    stat.check((c.data.tobytes(), c.t.tobytes()) == before, '%s: the curve has changed', what)


def counts(length, fill):
    """Admissible numbers of spacings for the requested length: the nearest integers, at least one"""
    x = length / fill
    lo = math.floor(x)
    out = {lo} if x - lo < 0.5 - 1e-9 else {lo + 1} if x - lo > 0.5 + 1e-9 else {lo, lo + 1}
    return {max(k, 1) for k in out}


def run_uniform(case, stat):
    rows, t, dt = case
    c = mk_curve(rows, t, dt)
    before = c.data.tobytes(), c.t.tobytes()
    a, b = float(c.t[0]), float(c.t[-1])
    arclen = math.fsum(math.sqrt(sum((x - y) ** 2 for x, y in zip(p, q))) for p, q in zip(rows, rows[1:]))
    for n in list(range(2, 14)) + [33, 100]:
        for g in (UG(n), UG(fill=n, kind='point')):
            check_grid(stat, f'{rows} {t} point {n}', g(c), uniform(a, b, n), c, before)
            stat.check(g.fill == n and g.kind == 'point', 'attributes of the grid')
            g(c)
    unit = 1 if 0.5 < arclen < 500 else arclen / 10
    for fill in [x * unit for x in (1, 2, 5, 0.1, 0.37, 1.5, 3.3, 7.9, 20, 100)] + [arclen, arclen / 2, arclen / 3.4]:
        g = UG(fill, kind='length')(c)
        k = len(g) - 1
        stat.check(k in counts(arclen, fill), '%s %s length %s of %s: %s spacings, model %s', rows, t, fill, arclen, k, counts(arclen, fill))
        check_grid(stat, f'{rows} {t} length {fill}', g, uniform(a, b, k + 1), c, before)
        stat.seen(f'{min(k, 5)} spacings')


def run_extra(case, stat):
    rows, t, inner = case
    c = mk_curve(rows, t, 'f8')
    before = c.data.tobytes(), c.t.tobytes()
    kind, arg = inner
    if kind == 'length' and not 0.5 < c.arclen < 500:
        arg *= c.arclen / 10
    base = {'point': lambda: UG(arg), 'length': lambda: UG(arg, 'length'), 'speed': lambda: PG(arg)}[kind]()
    g0 = lst(base(c))
    h = (g0[-1] - g0[0]) / (len(g0) - 1)

    def model(nb, na):
        return [g0[0] - h * k for k in range(nb, 0, -1)] + g0 + [g0[-1] + h * k for k in range(1, na + 1)]
    for nb, na in itertools.product((0, 1, 2, 3, 7), repeat=2):
        what = f'{rows} {t} {inner} before {nb} after {na}'
        g = EG(base, before=nb, after=na)(c)
        check_grid(stat, what, g, model(nb, na), c, before)
        stat.check(lst(g)[nb:nb + len(g0)] == g0, '%s: the inner grid has changed %s, was %s', what, lst(g), g0)
        check_grid(stat, what + ' positional', EG(base, nb, na, 'point')(c), model(nb, na), c, before)
    for xb, xa in itertools.product((0, 1, 0.2, 1.3, 4.7), repeat=2):
        what = f'{rows} {t} {inner} before length {xb} after length {xa}'
        g = lst(EG(base, before=xb * h, after=xa * h, kind='length')(c))
        nb, na = [int(math.floor(x + 0.5)) for x in (xb, xa)]
        check_grid(stat, what, EG(base, xb * h, xa * h, kind='length')(c), model(nb, na), c, before)
        stat.check(g[nb:nb + len(g0)] == g0, '%s: the inner grid has changed', what)
    for x in (0.5, 1, 3, 10) if 1e-2 < h < 1e3 else (0.5 * h, 1.7 * h, 6 * h):
        what = f'{rows} {t} {inner} length {x}'
        g = lst(EG(base, x, x, kind='length')(c))
        n = len(g) - len(g0)
        stat.check(n % 2 == 0 and n // 2 in ({max(0, k) for k in (math.floor(x / h), math.ceil(x / h))}) and abs(n / 2 * h - x) <= h / 2 + 1e-9,
                   '%s: %s points for the pieces of length %s with spacing %s', what, n, x, h)
        check_grid(stat, what, np.array(g), model(n // 2, n // 2), c, before)
    # extrapolation of an extrapolation, and of a custom grid
    e = EG(EG(base, 2, 1), 1, 3)
    g1 = lst(EG(base, 2, 1)(c))
    h1 = (g1[-1] - g1[0]) / (len(g1) - 1)
    check_grid(stat, f'{rows} {t} {inner} nested', e(c), [g1[0] - h1] + g1 + [g1[-1] + h1 * k for k in (1, 2, 3)], c, before)
    # the grid is what interpolation uses
    e = EG(base, 2, 3)
    r = c.interpolate(e, 'linear')
    stat.op()
    stat.check(r.size == len(g0) + 5, 'interpolated %s', r.size)
    if t is not None:
        stat.check(near_seq(lst(r.t), model(2, 3), 1e-9, 1e-9), 'parametrization of the interpolated curve')
    stat.seen(kind)


def run_speed(case, stat):
    rows, t, dt = case
    c = mk_curve(rows, t, dt)
    n = len(rows)
    before = c.data.tobytes(), c.t.tobytes()
    s = [0.0]
    for p, q in zip(rows, rows[1:]):
        s.append(s[-1] + math.sqrt(sum((x - y) ** 2 for x, y in zip(p, q))))
    for m in list(range(2, 14)) + [n, 2 * n - 1, 50]:
        if t is not None:
            exp = uniform(t[0], t[-1], m)
        else:
            exp = []
            for k in range(m):
                x = k * (n - 1) / (m - 1)
                i = min(int(x + 1e-12), n - 2)
                exp.append(s[i] + (x - i) * (s[i + 1] - s[i]))
        check_grid(stat, f'{rows} {t} speed {m}', PG(m)(c), exp, c, before, 1e-6 if dt == 'f4' else 1e-9)
        stat.check(near(float(PG(pcount=m, interp_kind='linear')(c)[-1]), float(c.t[-1]), 1e-6, 1e-6), 'last value of the speed grid')
        stat.seen(f'parametric {t is not None}')
    if t is None:
        stat.check(near_seq(lst(PG(n)(c)), s, *((1e-6, 1e-6) if dt == 'f4' else (1e-9, 1e-9))), '%s: the grid of the same size %s, parametrization %s', rows, lst(PG(n)(c)), s)
        tol = 1e-5 if dt == 'f4' else 1e-7
        for kind, k in (('slinear', 1), ('quadratic', 2), ('cubic', 3)):
            if n > k:
                for m in (2, n, 2 * n - 1, 12):
                    g = lst(PG(m, interp_kind=kind)(c))
                    stat.op()
                    e = speed_spline(s, k, m)
                    stat.check(near_seq(g, e, tol, tol * s[-1]), '%s %s kind %s of %s points: %s, model %s', rows, dt, kind, m, g, e)


def speed_spline(s, k, m):
    """Values of the interpolating spline of the order k (not-a-knot) in m points, rescaled to the range of lengths"""
    n = len(s)
    x = [i / (n - 1) for i in range(n)]
    if k == 1:
        knots = x[1:-1]
    elif k == 2:
        knots = [(u + v) / 2 for u, v in zip(x, x[1:])][1:-1]
    else:
        knots = x[2:-2]

    def basis(v):
        return [v ** i for i in range(k + 1)] + [max(v - u, 0.0) ** k for u in knots]
    co = np.linalg.solve([basis(v) for v in x], s)
    g = [float(np.dot(co, basis(j / (m - 1)))) for j in range(m)]
    lo, hi = min(g), max(g)
    return [(v - lo) / (hi - lo) * s[-1] for v in g]


def run_errors(case, stat):
    kind, = case
    c = Curve(np.array([(0, 0), (3, 4), (6, 0)], dtype='f8'))
    small = [Curve(np.zeros((0, 2))), Curve(np.zeros((1, 3))), Curve(np.zeros((1, 2)), tdata=[5])]
    if kind == 'kind':
        for k in ('', 'points', 'Point', 'len', None, 0, 'speed', 'LENGTH'):
            stat.op(2)
            stat.check(raises(ValueError, UG, 5, k), 'kind %r accepted', k)
            stat.check(raises(ValueError, EG, UG(5), 1, 1, k), 'kind %r accepted by the extrapolation', k)
    elif kind == 'types':
        for f in ('5', None, [5], (5,), 5j, np.array([5]), 2.5, 2.0):
            stat.op(3)
            stat.check(raises(TypeError, UG, f), 'fill %r accepted', f)
            stat.check(raises(TypeError, EG, UG(5), f, 1), 'before %r accepted', f)
            stat.check(raises(TypeError, EG, UG(5), 1, f), 'after %r accepted', f)
            if not isinstance(f, float):
                stat.check(raises(TypeError, UG, f, 'length'), 'length %r accepted', f)
                stat.check(raises(TypeError, EG, UG(5), f, 1.0, 'length'), 'length before %r accepted', f)
                stat.check(raises(TypeError, EG, UG(5), 1.0, f, 'length'), 'length after %r accepted', f)
            if not isinstance(f, np.ndarray):
                stat.check(raises((TypeError, ValueError), lambda: PG(f)(c)), 'count %r of the speed grid accepted', f)
    elif kind == 'values':
        for f in (1, 0, -1, -100):
            stat.op(2)
            stat.check(raises(ValueError, UG, f), '%s points accepted', f)
            stat.check(raises(ValueError, lambda: PG(f)(c)), '%s points of the speed grid accepted', f)
            stat.check(raises(ValueError, lambda: PG(f)(Curve(c, tdata=[0, 1, 2]))), '%s points of the speed grid accepted', f)
        for f in (0, 0.0, -1, -0.5, NAN, -INF):
            stat.op()
            stat.check(raises(ValueError, lambda: UG(f, 'length')(c)), 'length %s accepted', f)
        for b, a in ((-1, 0), (0, -1), (-3, -3)):
            stat.op()
            stat.check(raises(ValueError, lambda: EG(UG(5), b, a)(c)), 'pieces %s %s accepted', b, a)
            stat.check(raises(ValueError, lambda: EG(UG(5), b * 4.0, a * 4.0, 'length')(c)), 'lengths %s %s accepted', b, a)
    elif kind == 'small':
        for s in small:
            for g in (UG(5), UG(0.5, 'length'), EG(UG(5), 1, 1), EG(UG(5), 1.0, 1.0, 'length'), PG(5)):
                k, v = outcome(g, s)
                stat.op()
                stat.check(k == 'raise' and issubclass(v, ValueError), 'grid of the curve of %s points: %s', s.size, v)
    else:
        stat.check(raises(NotImplementedError, skcurve.InterpolationGrid(), c), 'the interface has a grid')


def run_ladder(case, stat):
    n, kind = case
    rows = [(math.cos(0.1 * k) * (1 + 0.01 * k), math.sin(0.1 * k), 0.05 * k) for k in range(n)]
    c = mk_curve(rows, None if kind == 'arc' else [0.5 * k + 0.2 * (k % 2) for k in range(n)], 'f8')
    before = c.data.tobytes(), c.t.tobytes()
    a, b = float(c.t[0]), float(c.t[-1])
    for m in (2, n - 1, n, n + 1, 2 * n):
        if m > 1:
            check_grid(stat, f'{case} {m}', UG(m)(c), uniform(a, b, m), c, before)
            check_grid(stat, f'{case} {m} extra', EG(UG(m), 3, m)(c), [a + (b - a) / (m - 1) * k for k in range(-3, 2 * m)], c, before)
    if kind == 'arc':
        check_grid(stat, f'{case} speed', PG(n)(c), lst(c.t), c, before)
        check_grid(stat, f'{case} speed', PG(2 * n - 1)(c), sorted(lst(c.t) + [(x + y) / 2 for x, y in zip(lst(c.t), lst(c.t)[1:])]), c, before)
    for k in (1, 2, n, 3 * n):
        g = UG(c.arclen / k, 'length')(c)
        check_grid(stat, f'{case} length', g, uniform(a, b, k + 1), c, before)


def spaces(tier):
    deep = tier == 'thorough'

    def curves(dts=('f8', 'f4', 'i4')):
        for nd in (2, 3):
            for n in (2, 3, 4):
                for w in words(nd, n):
                    for dt in dts:
                        yield w, None, dt
                    for t in TS[n]:
                        yield w, t, 'f8'
        for w in (((0, 0), (3, 4), (1, 1), (1, 2), (-5, 2), (0, 0)), ((0, 0, 0), (1, 0, 0), (1, 3, 0), (2, 3, 1), (2, 3, 2), (9, 3, 2), (9, 4, 2))):
            for dt in dts:
                yield w, None, dt
        for w in words(2, 5):
            if deep or w[0] == (0, 0):
                yield w, TS[5][0], 'f8'
                yield w, None, 'f8'
        for name in PLACES:
            for nd, n in ((2, 2), (2, 3), (3, 2), (3, 3)):
                for w in words(nd, n):
                    if deep or w[0] == (0, 0, 0)[:nd] or n == 2:
                        yield place(w, name), None, 'f8'
                        if name.startswith('d') or n == 2:
                            yield place(w, name), TS[n][1], 'f8'

    def extra():
        for w, t, dt in curves(('f8',)):
            if len(w) < 4 or deep or w[0] == (0, 0, 0)[:len(w[0])] or any(abs(x) > 40 or 0 < abs(x) < 0.1 for p in w for x in p):
                for inner in (('point', 2), ('point', 5), ('length', 1.3), ('speed', 4)):
                    yield w, t, inner
    return [
        Space('uniform', lambda: curves(), run_uniform, 'all short words of points, parametric or not, all counts and a list of lengths'),
        Space('extra', extra, run_extra, 'all short words, all combinations of pieces before and after, counts and lengths'),
        Space('speed', lambda: curves(('f8', 'f4', 'i4', 'i1')), run_speed, 'all short words, all counts'),
        Space('errors', lambda: [(k,) for k in ('kind', 'types', 'values', 'small', 'interface')], run_errors, 'invalid arguments and curves'),
        Space('ladder', lambda: [(n, k) for n in (LADDER if deep else LADDER_SHORT) for k in ('arc', 'par')], run_ladder, 'a ladder of sizes'),
    ]
