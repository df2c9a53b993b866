# -*- coding: utf-8 -*-
import itertools
import math
import warnings

import numpy as np

import skcurve
from mc.core import Space
from mc.lib import Curve, near_seq, mk_curve, lattice, raises, outcome, lst, place, PLACES, LADDER, LADDER_SHORT, NAN, INF

TITLE = 'Interpolation reproduces the nodes and has the requested shape'
ASSUMPTIONS = ['curves with a floating dtype (the result of an integer curve is cast to its dtype)',
               'different parameter values (nodes and grids) differ by more than 1e-8',
               'reference interpolants (natural, not-a-knot and clamped cubic, Hermite, Akima, PCHIP, smoothing) are solved independently with '
               'dense linear algebra']

METHODS = ('linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps')


# ------------------------------------------------------------------ independent reference interpolants (one coordinate)

def hermite_eval(t, y, s, x):
    k = min(max(int(np.searchsorted(t, x, side='right')) - 1, 0), len(t) - 2)
    h = t[k + 1] - t[k]
    u = (x - t[k]) / h
    return ((1 + 2 * u) * (1 - u) ** 2 * y[k] + u * (1 - u) ** 2 * h * s[k] +
            u * u * (3 - 2 * u) * y[k + 1] + u * u * (u - 1) * h * s[k + 1])


def spline_slopes(t, y, bc):
    """Slopes at the nodes of the interpolating cubic spline"""
    n = len(t)
    h = np.diff(t)
    d = np.diff(y) / h
    if n == 2 and bc != 'clamped':
        return [d[0], d[0]]
    if n == 3 and bc == 'not-a-knot':
        # the parabola
        c = (d[1] - d[0]) / (t[2] - t[0])
        return [d[0] - c * h[0], d[0] + c * h[0], d[1] + c * h[1]]
    a = np.zeros((n, n))
    b = np.zeros(n)
    for i in range(1, n - 1):
        a[i, i - 1], a[i, i], a[i, i + 1] = h[i], 2 * (h[i - 1] + h[i]), h[i - 1]
        b[i] = 3 * (h[i] * d[i - 1] + h[i - 1] * d[i])
    if bc == 'clamped':
        a[0, 0] = a[-1, -1] = 1
    elif bc == 'natural':
        a[0, 0], a[0, 1], b[0] = 2, 1, 3 * d[0]
        a[-1, -1], a[-1, -2], b[-1] = 2, 1, 3 * d[-1]
    else:
        # continuity of the third derivative in the second and in the last but one node:
        # (s[k] + s[k+1] - 2 d[k]) / h[k]^2 is the third derivative of the piece
        a[0, 0], a[0, 1], a[0, 2] = 1 / h[0] ** 2, 1 / h[0] ** 2 - 1 / h[1] ** 2, -1 / h[1] ** 2
        b[0] = 2 * d[0] / h[0] ** 2 - 2 * d[1] / h[1] ** 2
        p, q = h[-2], h[-1]
        a[-1, -3], a[-1, -2], a[-1, -1] = 1 / p ** 2, 1 / p ** 2 - 1 / q ** 2, -1 / q ** 2
        b[-1] = 2 * d[-2] / p ** 2 - 2 * d[-1] / q ** 2
    return np.linalg.solve(a, b).tolist()


def akima_slopes(t, y):
    h = np.diff(t)
    m = [float(v) for v in np.diff(y) / h]
    if len(m) == 1:
        return [m[0], m[0]]
    a = 2 * m[0] - m[1]
    m = [2 * a - m[0], a] + m
    b = 2 * m[-1] - m[-2]
    m = m + [b, 2 * b - m[-1]]
    out = []
    for i in range(2, len(m) - 1):
        w1, w2 = abs(m[i + 1] - m[i]), abs(m[i - 1] - m[i - 2])
        out.append((w1 * m[i - 1] + w2 * m[i]) / (w1 + w2) if w1 + w2 > 1e-7 else 0.5 * (m[i + 1] + m[i - 2]))
    return out


def pchip_slopes(t, y):
    h = np.diff(t).tolist()
    d = (np.diff(y) / h).tolist()
    if len(d) == 1:
        return [d[0], d[0]]

    def sg(x):
        return 0 if abs(x) < 1e-13 else math.copysign(1, x)

    def end(h0, h1, d0, d1):
        s = ((2 * h0 + h1) * d0 - h0 * d1) / (h0 + h1)
        if sg(s) != sg(d0):
            return 0.0
        if sg(d0) != sg(d1) and abs(s) > 3 * abs(d0):
            return 3 * d0
        return s
    out = [end(h[0], h[1], d[0], d[1])]
    for k in range(1, len(d)):
        if sg(d[k - 1]) * sg(d[k]) <= 0:
            out.append(0.0)
        else:
            w1, w2 = 2 * h[k] + h[k - 1], h[k] + 2 * h[k - 1]
            out.append((w1 + w2) / (w1 / d[k - 1] + w2 / d[k]))
    return out + [end(h[-1], h[-2], d[-1], d[-2])]


def smoothing(t, y, p, w):
    """Values and slopes at the nodes of the smoothing spline  min p sum w (y - f)^2 + (1 - p) int f''^2"""
    n = len(t)
    h = np.diff(t)
    q = np.zeros((n, n - 2))
    r = np.zeros((n - 2, n - 2))
    for j in range(n - 2):
        q[j, j], q[j + 1, j], q[j + 2, j] = 1 / h[j], -1 / h[j] - 1 / h[j + 1], 1 / h[j + 1]
        r[j, j] = (h[j] + h[j + 1]) / 3
        if j:
            r[j, j - 1] = r[j - 1, j] = h[j] / 6
    # Reinsch: (p R + (1 - p) Q' W^-1 Q) gamma = p Q' y;  f = y - (1 - p) / p W^-1 Q gamma
    wi = np.diag(1 / np.asarray(w, dtype=float))
    g = np.linalg.solve(p * r + (1 - p) * q.T @ wi @ q, q.T @ y)
    f = y - (1 - p) * wi @ q @ g
    return f.tolist(), spline_slopes(t, f, 'natural')


def line_fit(t, y, w):
    w = np.asarray(w, dtype=float)
    mt, my = np.sum(w * t) / w.sum(), np.sum(w * y) / w.sum()
    k = np.sum(w * (t - mt) * (y - my)) / np.sum(w * (t - mt) ** 2)
    return k, my - k * mt


def reference(method, t, cols, grid, kw, tangents):
    """Rows of the reference interpolant"""
    out = []
    for c, y in enumerate(cols):
        if method == 'linear' or method == 'spline' and kw.get('k') == 1:
            d = (np.diff(y) / np.diff(t)).tolist()

            def f(x, y=y, d=d):
                k = min(max(int(np.searchsorted(t, x, side='right')) - 1, 0), len(t) - 2)
                return y[k] + d[k] * (x - t[k])
        else:
            if method == 'cubic' or method == 'csaps':
                s = spline_slopes(t, y, kw.get('bc_type', 'natural'))
            elif method == 'hermite':
                s = [v[c] for v in tangents]
            elif method == 'akima':
                s = akima_slopes(t, y)
            elif method == 'pchip':
                s = pchip_slopes(t, y)
            elif method == 'spline' and kw.get('k', 3) == 3:
                s = spline_slopes(t, y, 'not-a-knot')
            else:
                return None

            def f(x, y=y, s=s):
                return hermite_eval(t, y, s, x)
        out.append([f(x) for x in grid])
    return [list(r) for r in zip(*out)]


# ------------------------------------------------------------------ checks

def variants(n):
    """All (method, parameters) that can interpolate n points"""
    out = [('linear', {}), ('linear', {'extrapolate': False}), ('cubic', {}), ('cubic', {'bc_type': 'not-a-knot'}), ('cubic', {'bc_type': 'clamped'}),
           ('hermite', {}), ('akima', {}), ('pchip', {}), ('csaps', {}), ('csaps', {'weights': [1 + k % 3 for k in range(n)]})]
    for k in range(1, 6):
        if n > k:
            out.append(('spline', {'k': k}))
    if n > 3:
        out.append(('spline', {}))
        out.append(('spline', {'weights': [1 + k % 3 for k in range(n)]}))
    return out


def grids(t, dense=True):
    t0, t1 = t[0], t[-1]
    h = t1 - t0
    mids = [a + f * (b - a) for a, b in zip(t, t[1:]) for f in (0.25, 0.5, 0.8)]
    out = {'nodes': list(t), 'dense': sorted(set(t) | set(mids)) if dense else list(t), 'inner': [t0 + 0.3 * h, t0 + 0.6 * h], 'one': [t0 + 0.4 * h]}
    return out


def check_result(stat, what, r, c, before, grid, ndim):
    stat.check(type(r) is Curve and r is not c, '%s: result %r', what, type(r))
    stat.check(r.data.shape == (len(grid), ndim), '%s: shape %s, grid of %s values', what, r.data.shape, len(grid))
    stat.check(r.dtype == c.dtype, '%s: dtype %s of curve with %s', what, r.dtype, c.dtype)
    stat.check(r.isparametric == c.isparametric, '%s: parametric %s', what, r.isparametric)
    if c.isparametric:
        stat.check(lst(r.t) == [float(x) for x in grid], '%s: parametrization %s, grid %s', what, lst(r.t)[:6], grid[:6])
    stat.check((c.data.tobytes(), c.t.tobytes()) == before, '%s: the source curve has changed', what)


def tolerance(dt):
    return 1e-6 if dt == 'f8' else 2e-3


def run_nodes(case, stat):
    rows, t, dt = case
    c = mk_curve(rows, t, dt)
    n, nd = len(rows), len(rows[0])
    tt = lst(c.t)
    rows = lst(c.data)
    cols = [list(map(float, x)) for x in zip(*rows)]
    tan = lst(c.frenet1)
    scale = max(1.0, max(abs(x) for p in rows for x in p))
    tol = tolerance(dt)
    tarr = np.asarray(tt, dtype=np.float64)
    for (m, kw), (gname, g) in itertools.product(variants(n), grids(tt).items()):
        what = f'{rows} t={t} {dt} {m} {kw} grid {gname}'
        before = (c.data.tobytes(), c.t.tobytes())
        garr = np.array(g)
        r = c.interpolate(garr, m, **kw)
        stat.op()
        stat.check(garr.tolist() == g, '%s: the grid array has changed', what)
        check_result(stat, what, r, c, before, g, nd)
        data = lst(r.data)
        at = {x: row for x, row in zip(g, data)}
        for x, row in zip(tt, rows):
            if x in at:
                stat.check(near_seq(at[x], row, tol, tol * scale), '%s: node %s is %s, model %s', what, x, at[x], row)
        ref = reference(m, tarr, [np.asarray(x) for x in cols], g, kw, tan)
        if ref is not None:
            e = [max(1.0, max(abs(v) for v in row)) for row in ref]
            for x, a, b, s in zip(g, data, ref, e):
                stat.check(near_seq(a, b, 10 * tol, 10 * tol * scale), '%s: value at %s is %s, model %s', what, x, a, b)
        stat.seen(m)


OUTSIDE = [('linear', {}), ('linear', {'extrapolate': False}), ('linear', {'extrapolate': True}), ('akima', {}), ('csaps', {}), ('pchip', {}),
           ('pchip', {'extrapolate': True}), ('pchip', {'extrapolate': False})] + \
    [(m, {'extrapolate': e}) for m in ('cubic', 'hermite') for e in (None, True, False, 'periodic')] + \
    [('cubic', {'bc_type': 'not-a-knot', 'extrapolate': e}) for e in (None, False, 'periodic')] + \
    [('spline', {'k': k, 'extrapolate': e}) for k in (1, 3) for e in (0, 1, 2, 3, 'extrapolate', 'zeros', 'raise', 'const')]


def run_outside(case, stat):
    """Grids which go beyond the parametrization"""
    rows, t = case
    c = mk_curve(rows, t, 'f8')
    n, nd = len(rows), len(rows[0])
    tt, tan = lst(c.t), lst(c.frenet1)
    cols = [np.asarray(x, dtype=float) for x in zip(*rows)]
    t0, t1 = tt[0], tt[-1]
    h = t1 - t0
    gs = {'before': [t0 - 0.7 * h, t0 - 0.1 * h, t0 + 0.4 * h], 'after': [t0 + 0.3 * h, t1, t1 + 0.2 * h, t1 + 1.6 * h],
          'both': [t0 - 0.5 * h] + tt + [t1 + 0.3 * h], 'off': [t1 + 0.1 * h, t1 + 0.25 * h]}
    for (m, kw), (gname, g) in itertools.product(OUTSIDE, gs.items()):
        if m == 'spline' and n <= kw['k']:
            continue
        what = f'{rows} t={t} {m} {kw} grid {gname}'
        ext = kw.get('extrapolate')
        off = [not t0 <= x <= t1 for x in g]
        before = (c.data.tobytes(), c.t.tobytes())
        k, r = outcome(c.interpolate, g, m, **kw)
        stat.op()
        if m == 'spline' and ext in (2, 'raise') or m == 'linear' and ext is False and k == 'raise':
            stat.check(k == 'raise' and r is skcurve.InterpolationError, '%s: %s', what, r)
            continue
        if k == 'raise':
            raise r(what)
        check_result(stat, what, r, c, before, g, nd)
        at = [t0 + math.fmod(x - t0, h) + (h if x < t0 else 0) for x in g] if ext == 'periodic' else g
        if ext in (3, 'const'):
            at = [min(max(x, t0), t1) for x in g]
        ref = reference(m, np.asarray(tt), cols, at, kw, tan)
        for x, a, b, o in zip(g, lst(r.data), ref, off):
            if o and (ext is False or m == 'akima'):
                stat.check(all(v != v for v in a), '%s: value at %s is %s', what, x, a)
            elif o and ext in (1, 'zeros') and m == 'spline':
                stat.check(not any(a), '%s: value at %s is %s', what, x, a)
            elif ext == 'periodic' and x == t1:
                # both ends of the period
                stat.check(near_seq(a, rows[0], 1e-6, 1e-6) or near_seq(a, rows[-1], 1e-6, 1e-6), '%s: value at %s is %s', what, x, a)
            else:
                e = 1e-6 * max(1.0, max(map(abs, b)))
                stat.check(near_seq(a, b, 1e-6, e), '%s: value at %s is %s, model %s', what, x, a, b)
        stat.seen(f'{m} {ext}')


def run_lines(case, stat):
    """Straight lines with uniform speed, any method; out of the range too"""
    nd, n, kind, dt = case
    a, d = [3.0, -2.0, 0.5, 10.0, 7.0][:nd], [2.0, 1.0, -4.0, 0.25, 3.0][:nd]
    length = math.sqrt(sum(x * x for x in d))
    if kind == 'none':
        ts, t = [length * k for k in range(n)], None
    elif kind == 'uniform':
        ts = t = [2 + 3 * k for k in range(n)]
    else:
        ts = t = [k + 0.25 * (k % 3) - 5 for k in range(n)]

    def at(x):
        u = x / length if kind == 'none' else x
        return [p + u * q for p, q in zip(a, d)]
    c = mk_curve([at(x) for x in ts], t, dt)
    tol = tolerance(dt) * (1 if n < 50 else 10)
    size = max(abs(x) for x in at(ts[-1]) + at(ts[0])) + 10
    ts = lst(c.t)
    h = ts[-1] - ts[0]
    gs = {'inside': [ts[0]] + [ts[0] + h * f for f in (0.1, 0.31, 0.5, 0.77)] + [ts[-1]], 'one': [ts[0] + h / 3], 'nd': [ts[0] + h * k / nd for k in range(nd)],
          'outside': [ts[0] - h / 2, ts[0] + h / 4, ts[-1] + h / 4]}
    for (m, kw), (gname, g) in itertools.product(variants(n), gs.items()):
        what = f'line {case} {m} {kw} grid {gname}'
        if kw.get('bc_type') == 'clamped' or m == 'hermite' and kind != 'none':
            continue
        before = (c.data.tobytes(), c.t.tobytes())
        if gname == 'outside' and kw.get('extrapolate') is False:
            k, v = outcome(c.interpolate, g, m, **kw)
            stat.op()
            stat.check(k == 'raise' and v is skcurve.InterpolationError or k == 'ok' and
                       np.isnan(v.data[[0, -1]]).all(), '%s: extrapolated', what)
            continue
        r = c.interpolate(g, m, **kw)
        stat.op()
        check_result(stat, what, r, c, before, g, nd)
        if gname == 'outside' and m == 'akima':
            stat.check(np.isnan(r.data[[0, -1]]).all(), '%s: akima does not extrapolate', what)
            stat.check(near_seq(lst(r.data)[1], at(g[1]), tol, tol * size), '%s: %s', what, lst(r.data))
            continue
        stat.check(near_seq(lst(r.data), [at(x) for x in g], tol, tol * size), '%s: %s, model %s', what, lst(r.data), [at(x) for x in g])
        stat.seen(m)


def run_forms(case, stat):
    """All forms of a grid give the same curve"""
    n, nd, m, par = case
    rows = [[math.cos(0.7 * k) * (j + 1) + k * 0.4 * j for j in range(nd)] for k in range(n)]
    c = mk_curve(rows, [0.5 * k * k for k in range(n)] if par else None, 'f8')
    kw = {'k': min(3, n - 1)} if m == 'spline' else {}
    t = c.t

    class Custom(skcurve.InterpolationGrid):
        def __call__(self, curve):
            stat.check(curve is c, 'the custom grid was called with %r', curve)
            return np.linspace(curve.t[0], curve.t[-1], 7)
    base = np.linspace(t[0], t[-1], 7)
    r0 = c.interpolate(base, m, **kw)
    forms = {'int': 7, 'list': base.tolist(), 'tuple': tuple(base.tolist()), 'grid': skcurve.UniformInterpolationGrid(7), 'custom': Custom(),
             'strided': np.repeat(base, 3)[::3], 'readonly': base.view(), 'again': base}
    forms['readonly'].flags.writeable = False
    for k, f in forms.items():
        r = c.interpolate(f, m, **kw)
        stat.op()
        stat.check(near_seq(lst(r.data), lst(r0.data), 1e-12, 1e-12) and near_seq(lst(r.t), lst(r0.t), 1e-12, 1e-12) and r.isparametric == r0.isparametric,
                   '%s: grid as %s: %s, as array %s', case, k, lst(r.data), lst(r0.data))
    for k in range(2, 12):
        r = c.interpolate(k, m, **kw)
        stat.op()
        stat.check(r.size == k and r.ndim == nd, '%s: %s points requested, size %s', case, k, r.size)
        stat.check(near_seq(lst(r[0].data), rows[0], 1e-9, 1e-9) and near_seq(lst(r[-1].data), rows[-1], 1e-9, 1e-9), '%s: ends of %s points', case, k)
        g = [float(t[0]) + (float(t[-1]) - float(t[0])) * i / (k - 1) for i in range(k)]
        q = c.interpolate([float(t[0])] + g[1:-1] + [float(t[-1])], m, **kw)
        stat.check(near_seq(lst(r.data), lst(q.data), 1e-9, 1e-9), '%s: uniform grid of %s', case, k)
    for g in ([0, 1, 2], np.array([0, 1, 2], dtype='i4'), range(3), np.array([0, 1, 2], dtype='f4')):
        stat.op()
        stat.check(near_seq(lst(c.interpolate(g, m, **kw).data), lst(c.interpolate([0.0, 1.0, 2.0], m, **kw).data), 1e-12, 1e-12), '%s: grid %r', case, g)
    # warning exactly if the grid does not cover the range
    for g in (base, base[1:], base[:-1], np.hstack([base[0] - 1, base, base[-1] + 1]), np.hstack([base[0] - 1, base[:-1]])):
        if m == 'linear' or g[0] >= base[0]:
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter('always')
                c.interpolate(g, m, **kw)
            stat.op()
            w = any(issubclass(x.category, skcurve.InterpolationWarning) for x in rec)
            stat.check(w == bool(g[0] > t[0] or g[-1] < t[-1]), '%s: warning %s for the grid %s of range %s %s', case, w, g, t[0], t[-1])


class Sub(Curve):
    pass


def run_errors(case, stat):
    n, nd, dt, par, m = case
    rows = [[float(k * k + j) for j in range(nd)] for k in range(n)]
    c = mk_curve(rows, list(range(n)) if par else None, dt, nd)
    need = {'spline': 4}.get(m, 2)
    bad = [[0, 0], [1, 0], [0, 1, 1], [0, 2, 1, 3], [[0, 1], [1, 2]], [[0, 1]], 'ab', None, {}, -1, 0, 1, 2.5, [0, NAN], [NAN], [0, INF], [-INF, 0], [0, NAN, 2],
           [], 'linear', [None], ['x'], [3, 2, 1], [0, 1, 1 + 1e-12], np.zeros((2, 2)), object(), (x for x in (1, 2)), {1, 2}]
    stat.op()
    stat.check(raises(NameError, c.interpolate, 5, 'no such method'), 'unknown method accepted for size %s', n)
    stat.check(raises(NameError, c.interpolate, [1, 0], ''), 'unknown method accepted for size %s', n)
    if n == 0:
        for g in [5, [0, 1], skcurve.UniformInterpolationGrid(5)]:
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter('always')
                r = c.interpolate(g, m)
            stat.op()
            stat.check(type(r) is Curve and r.size == 0 and r.ndim == nd and r.dtype == c.dtype, '%s: interpolated empty curve %r', case, r)
            stat.check(any(issubclass(x.category, skcurve.InterpolationWarning) for x in rec), '%s: no warning for the empty curve', case)
        return
    if n == 1:
        for g in [5, [0, 1], [0]]:
            stat.op()
            stat.check(raises((ValueError, skcurve.InterpolationError), c.interpolate, g, m), '%s: single point was interpolated', case)
        return
    if n < need:
        for g in [5, [0, 1]]:
            stat.op()
            stat.check(raises(skcurve.InterpolationError, c.interpolate, g, m), '%s: too few points were interpolated', case)
        return
    for g in bad:
        k, v = outcome(c.interpolate, g, m)
        stat.op()
        stat.check(k == 'raise' and issubclass(v, (ValueError, skcurve.InterpolationError)), '%s: grid %r: %s', case, g, v)
        stat.seen(f'{v.__name__}')
    stat.check(raises(skcurve.InterpolationError, c.interpolate, 5, m, no_such_parameter=1), '%s: unknown parameter', case)
    s = Sub(c, tdata=c.t if par else None)
    kw = {'k': 1} if m == 'spline' else {}
    r = s.interpolate(5, m, **kw)
    stat.check(type(r) is Sub and r.isparametric == par, '%s: type of the curve %s', case, type(r))


def run_ladder(case, stat):
    n, kind = case
    ts = [0.05 * k for k in range(n)]
    rows = [[math.cos(x), math.sin(x), 0.3 * x] for x in ts]
    c = mk_curve(rows, ts if kind == 'par' else None, 'f8')
    t = lst(c.t)
    mids = [(a + b) / 2 for a, b in zip(t, t[1:])]
    g = sorted(t + mids)
    cols = [np.asarray(x) for x in zip(*rows)]
    tan = lst(c.frenet1)
    big = n > 130
    for m, kw in variants(n):
        if m == 'spline' and kw.get('k', 3) > 3 and big:
            continue
        r = c.interpolate(g, m, **kw)
        stat.op()
        stat.check(r.data.shape == (2 * n - 1, 3), '%s %s %s: shape %s', case, m, kw, r.data.shape)
        stat.check(near_seq(lst(r.data[::2]), rows, 1e-6, 1e-6), '%s %s %s: nodes', case, m, kw)
        if not big or m in ('linear', 'hermite', 'pchip', 'akima'):
            ref = reference(m, np.asarray(t), cols, g, kw, tan)
            if ref is not None:
                stat.check(near_seq(lst(r.data), ref, 1e-6, 1e-6), '%s %s %s: values between the nodes', case, m, kw)
        stat.seen(m)


def run_smooth(case, stat):
    """Smoothing splines against their definitions"""
    rows, t, wt, gsz = case
    c = mk_curve(rows, t, 'f8')
    n, nd = len(rows), len(rows[0])
    tt = np.asarray(lst(c.t))
    w = [1.0 + (k * wt) % 3 for k in range(n)]
    kww = {} if wt == 0 else {'weights': w if wt == 1 else np.array(w)}
    g = np.linspace(tt[0], tt[-1], gsz)
    cols = [np.asarray(x, dtype=float) for x in zip(*rows)]
    h = np.diff(tt)
    ww = w if wt else [1.0] * n
    # the parameter which balances both terms of the functional: p tr(R) = 6 (1 - p) tr(Q' W^-1 Q), the documented default of csaps
    tr = sum(2 * (h[i] + h[i + 1]) for i in range(n - 2))
    tq = sum(1 / ww[i] / h[i] ** 2 + (1 / h[i] + 1 / h[i + 1]) ** 2 / ww[i + 1] + 1 / ww[i + 2] / h[i + 1] ** 2 for i in range(n - 2))
    auto = 1.0 if n == 2 else 1 / (1 + tr / (6 * tq))
    for p in (1.0, 0.9, 0.5, 0.1, 0.0, None):
        r = c.interpolate(g, 'csaps', smooth=p, **kww)
        stat.op()
        p = auto if p is None else p
        ref = []
        for y in cols:
            if n == 2 or p == 1:
                s = spline_slopes(tt, y, 'natural')
                ref.append([hermite_eval(tt, y, s, x) for x in g])
            elif p == 0:
                k, b = line_fit(tt, y, w if wt else [1] * n)
                ref.append([k * x + b for x in g])
            else:
                f, s = smoothing(tt, y, p, w if wt else [1] * n)
                ref.append([hermite_eval(tt, f, s, x) for x in g])
        stat.check(r.data.shape == (gsz, nd) and near_seq(lst(r.data), [list(x) for x in zip(*ref)], 1e-6, 1e-6),
                   'csaps %s smooth=%s: %s, model %s', case, p, lst(r.data), [list(x) for x in zip(*ref)])
    if n > 3:
        for s in (0.0, 0.01, 0.5, 4.0):
            r = c.interpolate(tt, 'spline', smooth=s, **kww)
            stat.op()
            for j, y in enumerate(cols):
                res = sum((a * (u - v)) ** 2 for a, u, v in zip(w if wt else [1] * n, y.tolist(), lst(r.data[:, j])))
                stat.check(res <= s * 1.01 + 1e-9, 'spline %s smooth=%s: sum of squared residuals %s of coordinate %s', case, s, res, j)
    # data, not the caller's weights
    stat.check(w == [1.0 + (k * wt) % 3 for k in range(n)], 'the weights have changed')


def run_poly(case, stat):
    """Splines of the order k reproduce the polynomials of the degree k on any nodes"""
    k, n, par = case
    t = [j + 0.3 * (j % 2) for j in range(n)] if par else [float(j) for j in range(n)]

    def at(x):
        return [sum((i - 1.5) * (x / n) ** i for i in range(k + 1)), (x / n) ** k, 1 - x]
    c = mk_curve([at(x) for x in t], t, 'f8')
    g = [t[0] + (t[-1] - t[0]) * i / 17 for i in range(18)]
    r = c.interpolate(g, 'spline', k=k)
    stat.op()
    stat.check(near_seq(lst(r.data), [at(x) for x in g], 1e-7, 1e-7), 'spline k=%s n=%s: %s, model %s', k, n, lst(r.data), [at(x) for x in g])
    if k == 3:
        q = c.interpolate(g, 'cubic', bc_type='not-a-knot')
        stat.op()
        stat.check(near_seq(lst(q.data), [at(x) for x in g], 1e-7, 1e-7), 'not-a-knot cubic n=%s', n)


def distinct(w):
    return all(a != b for a, b in zip(w, w[1:]))


def spaces(tier):
    deep = tier == 'thorough'
    A2 = ((0, 0), (3, 0), (1, 2), (-2, 1))
    A3 = ((0, 0, 0), (2, 1, -1), (1, 3, 2))
    TS = {2: [(0, 1), (-3, 5)], 3: [(0, 1, 5), (-2, 0.5, 1)], 4: [(0, 1, 2, 3), (-3, -2.5, 4, 7)], 5: [(0, 2, 3, 7, 7.5)],
          6: [(0, 2, 3, 7, 7.5, 11)]}

    def nodes():
        for n in (2, 3, 4, 5) if not deep else (2, 3, 4, 5, 6):
            for w in itertools.product(A2, repeat=n):
                if n >= 5 and not deep and w[0] != (0, 0):
                    continue
                if n == 6 and w[0] != (0, 0):
                    continue
                if distinct(w):
                    yield w, None, 'f8'
                    if n <= 3 or n == 4 and w[0] == (0, 0):
                        yield w, None, 'f4'
                if n <= 4 or n == 5 and deep:
                    for t in TS[n]:
                        if n < 4 or deep or w[0] == (0, 0):
                            yield w, t, 'f8'
        for n in (2, 3, 4):
            for w in itertools.product(A3, repeat=n):
                if distinct(w):
                    yield w, None, 'f8'
                    yield tuple(p + (p[0] - p[1],) for p in w), None, 'f8'
                yield w, TS[n][-1], 'f8'
        for name in PLACES:
            for A in (A2, A3):
                for n in (2, 3, 4):
                    for w in itertools.product(A, repeat=n):
                        if distinct(w) and (deep or n < 3 or w[0] == A[0] and (n < 4 or w[1] == A[1])):
                            yield tuple(place(w, name)), None, 'f8'
                            if n == 3:
                                yield tuple(place(w, name)), TS[n][1], 'f8'

    def outside():
        for n in (2, 3, 4, 5):
            for w in itertools.product(A2, repeat=n):
                if w[0] == (0, 0) and (n < 5 or deep or w[1] == (3, 0)):
                    if distinct(w):
                        yield w, None
                    for t in TS[n]:
                        yield w, t
        for w in itertools.product(A3, repeat=3):
            yield w, TS[3][0]

    def smooth():
        for n in (2, 3, 4, 5):
            for w in itertools.product(A2[:3], repeat=n):
                if w[0] != (0, 0) and not deep:
                    continue
                for wt in (0, 1, 2):
                    yield w, TS[n][-1], wt, 2
                    if distinct(w):
                        yield w, None, wt, 5
        for w in itertools.product(A3, repeat=3):
            for gsz in (2, 3, 4):
                yield w, TS[3][0], 1, gsz
    return [
        Space('nodes', nodes, run_nodes, 'all words of 2-5 points, parametric or not, all methods and grids, against independent interpolants'),
        Space('outside', outside, run_outside, 'grids beyond the parametrization x all kinds of extrapolation'),
        Space('lines', lambda: [(nd, n, k, dt) for nd in (2, 3, 4, 5) for n in (2, 3, 4, 5, 6, 7, 9, 16, 33, 64) + ((100, 257) if deep else ())
                                for k in ('none', 'uniform', 'other') for dt in ('f8', 'f4') if not (dt == 'f4' and n > 16)], run_lines,
              'straight lines with uniform speed of all dimensions and sizes, all methods, inside and outside of the range'),
        Space('forms', lambda: [(n, nd, m, p) for n in (2, 3, 4, 5, 8) for nd in (2, 3, 4) for m in METHODS for p in (False, True)], run_forms,
              'all forms of grids x methods'),
        Space('errors', lambda: [(n, nd, dt, p, m) for n in range(6) for nd in (2, 3, 4) for dt in ('f8', 'f4') for p in (False, True)
                                 for m in METHODS if not (p and n == 0)], run_errors, 'all sizes x methods x invalid grids'),
        Space('ladder', lambda: [(n, k) for n in (LADDER if deep else LADDER_SHORT) for k in ('arc', 'par') if deep or n < 600], run_ladder,
              'a ladder of sizes'),
        Space('smooth', smooth, run_smooth, 'smoothing splines with all weights against their definitions'),
        Space('poly', lambda: [(k, n, p) for k in range(1, 6) for n in range(k + 1, 12) for p in (False, True)], run_poly,
              'polynomials up to the order of the spline'),
    ]
