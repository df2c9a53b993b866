# -*- coding: utf-8 -*-
"""C21: smoothing, against filters written from their definitions"""

import functools
import itertools
import math
from fractions import Fraction as F

import numpy as np

from skcurve import Curve, SmoothingError, smooth_methods, get_smooth_method

from mc.core import Space
from mc.lib import LADDER, LADDER_SHORT, lst, mk_curve, near_seq, raises

TITLE = 'Smoothing keeps shape and constants, acts per coordinate and is pure'

ASSUMPTIONS = [
    'window filters are compared with 1e-9, float32 data of the Savitzky-Golay method with 1e-4 relative tolerance',
    'windows whose weights add up to zero are refused with ValueError',
]


# ------------------------------------------------------------------------------ models

@functools.lru_cache(None)
def window(kind, n):
    """Symmetric windows by their definitions"""
    if n == 1:
        return [1.0]
    m = n - 1
    if isinstance(kind, tuple):
        return [math.exp(-0.5 * ((k - m / 2) / kind[1]) ** 2) for k in range(n)]
    cos = [math.cos(2 * math.pi * k / m) for k in range(n)]
    if kind == 'boxcar':
        return [1.0] * n
    if kind == 'hann':
        return [0.5 - 0.5 * c for c in cos]
    if kind == 'hamming':
        return [0.54 - 0.46 * c for c in cos]
    if kind == 'bartlett':
        return [1 - abs(2 * k / m - 1) for k in range(n)]
    if kind == 'triang':
        d = n if n % 2 == 0 else n + 1
        return [1 - abs((k - m / 2) / (d / 2)) for k in range(n)]
    if kind == 'cosine':
        return [math.sin(math.pi * (k + 0.5) / n) for k in range(n)]
    if kind == 'blackman':
        return [0.42 - 0.5 * c + 0.08 * math.cos(4 * math.pi * k / m) for k, c in enumerate(cos)]
    raise AssertionError(kind)


WINDOWS = ['boxcar', 'hann', 'hamming', 'bartlett', 'triang', 'cosine', 'blackman', ('gaussian', 1.5)]
WMODES = ['reflect', 'mirror', 'nearest', 'wrap', 'constant']
SMODES = ['interp', 'mirror', 'nearest', 'wrap', 'constant']


def extended(x, i, mode, cval):
    """The value of the sequence with index i outside of the range in the given mode"""
    n = len(x)
    if 0 <= i < n:
        return x[i]
    if mode == 'constant':
        return cval
    if mode == 'nearest':
        return x[0] if i < 0 else x[-1]
    if mode == 'wrap':
        return x[i % n]
    if mode == 'reflect':
        k = i % (2 * n)
        return x[k] if k < n else x[2 * n - 1 - k]
    if mode == 'mirror':
        if n == 1:
            return x[0]
        k = i % (2 * n - 2)
        return x[k] if k < n else x[2 * n - 2 - k]
    raise AssertionError(mode)


def convolve(x, w, mode, cval):
    m = len(w)
    return [math.fsum(w[j] * extended(x, i + m // 2 - j, mode, cval) for j in range(m)) for i in range(len(x))]


def window_model(x, kind, n, mode, cval):
    w = kind(n) if callable(kind) else window(kind, n)
    s = math.fsum(w)
    return convolve(x, [v / s for v in w], mode, cval)


def solve(a, b):
    n = len(a)
    a = [list(r) + [v] for r, v in zip(a, b)]
    for c in range(n):
        p = next(i for i in range(c, n) if a[i][c] != 0)
        a[c], a[p] = a[p], a[c]
        for i in range(n):
            if i != c and a[i][c] != 0:
                k = a[i][c] / a[c][c]
                a[i] = [x - k * y for x, y in zip(a[i], a[c])]
    return [a[i][n] / a[i][i] for i in range(n)]


@functools.lru_cache(None)
def fit_row(m, order, deriv, at):
    """Exact weights: the derivative at 'at' of the least squares polynomial over 0..m-1"""
    vander = [[F(k) ** p for p in range(order + 1)] for k in range(m)]
    gram = [[sum(vander[k][p] * vander[k][q] for k in range(m)) for q in range(order + 1)] for p in range(order + 1)]
    value = []
    for p in range(order + 1):
        if p < deriv:
            value.append(F(0))
        else:
            value.append(F(math.factorial(p), math.factorial(p - deriv)) * F(at) ** (p - deriv))
    # weights = V (V'V)^-1 value
    y = solve(gram, value)
    return [sum(vander[k][p] * y[p] for p in range(order + 1)) for k in range(m)]


def savgol_model(x, m, order, deriv, delta, mode, cval):
    n = len(x)
    h = m // 2
    scale = F(1) / F(delta) ** deriv
    x = [F(v) for v in x]
    out = []
    for i in range(n):
        if mode == 'interp':
            first = min(max(i - h, 0), n - m)
            w = fit_row(m, order, deriv, i - first)
            vals = x[first:first + m]
        else:
            w = fit_row(m, order, deriv, h)
            vals = [extended(x, i - h + k, mode, F(cval)) for k in range(m)]
        out.append(float(scale * sum(a * b for a, b in zip(w, vals))))
    return out


# ------------------------------------------------------------------------------ runs

def columns(rows):
    return [list(c) for c in zip(*rows)]


def check_curve(stat, what, r, c, before, exp_cols, tol=1e-9):
    stat.op()
    stat.check(type(r) is Curve and r is not c, '%s: type of the result', what)
    stat.check(r.dtype == np.float64 and not r.isparametric, '%s: dtype %s parametric %s', what, r.dtype, r.isparametric)
    stat.check(r.size == c.size and r.ndim == c.ndim, '%s: size %s ndim %s', what, r.size, r.ndim)
    scale = max([1.0] + [abs(v) for col in exp_cols for v in col])
    got = [lst(v) for v in r.values()]
    stat.check(near_seq(got, exp_cols, tol, tol * scale), '%s: %s, model %s', what, got, exp_cols)
    stat.check((c.data.tobytes(), c.t.tobytes()) == before, '%s: the curve has changed', what)
    stat.check(not np.shares_memory(r.data, c.data), '%s: the result shares memory with the curve', what)


def freeze(c):
    return c.data.tobytes(), c.t.tobytes()


def custom(n):
    """Not symmetric and not normalized"""
    return np.arange(1.0, n + 1.0)


def run_window(case, stat):
    rows, t, dt, kinds = case
    c = mk_curve(rows, t, dt)
    before = freeze(c)
    cols = columns(rows)
    for kind, m, mode in itertools.product(kinds, range(1, 8), WMODES):
        for cval in ((0.0, 5.0) if mode == 'constant' else (0.0,)):
            what = f'{rows} {dt} window {kind} size {m} {mode} {cval}'
            kw = dict(window_size=m, window_type=custom if kind == 'custom' else kind, mode=mode, cval=cval)
            if m == 2 and kind in ('hann', 'bartlett'):
                stat.op()
                stat.check(raises(ValueError, c.smooth, 'window', **kw), '%s: accepted', what)
                continue
            if m == 2 and kind == 'blackman':
                continue  # only rounding errors
            exp = [window_model(x, (lambda n: list(range(1, n + 1))) if kind == 'custom' else kind, m, mode, cval) for x in cols]
            check_curve(stat, what, c.smooth('window', **kw), c, before, exp)
    # defaults
    check_curve(stat, f'{rows} defaults', c.smooth('window', window_size=5), c, before, [window_model(x, 'hann', 5, 'reflect', 0) for x in cols])
    check_curve(stat, f'{rows} defaults', c.smooth(method='window', window_size=4), c, before, [window_model(x, 'hann', 4, 'reflect', 0) for x in cols])
    stat.seen(dt)


def run_savgol(case, stat):
    rows, t, dt = case
    c = mk_curve(rows, t, dt)
    before = freeze(c)
    cols = columns(rows)
    n = len(rows)
    tol = 1e-4 if dt == 'f4' else 1e-8
    for m, mode in itertools.product((1, 3, 5, 7), SMODES):
        if mode == 'interp' and m > n:
            stat.op()
            stat.check(raises((ValueError, TypeError), c.smooth, 'savgol', window_length=m, polyorder=0), 'window %s of %s points', m, n)
            continue
        for order in range(0, min(m, 5)):
            for deriv, delta in ((0, 1.0), (1, 1.0), (1, 0.5), (2, 2.0)):
                if deriv > order:
                    continue
                cval = 3.0 if mode == 'constant' and deriv == 0 else 0.0
                what = f'{rows} {dt} savgol {m} {order} deriv {deriv} {delta} {mode} {cval}'
                r = c.smooth('savgol', window_length=m, polyorder=order, deriv=deriv, delta=delta, mode=mode, cval=cval)
                check_curve(stat, what, r, c, before, [savgol_model(x, m, order, deriv, delta, mode, cval) for x in cols], tol)
    if n >= 5:
        check_curve(stat, f'{rows} defaults', c.smooth('savgol', window_length=5, polyorder=2), c, before,
                    [savgol_model(x, 5, 2, 0, 1, 'interp', 0) for x in cols], tol)
        check_curve(stat, f'{rows} function', Curve(get_smooth_method('savgol')(c, 5, 3)), c, before,
                    [savgol_model(x, 5, 3, 0, 1, 'interp', 0) for x in cols], tol) if dt == 'f8' else None
    stat.seen(dt)


POLY = [lambda x: 3, lambda x: 2 * x - 1, lambda x: x * x - 3 * x, lambda x: x ** 3 - 4 * x + 1]


def run_poly(case, stat):
    """Polynomials up to the order of the filter are kept, constants are kept by every filter"""
    n, deg, nd, dt = case
    rows = [tuple(POLY[(deg + a) % (deg + 1)](k) for a in range(nd)) for k in range(n)]
    c = mk_curve(rows, None, dt)
    before = freeze(c)
    cols = [[float(v) for v in x] for x in columns(rows)]
    for m in (3, 5, 7, 9):
        for order in range(deg, min(m, 6)):
            if m <= n:
                check_curve(stat, f'{case} savgol {m} {order}', c.smooth('savgol', window_length=m, polyorder=order), c, before, cols, 1e-7)
    if deg == 0:
        for kind, m, mode in itertools.product(WINDOWS, (1, 3, 4, 5, 8), WMODES[:-1]):
            r = c.smooth('window', window_size=m, window_type=kind, mode=mode)
            check_curve(stat, f'{case} window {kind} {m} {mode}', r, c, before, cols)
    if deg == 1:
        # symmetric windows keep straight lines inside
        for kind, m in itertools.product(WINDOWS, (3, 5, 7)):
            r = c.smooth('window', window_size=m, window_type=kind)
            h = m // 2
            stat.op()
            stat.check(near_seq([lst(v)[h:n - h] for v in r.values()], [x[h:n - h] for x in cols], 1e-9, 1e-9), '%s window %s %s', case, kind, m)


CONFIGS = [('window', dict(window_size=3)), ('window', dict(window_size=4, window_type='boxcar')), ('window', dict(window_size=5, window_type='hamming', mode='wrap')),
           ('window', dict(window_size=3, window_type='triang', mode='nearest')), ('savgol', dict(window_length=3, polyorder=1)),
           ('savgol', dict(window_length=3, polyorder=2, mode='mirror')), ('savgol', dict(window_length=5, polyorder=2, mode='nearest')),
           ('savgol', dict(window_length=5, polyorder=3, mode='wrap')), ('savgol', dict(window_length=3, polyorder=1, deriv=1))]


def run_equivariance(case, stat):
    """Per coordinate; translation, scaling, reversal and permutation of axes commute; independent of t; linear"""
    rows, k = case
    method, kw = CONFIGS[k]
    c = mk_curve(rows)
    base = [lst(v) for v in c.smooth(method, **kw).values()]
    nd = c.ndim
    n = c.size

    def cols(rs, t=None):
        stat.op()
        return [lst(v) for v in mk_curve(rs, t).smooth(method, **kw).values()]
    shift = 0 if kw.get('deriv') else 7
    stat.check(near_seq(cols([tuple(v + 7 for v in p) for p in rows]), [[v + shift for v in x] for x in base], 1e-9, 1e-8), '%s translation', case)
    stat.check(near_seq(cols([tuple(v * -4 for v in p) for p in rows]), [[v * -4 for v in x] for x in base], 1e-9, 1e-9), '%s scaling', case)
    for perm in itertools.permutations(range(nd)):
        stat.check(cols([tuple(p[a] for a in perm) for p in rows]) == [base[a] for a in perm], '%s permutation %s', case, perm)
    for a, b in itertools.product(range(nd), repeat=2):
        stat.check(near_seq(cols([(p[a], p[b]) for p in rows]), [base[a], base[b]], 1e-12, 1e-12), '%s coordinates %s %s', case, a, b)
    stat.check(cols(rows, list(range(n))) == base and cols(rows, [k * k * 0.5 - 7 for k in range(n)]) == base, '%s parametrization', case)
    if kw.get('window_size', 1) % 2:
        sign = -1 if kw.get('deriv') else 1
        stat.check(near_seq(cols(rows[::-1]), [[sign * v for v in x[::-1]] for x in base], 1e-9, 1e-9), '%s reversal', case)
    other = [tuple((3 * k * k + 5 * a) % 7 for a in range(nd)) for k in range(n)]
    o = cols(other)
    stat.check(near_seq(cols([tuple(2 * x - y for x, y in zip(p, q)) for p, q in zip(rows, other)]),
                        [[2 * x - y for x, y in zip(u, v)] for u, v in zip(base, o)], 1e-9, 1e-8), '%s linear combination', case)
    stat.check(cols(rows) == base, '%s again', case)


def run_dtypes(case, stat):
    dt, method, k = case
    kw = dict([(c[0] + str(i), c[1]) for i, c in enumerate(CONFIGS)][k][1])
    method = CONFIGS[k][0]
    top = {'i1': 127, 'u1': 255, 'i2': 32767, 'u2': 65535, 'i4': 2 ** 31 - 1, 'u4': 2 ** 32 - 1, 'i8': 2 ** 50, 'u8': 2 ** 50, 'f2': 2000, 'f4': 2 ** 20, 'f8': 2 ** 20}[dt]
    low = -top if dt[0] in 'if' else 0
    rows = [(top, low), (top, top), (low, top), (low, 1), (2, top), (top, top), (0, 0)]
    exp = [lst(v) for v in mk_curve(rows).smooth(method, **kw).values()]
    c = mk_curve(rows, None, dt)
    check_curve(stat, f'{case}', c.smooth(method, **kw), c, freeze(c), exp, 1e-3 if dt == 'f2' else 1e-5 if dt == 'f4' else 1e-9)


def run_errors(case, stat):
    kind, = case
    c = mk_curve([(0, 1), (2, 5), (3, 3), (7, 1), (0, 0)], (0, 1, 3, 4, 9))
    before = freeze(c)
    if kind == 'unknown':
        for m in ('', 'Savgol', 'SAVGOL', 'windows', 'hann', None, 0, ('window',)):
            stat.op(2)
            stat.check(raises(NameError, c.smooth, m), 'method %r accepted', m)
            stat.check(raises(NameError, c.smooth, m, window_size=3), 'method %r accepted', m)
            stat.check(raises(NameError, get_smooth_method, m), 'method %r found', m)
    elif kind == 'window':
        for kw in (dict(), dict(window_size=-1), dict(window_size=0), dict(window_size=2.5), dict(window_size='3'), dict(window_size=None),
                   dict(window_size=3, window_type='none'), dict(window_size=3, window_type=''), 
                   dict(window_size=3, mode='interp'), dict(window_size=3, mode=None), dict(window_size=3, cval='a'), dict(window_size=3, polyorder=1),
                   dict(window_size=3, window_type=lambda n: 1 / 0), dict(window_size=3, window_type=lambda n: np.ones((n, n))),
                   dict(window_size=3, window_type=lambda: np.ones(3)), dict(window_size=3, window_type=lambda n: None),
                   dict(window_size=3, window_type=lambda n: np.zeros(n)), dict(window_size=2), dict(window_size=2, window_type='bartlett')):
            stat.op()
            stat.check(raises((ValueError, TypeError, SmoothingError), c.smooth, 'window', **kw), 'window %s accepted', kw)
        for f in (lambda n: 1 / 0, lambda: 1, lambda n: [][n]):
            stat.check(raises(ValueError, c.smooth, 'window', window_size=3, window_type=f), 'failing window function')
    elif kind == 'savgol':
        for kw in (dict(), dict(window_length=3), dict(polyorder=1), dict(window_length=3, polyorder=3), dict(window_length=3, polyorder=5),
                   dict(window_length=4, polyorder=1), dict(window_length=0, polyorder=0), dict(window_length=-3, polyorder=1),
                   dict(window_length=7, polyorder=1), dict(window_length=3.5, polyorder=1), dict(window_length=3, polyorder=-1),
                   dict(window_length=3, polyorder=1, mode='reflect'), dict(window_length=3, polyorder=1, mode=None), dict(window_length='3', polyorder=1),
                   dict(window_length=3, polyorder=1, window_size=3), dict(window_length=None, polyorder=1), dict(window_length=3, polyorder=None)):
            stat.op()
            stat.check(raises((ValueError, TypeError, SmoothingError), c.smooth, 'savgol', **kw), 'savgol %s accepted', kw)
    elif kind == 'small':
        for nd in (2, 3, 4):
            for rows in ([], [(1,) * nd]):
                for dt in ('f8', 'i4', 'f4'):
                    e = mk_curve(rows, None, dt, nd)
                    for kw in (dict(window_size=3), dict(window_size=4, window_type='boxcar', mode='wrap'), dict(window_size=1, mode='nearest')):
                        r = e.smooth('window', **kw)
                        stat.op()
                        stat.check(r.size == len(rows) and r.ndim == nd and r.dtype == np.float64 and lst(r.data) == [[1.0] * nd] * len(rows), 'small %s %s', rows, kw)
                    r = e.smooth('savgol', window_length=3, polyorder=1, mode='nearest')
                    stat.op()
                    stat.check(r.size == len(rows) and r.ndim == nd and near_seq(lst(r.data), [[1.0] * nd] * len(rows), 1e-6, 1e-6), 'small %s', rows)
                    stat.check(raises((ValueError, TypeError), e.smooth, 'savgol', window_length=3, polyorder=1), 'small %s interp', rows)
    else:
        stat.check(set(smooth_methods()) >= {'savgol', 'window'}, 'methods %s', smooth_methods())
        stat.check(len(set(smooth_methods())) == len(smooth_methods()), 'methods %s', smooth_methods())
        smooth_methods().clear()
        stat.check(set(smooth_methods()) >= {'savgol', 'window'}, 'the list of methods is the registry')
        # objects of users are not changed
        for dt in ('f8', 'f4', 'i4'):
            w = np.array([1, 2, 1], dtype=dt)
            saved = w.copy()
            for _ in range(3):
                r = c.smooth('window', window_size=3, window_type=lambda n: w)
                stat.op()
                stat.check((w == saved).all(), 'the window of the user has changed %s', w)
                stat.check(near_seq([lst(v) for v in r.values()], [convolve(x, [0.25, 0.5, 0.25], 'reflect', 0) for x in columns(lst(c.data))], 1e-9, 1e-9), 'window of the user')
        calls = []

        def f(n):
            calls.append(n)
            return np.ones(n)
        for m in (1, 2, 5):
            c.smooth('window', window_size=m, window_type=f)
        stat.check(calls == [1, 2, 5], 'the window function was called with %s', calls)
        params = dict(window_size=3, window_type='hann')
        c.smooth('window', **params)
        stat.check(params == dict(window_size=3, window_type='hann'), 'parameters have changed')
    stat.check(freeze(c) == before, 'the curve has changed')


def run_ladder(case, stat):
    n, dt = case
    rows = [((k * 7) % 23, (k * k) % 31, k % 5) for k in range(n)]
    c = mk_curve(rows, None, dt)
    before = freeze(c)
    cols = columns(rows)
    for m in (3, 4, 5, n // 2, n, n + 1, n + 6):
        if m > 70 or m < 3:
            continue
        check_curve(stat, f'{case} window {m}', c.smooth('window', window_size=m, window_type='hamming'), c, before, [window_model(x, 'hamming', m, 'reflect', 0) for x in cols])
        if m % 2:
            mode = 'interp' if m <= n else 'nearest'
            check_curve(stat, f'{case} savgol {m}', c.smooth('savgol', window_length=m, polyorder=2, mode=mode), c, before,
                        [savgol_model(x, m, 2, 0, 1, mode, 0) for x in cols], 1e-7)


PTS = [(0, 0, 1, 4), (3, 1, 0, -2), (-2, 5, 2, 0)]


def spaces(tier):
    deep = tier == 'thorough'

    def words(nmax, nds=(2, 3)):
        for nd in nds:
            for n in range(1, nmax + 1):
                for w in itertools.product(range(3), repeat=n):
                    if n <= 3 or deep or w[0] == 0:
                        yield [PTS[k][:nd] for k in w]

    def win():
        for rows in words(5 if deep else 4):
            yield rows, None, 'f8', WINDOWS + ['custom']
            if len(rows) in (2, 4):
                for dt in ('f4', 'i4', 'i1'):
                    yield rows, None, dt, ['boxcar', 'custom']
                yield rows, [k * k for k in range(len(rows))], 'f8', ['hann', 'custom']
        for w in itertools.permutations(range(3)):
            yield [PTS[k] for k in w] * 3, None, 'f8', WINDOWS

    def sav():
        for rows in words(6 if deep else 5):
            yield rows, None, 'f8'
            if len(rows) in (3, 5) and rows[0] == rows[-1]:
                yield rows, None, 'f4'
                yield rows, None, 'i2'
                yield rows, [k * k for k in range(len(rows))], 'f8'
        for w in itertools.product(range(3), repeat=3):
            yield [PTS[k] for k in w] * 3, None, 'f8'

    return [
        Space('window', win, run_window, 'all words of up to %d points x windows x sizes 1..7 x modes' % (5 if deep else 4)),
        Space('savgol', sav, run_savgol, 'all words of up to %d points x windows 1..7 x orders x derivatives x modes' % (6 if deep else 5)),
        Space('poly', lambda: [(n, d, nd, dt) for n in range(3, 14 if deep else 12) for d in range(4) for nd in (2, 3, 4) for dt in ('f8', 'i4')], run_poly,
              'polynomial curves of degree 0..3, all windows and orders'),
        Space('equivariance', lambda: [(rows, k) for rows in words(6 if deep else 5, (3,)) if len(rows) >= 5 for k in range(len(CONFIGS))], run_equivariance,
              'all words of 5 points x %d configurations x transformations' % len(CONFIGS)),
        Space('dtypes', lambda: [(dt, '', k) for dt in ('f2', 'f4', 'f8', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8') for k in range(len(CONFIGS))], run_dtypes,
              'extreme values of every dtype x configurations'),
        Space('errors', lambda: [(k,) for k in ('unknown', 'window', 'savgol', 'small', 'interface')], run_errors, 'invalid parameters, small curves, user objects'),
        Space('ladder', lambda: [(n, dt) for n in (LADDER if deep else LADDER_SHORT) if n <= (600 if deep else 260) for dt in ('f8', 'i4')], run_ladder, 'a ladder of sizes'),
    ]
