# -*- coding: utf-8 -*-
import itertools

import numpy as np

from mc.core import Space
from mc.lib import Curve, NAN, INF, same_rows, LADDER, LADDER_SHORT, dist

TITLE = 'Removing singularities keeps exactly the regular points'
ASSUMPTIONS = ['coincidence: distance up to 1e-9 (certainly within the tolerance); distances from 1e-6 are certainly not']

A = {2: (1.0, 2.0), 3: (1.0, 2.0, -3.0), 4: (1.0, 2.0, -3.0, 0.5)}


def alphabet(d):
    a = A[d]
    out = {
        'A': list(a),
        'a': [x + 1e-10 for x in a],            # coincides with A within the tolerance
        'B': [x + 1.0 for x in a],
        'e': [a[0] + 1e-3] + list(a[1:]),       # near A, but another point
        'n': [NAN] + list(a[1:]),
        'N': list(a[:-1]) + [NAN],
        'i': [INF] + list(a[1:]),
        'j': list(a[:-1]) + [-INF],
        'x': [NAN] * d,
        'O': [0.0] * d,
        'd': [a[0] + 2e-6] + list(a[1:]),
        'F': [x + 5e4 for x in a],              # far away
        'f': list(a[:-1]) + [a[-1] - 1e7],
        'g': list(a[:-1]) + [a[-1] - 1e7 + 1e-5],
    }
    return out


def finite(p):
    return all(v == v and abs(v) != INF for v in p)


def model(rows):
    """Indices of the points which stay"""
    keep, prev = [], None
    for i, p in enumerate(rows):
        if not finite(p):
            continue
        if prev is None or dist(prev, p) > 1e-8:
            keep.append(i)
        prev = p
    return keep


def check(stat, rows, par, dt, ndim, what):
    n = len(rows)
    t = [0.5 * i - 1 for i in range(n)] if par else None
    arr = np.array(rows, dtype=dt).reshape(n, ndim)
    c = Curve(arr, tdata=t)
    before = c.data.tobytes()
    r = c.nonsingular()
    stat.op(3)
    keep = model(arr.astype('f8').tolist())
    exp = [arr[i].tolist() for i in keep]
    stat.check(isinstance(r, Curve) and same_rows(r.data.tolist(), exp), '%s: %s, model %s', what, r.data.tolist()[:9], exp[:9])
    stat.check(r.ndim == ndim and r.dtype == np.dtype(dt), '%s: ndim %s dtype %s', what, r.ndim, r.dtype)
    stat.check(r.isparametric == par, '%s: parametric %s', what, r.isparametric)
    if par:
        stat.check(r.t.tolist() == [t[i] for i in keep], '%s: t %s, model %s', what, r.t.tolist(), [t[i] for i in keep])
    stat.check(np.isfinite(r.data.astype('f8')).all(), '%s: non-finite points are left', what)
    stat.check((r.chordlen > 1e-8).all(), '%s: zero-length chords are left %s', what, r.chordlen)
    again = r.nonsingular()
    stat.check(same_rows(again.data.tolist(), exp), '%s: changed when repeated: %s', what, again.data.tolist()[:9])
    if par:
        stat.check(again.t.tolist() == r.t.tolist(), '%s: t changed when repeated', what)
    stat.check(c.data.tobytes() == before and c.size == n, '%s: the curve has been changed', what)
    return r


def run_words(case, stat):
    d, word, par = case
    al = alphabet(d)
    # chains A a A a .. have all chords within the tolerance: they are one point for the model, too
    rows = [al[x] for x in word]
    r = check(stat, rows, par, 'f8', d, f'{"".join(word)} d={d}')
    stat.seen(f'{r.size} of {len(word)}')


def run_dtypes(case, stat):
    dt, d, word, par = case
    al = {'A': [1, 2, 3][:d], 'B': [4, 2, 0][:d], 'C': [1, 2, 4][:d] if d == 3 else [1, 3]}
    rows = [al[x] for x in word]
    check(stat, rows, par, dt, d, f'{"".join(word)} {dt}')


def run_empty(case, stat):
    d, dt, par, n = case
    check(stat, [[NAN] * d] * n if dt[0] == 'f' else [[1] * d] * n, par, dt, d, f'n={n}')


def run_sizes(case, stat):
    n, pattern, par = case
    al = alphabet(3)
    rows = []
    for i in range(n):
        k = pattern[i % len(pattern)]
        p = list(al[k]) if k != '.' else [float(i), i * 0.5, -i]
        if k == '=' or (k == 'A' and i % 3 == 0):
            p = list(rows[-1]) if rows else p
        rows.append(p)
    r = check(stat, rows, par, 'f8', 3, f'n={n} {pattern}')
    # the end of a long curve is treated as its beginning
    for tail in ('n', 'A', '='):
        ext = rows + [list(rows[-1]) if tail == '=' else al[tail]]
        check(stat, ext, par, 'f8', 3, f'n={n} {pattern}+{tail}')
    stat.seen(pattern)


def spaces(tier):
    deep = tier == 'thorough'

    def words():
        for n in range(1, 4):
            for w in itertools.product('AaBenNijxO', repeat=n):
                yield 2, w, n % 2 == 1
                yield 3, w, n % 2 == 0
        for n in (4, 5):
            for w in itertools.product('AaBni' if n == 4 or deep else 'AaBn', repeat=n):
                yield 2, w, True
                yield 3, w, False
        for w in itertools.product('AaBeN', repeat=3):
            yield 4, w, True
        for n in (6, 7) if deep else (6,):
            for w in itertools.product('ABn', repeat=n):
                yield 2, w, True
        for n in (2, 3, 4):
            for w in itertools.product('AadFfgN' if n < 4 or deep else 'AdFfg', repeat=n):
                yield 2 + n % 2, w, n % 2 == 0
        if deep:
            for w in itertools.product('AaBenNijxO', repeat=4):
                yield 3, w, True

    def dts():
        for dt in ('f8', 'f4', 'f2', 'i8', 'i4', 'i2', 'i1', 'u8', 'u4', 'u2', 'u1'):
            for n in range(1, 5):
                for w in itertools.product('ABC', repeat=n):
                    yield dt, 2 + n % 2, w, n % 2 == 0
    return [
        Space('words', words, run_words, 'all words over an alphabet of coinciding, near, distant and non-finite points'),
        Space('dtypes', dts, run_dtypes, 'all words of up to 4 points in every dtype'),
        Space('empty', lambda: [(d, dt, par, n) for d in (2, 3, 4) for dt in ('f8', 'f4', 'i4') for par in (False, True)
                                for n in (0, 1, 2, 3)], run_empty, 'curves of which nothing or one point is left'),
        Space('sizes', lambda: [(n, pat, par) for n in (LADDER if deep else LADDER_SHORT)
                                for pat in ('.', '..n', '.n.', 'n..', '.A', 'AA.', '.....i', '.x') for par in (False, True)],
              run_sizes, 'a ladder of sizes x periodic patterns of singular points'),
    ]
