# -*- coding: utf-8 -*-
"""Equality / membership / index / count against an element-wise model

The floating comparison is the documented one, |a - b| <= 1e-8 + 1e-5 |b|.  The value ladder keeps every pair well
inside or well outside of the tolerance, so the (asymmetric) edge itself is not judged.
"""
import itertools

import numpy as np

from mc.core import Space
from mc.lib import Curve, Point, Segment, skcurve, NAN, INF, LADDER_SHORT, raises

TITLE = 'Equality, membership, index and count agree, independent of the float dtype'
ASSUMPTIONS = ['pairs of values at the very edge of the floating tolerance are not judged',
               'views of integer curves (curve points) are float64, so they compare with tolerance']

VALUES = [0.0, 1e-9, 1e-6, 1.0, 1.0 + 1e-6, 1.0 + 1e-4, -1.0, 1e6, 1e6 + 1, 1e6 + 100, NAN, INF, -INF]
IVALUES = [0, 1, -1, 2, 100, 1000000, 1000001]


def eq_float(a, b):
    if a != a or b != b:
        return False
    if a == b:
        return True
    if a in (INF, -INF) or b in (INF, -INF):
        return False
    return abs(a - b) <= 1e-8 + 1e-5 * abs(b)


def eq(a, b, adt, bdt):
    if np.dtype(adt).kind in 'iu' and np.dtype(bdt).kind in 'iu':
        return a == b
    return eq_float(float(a), float(b))


def truth(x):
    return isinstance(x, (bool, np.bool_)) and bool(x)


def falsity(x):
    return isinstance(x, (bool, np.bool_)) and not bool(x)


def is_flag(stat, got, exp, msg, *args):
    stat.op()
    stat.check(truth(got) if exp else falsity(got), msg + f': got {got!r}, model {exp}', *args)
    stat.seen(f'{exp}')


def ladder(dt):
    return IVALUES if np.dtype(dt).kind in 'iu' else VALUES


def run_values(case, stat):
    """Single differing coordinate at each position, in each kind of object"""
    adt, bdt, d = case
    for a, b in itertools.product(ladder(adt), ladder(bdt)):
        if np.dtype(adt).kind != np.dtype(bdt).kind and abs(a) > 2 ** 30:
            continue
        exp = eq(a, b, adt, bdt)
        for pos in range(d):
            pa, pb = [3] * d, [3] * d
            pa[pos], pb[pos] = a, b
            p, q = Point(pa, dtype=adt), Point(pb, dtype=bdt)
            is_flag(stat, p == q, exp, '%s == %s (%s, %s)', pa, pb, adt, bdt)
            is_flag(stat, p != q, not exp, '%s != %s', pa, pb)
            if d < 2:
                continue
            rows = [[7] * d, pa, [8] * d]
            rowsb = [[7] * d, pb, [8] * d]
            c, e = Curve(np.array(rows, dtype=adt)), Curve(np.array(rowsb, dtype=bdt))
            is_flag(stat, c == e, exp, 'curves %s == %s', rows, rowsb)
            is_flag(stat, c != e, not exp, 'curves %s != %s', rows, rowsb)
            is_flag(stat, e in c, exp, 'curve %s in %s', rowsb, rows)
            is_flag(stat, e[1:] in c, exp, 'subcurve %s in %s', rowsb[1:], rows)
            is_flag(stat, e[:2] in c, exp, 'subcurve %s in %s', rowsb[:2], rows)
            is_flag(stat, q in c, exp, 'point %s in %s', pb, rows)
            stat.op(2)
            stat.check(c.count(q) == (1 if exp else 0), 'count of %s in %s is %s', pb, rows, c.count(q))
            if exp:
                stat.check(c.index(q) == 1, 'index of %s in %s is %s', pb, rows, c.index(q))
            else:
                stat.check(raises(ValueError, c.index, q), 'index of absent %s in %s', pb, rows)
            s1, s2 = Segment(p, Point([9] * d, dtype=adt)), Segment(q, Point([9] * d, dtype=bdt))
            is_flag(stat, s1 == s2, exp, 'segments starting at %s, %s', pa, pb)
            is_flag(stat, s1.reverse() == s2.reverse(), exp, 'segments ending at %s, %s', pa, pb)
            is_flag(stat, s1 != s2, not exp, 'segments starting at %s, %s differ', pa, pb)
            if d > 1:
                is_flag(stat, s1 == s2.reverse(), False, 'segment and reversed segment')
            # zero length: only the absolute part of the tolerance matters
            pv, qv = p.data.astype("f8").tolist(), q.data.astype("f8").tolist()
            far = max(0.0 if x == y else abs(x - y) for x, y in zip(pv, qv)) if NAN not in (a, b) and a == a and b == b else NAN
            if not 1e-9 < far < 1e-7:
                is_flag(stat, Segment(p, q).singular, exp and far <= 1e-9, 'singular segment %s %s', pa, pb)
            arr1, arr2 = np.array(rows, dtype=adt), np.array(rowsb, dtype=bdt)
            el = np.asarray(skcurve.isequal(arr1, arr2)).tolist()
            stat.check(el == [[eq(x, y, adt, bdt) for x, y in zip(r, s)] for r, s in zip(rows, rowsb)], 'isequal %s', el)
            stat.check(bool(skcurve.allequal(arr1, arr2)) is exp, 'allequal')
            stat.check(np.asarray(skcurve.allequal(arr1, arr2, axis=1)).tolist() == [True, exp, True], 'allequal axis=1')


WORD = {2: [[0, 0], [1, 0], [0, 1]], 3: [[0, 0, 0], [1, 0, 0], [0, 0, 1]], 4: [[0, 0, 0, 0], [1, 0, 0, 0], [0, 0, 0, 1]]}


def run_words(case, stat):
    """All words over three points: list semantics of in/index/count, all sub-words as sub-curves"""
    word, d, dt, edt = case
    al = WORD[d]
    n = len(word)
    c = Curve(np.array([al[k] for k in word], dtype=dt).reshape(n, d))
    lw = list(word)
    bounds = [None] + list(range(-n - 1, n + 2))
    for k in range(3):
        p = Point(al[k], dtype=edt)
        is_flag(stat, p in c, k in lw, '%s in %s', k, word)
        stat.op()
        stat.check(c.count(p) == lw.count(k), 'count of %s in %s is %s', k, word, c.count(p))
        for a in bounds:
            for b in bounds:
                idx = [i for i in range(n)[a:b] if lw[i] == k]
                stat.op()
                try:
                    got = c.index(p, a, b)
                except ValueError:
                    got = None
                exp = idx[0] if idx else None
                stat.check(got == exp, 'index of %s in %s [%s:%s] is %s, model %s', k, word, a, b, got, exp)
                stat.seen('index found' if idx else 'index refused')
        if k in lw:
            stat.check(c.index(p, end=n) == lw.index(k) and c.index(point=p) == lw.index(k), 'index by keyword')
    for length in range(1, n + 2):
        for sub in itertools.product(range(3), repeat=length) if length <= 3 else [word[:length], word[-length:],
                                                                                    word + (0,)]:
            e = Curve(np.array([al[k] for k in sub], dtype=edt).reshape(len(sub), d))
            exp = any(tuple(word[i:i + len(sub)]) == tuple(sub) for i in range(n - len(sub) + 1))
            is_flag(stat, e in c, exp, 'sub-curve %s in %s', sub, word)
            is_flag(stat, e == c, tuple(sub) == tuple(word), '%s == %s', sub, word)
            is_flag(stat, c == e, tuple(sub) == tuple(word), '%s == %s', word, sub)
    # parametrization does not take part in equality; dimension does
    is_flag(stat, Curve(c, dtype='f8') == c, True, 'same curve with other dtype')
    if n:
        is_flag(stat, Curve(c.data, tdata=range(n)) == c, True, 'same curve with other parametrization')
    w = Curve(c, ndmin=d + 1)
    is_flag(stat, w == c, False, 'curve with one more dimension == curve')
    is_flag(stat, c == w, False, 'curve == curve with one more dimension')
    is_flag(stat, w in c, False, 'curve with one more dimension in curve')
    q = Point([0] * (d + 1))
    is_flag(stat, q in c, False, 'point with one more dimension')
    is_flag(stat, Point(al[0]) == q, False, 'points of different dimension')
    is_flag(stat, Point([0] * (d - 1)) in c, False, 'point with one dimension less')
    for k in range(d + 3):
        if k != d:
            q = Point(([float(x) for x in al[0]] + [0.0] * 3)[:k])
            is_flag(stat, q in c, False, 'point of %s coordinates', k)
            stat.check(raises(ValueError, c.index, q) and raises(ValueError, c.count, q), 'index/count of a point of %s coordinates', k)
    for k in range(2, d):
        is_flag(stat, Curve(np.array([p[:k] for p in al], dtype='f8')) in c, False, 'curve of %s dimensions', k)
        is_flag(stat, c == Curve(np.array([al[i][:k] for i in word], dtype='f8').reshape(n, k)), False, 'curve of %s dimensions', k)
    for other in (None, 0, 'x', [0] * d, tuple(al[0]), c.data, object()):
        if isinstance(other, np.ndarray):
            is_flag(stat, other in c, False, 'array in curve')
            continue
        is_flag(stat, other in c, False, '%r in curve', other)
        is_flag(stat, c == other, False, 'curve == %r', other)
        is_flag(stat, c != other, True, 'curve != %r', other)
        is_flag(stat, Point(al[0]) == other, False, 'point == %r', other)
        if n > 1:
            is_flag(stat, c.segments[0] == other, False, 'segment == %r', other)


def run_sizes(case, stat):
    """One differing or found point at each end, in the middle, for large curves"""
    n, d, dt = case
    base = np.array([[(i * 3) % (2 * n) + k for k in range(d)] for i in range(n)], dtype=dt)
    c = Curve(base)
    for i in sorted({0, 1, n // 2, n - 2, n - 1}):
        for k in (0, d - 1):
            other = base.copy()
            other[i, k] += 7
            e = Curve(other)
            is_flag(stat, c == e, False, 'n=%s: difference at %s, %s', n, i, k)
            is_flag(stat, e in c, False, 'n=%s: sub-curve of the same size', n)
            is_flag(stat, e[i] == c[i], False, 'n=%s point %s', n, i)
            is_flag(stat, e[max(i - 2, 0):i + 2] in c, False, 'n=%s: short sub-curve', n)
        is_flag(stat, c[i:] in c, True, 'n=%s: tail %s', n, i)
        if i:
            is_flag(stat, c[:i] in c, True, 'n=%s: head %s', n, i)
        is_flag(stat, c[i] in c, True, 'n=%s: point %s', n, i)
        stat.op(3)
        first = base.tolist().index(base[i].tolist())
        stat.check(c.index(c[i]) == first, 'n=%s: index(c[%s]) = %s', n, i, c.index(c[i]))
        stat.check(c.index(Point(base[i]), i) == i, 'n=%s: index from %s', n, i)
        stat.check(c.count(c[i]) == base.tolist().count(base[i].tolist()), 'n=%s: count', n)
    is_flag(stat, c == Curve(base.copy()), True, 'n=%s equal', n)
    is_flag(stat, c[:-1] == c, False, 'n=%s prefix', n)
    is_flag(stat, c == c.reverse(), False, 'n=%s reversed', n)
    is_flag(stat, c[:-1].reverse() in c, False, 'n=%s reversed prefix', n)


def spaces(tier):
    deep = tier == 'thorough'
    dts = ['f8', 'f4', 'i8', 'i4']
    words = [w for n in range(0, 6 if deep else 5) for w in itertools.product(range(3), repeat=n)]
    return [
        Space('values', lambda: [(a, b, d) for d in ((1, 2, 3, 4) if deep else (1, 2, 3)) for a in dts for b in dts],
              run_values, 'all pairs of a ladder of values in each position of points, curves and segments, dtype pairs'),
        Space('words', lambda: [(w, d, dt, edt) for w in words for d, dt, edt in
                                ((2, 'f8', 'f8'), (3, 'i8', 'f8'), (2, 'i4', 'i8'), (4, 'f4', 'f8'))
                                if deep or len(w) < 4 or d == 2],
              run_words, 'all words of 0-4 points over three points: all ranges of index, all sub-words of 1-3'),
        Space('sizes', lambda: [(n, d, dt) for n in LADDER_SHORT for d, dt in ((2, 'f8'), (3, 'i8'))], run_sizes,
              'differences and finds at the ends and the middle of curves of up to 1025 points'),
    ]
