# -*- coding: utf-8 -*-
import itertools
import math

import numpy as np

from mc.core import Space
from mc.lib import Curve, Point, Segment, near, near_seq, dist, lattice, LADDER, LADDER_SHORT

TITLE = 'Chord, arc and cumulative lengths are Euclidean lengths and are additive'
ASSUMPTIONS = ['float16/float32 lengths are compared with the precision of the dtype']

TOL = {'f4': 2e-4, 'f2': 2e-2}


def lengths(rows):
    return [dist(a, b) for a, b in zip(rows, rows[1:])]


def check_lengths(stat, c, what, tol=1e-10, full=True):
    rows = c.data.tolist()
    n = len(rows)
    exp = lengths(rows)
    got = c.chordlen
    stat.op(3)
    stat.check(got.ndim == 1 and got.dtype.kind == 'f', '%s: chordlen %r', what, got)
    stat.check(near_seq(got.tolist(), exp, tol, tol), '%s: chordlen %s, model %s', what, got.tolist()[:9], exp[:9])
    total = math.fsum(exp)
    stat.check(isinstance(c.arclen, float) and near(c.arclen, total, tol, tol), '%s: arclen %s, model %s', what, c.arclen, total)
    cum = [math.fsum(exp[:i]) for i in range(n)] if n < 20 else list(itertools.accumulate([0.0] + exp))
    stat.check(near_seq(c.cumarclen.tolist(), cum, tol, tol), '%s: cumarclen %s, model %s', what, c.cumarclen[:9], cum[:9])
    if n:
        stat.check(c.cumarclen[0] == 0 and near(c.cumarclen[-1], c.arclen, tol, tol), '%s: ends of cumarclen', what)
    stat.check(len(c.cumarclen) == n, '%s: cumarclen size', what)
    stat.check((np.diff(c.cumarclen) >= 0).all(), '%s: cumarclen decreases', what)
    if not c.isparametric:
        stat.check(c.t.tolist() == c.cumarclen.tolist(), '%s: t of a non-parametric curve is not cumarclen', what)
    if not full:
        return
    for i, s in enumerate(c.segments):
        stat.op(2)
        stat.check(near(float(s.seglen), exp[i], tol, tol), '%s: seglen of %s is %s, model %s', what, i, s.seglen, exp[i])
        stat.check(near(float(s.chordlen), exp[i], tol, tol), '%s: chordlen of segment %s is %s', what, i, s.chordlen)
        stat.check(near(float(s.p1.distance(s.p2)), exp[i], tol, tol), '%s: distance of ends', what)
    for i, p in enumerate(c):
        stat.check(near(float(p.cumarclen), cum[i], tol, tol), '%s: cumarclen of point %s', what, i)
    stat.check(near_seq(c.reverse().chordlen.tolist(), exp[::-1], tol, tol), '%s: chordlen of the reversed curve', what)
    for k in range(n):
        a, b = c[:k + 1], c[k:]
        stat.op(2)
        stat.check(near(a.arclen + b.arclen, total, tol, tol), '%s: lengths of the parts split at %s: %s + %s, whole %s', what,
                   k, a.arclen, b.arclen, total)
        stat.check(near(a.arclen, cum[k], tol, tol), '%s: length of the head %s', what, k)
    if n:
        d = (c + c)
        gap = dist(rows[-1], rows[0])
        stat.check(near(d.arclen, 2 * total + gap, tol, tol), '%s: length of the concatenation', what)


def run_lattice(case, stat):
    word, dt, off = case
    rows = [[x + o for x, o in zip(p, itertools.cycle(off))] for p in word]
    d = len(word[0])
    for par in (False, True):
        c = Curve(np.array(rows, dtype=dt).reshape(-1, d), tdata=list(range(len(rows))) if par else None)
        check_lengths(stat, c, f'{rows} {dt}', TOL.get(dt, 1e-10))
    stat.seen(f'{sum(1 for x in lengths(rows) if x == 0)} zero chords')


def run_extremes(case, stat):
    """Extreme values of each dtype: no overflow or wrap-around"""
    dt, d = case
    if dt[0] == 'f':
        vals = {'f8': [0, -1e100, 1e100, 1e-100, 3], 'f4': [0, -1e15, 1e15, 3, 1e-10], 'f2': [0, -100, 100, 0.5]}[dt]
    else:
        info = np.iinfo(dt)
        vals = [info.min, info.max, 0, 1, info.max // 2]
    for a, b, e in itertools.product(vals, repeat=3):
        rows = [[a] + [0] * (d - 1), [b] + [0] * (d - 2) + [1], [0] * (d - 1) + [e]]
        c = Curve(np.array(rows, dtype=dt))
        tol = TOL.get(dt, 1e-9)
        check_lengths(stat, c, f'{rows} {dt}', tol)
    stat.seen(dt)


def run_empty(case, stat):
    n, d, dt, par = case
    c = Curve(np.array([[1, 2, 3, 4][:d]] * n, dtype=dt).reshape(n, d), tdata=[5.0] * n if par else None)
    check_lengths(stat, c, f'n={n} d={d} {dt}')
    stat.check(c.arclen == 0 and len(c.segments) == 0 and len(c.chordlen) == 0, 'no segments, no length')


def run_sizes(case, stat):
    n, d, dt = case
    rows = [[(i * i * (k + 1) + 3 * i) % 97 for k in range(d)] for i in range(n)]
    c = Curve(np.array(rows, dtype=dt))
    tol = TOL.get(dt, 1e-10)
    check_lengths(stat, c, f'n={n} {dt}', tol, full=n < 40)
    exp = lengths(rows)
    total = math.fsum(exp)
    for k in (0, 1, n // 2, n - 2, n - 1):
        stat.check(near(c[:k + 1].arclen + c[k:].arclen, total, tol, tol), 'n=%s split at %s', n, k)
        if k < n - 1:
            stat.check(near(float(c.segments[k].seglen), exp[k], tol, tol), 'n=%s seglen %s', n, k)
            stat.check(near(float(c.segments[k].chordlen), exp[k], tol, tol), 'n=%s chordlen of segment %s', n, k)
    stat.check(near_seq(c.reverse().cumarclen.tolist(), [total - v for v in c.cumarclen.tolist()][::-1], tol, tol * max(total, 100)),
               'n=%s cumulative length of the reversed curve', n)


def spaces(tier):
    deep = tier == 'thorough'

    def lat():
        for n in range(1, 5 if deep else 4):
            for w in itertools.product(lattice(3, 2), repeat=n):
                yield w, 'f8', (0, 0)
        for n in range(1, 5 if deep else 4):
            for w in itertools.product(lattice(2, 3), repeat=n):
                yield w, 'f8', (-1, 2, 5)
        for n in range(1, 4):
            for w in itertools.product(lattice(2, 2), repeat=n):
                for dt in ('f4', 'f2', 'i8', 'i4', 'i2', 'i1', 'u8', 'u4', 'u2', 'u1'):
                    yield w, dt, (3, 90)
        for w in itertools.product(lattice(2, 4), repeat=2):
            yield w, 'f8', (0, 100)
    return [
        Space('lattice', lat, run_lattice, 'all words of up to 3 (4 deep) points of small lattices in 2-4 dimensions'),
        Space('extremes', lambda: [(dt, d) for d in (2, 3) for dt in ('f8', 'f4', 'f2', 'i8', 'i4', 'i2', 'i1', 'u8', 'u4',
                                                                      'u2', 'u1')],
              run_extremes, 'all triples of extreme values of each dtype'),
        Space('empty', lambda: [(n, d, dt, par) for n in (0, 1) for d in (2, 3, 4) for dt in ('f8', 'f4', 'i8', 'u1')
                                for par in (False, True)], run_empty, 'empty and single-point curves'),
        Space('sizes', lambda: [(n, d, dt) for n in (LADDER if deep else LADDER_SHORT) for d, dt in
                                ((2, 'f8'), (3, 'i4'), (4, 'f4'), (2, 'u1'))],
              run_sizes, 'a ladder of sizes up to 1025 points'),
    ]
