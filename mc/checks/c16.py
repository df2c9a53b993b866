# -*- coding: utf-8 -*-
import itertools
from fractions import Fraction

import numpy as np

import skcurve
from mc.core import Space
from mc.lib import Curve, Point, Segment, near_seq, lattice, mk_seg, intersect_exact, raises, comb_curves, place, PLACES, UNITS, LADDER, LADDER_SHORT

TITLE = 'Curve intersection finds exactly the intersecting pairs of segments'
ASSUMPTIONS = ['integer coordinates (exact answers are available for every pair of segments)']


def segs(rows):
    if any(type(x) is float for p in rows for x in p):
        rows = [tuple(Fraction(x) for x in p) for p in rows]
    return list(zip(rows, rows[1:]))


def model(a, b=None):
    """[(i, j, exact result)] in the order of the segments"""
    out = []
    sa = segs(a)
    sb = sa if b is None else segs(b)
    for i, s in enumerate(sa):
        for j, q in enumerate(sb):
            if b is None and j - i < 2:
                continue
            r = intersect_exact(*s, *q)
            if r[0] != 'NONE':
                out.append((i, j, r))
    return out


def matches(r, exp, tol=1e-6, unit=1.0):
    if r.intersect_type.name != exp[0]:
        return False
    m = max(unit, max(abs(float(x)) for q in exp[1:] for x in q))
    if exp[0] == 'EXACT':
        return near_seq(r.intersect_point.data.tolist(), [float(x) for x in exp[1]], tol, tol * m)
    a, b = r.intersect_segment.p1.data.tolist(), r.intersect_segment.p2.data.tolist()
    lo, hi = [float(x) for x in exp[1]], [float(x) for x in exp[2]]
    return near_seq(a, lo, tol, tol * m) and near_seq(b, hi, tol, tol * m) or near_seq(a, hi, tol, tol * m) and near_seq(b, lo, tol, tol * m)


def compare(stat, what, res, exp, c1, c2, seg1=None, seg2=None, unit=1.0):
    """seg1/seg2: the segment object given instead of a curve"""
    stat.op()
    stat.check(type(res) is list, '%s: %r', what, res)
    got = []
    for r in res:
        stat.check(type(r) is skcurve.SegmentsIntersection and bool(r), '%s: %r in the list', what, r)
        if seg1 is not None:
            stat.check(r.segment1 is seg1, '%s: the first segment %r is not the given one', what, r.segment1)
            i = 0
        else:
            stat.check(r.segment1.curve is c1, '%s: the first segment of another curve', what)
            i = r.segment1.idx
        if seg2 is not None:
            stat.check(r.segment2 is seg2, '%s: the second segment %r is not the given one', what, r.segment2)
            j = 0
        else:
            stat.check(r.segment2.curve is c2, '%s: the second segment of another curve', what)
            j = r.segment2.idx
        got.append((i, j))
    stat.check(got == [(i, j) for i, j, _ in exp], '%s: pairs %s, model %s', what, got[:20], [(i, j) for i, j, _ in exp][:20])
    for r, (i, j, e) in zip(res, exp):
        stat.check(matches(r, e, unit=unit), '%s: segments %s %s: %s, model %s', what, i, j, r, e)
    return got


def run_self(case, stat):
    word, off, dt = case
    rows = [tuple(x + off[k % len(off)] for k, x in enumerate(p)) for p in word]
    c = Curve(np.array(rows, dtype=dt))
    exp = model(rows)
    compare(stat, f'{rows} {dt}', c.intersect(), exp, c, c)
    compare(stat, f'{rows} {dt} with itself', c.intersect(c), exp, c, c)
    stat.seen(f'{len(exp)} intersections')
    if len(word) < 5:
        # an equal but different curve is another curve: adjacent and equal segments intersect
        d = Curve(np.array(rows, dtype=dt))
        compare(stat, f'{rows} {dt} with an equal curve', c.intersect(d), model(rows, rows), c, d)


S2 = [
    [(0, 0), (4, 4)], [(4, 4), (0, 0)], [(0, 2), (4, 2)], [(2, 0), (2, 4)], [(0, 4), (4, 0)], [(1, 1), (3, 3)], [(2, 2), (2, 2)],
    [(0, 0), (4, 0), (4, 4), (0, 4), (0, 0)], [(1, 1), (3, 1), (3, 3), (1, 3), (1, 1)], [(0, 1), (1, 3), (2, 1), (3, 3), (4, 1)],
    [(0, 2), (1, 2), (3, 2), (4, 2)], [(4, 2), (2, 2), (0, 2), (2, 2)], [(5, 5), (9, 9), (9, 5)], [(0, 0), (1, 0), (1, 0), (2, 0)],
    [(0, 4), (2, 0), (4, 4), (0, 1), (4, 1)], [(4, 1), (0, 3), (4, 3)], [(2, 2)], [],
    [(0, 0), (0, 4)], [(-1, 3), (5, 3), (5, 1), (-1, 1)], [(3, 3), (1, 1), (4, 4), (0, 0)], [(1, 0), (1, 1), (1, 2), (1, 3), (1, 4)],
]
S3 = [
    [(0, 0, 0), (4, 4, 4)], [(0, 2, 2), (4, 2, 2)], [(2, 2, 0), (2, 2, 4), (0, 2, 4), (4, 2, 0)], [(0, 0, 0), (4, 0, 0), (4, 4, 0), (0, 4, 4)],
    [(1, 1, 1), (3, 3, 3), (3, 1, 1), (1, 3, 3)], [(0, 4, 0), (4, 0, 4)], [(0, 4, 1), (4, 0, 1), (2, 2, 1), (2, 2, 3)], [(2, 2, 2)], [],
    [(5, 5, 5), (2, 2, 2), (5, 5, 5)], [(0, 0, 4), (4, 4, 0), (4, 0, 4), (0, 4, 0)], [(2, 0, 2), (2, 4, 2), (2, 4, 2), (0, 0, 2)],
]


def mk(rows, dt, nd, par=False):
    return Curve(np.array(rows, dtype=dt).reshape(len(rows), nd), tdata=list(range(len(rows))) if par else None)


def run_shapes(case, stat):
    nd, i, j, off, dt1, dt2 = case
    S = S2 if nd == 2 else S3

    def move(rows):
        return [tuple(x + off for x in p) for p in rows]
    a, b = move(S[i]), move(S[j])
    c1, c2 = mk(a, dt1, nd, i % 2 == 0), mk(b, dt2, nd, j % 3 == 0)
    exp = model(a, b)
    compare(stat, f'{a} {b}', c1.intersect(c2), exp, c1, c2)
    compare(stat, f'{a} {b} exact', c1.intersect(c2, method='exact'), exp, c1, c2)
    compare(stat, f'{a} {b} method object', c1.intersect(c2, method=skcurve.get_intersect_method('exact')), exp, c1, c2)
    swapped = compare(stat, f'{b} {a}', c2.intersect(c1), model(b, a), c2, c1)
    stat.check(sorted((q, p) for p, q in swapped) == [(p, q) for p, q, _ in exp], 'swapped pairs')
    # each single pair agrees with the segment-wise method
    got = {(r.segment1.idx, r.segment2.idx): r for r in c1.intersect(c2)}
    for s, q in itertools.product(c1.segments, c2.segments):
        r = s.intersect(q)
        stat.op()
        g = got.get((s.idx, q.idx))
        stat.check(bool(r) == (g is not None) and (g is None or g.intersect_info.type == r.intersect_info.type and
                                                   (g.intersect_point == r.intersect_point)), '%s %s: segments %s %s', a, b, s, q)
    stat.seen(f'{len(exp)} intersections')


def run_segment(case, stat):
    nd, i, ends, dt = case
    a = (S2 if nd == 2 else S3)[i]
    c = mk(a, dt, nd)
    s = mk_seg(ends[0], ends[1], dt)
    what = f'{a} {s}'
    exp = model(a, list(ends))
    compare(stat, what, c.intersect(s), exp, c, None, seg2=s)
    meth = skcurve.get_intersect_method('exact')
    compare(stat, what + ' segment first', meth(s, c), model(list(ends), a), None, c, seg1=s)
    other = Curve(np.array(ends, dtype=dt))
    g = other.segments[0]
    compare(stat, what + ' curve segment', c.intersect(g), exp, c, None, seg2=g)
    if len(a) > 2:
        own = c.segments[1]
        compare(stat, what + ' own segment', c.intersect(own), model(a, a[1:3]), c, None, seg2=own)
    stat.seen(f'{len(exp)} intersections')


def run_words(case, stat):
    a, b = case
    c1, c2 = mk(a, 'f8', len(a[0])), mk(b, 'f8', len(b[0]))
    exp = model(a, b)
    compare(stat, f'{a} {b}', c1.intersect(c2), exp, c1, c2)
    stat.seen(f'{len(exp)} intersections')


ULP = [0.0, 0.3, float(np.nextafter(0.3, 1)), 0.9]
ULP_POINTS = list(itertools.product(ULP, repeat=2))
ULP_SEGMENTS = list(itertools.combinations(ULP_POINTS, 2))


def run_ulp(case, stat):
    """Coordinates which differ by a rounding error: a pair of segments is found iff the segments themselves intersect"""
    k, scale, third = case
    a = [tuple(x * scale for x in p) for p in ULP_SEGMENTS[k]] + ([tuple(x * scale for x in third)] if third else [])
    c1 = mk(a, 'f8', 2)
    n = 0
    for b in ULP_SEGMENTS:
        if third and b[0] > b[1]:
            continue
        b = [tuple(x * scale for x in p) for p in b]
        c2 = mk(b, 'f8', 2)
        g = c2.segments[0]
        exp = [s.idx for s in c1.segments if s.intersect(g)]
        got = [r.segment1.idx for r in c1.intersect(c2)]
        stat.op(2)
        stat.check(got == exp, '%s %s: segments %s intersect, single segments %s', a, b, got, exp)
        got = [r.segment2.idx for r in c2.intersect(c1)]
        stat.check(got == exp, '%s %s: segments %s intersect, single segments %s', b, a, got, exp)
        # exact touching, up to the rounding error, is an intersection
        near = [[round(v / scale, 6) * 10 for v in p] for p in a + b]
        kinds = [intersect_exact(*[tuple(int(round(v)) for v in p) for p in (near[i], near[i + 1], near[-2], near[-1])])[0] for i in range(len(a) - 1)]
        # overlaps are found without a tolerance
        e = [i for i, kind in enumerate(kinds) if kind == 'EXACT']
        stat.check([i for i in got if kinds[i] != 'OVERLAP'] == e, '%s %s: segments %s intersect, model %s', b, a, got, e)
        n += len(e)
    stat.seen('some' if n else 'none')


def run_placed(case, stat):
    """Words and pairs of shapes of other scales, places and dimensions"""
    name, a, b = case
    unit = UNITS.get(name, 1.0)
    a = place(a, name)
    nd = len(a[0])
    c1 = mk(a, 'f8', nd)
    if b is None:
        compare(stat, f'{name} {a}', c1.intersect(), model(a), c1, c1, unit=unit)
        return
    b = place(b, name)
    c2 = mk(b, 'f8', nd)
    exp = model(a, b)
    compare(stat, f'{name} {a} {b}', c1.intersect(c2), exp, c1, c2, unit=unit)
    s = mk_seg(b[0], b[1], 'f8')
    compare(stat, f'{name} {a} {s}', c1.intersect(s), [e for e in exp if e[1] == 0], c1, None, seg2=s, unit=unit)
    stat.seen(f'{min(len(exp), 3)} intersections')


def run_small(case, stat):
    n1, n2, d1, d2, dt, m = case
    r1, r2 = [(1, 2, 3, 4)[:d1]] * n1, [(1, 2, 3, 4)[:d2]] * n2
    c1, c2 = mk(r1, dt, d1), mk(r2, dt, d2)
    stat.op()
    if d1 != d2:
        stat.check(raises(ValueError, c1.intersect, c2, method=m), 'dimensions %s %s accepted (sizes %s %s)', d1, d2, n1, n2)
        stat.check(raises(ValueError, c1.intersect, mk_seg((1, 2, 3, 4)[:d2], (4, 2, 3, 1)[:d2]), method=m), 'segment of another '
                                                                                                              'dimension accepted')
        return
    if n1 < 2 or n2 < 2:
        stat.check(c1.intersect(c2, method=m) == [], 'sizes %s %s: %s', n1, n2, m)
        stat.check(c2.intersect(c1, method=m) == [], 'sizes %s %s: %s', n1, n2, m)
    if n1 < 2:
        stat.check(c1.intersect(method=m) == [], 'self-intersection of size %s: %s', n1, m)
        stat.check(c1.intersect(mk_seg(r2[0] if r2 else (0,) * d1, (5,) * d1), method=m) == [], 'segment, size %s', n1)


def run_large(case, stat):
    kind, n = case
    if kind == 'zigzag':
        a = [(i, 2 * (i % 2)) for i in range(n)]
        b = [(0, 1), (n, 1)]
    elif kind == 'steps':
        a = [(i // 2, (i + 1) // 2) for i in range(n)]
        b = [(0, n // 2), (n // 2, 0), (n // 2, n)]
    elif kind == 'line':
        a = [(2 * i, i, -i) for i in range(n)]
        b = [(2 * n - 5, n, -n), (3, 1, -1), (2 * (n // 2), n // 2, -(n // 2)), (0, 5, 5)]
    else:
        a = [(i % 7, (i * i) % 11) for i in range(n)]
        b = None
    c1 = mk(a, 'f8', len(a[0]))
    if b is None:
        exp = model(a)
        compare(stat, f'{kind} {n}', c1.intersect(), exp, c1, c1)
    else:
        c2 = mk(b, 'f8', len(b[0]))
        exp = model(a, b)
        compare(stat, f'{kind} {n}', c1.intersect(c2), exp, c1, c2)
        compare(stat, f'{kind} {n} swapped', c2.intersect(c1), model(b, a), c2, c1)
    stat.seen(f'{kind}')


LONG = (140, 200, 255, 256, 257, 300, 500, 513, 1000, 1001, 1025)


def run_long(case, stat):
    """Long curves whose intersections are known by construction"""
    kind, n, d = case
    a, b, exp = comb_curves(kind, n)
    up = [0.5 * k - 1 for k in range(d - 2)]
    c1 = Curve(np.array([list(p) + up for p in a]))
    c2 = c1 if b is None else Curve(np.array([list(p) + up for p in b]))
    runs = [('', c1.intersect(c2) if b is not None else c1.intersect(), exp)]
    if b is not None:
        runs.append((' swapped', c2.intersect(c1), sorted((j, i, p) for i, j, p in exp)))
        if kind == 'short':
            runs.append((' segment', c1.intersect(c2.segments[0]), exp))
    for what, res, want in runs:
        stat.op()
        if what == ' segment':
            stat.check(all(r.segment2 is c2.segments[0] for r in res), '%s: segments', case)
            got = [(r.segment1.idx, 0, r) for r in res]
        else:
            got = [(r.segment1.idx, r.segment2.idx, r) for r in res]
        stat.check([g[:2] for g in got] == [w[:2] for w in want], '%s%s: %d pairs %s, model %d', case, what, len(got), [g[:2] for g in got][:9], len(want))
        for (i, j, r), w in zip(got, want):
            stat.check(r.intersect_type.name == 'EXACT' and near_seq(r.intersect_point.data.tolist(), list(w[2]) + up, 1e-9, 1e-9),
                       '%s%s: pair %s is %s, model %s', case, what, (i, j), r, w[2])
    stat.seen(kind)


def spaces(tier):
    deep = tier == 'thorough'

    def self_words():
        for w in itertools.product(lattice(2, 2), repeat=5 if not deep else 6):
            yield w, (0,), 'f8'
        for w in itertools.product(lattice(3, 2), repeat=4):
            if deep or w[0] in ((0, 0), (1, 0)):
                yield w, (0,), 'f8'
                if deep:
                    yield w, (10, 37), 'i4'
        for w in itertools.product(lattice(2, 3), repeat=4):
            if deep or not any(w[0]):
                yield w, (5, -7, 2), 'f8'
        for w in itertools.product(lattice(2, 2), repeat=4):
            for dt in ('u1', 'i8', 'i2', 'f4'):
                yield w, (100, 3), dt
        for w in itertools.product([(0, 0), (2, 2), (0, 2), (2, 0)], repeat=6 if not deep else 7):
            if w[0] == (0, 0) and all(x != y for x, y in zip(w, w[1:])):
                yield w, (0,), 'f8'

    def shapes():
        for nd, S in ((2, S2), (3, S3)):
            for i, j in itertools.product(range(len(S)), repeat=2):
                yield nd, i, j, 0, 'f8', 'f8'
                if deep or i <= j:
                    yield nd, i, j, 37, 'i8' if i % 2 else 'f8', 'f8' if j % 2 else 'u1'

    def segment():
        for nd, S in ((2, S2), (3, S3)):
            ends = itertools.product([(0, 0), (4, 4), (2, 2), (4, 0), (0, 2), (1, 1), (3, 1)] if nd == 2 else
                                     [(0, 0, 0), (4, 4, 4), (2, 2, 2), (4, 0, 4), (0, 4, 0), (2, 2, 0)], repeat=2)
            for e in ends:
                for i in range(len(S)):
                    if deep or (i + len(S) * (e[0] < e[1])) or True:
                        yield nd, i, e, 'f8' if sum(e[0]) % 3 else 'i4'

    def words():
        # all ordered pairs of 3-point curves of the unit square; against selected curves of the larger lattice
        for a in itertools.product(lattice(2, 2), repeat=3):
            for b in itertools.product(lattice(2, 2), repeat=3 if deep else 2):
                yield a, b
        if deep:
            for a in itertools.product(lattice(3, 2), repeat=3):
                for b in ([(0, 0), (2, 2), (2, 0)], [(0, 1), (2, 1), (1, 0), (1, 2)], [(1, 1), (0, 2), (2, 0)]):
                    yield a, tuple(b)
        else:
            for a in itertools.product(lattice(3, 2), repeat=3):
                yield a, ((0, 1), (2, 1), (1, 0), (1, 2))

    def placed():
        for name in PLACES:
            for S in (S2, S3):
                for i, j in itertools.product(range(len(S)), repeat=2):
                    if min(len(S[i]), len(S[j])) > 1:
                        yield name, S[i], S[j]
                    if i == j and len(S[i]) > 2:
                        yield name, S[i], None
            for w in itertools.product(lattice(2, 2), repeat=3 if deep else 2):
                yield name, ((0, 0), (1, 1)) + w, None
            if deep:
                for w in itertools.product(lattice(2, 3), repeat=3):
                    yield name, ((0, 0, 0),) + w, None
    return [
        Space('placed', placed, run_placed, 'all pairs of shapes, and words, at other scales, places and dimensions'),
        Space('self', self_words, run_self, 'self-intersection of all words of 4-6 points of small lattices'),
        Space('shapes', shapes, run_shapes, 'all ordered pairs of shapes, dtypes, placements'),
        Space('segment', segment, run_segment, 'all shapes against all segments of a pool, both orders'),
        Space('words', words, run_words, 'all pairs of short lattice curves'),
        Space('ulp', lambda: [(k, s, t) for k in range(len(ULP_SEGMENTS)) for s in ((1.0, 1e-3, 1e6) if deep else (1.0,))
                              for t in ((None,) + (tuple(ULP_POINTS) if deep else ()))], run_ulp,
              'all pairs of segments whose coordinates differ by one rounding error (with a third point in thorough)'),
        Space('small', lambda: [(n1, n2, d1, d2, dt, m) for n1 in (0, 1, 2, 3) for n2 in (0, 1, 2) for d1 in (2, 3, 4)
                                for d2 in (2, 3, 4) for dt in ('f8', 'i4') for m in (None, 'exact', 'almost')], run_small,
              'empty and single-point curves, mismatching dimensions'),
        Space('large', lambda: [(k, n) for k in ('zigzag', 'steps', 'line', 'knot') for n in
                                (LADDER if deep else LADDER_SHORT) if n <= (130 if k != 'knot' else 40 if deep else 20)],
              run_large, 'a ladder of sizes'),
        Space('long', lambda: [(k, n, d) for k in ('short', 'long', 'self') for n in LONG + ((2050, 4097) if k == 'short' else (1500,) if deep else ())
                               for d in ((2, 3) if deep or n < 300 else (2,))], run_long, 'curves of up to 1025 (4097) segments with intersections known by construction'),
    ]
