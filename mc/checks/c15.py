# -*- coding: utf-8 -*-
import itertools

import numpy as np

import skcurve
from mc.core import Space
from mc.lib import Curve, Point, Segment, near_seq, near, lattice, mk_seg, intersect_exact, lerp, raises
from skcurve import IntersectionType as IT

TITLE = 'Exact segment intersection is sound and complete'
ASSUMPTIONS = ['coordinates are integers, or integers with an offset and a scale which are exact in the dtype, or inexact coordinates of '
               'segments through a common point for which the answer is known by construction',
               'different coordinates differ by more than the tolerance of the comparison of points (1e-5 relative, 1e-8 absolute)']

OFF = {'zero': ((0,), 1), 'plus': ((10, 20, 35, 7), 1), 'minus': ((-7, -30, 12, -4), 1), 'big': ((1000, -2000, 500, 100), 3),
       'small': ((0.5, -0.25), 0.125), 'far': ((3000,), 1), 'large': ((0,), 1000),
       'tiny': ((0,), 2 ** -15), 'utm': ((500000, -300000, 40000, 7), 100), 'u': ((10, 40, 3, 20), 25)}


def check_result(stat, what, r, s1, s2, exp, tol=1e-7):
    """The result object against the exact answer"""
    stat.op()
    stat.check(type(r) is skcurve.SegmentsIntersection, '%s: %r', what, r)
    kind = exp[0]
    stat.check(r.intersect_type.name == kind, '%s: %s, model %s', what, r.intersect_type.name, exp)
    stat.check(bool(r) == (kind != 'NONE'), '%s: truth value of %s', what, r)
    stat.check(r.segment1 is s1 and r.segment2 is s2, '%s: source segments %s %s', what, r.segment1, r.segment2)
    info = r.intersect_info
    stat.check(info.type is r.intersect_type and info[1] is info.type and info[0] is info.data, '%s: info %s', what, info)
    if kind == 'NONE':
        stat.check(r.intersect_point is None and r.intersect_segment is None and info == skcurve.NOT_INTERSECTED and info.data is None,
                   '%s: data of nothing %s', what, info)
        return
    p, s = r.intersect_point, r.intersect_segment
    stat.check(isinstance(p, Point) and isinstance(s, Segment), '%s: point %r segment %r', what, p, s)
    ends = [q.data.tolist() for q in (s1.p1, s1.p2, s2.p1, s2.p2)]
    m = max(max(x) - min(x) for x in zip(*ends)) + (1e-13 if tol < 1e-5 else 1e-6) * max(abs(x) for q in ends for x in q)
    tol = 0
    if kind == 'EXACT':
        e = [float(x) for x in exp[1]]
        stat.check(near_seq(p.data.tolist(), e, tol, m), '%s: point %s, model %s', what, p, e)
        stat.check(bool(s.singular) and s.p1 == p and s.p2 == p and info.data == p, '%s: segment of an exact intersection %s', what, s)
    else:
        lo, hi = [float(x) for x in exp[1]], [float(x) for x in exp[2]]
        a, b = s.p1.data.tolist(), s.p2.data.tolist()
        stat.check(near_seq(a, lo, tol, m) and near_seq(b, hi, tol, m) or
                   near_seq(a, hi, tol, m) and near_seq(b, lo, tol, m), '%s: overlap %s, model %s', what, s, (lo, hi))
        stat.check(near_seq(p.data.tolist(), [(x + y) / 2 for x, y in zip(lo, hi)], tol, m), '%s: point of the overlap %s', what, p)
        stat.check(info.data is s, '%s: data of the overlap', what)


def place(word, off):
    o, sc = OFF[off]
    return [tuple(sc * x + y for x, y in zip(p, itertools.cycle(o))) for p in word]


def run_pair(case, stat):
    word, off, dt, sym = case
    a, b, c, d = place(word, off)
    exp = intersect_exact(a, b, c, d)
    if exp[0] == 'OVERLAP':
        exp = exp[:3]
    s1, s2 = mk_seg(a, b, dt), mk_seg(c, d, dt)
    tol = 1e-4 if dt == 'f4' else 1e-7
    what = f'{a}-{b} {c}-{d} {dt}'
    check_result(stat, what, s1.intersect(s2), s1, s2, exp, tol)
    if sym:
        check_result(stat, what + ' swapped', s2.intersect(s1), s2, s1, exp, tol)
        r1, r2 = s1.reverse(), s2.reverse()
        check_result(stat, what + ' first reversed', r1.intersect(s2), r1, s2, exp, tol)
        check_result(stat, what + ' second reversed', s1.intersect(r2, method='exact'), s1, r2, exp, tol)
    sing = (a == b) + (c == d)
    stat.seen(f'{exp[0]}{" point" if exp[0] == "OVERLAP" and exp[1] == exp[2] else ""} singular={sing}')


def run_mixed(case, stat):
    """Segments of different dtypes, curve segments, method objects"""
    word, dt1, dt2 = case
    a, b, c, d = place(word, 'u')
    exp = intersect_exact(a, b, c, d)
    s1, s2 = mk_seg(a, b, dt1), mk_seg(c, d, dt2)
    check_result(stat, f'{word} {dt1} {dt2}', s1.intersect(s2), s1, s2, exp)
    cv1, cv2 = Curve(np.array([a, b], dtype=dt1)), Curve(np.array([c, d], dtype=dt2))
    g1, g2 = cv1.segments[0], cv2.segments[0]
    check_result(stat, f'{word} curve segments', g1.intersect(g2), g1, g2, exp)
    check_result(stat, f'{word} segment and curve segment', s1.intersect(g2), s1, g2, exp)
    meth = skcurve.get_intersect_method('exact')
    check_result(stat, f'{word} method object', s1.intersect(s2, method=meth), s1, s2, exp)
    check_result(stat, f'{word} method object, again', g2.intersect(g1, method=meth), g2, g1, exp)
    check_result(stat, f'{word} called method', meth(s1, g2), s1, g2, exp)
    check_result(stat, f'{word} method with parameters', s1.intersect(s2, method='exact', feps=1e-12), s1, s2, exp)
    stat.seen(exp[0])


POS = [0.0, 1 / 3, -0.7, 1 / 7, 0.9]


def run_position(case, stat):
    """Segments of coordinates which are not exact, through a common point (or near it); the answer is known by construction"""
    nd, scale, ku, kv, km, a, b, lift, far = case
    m = [POS[(km >> k) % 5] * scale * far if km else 0.0 for k in range(nd)]
    u = [(ku * (k + 2) % 7 - 3 + 1 / 3) / 3 * scale for k in range(nd)]
    v = [(kv * (k * k + 3) % 11 - 5 + 1 / 7) / 5 * scale for k in range(nd)]
    if nd == 2:
        gap = abs(u[0] * v[1] - u[1] * v[0])
        normal = None
    else:
        n3 = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        gap = sum(x * x for x in n3) ** 0.5
        normal = [x / gap for x in n3] + [0.0] * (nd - 3) if gap else None
    if gap < 0.05 * scale * scale or lift and normal is None:
        stat.seen('almost parallel, not judged')
        return
    w = [x * lift * scale for x in normal] if lift else [0.0] * nd
    s1 = Segment(Point([x - y * a[0] for x, y in zip(m, u)]), Point([x + y * a[1] for x, y in zip(m, u)]))
    s2 = Segment(Point([x + z - y * b[0] for x, y, z in zip(m, v, w)]), Point([x + z + y * b[1] for x, y, z in zip(m, v, w)]))
    hit = not lift and all(x >= 0 and y >= 0 for x, y in (a, b))
    exp = ('EXACT', m) if hit else ('NONE',)
    what = f'{case}: {s1.data.tolist()} {s2.data.tolist()}'
    for what2, p, q in (('', s1, s2), (' swapped', s2, s1), (' reversed', s1.reverse(), s2), (' both', s2.reverse(), s1.reverse())):
        r = p.intersect(q)
        stat.op()
        stat.check(r.intersect_type.name == exp[0], '%s%s: %s, model %s', what, what2, r.intersect_type.name, exp)
        if hit:
            stat.check(near_seq(r.intersect_point.data.tolist(), m, 0, 1e-7 * scale + 1e-13 * far * scale), '%s%s: point %s, model %s', what, what2, r.intersect_point.data.tolist(), m)
    stat.seen(f'{nd}d {exp[0]}')


def run_errors(case, stat):
    d1, d2 = case
    s1, s2 = mk_seg([1, 2, 3, 4][:d1], [4, 3, 2, 1][:d1]), mk_seg([1, 2, 3, 4][:d2], [4, 3, 2, 1][:d2])
    stat.op()
    if d1 != d2:
        for m in ('exact', 'almost', None):
            stat.check(raises(ValueError, s1.intersect, s2, method=m), 'dimensions %s and %s accepted', d1, d2)
        return
    stat.check(raises(NameError, s1.intersect, s2, method='unknown'), 'unknown method accepted')
    stat.check(raises(ValueError, s1.intersect, s2, method=1), 'method 1 accepted')
    stat.check(bool(s1.intersect(s1)), 'a segment does not intersect itself')
    # the types of intersections accept exactly their data
    p = s1.p1
    for t, data, ok in ((IT.NONE, None, True), (IT.NONE, p, False), (IT.NONE, s1, False), (IT.EXACT, p, True), (IT.EXACT, s1, False),
                        (IT.EXACT, None, False), (IT.OVERLAP, s1, True), (IT.OVERLAP, p, False), (IT.OVERLAP, None, False),
                        (IT.ALMOST, s1, True), (IT.ALMOST, p, False), (IT.ALMOST, None, False)):
        stat.op()
        if ok:
            info = t(data)
            stat.check(info.type is t and info.data is data, '%s(%r) gives %s', t, data, info)
            r = skcurve.SegmentsIntersection(s1, s2, info)
            stat.check(bool(r) == (t is not IT.NONE) and r.intersect_type is t and r.intersect_info is info, '%s', r)
        else:
            stat.check(raises(ValueError, t, data), '%s(%r) accepted', t, data)


def spaces(tier):
    deep = tier == 'thorough'

    def plane():
        L3, L4 = lattice(3, 2), lattice(4, 2)
        for off in ('zero', 'plus'):
            for w in itertools.product(L3, repeat=4):
                yield w, off, 'f8', off == 'zero'
        for off in ('minus', 'big', 'small', 'far', 'large', 'tiny', 'utm'):
            for w in itertools.product(lattice(2, 2) if not deep else L3, repeat=4):
                yield w, off, 'f8', False
        for a, b in itertools.product(L4, repeat=2):
            if a <= b or deep:
                for w in itertools.product(L4, repeat=2):
                    if w[0] <= w[1] or deep:
                        yield (a, b) + w, 'zero' if not deep else 'plus', 'f8', False
        for dt in ('i8', 'i4', 'i2', 'i1', 'u8', 'u4', 'u2', 'u1', 'f4'):
            for w in itertools.product(lattice(2, 2), repeat=4):
                yield w, 'u', dt, False

    def space():
        L2, L3 = lattice(2, 3), lattice(3, 3)
        for w in itertools.product(L2, repeat=4):
            yield w, 'zero', 'f8', deep
            if deep or not any(w[0]):
                for off in ('plus', 'minus', 'big', 'small', 'far', 'tiny', 'utm'):
                    yield w, off, 'f8', False
        for s in (((0, 0, 0), (2, 2, 2)), ((0, 1, 2), (2, 1, 0)), ((0, 0, 1), (2, 1, 1)), ((1, 0, 1), (1, 2, 1)), ((0, 2, 0), (2, 0, 1))):
            for w in itertools.product(L3, repeat=2):
                yield s + w, 'zero', 'f8', False
                if deep:
                    yield s + w, 'plus', 'f8', True
                    yield s + w, 'big', 'f8', True
        for dt in ('i4', 'u1', 'u8', 'f4'):
            for w in itertools.product(L2, repeat=2):
                yield ((0, 1, 0), (1, 0, 1)) + w, 'u', dt, True
                yield ((0, 0, 1), (0, 1, 1)) + w, 'u', dt, True
        for s in (((0, 0, 0, 0), (1, 1, 1, 1)), ((0, 1, 0, 1), (1, 0, 1, 0)), ((0, 0, 1, 0), (1, 0, 1, 0))):
            for w in itertools.product(lattice(2, 4), repeat=2):
                yield s + w, 'plus', 'f8', False
        for w in itertools.product(lattice(4, 1), repeat=4):
            yield w, 'zero', 'f8', True

    def mixed():
        for w in itertools.product(lattice(2, 2), repeat=4):
            for t in (('i8', 'f8'), ('u1', 'i4')):
                yield (w,) + t
        for w in itertools.product(lattice(2, 3), repeat=2):
            yield ((0, 1, 0), (1, 0, 1)) + w, 'u1', 'f8'
    def position():
        ab = [(2.0, 1.0), (0.5, 3.0), (0.0, 1.0), (1.0, 0.0), (-0.2, 1.0), (1.5, -0.3)]
        for scale in (1e-4, 0.1, 1, 1e3, 1e5, 1e7, 1e8, 1e10) + ((1e-5, 1e-2, 10, 1e6, 1e9, 1e12) if deep else ()):
            for nd in (2, 3, 4):
                for ku, kv in itertools.product((1, 2, 3, 5) if deep else (1, 3), repeat=2):
                    for km in (0, 1, 2, 5, 6, 11, 14) if deep else (0, 1, 6):
                        for a, b in itertools.product(ab, repeat=2):
                            for far in (1, -40, 1000) if km and (deep or scale in (1e-4, 1, 1e5)) else (1,):
                                yield nd, scale, ku, kv, km, a, b, 0, far
                                if nd > 2:
                                    yield nd, scale, ku, kv, km, a, b, 0.05, far
        # segments which end just before or just behind the common point
        for gap in (1e-4, 1e-3, 1e-2) + ((2e-2, 5e-4, -1e-3) if deep else (-1e-3,)):
            for scale in (1e-2, 1, 1e4):
                for nd, ku, kv, km in itertools.product((2, 3, 4), (1, 3), (1, 3), (0, 1, 6)):
                    for a, b in itertools.product([(0.6, 1.0), (1.0, -gap), (-gap, 1.0)], repeat=2):
                        yield nd, scale, ku, kv, km, a, b, 0, 1
    return [
        Space('position', position, run_position, 'segments with inexact coordinates through a common point: all combinations of the parts on '
                                                  'both sides of it (inside, ending at it, before it), directions, places, scales from 1e-4 to 1e10, '
                                                  '2-4 dimensions, lifted out of the plane'),
        Space('plane', plane, run_pair, 'all pairs of segments of the 3x3 lattice (with swaps and reversals), pairs of the 4x4 '
                                        'lattice, placements, scales and dtypes'),
        Space('space', space, run_pair, 'all pairs of segments of the unit cube, selected segments x all segments of larger lattices, '
                                        '1, 3 and 4 dimensions'),
        Space('mixed', mixed, run_mixed, 'different dtypes, curve segments, method objects'),
        Space('errors', lambda: [(a, b) for a in (1, 2, 3, 4) for b in (1, 2, 3, 4)], run_errors, 'dimensions, types and their data'),
    ]
