# -*- coding: utf-8 -*-
import itertools
import math
from fractions import Fraction as F

import numpy as np

import skcurve
from mc.core import Space
from mc.lib import (Curve, Point, Segment, near, near_seq, lattice, mk_seg, dist2_point_segment, dist2_segments, intersect_exact, dist,
                    parallel_vecs, sub, comb_curves, place, PLACES, UNITS, LADDER_SHORT)
from mc.checks.c16 import S2, S3

TITLE = 'Almost intersections are exactly the pairs nearer than the tolerance'
ASSUMPTIONS = ['distances within 1e-6 (relative to the extent) of a tolerance are not judged',
               'the overlap correction of parallel segments which are not on one line is not specified']

OFFS = {'zero': (0, 0, 0, 0), 'plus': (20, 30, 7, 11), 'minus': (-9, -3, -40, -5)}
TOLS = (1e-5, 0.3, 0.65, 0.95, 1.2, 7.5)


def exact(p):
    return tuple(F(float(x)) for x in p)


def margin(pts):
    return 1e-6 * max(max(x) - min(x) for x in zip(*pts)) + 1e-12 * max(abs(x) for p in pts for x in p) + 1e-12


def near_to(p, a, b, eps):
    return math.sqrt(dist2_point_segment(exact(p), a, b)) <= eps


def check_almost(stat, what, r, ends, eps, d, type_='ALMOST'):
    """r: an almost intersection of the segments with the given exact ends and the minimal distance d"""
    s, p = r.intersect_segment, r.intersect_point
    stat.check(r.intersect_type.name == type_, '%s: type %s', what, r.intersect_type)
    stat.check(type(s) is Segment and isinstance(p, Point), '%s: %r %r', what, s, p)
    stat.check(bool(r) and r.intersect_info.data is s and r.intersect_info.type is r.intersect_type, '%s: %s', what, r)
    a, b = s.p1.data.tolist(), s.p2.data.tolist()
    stat.check(near_to(a, ends[0], ends[1], eps), '%s: the start %s is not on the first segment', what, a)
    stat.check(near_to(b, ends[2], ends[3], eps), '%s: the end %s is not on the second segment', what, b)
    stat.check(abs(float(s.seglen) - d) <= eps, '%s: length of the connecting segment %s, model %s', what, s.seglen, d)
    stat.check(near_seq(p.data.tolist(), [(x + y) / 2 for x, y in zip(a, b)], 1e-12, eps), '%s: point %s', what, p)


# ------------------------------------------------------------------ two segments

def run_pair(case, stat):
    a, scale, off, dt, n, dim = case
    L = lattice(n, dim)
    for b, c, d in itertools.product(L, repeat=3):
        if n == 3 and c > d:
            continue
        pts = [tuple(x * scale + o for x, o in zip(p, OFFS[off])) for p in (a, b, c, d)]
        ends = [exact(np.asarray(p, dtype=dt).tolist()) for p in pts]
        dd = math.sqrt(dist2_segments(*ends))
        eps = margin(pts)
        s1, s2 = mk_seg(pts[0], pts[1], dt), mk_seg(pts[2], pts[3], dt)
        for tol in (TOLS if n == 2 and dim == 2 else (0.3, 0.95)):
            tol *= scale
            if abs(tol - dd) <= 2 * eps:
                stat.seen('at the tolerance')
                continue
            what = f'{pts} {dt} tol={tol}'
            r = s1.intersect(s2, method='almost', dist_tol=tol)
            stat.op()
            stat.check(type(r) is skcurve.SegmentsIntersection and r.segment1 is s1 and r.segment2 is s2, '%s: %r', what, r)
            stat.check(bool(r) == (dd < tol), '%s: %s, distance %s', what, r, dd)
            if r:
                check_almost(stat, what, r, ends, eps, dd)
            else:
                stat.check(r.intersect_type.name == 'NONE' and r.intersect_point is None and r.intersect_segment is None, '%s: %s', what, r)
            v = s1.to_curve().intersect(s2.to_curve(), method='almost', dist_tol=tol)
            stat.op()
            stat.check(type(v) is list and len(v) == (dd < tol), '%s as curves: %s, distance %s', what, v, dd)
            if v:
                check_almost(stat, what + ' as curves', v[0], ends, eps, dd)
            stat.seen('near' if dd < tol else 'far')


WIDE = {
    'grid': lattice(3, 2),
    'stretched': [(x * 3, y) for x in (0, 1, 2) for y in (-1, 0, 4)],
    'cube': lattice(2, 3) + [(2, 1, 0), (0, 2, 1), (3, 0, 2)],
    'far': [(x, y, z) for x in (0, 7) for y in (0, 5) for z in (0, 3)] + [(1, 1, 1), (8, 2, 2)],
    'lines': [(k, 2 * k) for k in (0, 1, 3, 4)] + [(k + 1, 2 * k) for k in (0, 1, 3, 6)],
    'ladder': [(k, 0, 2 * k) for k in (0, 1, 3, 7)] + [(k + 2, 5, 2 * k) for k in (-1, 2, 3)] + [(0, 1, 0)],
    'four': [(0, 0, 0, 0), (1, 0, 2, 0), (0, 3, 0, 1), (2, 2, 2, 2), (5, 1, 0, 0), (0, 0, 1, 6)],
}


def run_wide(case, stat):
    """With a tolerance above all distances every pair is reported with its shortest connection"""
    kind, a, b, off, dt = case
    L = [tuple(x + o for x, o in zip(p, OFFS[off])) for p in WIDE[kind]]
    path = [p for pair in itertools.product(L, repeat=2) for p in pair]
    seg = [L[a], L[b]]
    c1, c2 = mk(seg, dt, len(L[0])), mk(path, dt, len(L[0]))
    s1 = mk_seg(seg[0], seg[1], dt)
    eps = margin(path)
    cand = list(pairs_of(seg, path))
    far = max(c[3] for c in cand)
    compare(stat, f'{case}', c1.intersect(c2, method='almost', dist_tol=100 + far), cand, 100 + far, eps, c1=c1, c2=c2)
    compare(stat, f'{case} swapped', c2.intersect(c1, method='almost', dist_tol=100), [(j, i, ends[2:] + ends[:2], d) for i, j, ends, d in cand],
            100, eps, c1=c2, c2=c1)
    for (i, j, ends, d), s2 in zip(cand, c2.segments):
        r = s1.intersect(s2, method='almost', dist_tol=100)
        stat.op()
        check_almost(stat, f'{case} segment {j}', r, ends, eps, d)
        stat.seen('singular' if not d else 'apart')


# ------------------------------------------------------------------ curves

def pairs_of(a, b=None):
    """[(i, j, ends, distance)] for all candidate pairs of segments"""
    sa = list(zip(a, a[1:]))
    sb = sa if b is None else list(zip(b, b[1:]))
    for i, s in enumerate(sa):
        for j, q in enumerate(sb):
            if b is None and j - i < 2:
                continue
            ends = [exact(p) for p in s + q]
            yield i, j, ends, math.sqrt(dist2_segments(*ends))


def compare(stat, what, res, cand, tol, eps, own1=None, own2=None, c1=None, c2=None):
    """Base run: all pairs nearer than the tolerance, in order"""
    stat.op()
    stat.check(type(res) is list, '%s: %r', what, res)
    exp = {(i, j): (ends, d) for i, j, ends, d in cand}
    got = []
    for r in res:
        if own1 is not None:
            stat.check(r.segment1 is own1, '%s: first segment %r', what, r.segment1)
        else:
            stat.check(r.segment1.curve is c1, '%s: first segment of another curve', what)
        if own2 is not None:
            stat.check(r.segment2 is own2, '%s: second segment %r', what, r.segment2)
        else:
            stat.check(r.segment2.curve is c2, '%s: second segment of another curve', what)
        key = (0 if own1 is not None else r.segment1.idx, 0 if own2 is not None else r.segment2.idx)
        got.append(key)
        stat.check(key in exp, '%s: pair %s', what, key)
        check_almost(stat, f'{what} pair {key}', r, exp[key][0], eps, exp[key][1])
    must = [k for k, (_, d) in exp.items() if d < tol - eps]
    may = [k for k, (_, d) in exp.items() if d < tol + eps]
    stat.check(got == sorted(set(got)), '%s: order of pairs %s', what, got[:20])
    stat.check(set(must) <= set(got) <= set(may), '%s: pairs %s, model %s', what, got[:20], must[:20])
    return got


def clusters(points, tol, stat):
    """Connected components of the points that are nearer than tol; None if a distance is too near to the tolerance"""
    n = len(points)
    parent = list(range(n))

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x
    for i in range(n):
        for j in range(i):
            d = dist(points[i], points[j])
            if abs(d - tol) < 1e-9:
                return None
            if d < tol:
                parent[find(i)] = find(j)
    groups = {}
    for i in range(n):
        groups.setdefault(find(i), []).append(i)
    return list(groups.values())


def key_of(r):
    return (getattr(r.segment1, 'idx', 0), getattr(r.segment2, 'idx', 0))


def same(r, q):
    return (r.segment1 is q.segment1 or r.segment1 == q.segment1) and r.intersect_type is q.intersect_type and near_seq(
        [r.intersect_segment.p1.data.tolist(), r.intersect_segment.p2.data.tolist()],
        [q.intersect_segment.p1.data.tolist(), q.intersect_segment.p2.data.tolist()], 1e-12, 1e-12)


def check_extra(stat, what, base, res, tol):
    stat.op()
    keys = [key_of(r) for r in base]
    got = [key_of(r) for r in res]
    stat.check(got == [k for k in keys if k in got] and set(got) <= set(keys), '%s: order %s of %s', what, got, keys)
    for r in res:
        stat.check(same(r, base[keys.index(key_of(r))]), '%s: %s differs from %s', what, r, base[keys.index(key_of(r))])
    groups = clusters([r.intersect_point.data.tolist() for r in base], tol, stat)
    if groups is None:
        stat.seen('cluster at the tolerance')
        return
    for g in groups:
        kept = [i for i in g if keys[i] in got]
        stat.check(len(kept) == 1, '%s: cluster %s keeps %s', what, [keys[i] for i in g], [keys[i] for i in kept])
        best = min(float(base[i].intersect_segment.seglen) for i in g)
        stat.check(float(base[kept[0]].intersect_segment.seglen) <= best + 1e-12, '%s: cluster %s keeps %s with length %s, the shortest '
                                                                                  'is %s', what, g, kept, base[kept[0]].intersect_segment.seglen, best)
        stat.seen(f'cluster of {min(len(g), 5)}')


def check_overlap(stat, what, base, res, ends_of, eps):
    """res: the run with correct_overlap, base: without it"""
    stat.op()
    stat.check([key_of(r) for r in res] == [key_of(r) for r in base], '%s: pairs %s %s', what, len(res), len(base))
    for q, r in zip(base, res):
        a, b, c, d = ends_of[key_of(q)]
        x = intersect_exact(a, b, c, d)
        w = f'{what} pair {key_of(q)}'
        if x[0] == 'OVERLAP':
            stat.check(r.intersect_type.name == 'OVERLAP', '%s: type %s, the segments overlap', w, r.intersect_type)
            lo, hi = [[float(v) for v in p] for p in x[1:3]]
            u, v = r.intersect_segment.p1.data.tolist(), r.intersect_segment.p2.data.tolist()
            stat.check(near_seq([u, v], [lo, hi], 1e-9, eps) or near_seq([v, u], [lo, hi], 1e-9, eps), '%s: overlap %s, model %s', w,
                       r.intersect_segment, (lo, hi))
            stat.check(near_seq(r.intersect_point.data.tolist(), [(s + t) / 2 for s, t in zip(lo, hi)], 1e-9, eps), '%s: point', w)
            stat.seen('overlap')
        elif not parallel_vecs(sub(b, a), sub(d, c)):
            stat.check(same(r, q), '%s: %s, without the correction %s', w, r, q)
            stat.seen('not parallel')
        else:
            stat.check(r.intersect_type.name in ('ALMOST', 'OVERLAP'), '%s: type %s', w, r.intersect_type)
            stat.seen(f'parallel {r.intersect_type.name}')


def mk(rows, dt, nd):
    return Curve(np.array(rows, dtype=dt).reshape(len(rows), nd))


def options(stat, what, call, cand, tol, eps, base):
    """All combinations of the options"""
    ends_of = {(i, j): ends for i, j, ends, _ in cand}
    for extra in (0.05, 1.1, 2.3):
        e = call(dist_tol=tol, remove_extra=True, extra_tol=extra)
        if base:
            check_extra(stat, f'{what} extra_tol={extra}', base, e, extra)
        else:
            stat.check(e == [], '%s: %s', what, e)
        both = call(dist_tol=tol, remove_extra=True, extra_tol=extra, correct_overlap=True)
        check_overlap(stat, f'{what} extra_tol={extra} overlap', e, both, ends_of, eps)
    check_overlap(stat, f'{what} overlap', base, call(dist_tol=tol, correct_overlap=True), ends_of, eps)


def run_shapes(case, stat):
    nd, i, j, off, dt1, dt2, tol = case
    S = S2 if nd == 2 else S3
    a, b = ([tuple(x + off for x in p) for p in S[k]] for k in (i, j))
    c1, c2 = mk(a, dt1, nd), mk(b, dt2, nd)
    what = f'{a} {b} {dt1} {dt2} tol={tol}'
    if len(a) < 2 or len(b) < 2:
        for kw in ({}, dict(remove_extra=True), dict(correct_overlap=True)):
            stat.op()
            stat.check(c1.intersect(c2, method='almost', dist_tol=tol, **kw) == [], '%s: not empty', what)
        return
    cand = list(pairs_of(a, b))
    eps = margin(a + b)

    def call(**kw):
        return c1.intersect(c2, method='almost', **kw)
    base = call(dist_tol=tol)
    got = compare(stat, what, base, cand, tol, eps, c1=c1, c2=c2)
    options(stat, what, call, cand, tol, eps, base)
    # a configured method object gives the same
    m = skcurve.get_intersect_method('almost', dist_tol=tol)
    stat.check([key_of(r) for r in m(c1, c2)] == got and [key_of(r) for r in c1.intersect(c2, method=m)] == got, '%s: method object', what)
    # the segments of the curves, one by one
    for s, q in itertools.product(c1.segments, c2.segments):
        r = s.intersect(q, method='almost', dist_tol=tol)
        stat.op()
        d = [x[3] for x in cand if x[:2] == (s.idx, q.idx)][0]
        stat.check(abs(d - tol) <= eps or bool(r) == ((s.idx, q.idx) in got), '%s: segments %s %s: %s', what, s.idx, q.idx, r)
        o = s.intersect(q, method='almost', dist_tol=tol, correct_overlap=True)
        if r:
            check_overlap(stat, f'{what} {s.idx} {q.idx}', [r], [o], {(s.idx, q.idx): [exact(p) for p in (a[s.idx], a[s.idx + 1], b[q.idx], b[q.idx + 1])]}, eps)
    # the curve with single segments
    free = mk_seg(b[0], b[1], dt2)
    sc = list(pairs_of(a, b[:2]))
    compare(stat, what + ' segment', c1.intersect(free, method='almost', dist_tol=tol), sc, tol, eps, own2=free, c1=c1)
    compare(stat, what + ' segment first', m(free, c1), list(pairs_of(b[:2], a)), tol, eps, own1=free, c2=c1)
    stat.seen(f'{min(len(got), 6)} pairs')


def run_self(case, stat):
    word, off, dt, tol = case
    a = [tuple(x + off for x in p) for p in word]
    c = mk(a, dt, len(a[0]))
    what = f'{a} {dt} tol={tol}'
    cand = list(pairs_of(a))
    eps = margin(a)

    def call(**kw):
        return c.intersect(method='almost', **kw)
    base = call(dist_tol=tol)
    got = compare(stat, what, base, cand, tol, eps, c1=c, c2=c)
    options(stat, what, call, cand, tol, eps, base)
    stat.seen(f'{min(len(got), 6)} pairs')


def run_placed(case, stat):
    """Pairs of shapes, and self-intersections, at other scales, places and dimensions"""
    name, a, b, tol = case
    unit = UNITS.get(name, 1.0)
    tol *= unit
    a = place(a, name)
    c1 = mk(a, 'f8', len(a[0]))
    if b is None:
        c2, cand, eps = c1, list(pairs_of(a)), margin(a)
    else:
        b = place(b, name)
        c2, cand, eps = mk(b, 'f8', len(b[0])), list(pairs_of(a, b)), margin(a + b)
    eps = min(eps, 1e-5 * unit) if unit < 1 else eps

    def call(**kw):
        return c1.intersect(c2, method='almost', **kw) if b is not None else c1.intersect(method='almost', **kw)
    what = f'{name} {a} {b} tol={tol}'
    base = call(dist_tol=tol)
    got = compare(stat, what, base, cand, tol, eps, c1=c1, c2=c2)
    check_extra(stat, what + ' extra', base, call(dist_tol=tol, remove_extra=True, extra_tol=1.3 * unit), 1.3 * unit)
    check_overlap(stat, what + ' overlap', base, call(dist_tol=tol, correct_overlap=True), {(i, j): ends for i, j, ends, _ in cand}, eps)
    stat.seen(f'{min(len(got), 6)} pairs')


def run_words(case, stat):
    a, b, tol = case
    c1, c2 = mk(a, 'f8', len(a[0])), mk(b, 'f8', len(b[0]))
    cand = list(pairs_of(a, b))
    compare(stat, f'{a} {b}', c1.intersect(c2, method='almost', dist_tol=tol), cand, tol, margin(list(a) + list(b)), c1=c1, c2=c2)


def run_large(case, stat):
    n, kind = case
    if kind == 'zigzag':
        a = [(i, 2 * (i % 2), 0) for i in range(n)]
        b = [(0, 1, 1), (n, 1, 1)]
        tol = 1.25
    elif kind == 'lines':
        a = [(3 * i, i, 0) for i in range(n)]
        b = [(3 * n, n, 2), (0, 0, 2), (0, 9, 2)]
        tol = 2.1
    else:
        a = [(i % 7, (i * i) % 11, i % 5) for i in range(n)]
        b = None
        tol = 0.4
    c1 = mk(a, 'f8', 3)
    cand = list(pairs_of(a, b))
    if b is None:
        res = c1.intersect(method='almost', dist_tol=tol)
        compare(stat, f'{kind} {n}', res, cand, tol, margin(a), c1=c1, c2=c1)
    else:
        c2 = mk(b, 'f8', 3)
        res = c1.intersect(c2, method='almost', dist_tol=tol)
        compare(stat, f'{kind} {n}', res, cand, tol, margin(a + b), c1=c1, c2=c2)
        compare(stat, f'{kind} {n} swapped', c2.intersect(c1, method='almost', dist_tol=tol), list(pairs_of(b, a)), tol, margin(a + b), c1=c2, c2=c1)
    stat.seen(f'{kind}')


def run_long(case, stat):
    """Long curves whose distances are known by construction"""
    kind, n, h, shift = case
    a, b, exp = comb_curves(kind, n)
    if b is None:
        m = n
        rows = [list(p) + [shift + (h if k >= m else 0)] for k, p in enumerate(a)]
        c1 = c2 = Curve(np.array(rows))
    else:
        c1 = Curve(np.array([list(p) + [shift] for p in a]))
        c2 = Curve(np.array([list(p) + [shift + h] for p in b]))
    runs = [('', c1.intersect(method='almost', dist_tol=1.5 * h) if b is None else c1.intersect(c2, method='almost', dist_tol=1.5 * h), exp)]
    if b is not None:
        runs.append((' swapped', c2.intersect(c1, method='almost', dist_tol=1.5 * h), sorted((j, i, p) for i, j, p in exp)))
        runs.append((' less', c1.intersect(c2, method='almost', dist_tol=0.75 * h), []))
        runs.append((' extra', c1.intersect(c2, method='almost', dist_tol=1.5 * h, remove_extra=True, extra_tol=0.5), exp))
    for what, res, want in runs:
        stat.op()
        got = [(r.segment1.idx, r.segment2.idx) for r in res]
        stat.check(got == [w[:2] for w in want], '%s%s: %d pairs %s, model %d', case, what, len(got), got[:9], len(want))
        for r, w in zip(res, want):
            s = r.intersect_segment
            z = (shift, shift + h) if what != ' swapped' else (shift + h, shift)
            stat.check(r.intersect_type.name == 'ALMOST' and near_seq(s.p1.data.tolist(), list(w[2]) + [z[0]], 1e-9, 1e-9) and
                       near_seq(s.p2.data.tolist(), list(w[2]) + [z[1]], 1e-9, 1e-9), '%s%s: pair %s is %s, model %s', case, what, w[:2], r, w[2])
    stat.seen(kind)


def run_inexact(case, stat):
    """A straight curve and a zigzag above it, of inexact coordinates; the distances are known by construction"""
    n, shift, scale, perm, step = case
    hs = [1e-3, 3e-3, 1e-5, 2e-2, 5e-4]

    def row(x, y, z):
        v = [x + shift, y - shift / 3, z + shift / 7]
        return [v[k] * scale for k in perm]
    a = [row(i, 0, 0) for i in range(n + 1)]
    h = [hs[(i // 2 * step) % 5] for i in range(n + 1)]
    b = [row(i - 0.1, 1 - 2 * (i % 2), h[i]) for i in range(n + 1)]
    dist = [2 * (h[i] + h[i + 1]) / 2 / math.sqrt(4 + (h[i + 1] - h[i]) ** 2) * scale for i in range(n)]
    c1, c2 = Curve(np.array(a)), Curve(np.array(b))
    tiny = 1e-14 * (abs(shift) + n) * scale
    for tol in (1e-6, 1e-4, 2e-3, 0.01, 0.05):
        tol *= scale
        if any(abs(d - tol) < 4 * tiny for d in dist):
            continue
        exp = [i for i in range(n) if dist[i] < tol]
        for x, y in ((c1, c2), (c2, c1)):
            res = x.intersect(y, method='almost', dist_tol=tol)
            stat.op()
            stat.check([(r.segment1.idx, r.segment2.idx) for r in res] == [(i, i) for i in exp], '%s tol %s: %s, model %s', case, tol,
                       [(r.segment1.idx, r.segment2.idx) for r in res], exp)
            for r, i in zip(res, exp):
                # the middle of the crossing
                mid = row(i + 0.4, 0, (h[i] + h[i + 1]) / 4)
                stat.check(r.intersect_type.name == 'ALMOST' and near(float(r.intersect_segment.seglen), dist[i], 0, 4 * tiny), '%s: pair %s: length %s, model %s',
                           case, i, r.intersect_segment.seglen, dist[i])
                stat.check(near_seq(r.intersect_point.data.tolist(), mid, 0, 0.02 * scale), '%s: pair %s: point %s, model %s', case, i, r.intersect_point, mid)
        for i in {0, n // 2, n - 1}:
            r = c1.segments[i].intersect(c2.segments[i], method='almost', dist_tol=tol)
            stat.check(bool(r) == (i in exp) and (not r or near(float(r.intersect_segment.seglen), dist[i], 0, 4 * tiny)), '%s: segments %s: %s', case, i, r)
        stat.seen(f'pairs {bool(exp)}')


def spaces(tier):
    deep = tier == 'thorough'

    def pair():
        for sc, off in itertools.product((1, 0.1, 37.7, 2 ** -15), OFFS if deep else ('zero', 'plus')):
            if sc == 2 ** -15 and off != 'zero':
                continue
            for a in lattice(2, 2):
                yield a, sc, off, 'f8', 2, 2
        for a in lattice(3, 2):
            if deep or a[0] <= a[1]:
                yield a, 1, 'minus', 'f8', 3, 2
        for a in lattice(2, 3):
            if deep or a[0] <= a[1]:
                yield a, 1, 'plus', 'f8', 2, 3
        for dt in ('i8', 'i4', 'u1', 'u8', 'f4'):
            for a in lattice(2, 2):
                yield a, 3, 'plus', dt, 2, 2

    def shapes():
        for nd, S in ((2, S2), (3, S3)):
            for i in range(len(S)):
                for j in range(len(S)):
                    for tol in ((0.3, 1.2) if deep else (0.6,)):
                        if i != j or len(S[i]) < 2:
                            yield nd, i, j, 0, 'f8', 'f8', tol
                            if i < j:
                                yield nd, i, j, 20, 'i4', 'u1', tol
                                if deep:
                                    yield nd, i, j, 20, 'u1', 'u1', tol
                                    yield nd, i, j, 5, 'i8', 'f8', tol

    def selfs():
        for w in itertools.product(((0, 0, 0), (4, 0, 1), (0, 4, 1), (4, 4, 0), (2, 0, 2)), repeat=5 if deep else 4):
            yield w, 0, 'f8', 1.3
        for w in itertools.product(((0, 0), (4, 0), (0, 4), (4, 4), (2, 1)), repeat=5 if deep else 4):
            yield w, 10, 'u1', 0.6
        for w in ([(0, 0, 0), (4, 0, 0), (4, 4, 0), (2, 2, 1), (2, -2, 1), (0, 2, 0), (5, 2, 0)], S2[14], S3[3], S3[10],
                  [(0, 0), (4, 0), (1, 0), (3, 0), (2, 0), (2, 5), (2, 1)]):
            for tol in (0.1, 0.6, 1.3, 3):
                yield tuple(w), 3, 'i4', tol
                yield tuple(w), 3, 'f8', tol

    def words():
        L = [p for p in lattice(3, 3) if p in ((0, 0, 0), (2, 0, 0), (0, 2, 1), (2, 2, 2), (1, 1, 1), (2, 0, 1))]
        for a in itertools.product(L, repeat=3 if deep else 2):
            for b in itertools.product(L, repeat=3):
                yield a, b, 0.7

    def placed():
        for name in PLACES:
            for S in (S2, S3):
                for i, j in itertools.product(range(len(S)), repeat=2):
                    for tol in (0.6, 2.1):
                        if min(len(S[i]), len(S[j])) > 1 and (deep or (i + 2 * j) % 3 == 0 or len(S[i]) == 2):
                            yield name, S[i], S[j] if i != j or len(S[i]) < 3 else None, tol
    return [
        Space('placed', placed, run_placed, 'pairs of shapes, and self-intersections, at other scales, places and dimensions'),
        Space('pair', pair, run_pair, 'all pairs of lattice segments with tolerances, scales, places and dtypes'),
        Space('shapes', shapes, run_shapes, 'all pairs of curve shapes, all combinations of options'),
        Space('self', selfs, run_self, 'self-intersection of all words over few points, all combinations of options'),
        Space('words', words, run_words, 'all pairs of short words over lattice points'),
        Space('inexact', lambda: [(n, sh, sc, pm, st) for n in ((1, 2, 7, 60, 200) + ((400,) if deep else ())) for sh in (0.1, 1000.1, -12345.6)
                                  for sc in (1e-2, 1, 300) for pm in itertools.permutations(range(3)) for st in (1, 2, 3)
                                  if deep or n < 60 or (sc == 1 and pm[0] == st - 1 and (n < 200 or pm[1] > pm[2] and sh > 0))],
              run_inexact, 'curves of inexact coordinates at scales and places, up to 200 (400) segments'),
        Space('large', lambda: [(n, k) for k in ('zigzag', 'lines', 'mod') for n in LADDER_SHORT
                                if n <= (40 if k == 'mod' else 130 if not deep else 513)], run_large, 'a ladder of sizes'),
        Space('wide', lambda: [(k, a, b, off, dt) for k in WIDE for a in range(len(WIDE[k])) for b in range(len(WIDE[k]))
                               for off, dt in (('zero', 'f8'), ('plus', 'i4'), ('minus', 'f4'), ('plus', 'f8')) if deep or (off == 'zero' and a <= b) or
                               (a + 2 * b) % 7 == 1 and off != 'zero'],
              run_wide, 'all pairs of segments of a pool of points with a tolerance above all distances'),
        Space('long', lambda: [(k, n, h, z) for k in ('short', 'long', 'self') for n in (140, 200, 255, 256, 257, 300, 500, 513, 1000, 1025) +
                               ((2050, 4097) if k == 'short' and deep else ()) for h, z in (((0.125, 0.0), (0.0625, 10.0)) if n < 300 else ((0.125, 2.0),))
                               if not (k == 'self' and n > 520 and not deep)],
              run_long, 'curves of up to 1025 (4097) segments with distances known by construction'),
    ]
