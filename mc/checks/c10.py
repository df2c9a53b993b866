# -*- coding: utf-8 -*-
import itertools
import math

import numpy as np

from mc.core import Space
from mc.lib import Curve, Point, Segment, near, near_seq, lattice, mk_seg, raises, LADDER_SHORT, LADDER

TITLE = 'Geometry is invariant under isometries, and scales and reverses as it should'
ASSUMPTIONS = ['coordinates are multiples of 5, so that the rotation (3/5, 4/5) and all other isometries are exact in integers',
               'curvature and torsion are compared where the Frenet vectors they need are well defined at all points']


# ------------------------------------------------------------------ exact isometries of multiples of 5

def signed_permutations(d):
    for perm in itertools.permutations(range(d)):
        for signs in itertools.product((1, -1), repeat=d):
            yield perm, signs


def apply_iso(iso, p):
    """iso: ('perm', perm, signs) | ('rot', i, j, sign) | ('move', vector) | ('seq', iso, ...)"""
    kind = iso[0]
    if kind == 'perm':
        return [s * p[k] for k, s in zip(iso[1], iso[2])]
    if kind == 'rot':
        _, i, j, s = iso
        q = list(p)
        q[i] = (3 * p[i] - s * 4 * p[j]) // 5
        q[j] = (s * 4 * p[i] + 3 * p[j]) // 5
        return q
    if kind == 'move':
        return [x + v for x, v in zip(p, iso[1])]
    for sub in iso[1:]:
        p = apply_iso(sub, p)
    return p


def orientation(iso):
    """Determinant of the isometry"""
    kind = iso[0]
    if kind == 'perm':
        _, perm, signs = iso
        inv = sum(1 for a in range(len(perm)) for b in range(a) if perm[b] > perm[a])
        return (-1) ** inv * math.prod(signs)
    if kind == 'seq':
        return math.prod(orientation(s) for s in iso[1:])
    return 1


def isos(d, full):
    out = []
    for perm, signs in signed_permutations(d):
        if full or d == 2 or sum(signs) in (d, d - 2) or perm == tuple(range(d)):
            out.append(('perm', perm, signs))
    for i, j in itertools.combinations(range(d), 2):
        for s in (1, -1):
            out.append(('rot', i, j, s))
    out.append(('move', [1000, -70, 35, 5][:d]))
    out.append(('move', [-15, 20, -5, 10][:d]))
    out.append(('seq', ('rot', 0, 1, 1), ('move', [7, -11, 3, 1][:d]), ('perm', tuple(range(d))[::-1], (1, -1, 1, 1)[:d])))
    out.append(('seq', ('perm', tuple(range(1, d)) + (0,), (-1,) + (1,) * (d - 1)), ('rot', 0, d - 1, -1), ('move', [100] * d)))
    return out


QTY = ('chordlen', 'cumarclen', 'speed', 'curvature', 'torsion')


def norms_ok(a, order):
    """True if the vectors which the quantity needs are well defined at every point"""
    v = [a.tangent, a.normal, a.binormal][:order]
    return all((np.linalg.norm(x, axis=1) > 1e-3).all() for x in v)


def compare(stat, what, base, other, factor=1.0, ksign=1, rev=False, dt='f8'):
    tol = 1e-8 if dt != 'f4' else 1e-3
    n, d = base.size, base.ndim
    sl = slice(None, None, -1) if rev else slice(None)

    def same(name, exp, got):
        stat.op()
        stat.check(near_seq(got.tolist(), exp.tolist(), tol, tol * max(1.0, factor)), '%s: %s %s, model %s', what, name,
                   got.tolist()[:8], exp.tolist()[:8])

    same('chordlen', base.chordlen[sl] * factor, other.chordlen)
    stat.check(near(other.arclen, base.arclen * factor, tol, tol), '%s: arclen %s, model %s', what, other.arclen, base.arclen * factor)
    cum = base.cumarclen * factor
    same('cumarclen', (cum[-1] - cum)[::-1] if rev else cum, other.cumarclen)
    same('speed', base.speed[sl] * factor, other.speed)
    stat.check(other.isplane == base.isplane or d > 2, '%s: isplane', what)
    if norms_ok(base, 1) and n >= 2:
        same('curvature', ksign * base.curvature[sl] / factor, other.curvature)
        stat.seen('curvature')
        if d >= 3 and norms_ok(base, 3):
            # The binormal follows the third derivative: its sign changes on reversal together with e2'
            same('torsion', base.torsion[sl] / factor, other.torsion)
            stat.seen('torsion')
    else:
        stat.seen('singular')


def run_isometry(case, stat):
    word, iso, dt = case
    rows = [[5 * x for x in p] for p in word]
    d = len(rows[0])
    img = [apply_iso(iso, p) for p in rows]
    a, b = Curve(np.array(rows, dtype=dt)), Curve(np.array(img, dtype=dt))
    compare(stat, f'{rows} {iso}', a, b, ksign=orientation(iso) if d == 2 else 1, dt=dt)


def run_scale(case, stat):
    word, f, dt = case
    rows = [[5 * x for x in p] for p in word]
    a = Curve(np.array(rows, dtype=dt))
    b = Curve(np.array(rows, dtype=dt) * f)
    # scaling by a negative number is the scaling and the point reflection
    compare(stat, f'{rows} x {f}', a, b, factor=abs(f), dt=dt)
    stat.seen(f'scale {f}')


def run_reverse(case, stat):
    word, dt = case
    rows = [[5 * x for x in p] for p in word]
    a = Curve(np.array(rows, dtype=dt))
    d = a.ndim
    for b in (a.reverse(), a[::-1], Curve(np.array(rows[::-1], dtype=dt))):
        compare(stat, f'reversed {rows}', a, b, ksign=-1 if d == 2 else 1, rev=True, dt=dt)


def pt_near(stat, what, p, q):
    stat.check(near_seq(p.data.tolist(), [float(x) for x in q], 1e-7, 1e-6), '%s: point %s, model %s', what, p, q)


def pt_apply(iso, p):
    """The isometry on float points"""
    kind = iso[0]
    if kind == 'rot':
        _, i, j, s = iso
        q = [float(x) for x in p]
        q[i], q[j] = (3 * p[i] - s * 4 * p[j]) / 5, (s * 4 * p[i] + 3 * p[j]) / 5
        return q
    if kind == 'seq':
        for sub in iso[1:]:
            p = pt_apply(sub, p)
        return p
    return apply_iso(iso, p)


def run_segments(case, stat):
    word, isolist = case
    w = [[5 * x for x in p] for p in word]
    s1, s2 = mk_seg(w[0], w[1]), mk_seg(w[2], w[3])
    r = s1.intersect(s2)
    dist = s1.distance(s2)
    ang = s1.angle(s2)
    flags = (s1.parallel(s2), s1.collinear(s2), s1.coplanar(s2), s1.singular, s2.singular)
    ov = s1.overlap(s2, check_collinear=True)
    for iso in isolist:
        v = [apply_iso(iso, p) for p in w]
        what = f'{w} {iso}'
        t1, t2 = mk_seg(v[0], v[1]), mk_seg(v[2], v[3])
        stat.op(5)
        q = t1.intersect(t2)
        stat.check(q.intersect_type == r.intersect_type, '%s: %s, but %s for the image', what, r.intersect_type, q.intersect_type)
        if r:
            pt_near(stat, what, q.intersect_point, pt_apply(iso, r.intersect_point.data.tolist()))
        d2 = t1.distance(t2)
        stat.check(near(float(d2), float(dist), 1e-7, 1e-7), '%s: distance %s, of the image %s', what, dist, d2)
        stat.check(near(float(t1.angle(t2)), float(ang), 1e-6, 1e-6), '%s: angle %s, of the image %s', what, ang, t1.angle(t2))
        f2 = (t1.parallel(t2), t1.collinear(t2), t1.coplanar(t2), t1.singular, t2.singular)
        stat.check(tuple(map(bool, f2)) == tuple(map(bool, flags)), '%s: %s, of the image %s', what, flags, f2)
        o2 = t1.overlap(t2, check_collinear=True)
        stat.check((o2 is None) == (ov is None), '%s: overlap %s, of the image %s', what, ov, o2)
        if ov is not None:
            stat.check(near(float(o2.seglen), float(ov.seglen), 1e-8, 1e-8), '%s: length of overlap', what)
        stat.check(near(float(t1.distance(t2.p1)), float(s1.distance(s2.p1)), 1e-7, 1e-7), '%s: distance to a point', what)
    stat.seen(r.intersect_type.name)


SHAPES = {
    2: [[(0, 0), (4, 4), (4, 0), (0, 4)], [(0, 2), (4, 2), (2, 0), (2, 4)], [(1, 1), (3, 1), (3, 3), (1, 3), (1, 1)],
        [(0, 0), (2, 0), (4, 0), (4, 2)], [(3, 0), (1, 0), (1, 2)]],
    3: [[(0, 0, 0), (4, 4, 4), (4, 0, 0), (0, 4, 4)], [(0, 2, 2), (4, 2, 2), (2, 0, 2), (2, 4, 2)], [(0, 0, 0), (2, 0, 0), (4, 0, 0)],
        [(3, 0, 0), (1, 0, 0), (1, 2, 3)]],
}


def run_curves(case, stat):
    d, i, j, iso, method = case
    a = [[5 * x for x in p] for p in SHAPES[d][i]]
    b = [[5 * x for x in p] for p in SHAPES[d][j]]
    a2, b2 = [apply_iso(iso, p) for p in a], [apply_iso(iso, p) for p in b]

    def inter(x, y):
        cx = Curve(np.array(x, dtype='f8'))
        cy = cx if y is None else Curve(np.array(y, dtype='f8'))
        kw = {'dist_tol': 0.01} if method == 'almost' else {}
        return cx.intersect(None if y is None else cy, method=method, **kw)
    for x, y, x2, y2 in ((a, b, a2, b2), (a, None, a2, None)):
        r, q = inter(x, y), inter(x2, y2)
        stat.op(2)
        key = [(s.segment1.idx, s.segment2.idx, s.intersect_type.name) for s in r]
        key2 = [(s.segment1.idx, s.segment2.idx, s.intersect_type.name) for s in q]
        stat.check(key == key2, '%s: intersections %s, of the image %s', case, key, key2)
        for s, u in zip(r, q):
            if s.intersect_type.name != 'ALMOST':
                pt_near(stat, f'{case}', u.intersect_point, pt_apply(iso, s.intersect_point.data.tolist()))
        stat.seen(f'{len(key)} intersections')


def run_sizes(case, stat):
    n, d = case
    h = 2 * math.pi / 48
    base = np.array([[50 * math.cos(h * i), 50 * math.sin(h * i), 3 * i, 20 * math.cos(2 * h * i)][:d] for i in range(n)])
    a = Curve(base)
    for f in (2.0, 0.25, -3.0):
        compare(stat, f'n={n} scale {f}', a, Curve(base * f), factor=abs(f))
    for iso in isos(d, False)[:12]:
        b = Curve(np.array([pt_apply(iso, p) for p in base.tolist()]))
        compare(stat, f'n={n} {iso}', a, b, ksign=orientation(iso) if d == 2 else 1)
    compare(stat, f'n={n} reversed', a, a.reverse(), ksign=-1 if d == 2 else 1, rev=True)


def run_orient(case, stat):
    """Co-orientation to a coordinate plane gives the curve or its reversal: the one which turns positively"""
    word, t, dt, scale = case
    d = len(word[0]) if word else 3
    rows = [[x * scale for x in p] for p in word]
    n = len(rows)
    c = Curve(np.array(rows, dtype=dt).reshape(n, d), tdata=t)
    ts = None if t is None else list(t)
    for a, b in itertools.permutations(range(d), 2):
        det = rows[0][a] * rows[-1][b] - rows[-1][a] * rows[0][b] if n > 1 else 0
        for what, r in (('', c), (' of the reversal', c.reverse())):
            got = r.coorientplane(a, b) if (a, b) != (0, 1) else r.coorientplane()
            stat.op()
            keep = det > 0
            exp = [rows if keep else rows[::-1]] if det else [rows, rows[::-1]]
            data = got.data.tolist()
            stat.check(type(got) is Curve and got is not r and data in exp and got.dtype == c.dtype and got.ndim == d, '%s: co-orientation%s to %s is %s, model %s',
                       case, what, (a, b), data, exp)
            stat.check(got.isparametric == (t is not None), '%s: parametric %s', case, got.isparametric)
            if t is not None:
                pairs = [list(zip(e, u)) for e, u in ((rows, ts), (rows[::-1], ts[::-1]))]
                stat.check(list(zip(data, got.t.tolist())) in pairs, '%s: parametrization %s', case, got.t)
            stat.check(c.coorientplane(axis1=a, axis2=b).data.tolist() == c.coorientplane(a, b).data.tolist(), '%s: keywords', case)
            if det:
                again = got.coorientplane(a, b)
                stat.check(again.data.tolist() == data and again.t.tolist() == got.t.tolist(), '%s: co-orientation again is %s', case, again)
        stat.seen(f'{(det > 0) - (det < 0)}')
    if n > 1:
        for a, b in ((0, d), (d, 0), (d + 3, d + 4)):
            stat.check(raises(IndexError, c.coorientplane, a, b), '%s: axes %s accepted', case, (a, b))


def spaces(tier):
    deep = tier == 'thorough'
    i2, i3, i4 = isos(2, True), isos(3, deep), isos(4, False)
    W2 = list(itertools.product(lattice(3, 2), repeat=3)) + [w for w in itertools.product(lattice(2, 2), repeat=4)]
    W3 = [w for w in itertools.product(lattice(2, 3), repeat=3)] + \
         [((0, 0, 0),) + w for w in itertools.product(lattice(2, 3), repeat=3)] + \
         [((0, 0, 0), (1, 0, 0), (2, 1, 0), (2, 2, 1)) + w for w in itertools.product(lattice(3, 3, 1), repeat=1)] + \
         [((0, 0, 0), (1, 0, 0), (2, 1, 0)) + w for w in itertools.product(lattice(3, 3), repeat=1)]
    W4 = [((0, 0, 0, 0), (1, 0, 0, 1)) + w for w in itertools.product(lattice(2, 4), repeat=2)]

    def isometry():
        for w in W2:
            for iso in (i2 if deep else i2[::1]):
                if deep or len(set(w)) == len(w) or iso[0] != 'perm':
                    yield w, iso, 'f8'
        gen3 = i3 if deep else i3[1:4] + [i for i in i3 if i[0] != 'perm'] + [('perm', (1, 2, 0), (1, -1, 1))]
        for w in W3:
            for iso in gen3:
                yield w, iso, 'f8'
        for w in W4:
            for iso in [i for i in i4 if i[0] != 'perm'][:5] + i4[3:5]:
                yield w, iso, 'f8'
        for w in itertools.product(lattice(2, 2), repeat=3):
            for dt in ('i8', 'i4', 'i2', 'f4'):
                for iso in i2:
                    yield w, iso, dt

    def scale():
        for w in W2 + W3:
            for f in (2.0, 0.5, -3.0, 1000.0):
                yield w, f, 'f8'
        for w in itertools.product(lattice(2, 2), repeat=3):
            for f in (2, 3):
                yield w, f, 'i4'

    def rev():
        for w in W2 + W3 + W4:
            yield w, 'f8'
        for w in itertools.product(lattice(2, 2), repeat=3):
            for dt in ('i8', 'u1', 'f4'):
                yield w, dt

    def segs():
        g2 = i2 if deep else [i2[1], i2[4], ('rot', 0, 1, 1), i2[-4], i2[-1]]
        g3 = i3 if deep else [i3[1], ('perm', (2, 0, 1), (1, -1, 1)), ('rot', 0, 2, 1), ('move', [1000, -70, 35]), i3[-1]]
        for w in itertools.product(lattice(3, 2) if deep else lattice(2, 2), repeat=4):
            yield w, g2
        if not deep:
            for w in itertools.product(lattice(3, 2), repeat=2):
                yield ((0, 1), (2, 1)) + w, g2
                yield ((0, 0), (2, 2)) + w, g2
                yield ((2, 0), (0, 1)) + w, g2
        for w in itertools.product(lattice(2, 3), repeat=4 if deep else 3):
            yield (((0, 0, 0),) + w if not deep else w), g3
        for w in itertools.product(lattice(3, 3), repeat=2 if deep else 1):
            yield ((0, 0, 0), (2, 2, 2), (1, 1, 1)) + w[-1:], g3
            yield ((0, 1, 1), (2, 1, 1), (1, 0, 2)) + w[-1:], g3
        # directions of all signs in higher dimensions
        for d in (4, 5) if not deep else (2, 3, 4, 5, 6):
            g = [('perm', tuple(range(d))[::-1], (-1,) + (1,) * (d - 1)), ('perm', tuple(range(d)), (1,) * (d - 1) + (-1,)), ('rot', 0, d - 1, 1),
                 ('seq', ('rot', 0, 1, -1), ('move', [1000, -70, 35, 5, -15, 5][:d]))]
            first = [tuple(s * m for s, m in zip(sg, (1, 3, 2, 1, 2, 1))) for sg in itertools.product((1, -1), repeat=d) if sg[0] > 0 or deep]
            if d == 4 or deep:
                second = list(itertools.product((-1, 0, 1), repeat=d) if d < 6 else itertools.product((-1, 1), repeat=d))
            else:
                second = [tuple(s * m for s, m in zip(sg, (2, 1, 1, 3, 1))) for sg in itertools.product((1, -1), repeat=d)]
            for u, v in itertools.product(first, second):
                o = (1,) * d if sum(v) % 2 else (0,) * d
                yield ((0,) * d, u, o, tuple(a + b for a, b in zip(o, v))), g

    def orient():
        for t in (None, []):
            yield (), t, 'f8', 1
        for d in (2, 3):
            for n in (1, 2, 3, 4):
                L = [tuple(2 * x - 1 for x in p) for p in lattice(2, d)] + [(0,) * d, (3, 2, 1)[:d]]
                for w in itertools.product(L, repeat=n) if n < 3 else ((a,) + m + (b,) for a, b in itertools.product(L, repeat=2)
                                                                      for m in itertools.product(L[:2], repeat=n - 2)):
                    for t in (None, [0.5 * k * k - 1 for k in range(n)]):
                        for dt, sc in (('f8', 1), ('f8', 1e-3), ('f8', 1e5), ('f4', 1), ('i8', 1), ('i1', 1)):
                            if dt == 'f8' or n == 2 or deep:
                                yield w, t, dt, sc

    return [
        Space('isometry', isometry, run_isometry, 'words of 3-5 lattice points x signed permutations, rotations, translations'),
        Space('orient', orient, run_orient, 'all words of 0-4 lattice points, parametric or not, scales, dtypes: co-orientation to all planes'),
        Space('scale', scale, run_scale, 'words x factors'),
        Space('reverse', rev, run_reverse, 'words and their reversals'),
        Space('segments', segs, run_segments, 'pairs of lattice segments x isometries'),
        Space('curves', lambda: [(d, i, j, iso, m) for d in (2, 3) for i in range(len(SHAPES[d])) for j in range(len(SHAPES[d]))
                                 for iso in isos(d, deep) for m in ('exact', 'almost')], run_curves,
              'all ordered pairs of shapes x isometries'),
        Space('sizes', lambda: [(n, d) for n in (LADDER if deep else LADDER_SHORT) if n <= 257 for d in (2, 3, 4)], run_sizes,
              'a ladder of sizes of helices'),
    ]
