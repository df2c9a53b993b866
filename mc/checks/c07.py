# -*- coding: utf-8 -*-
import itertools
import math
import operator

import numpy as np

from mc.core import Space
from mc.lib import Curve, Point, skcurve, near, near_seq, raises, NAN, INF

TITLE = 'Point arithmetic, norms and metrics follow vector algebra'
ASSUMPTIONS = ['numbers are Python numbers on the left-hand side (numpy scalars on the left are handled by numpy)']

OPS = [operator.add, operator.sub, operator.mul, operator.truediv, operator.floordiv]


def ref(op, a, b):
    a, b = float(a), float(b)
    if op in (operator.truediv, operator.floordiv) and b == 0:
        if a == 0 or a != a:
            return NAN
        if op is operator.truediv:
            return math.copysign(INF, a) * math.copysign(1.0, b)
        return None
    return op(a, b)


def cmp(stat, what, got, exp, tol=1e-12):
    stat.op()
    stat.check(type(got) is Point, '%s: %r is not a point', what, got)
    stat.check(got.dtype == np.float64, '%s: dtype %s', what, got.dtype)
    g = got.data.tolist()
    stat.check(len(g) == len(exp), '%s: %s, model %s', what, g, exp)
    for x, y in zip(g, exp):
        if y is not None:
            stat.check(near(x, y, tol, tol), '%s: %s, model %s', what, g, exp)


VECS = {1: [[0], [1], [-2.5], [3]],
        2: [[0, 0], [1, -2], [3, 0.5], [-4, 7], [1e6, -1e-3]],
        3: [[0, 0, 0], [1, -2, 3], [0.5, 4, -1], [-3, -3, 2]],
        4: [[1, 2, 3, 4], [-4, 0.25, 2, -1], [0, 0, 0, 1]],
        5: [[1, 2, 3, 4, 5], [5, -4, 3, -2, 1]]}
# coordinates which rounding or single precision would change
FINE = [[0.1, -1 / 3, 2.7e-5, 1e7 / 3, -123456.789012], [-1e7 / 7, 0.3000000001, -2 / 3, 1e-9 / 3, 5.1], [-0.1, -1.1, -2.7e5, -7.123456789012, -1 / 9]]
IVECS = {2: [[0, 0], [1, 2], [100, 3], [7, 120]], 3: [[0, 0, 1], [100, 120, 5], [9, 3, 110]],
         4: [[1, 2, 3, 4], [100, 50, 120, 1]]}
NUMS = [0, 1, -1, 3, 2.5, -0.5, True, np.float64(2.5), np.int64(-3), np.float32(0.5), np.int8(4), np.uint8(7), 0.1, -1e7 / 3]


def vectors(d, dt, *others):
    if dt[0] in 'iu':
        return IVECS[d]
    return VECS[d] + ([v[:d] for v in FINE] if 'f4' not in (dt,) + others else [])


def run_points(case, stat):
    d, adt, bdt = case
    tol = 1e-6 if 'f4' in (adt, bdt) else 1e-12
    va, vb = vectors(d, adt, bdt), vectors(d, bdt, adt)
    for a, b in itertools.product(va, vb):
        p, q = Point(a, dtype=adt), Point(b, dtype=bdt)
        fa, fb = p.data.tolist(), q.data.tolist()
        for op in OPS:
            exp = [ref(op, x, y) for x, y in zip(fa, fb)]
            if op is operator.floordiv and tol > 1e-9:
                exp = [None] * d
            cmp(stat, f'{op.__name__} {a} {b} {adt} {bdt}', op(p, q), exp, tol)
        stat.op(4)
        stat.check(near(float(p @ q), math.fsum(x * y for x, y in zip(fa, fb)), tol, tol * 1e3), '%s @ %s = %s', a, b, p @ q)
        stat.check(near(float(p.norm()), math.sqrt(math.fsum(x * x for x in fa)), tol, tol), 'norm %s = %s', a, p.norm())
        e = math.sqrt(math.fsum((x - y) ** 2 for x, y in zip(fa, fb)))
        stat.check(near(float(p.distance(q)), e, tol, tol * 10), 'distance %s %s = %s, model %s', a, b, p.distance(q), e)
        stat.check(near(float((p - q).norm()), e, tol, tol * 10), 'norm of difference %s %s', a, b)
        stat.check(p.data.tolist() == fa and q.data.tolist() == fb and p.dtype == np.dtype(adt), 'operands changed')
        stat.seen(f'd={d}')


def run_numbers(case, stat):
    d, dt = case
    tol = 1e-6 if dt == 'f4' else 1e-12
    for a in vectors(d, dt):
        p = Point(a, dtype=dt)
        fa = p.data.tolist()
        for num in NUMS[:-2] if dt == 'f4' else NUMS:
            for op in OPS:
                fl = op is operator.floordiv
                cmp(stat, f'{op.__name__} {a} {num!r}', op(p, num), [None if fl and tol > 1e-9 else ref(op, x, num) for x in fa], tol)
                if not isinstance(num, np.generic):
                    cmp(stat, f'{op.__name__} {num!r} {a}', op(num, p),
                        [None if fl and tol > 1e-9 else ref(op, num, x) for x in fa], tol)
                stat.seen(op.__name__)
        for bad in (None, 'a', [1] * d, (1,) * d, {}, object()):
            for op in OPS:
                stat.op(2)
                stat.check(raises(TypeError, op, p, bad), '%s %r %r accepted', op.__name__, p, bad)
                stat.check(raises(TypeError, op, bad, p), '%s %r %r accepted', op.__name__, bad, p)
            stat.check(raises(TypeError, operator.matmul, p, bad), '%r @ %r accepted', p, bad)
        stat.check(raises(TypeError, operator.matmul, p, 2), '%r @ 2 accepted', p)
        stat.check(p.data.tolist() == fa, 'operand changed')


def run_curve_points(case, stat):
    """Views of curve points take part in arithmetic as points"""
    d, dt = case
    rows = [[3, -1, 2, 5][:d], [1, 4, -2, 2][:d], [0, 2, 7, -3][:d]] if dt != 'fine' else [v[:d] for v in FINE]
    dt = 'f8' if dt == 'fine' else dt
    c = Curve(np.array(rows, dtype=dt))
    for i, j in itertools.product(range(3), repeat=2):
        for op in OPS:
            exp = [ref(op, x, y) for x, y in zip(rows[i], rows[j])]
            cmp(stat, f'{op.__name__} c[{i}] c[{j}]', op(c[i], c[j]), exp)
            cmp(stat, f'{op.__name__} c[{i}] point', op(c[i], Point(rows[j])), exp)
            cmp(stat, f'{op.__name__} point c[{j}]', op(Point(rows[i]), c[j]), exp)
            cmp(stat, f'{op.__name__} c[{i}] 2', op(c[i], 2), [ref(op, x, 2) for x in rows[i]])
            cmp(stat, f'{op.__name__} 2 c[{i}]', op(2, c[i]), [ref(op, 2, x) for x in rows[i]])
        e = math.sqrt(sum((x - y) ** 2 for x, y in zip(rows[i], rows[j])))
        stat.check(near(float(c[i].distance(c[j])), e) and near(float(Point(rows[i]).distance(c[j])), e), 'distance')
        stat.check(near(float(c[i] @ c[j]), sum(x * y for x, y in zip(rows[i], rows[j]))), 'dot')
    stat.check(c.data.tolist() == rows, 'curve changed')


# ------------------------------------------------------------------------ metrics

def m_minkowski(u, v, p=2):
    return sum(abs(a - b) ** p for a, b in zip(u, v)) ** (1 / p)


def m_correlation(u, v):
    mu, mv = sum(u) / len(u), sum(v) / len(v)
    return m_cosine([a - mu for a in u], [b - mv for b in v])


def m_cosine(u, v):
    return 1 - sum(a * b for a, b in zip(u, v)) / math.sqrt(sum(a * a for a in u) * sum(b * b for b in v))


def m_js(u, v, base=None):
    su, sv = sum(u), sum(v)
    u, v = [a / su for a in u], [b / sv for b in v]
    m = [(a + b) / 2 for a, b in zip(u, v)]

    def kl(p, q):
        return sum(a * math.log(a / b) for a, b in zip(p, q) if a)
    js = kl(u, m) + kl(v, m)
    if base:
        js /= math.log(base)
    return math.sqrt(max(js, 0) / 2)


def m_maha(u, v, VI):
    w = [a - b for a, b in zip(u, v)]
    return math.sqrt(sum(w[i] * VI[i][j] * w[j] for i in range(len(w)) for j in range(len(w))))


METRICS = {
    'braycurtis': (lambda u, v: sum(abs(a - b) for a, b in zip(u, v)) / sum(abs(a + b) for a, b in zip(u, v)), [{}]),
    'canberra': (lambda u, v: sum(abs(a - b) / (abs(a) + abs(b)) for a, b in zip(u, v) if a or b), [{}]),
    'chebyshev': (lambda u, v: max(abs(a - b) for a, b in zip(u, v)), [{}]),
    'cityblock': (lambda u, v: sum(abs(a - b) for a, b in zip(u, v)), [{}]),
    'correlation': (m_correlation, [{}]),
    'cosine': (m_cosine, [{}]),
    'euclidean': (lambda u, v: m_minkowski(u, v), [{}]),
    'jensenshannon': (m_js, [{}, {'base': 2}]),
    'mahalanobis': (m_maha, [{'VI': 'spd'}]),
    'minkowski': (m_minkowski, [{}, {'p': 1}, {'p': 3}]),
    'seuclidean': (lambda u, v, V: math.sqrt(sum((a - b) ** 2 / c for a, b, c in zip(u, v, V))), [{'V': 'var'}]),
    'sqeuclidean': (lambda u, v: sum((a - b) ** 2 for a, b in zip(u, v)), [{}]),
    'wminkowski': (lambda u, v, p, w: sum(abs(c * (a - b)) ** p for a, b, c in zip(u, v, w)) ** (1 / p),
                   [{'p': 2, 'w': 'var'}, {'p': 3, 'w': 'var'}]),
}


def run_metrics(case, stat):
    name, d, dt = case
    func, params = METRICS[name]
    vecs = [[1, 2, 3, 4][:d], [2, 1, 5, 1][:d], [7, 3, 1, 2][:d], [5, 6, 1, 1][:d]]
    if dt == 'fine':
        vecs, dt = [v[:d] for v in FINE] + [[1.1, 2.3, -0.7, 0.9][:d]], 'f8'
        if name == 'jensenshannon':
            vecs = [[abs(x) for x in v] for v in vecs]
    for u, v in itertools.product(vecs, vecs):
        p, q = Point(u, dtype=dt), Point(v, dtype=dt)
        for par in params:
            par = dict(par)
            for k, val in par.items():
                if val == 'spd':
                    par[k] = np.array([[2.0 + i if i == j else 0.5 for j in range(d)] for i in range(d)])
                elif val == 'var':
                    par[k] = [1.0 + 0.5 * i for i in range(d)]
            exp = func(u, v, **par)
            tol = 1e-6 if dt == 'f4' or name in ('jensenshannon', 'correlation', 'cosine') else 1e-10
            for nm, got in (('distance', p.distance(q, name, **par)), ('metric=', p.distance(q, metric=name, **par)),
                            ('get_metric', skcurve.get_metric(name, **par)(p.data.astype('f8'), q.data.astype('f8')))):
                stat.op()
                stat.check(near(float(got), exp, tol, tol), '%s %s %s %s %s = %s, model %s', nm, name, u, v, par, got, exp)
            stat.seen(name)
            callable_metric = skcurve.get_metric(name)
            if not par:
                stat.check(near(float(p.distance(q, callable_metric)), exp, tol, tol), 'callable %s', name)


def run_names(case, stat):
    known = skcurve.known_metrics()
    stat.check(sorted(known) == sorted(METRICS), 'known metrics %s', known)
    known.append('nonsense')
    stat.check('nonsense' not in skcurve.known_metrics(), 'the list of known metrics is shared with the registry')
    p, q = Point([1, 2]), Point([4, 6])
    for bad in ('', 'unknown', 'Euclidean', 'nonsense', 'euclidean '):
        stat.op(2)
        stat.check(raises(NameError, skcurve.get_metric, bad), 'metric %r accepted', bad)
        stat.check(raises(NameError, p.distance, q, bad), 'metric %r accepted', bad)
    for bad in (None, 1, [1], {}):
        stat.check(raises(TypeError, p.distance, q, bad), 'metric %r accepted', bad)
    seen = []

    def metric(u, v):
        seen.append((u.tolist(), v.tolist()))
        return 42
    stat.check(p.distance(q, metric) == 42 and seen == [([1, 2], [4, 6])], 'callable metric %s', seen)
    # default parameters do not stick
    stat.check(near(float(p.distance(q, 'minkowski', p=1)), 7) and near(float(p.distance(q, 'minkowski')), 5) and
               near(float(p.distance(q)), 5), 'metric parameters leak into later calls')


def spaces(tier):
    dts = ['f8', 'f4', 'i8', 'i4', 'i1', 'u1', 'u4']
    return [
        Space('points', lambda: [(d, a, b) for d in (1, 2, 3, 4, 5) for a in dts for b in dts
                                 if d in IVECS or (a[0] == b[0] == 'f')], run_points,
              'all operators on all pairs of a value ladder, 1-5 dimensions, all dtype pairs'),
        Space('numbers', lambda: [(d, a) for d in (1, 2, 3, 4, 5) for a in dts if d in IVECS or a[0] == 'f'], run_numbers,
              'all operators with numbers on both sides, unsupported operands'),
        Space('curve_points', lambda: [(d, dt) for d in (2, 3, 4) for dt in ('f8', 'i8', 'i1', 'fine')], run_curve_points,
              'operators on curve points'),
        Space('metrics', lambda: [(n, d, dt) for n in sorted(METRICS) for d in (2, 3, 4)
                                  for dt in ('f8', 'f4', 'i8', 'u1', 'fine')], run_metrics, 'all metrics and their parameters'),
        Space('names', lambda: [0], run_names, 'unknown names, callables'),
    ]
