# -*- coding: utf-8 -*-
"""C24: the generators of well-known curves, against their equations"""

import inspect
import itertools
import math

import numpy as np

import skcurve.curves as curves
from skcurve import Curve

from mc.core import Space
from mc.lib import LADDER, LADDER_SHORT, lst, near, near_seq

TITLE = 'Well-known curve generators satisfy their equations'

ASSUMPTIONS = [
    'values are compared with a relative tolerance of 1e-9; Fresnel integrals are computed by composite Gauss-Legendre quadrature with 1e-7',
    'tuples of parameter values are taken from a finite grid, ranges are increasing',
]

PI = math.pi


def uniform(a, b, n):
    if n == 1:
        return [a]
    return [a + (b - a) * k / (n - 1) for k in range(n)]


# ------------------------------------------------------------------------------ equations

def e_arc(th, r=1.0, c=0.0):
    return [math.cos(th) * r + c, math.sin(th) * r + c]


def e_lemniscate(th, c=1.0):
    d = math.sin(th) ** 2 + 1
    return [c * math.sqrt(2) * math.cos(th) / d, c * math.sqrt(2) * math.cos(th) * math.sin(th) / d]


def e_archimedean(th, a=1.5, b=-2.4):
    return [(a + b * th) * math.cos(th), (a + b * th) * math.sin(th)]


GX = [0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717]
GW = [0.2955242247147529, 0.2692667193099963, 0.2190863625159820, 0.1494513491505806, 0.0666713443086881]


def fresnel(x):
    """(C(x), S(x)) with integrands cos and sin of pi u**2 / 2"""
    n = 4 + int(8 * x * x)
    h = x / n
    cs, sn = [], []
    for k in range(n):
        m = (k + 0.5) * h
        for g, w in zip(GX, GW):
            for sg in (1, -1):
                u = m + sg * g * h / 2
                cs.append(w * math.cos(PI * u * u / 2))
                sn.append(w * math.sin(PI * u * u / 2))
    return [math.fsum(cs) * h / 2, math.fsum(sn) * h / 2]


def e_euler(t):
    return fresnel(t)


def e_lissajous(th, a_ampl=1.0, b_ampl=1.0, a=3.0, b=2.0, d=0.0):
    return [a_ampl * math.sin(a * th + d), b_ampl * math.sin(b * th)]


def e_helix(th, a=1.0, b=1.0):
    return [math.sin(th) * a, math.cos(th) * a, th * b]


# name: equation, parameters with values, default range, default count
GENERATORS = {
    'arc': (e_arc, dict(r=(1.0, 2.5, 0.25, 10, -3), c=(0.0, 1.5, -7)), (0.0, 2 * PI), 49),
    'lemniscate_of_bernoulli': (e_lemniscate, dict(c=(1.0, 0.5, 3, -2)), (0.0, 2 * PI), 101),
    'archimedean_spiral': (e_archimedean, dict(a=(1.5, 0, -1, 4), b=(-2.4, 1, 0.3)), (0.0, 5 * PI), 200),
    'euler_spiral': (e_euler, {}, (-1.5 * PI, 1.5 * PI), 1000),
    'lissajous': (e_lissajous, dict(a_ampl=(1.0, 2.5), b_ampl=(1.0, 0.5), a=(3.0, 1, 5), b=(2.0, 7), d=(0.0, 0.7)), (0.0, 2 * PI), 101),
    'helix': (e_helix, dict(a=(1.0, 2.5, -1), b=(1.0, 0.5, 4, -1)), (-3 * PI, 3 * PI), 100),
}

RANGES = [(0.0, 1.0), (-2.0, 0.5), (0.0, 2 * PI), (1, 7), (-PI / 2, PI / 2)]
COUNTS = [1, 2, 3, 4, 5, 10, 33]


def combos(params):
    for vals in itertools.product(*params.values()):
        yield dict(zip(params, vals))


def check(stat, what, c, eq, kw, a, b, n, tol=1e-9):
    stat.op()
    ts = uniform(a, b, n)
    stat.check(type(c) is Curve and c.isparametric and c.size == n, '%s: size %s parametric %s', what, c.size, c.isparametric)
    stat.check(near_seq(lst(c.t), ts, 1e-12, 1e-12), '%s: parametrization %s', what, lst(c.t)[:5])
    stat.check(c.t[0] == a and (c.t[-1] == b or n == 1), '%s: range %s %s', what, c.t[0], c.t[-1])
    exp = [eq(t, **kw) for t in ts]
    scale = max(1.0, max(abs(x) for p in exp for x in p))
    stat.check(c.ndim == len(exp[0]) and c.dtype == np.float64, '%s: dimension %s dtype %s', what, c.ndim, c.dtype)
    stat.check(near_seq(lst(c.data), exp, tol, tol * scale), '%s: data %s, model %s', what, lst(c.data)[:4], exp[:4])


def tol_of(name):
    return 1e-7 if name == 'euler_spiral' else 1e-9


def run_params(case, stat):
    name, kw, (a, b), n = case
    eq = GENERATORS[name][0]
    kw = dict(kw)
    g = getattr(curves, name)
    what = f'{name} {kw} {a} {b} {n}'
    c = g(t_start=a, t_stop=b, p_count=n, **kw)
    check(stat, what, c, eq, kw, a, b, n, tol_of(name))
    # positional arguments in the documented order
    c2 = g(a, b, n, *[kw[k] for k in GENERATORS[name][1] if k in kw]) if len(kw) == len(GENERATORS[name][1]) else g(a, b, n, **kw)
    stat.op()
    stat.check(lst(c2.data) == lst(c.data) and lst(c2.t) == lst(c.t), '%s: positional arguments', what)
    stat.seen(name)


def run_defaults(case, stat):
    """Every subset of the arguments is given, others have the documented defaults"""
    name, names = case
    eq, params, (a, b), n = GENERATORS[name]
    g = getattr(curves, name)
    given = {'t_start': -1.25, 't_stop': 2.75, 'p_count': 7}
    given.update({k: v[1] for k, v in params.items()})
    kw = {k: given[k] for k in names}
    c = g(**kw)
    check(stat, f'{name} {kw}', c, eq, {k: v for k, v in kw.items() if k in params}, kw.get('t_start', a), kw.get('t_stop', b), kw.get('p_count', n), tol_of(name))
    sig = inspect.signature(g)
    stat.check(set(sig.parameters) >= set(given), '%s: parameters %s', name, sig)


def e_irregular(th, z):
    r = z * z + 1
    return [r * math.sin(th), r * math.cos(th), z]


def run_irregular(case, stat):
    (a, b), (z0, z1), n, defaults = case
    if defaults:
        kw = {}
        if 't' not in defaults:
            kw.update(t_start=a, t_stop=b)
        else:
            a, b = -4 * PI, 4 * PI
        if 'z' not in defaults:
            kw.update(z_start=z0, z_stop=z1)
        else:
            z0, z1 = -2.0, 2.0
        if 'n' not in defaults:
            kw.update(p_count=n)
        else:
            n = 100
        c = curves.irregular_helix(**kw)
    else:
        c = curves.irregular_helix(a, b, z0, z1, n)
    stat.op()
    ts, zs = uniform(a, b, n), uniform(z0, z1, n)
    exp = [e_irregular(t, z) for t, z in zip(ts, zs)]
    what = f'irregular_helix {case}'
    stat.check(type(c) is Curve and c.isparametric and c.size == n and c.ndim == 3, '%s: size %s', what, c.size)
    stat.check(near_seq(lst(c.t), ts, 1e-12, 1e-12) and c.t[0] == a and (c.t[-1] == b or n == 1), '%s: parametrization', what)
    stat.check(near_seq(lst(c.data), exp, 1e-9, 1e-8), '%s: data %s, model %s', what, lst(c.data)[:4], exp[:4])


def run_shape(case, stat):
    """Implicit equations and known lengths"""
    name, k = case
    n = 400
    stat.op()
    if name == 'arc':
        r, c0 = [(1, 0), (2.5, 1), (0.5, -3)][k]
        c = curves.arc(r=r, c=c0, p_count=n)
        for x, y in lst(c.data):
            stat.check(near((x - c0) ** 2 + (y - c0) ** 2, r * r), 'circle')
        stat.check(abs(c.arclen - 2 * PI * r) < 1e-3 * r, 'length of the circle %s', c.arclen)
        stat.check(near_seq(lst(c[0].data), lst(c[-1].data), 1e-9, 1e-9), 'closed')
        kv = lst(c.curvature)[3:-3]
        stat.check(all(abs(v - 1 / r) < 1e-2 / r for v in kv), 'curvature of the circle')
    elif name == 'lemniscate_of_bernoulli':
        f = (1.0, 0.5, 3)[k]
        for x, y in lst(curves.lemniscate_of_bernoulli(c=f, p_count=n).data):
            stat.check(near((x * x + y * y) ** 2, 2 * f * f * (x * x - y * y), 1e-9, 1e-9 * f ** 4), 'lemniscate with half focal distance %s', f)
            stat.check(near(math.hypot(x - f, y) * math.hypot(x + f, y), f * f), 'product of distances to the foci')
    elif name == 'archimedean_spiral':
        a, b = [(1.5, 1), (0, 2), (3, 0.2)][k]
        c = curves.archimedean_spiral(a=a, b=b, p_count=n)
        for t, (x, y) in zip(lst(c.t), lst(c.data)):
            stat.check(near(math.hypot(x, y), abs(a + b * t)), 'radius of the spiral')
    elif name == 'euler_spiral':
        n = (101, 500, 1001)[k]
        c = curves.euler_spiral(p_count=n)
        d = lst(c.data)
        for (x, y), (u, v) in zip(d, d[::-1]):
            stat.check(near(x, -u) and near(y, -v), 'odd')
        c = curves.euler_spiral(-1, 1, n)
        stat.check(abs(c.arclen - 2) < 1e-2, 'unit speed')
    elif name == 'lissajous':
        c = curves.lissajous(a_ampl=2 + k, b_ampl=3, a=1, b=1, d=PI / 2, p_count=n)
        for x, y in lst(c.data):
            stat.check(near((x / (2 + k)) ** 2 + (y / 3) ** 2, 1), 'ellipse')
    elif name == 'helix':
        a, b = [(1, 1), (2, 0.5), (3, 4)][k]
        c = curves.helix(a=a, b=b, p_count=2000)
        stat.check(abs(c.arclen / (6 * PI * math.hypot(a, b)) - 1) < 1e-3, 'length of the helix')
        for x, y, z in lst(c.data):
            stat.check(near(x * x + y * y, a * a), 'cylinder')
    stat.seen(name)


def run_ladder(case, stat):
    name, n = case
    if name == 'irregular_helix':
        run_irregular(((-1.0, 2.0), (-1.0, 3.0), n, ''), stat)
        return
    eq, params, (a, b), _ = GENERATORS[name]
    check(stat, f'{case}', getattr(curves, name)(p_count=n), eq, {}, a, b, n, tol_of(name))


def spaces(tier):
    deep = tier == 'thorough'
    names = sorted(GENERATORS)

    def params():
        for name in names:
            for kw in combos(GENERATORS[name][1]):
                for rng in RANGES + ([GENERATORS[name][2], (0.0, 30.0), (-1e-3, 1e-3), (100, 101)] if deep else []):
                    if name == 'euler_spiral' and rng[1] > 20:
                        continue
                    for n in COUNTS + ([100, 257] if deep else []):
                        if n:
                            yield name, tuple(kw.items()), rng, n

    def defaults():
        for name in names:
            args = ['t_start', 't_stop', 'p_count'] + list(GENERATORS[name][1])
            for k in range(len(args) + 1):
                for c in itertools.combinations(args, k):
                    if deep or 'p_count' in c or name != 'euler_spiral' or k == 0:
                        yield name, c

    def irregular():
        for rng in RANGES:
            for z in ((-2.0, 2.0), (0, 1), (3.0, -1.0), (0.5, 0.5)):
                for n in COUNTS:
                    yield rng, z, n, ''
        for d in ('t', 'z', 'n', 'tz', 'tn', 'zn', 'tzn'):
            yield (0.5, 3.0), (-1.0, 2.5), 9, d
    ladder = LADDER if deep else LADDER_SHORT
    return [
        Space('params', params, run_params, 'all combinations of parameter values x ranges x counts'),
        Space('defaults', defaults, run_defaults, 'all subsets of the arguments'),
        Space('irregular', irregular, run_irregular, 'ranges of angles x ranges of heights x counts'),
        Space('shape', lambda: [(n, k) for n in names for k in range(3)], run_shape, 'implicit equations, lengths, symmetry'),
        Space('ladder', lambda: [(nm, n) for nm in names + ['irregular_helix'] for n in ladder], run_ladder, 'a ladder of sizes'),
    ]
