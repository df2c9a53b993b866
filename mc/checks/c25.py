# -*- coding: utf-8 -*-
"""C25: what plotting draws, read back from the artists of the axes"""

import itertools
import os

os.environ['MPLBACKEND'] = 'Agg'

import matplotlib  # noqa: E402
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.collections import LineCollection, PathCollection  # noqa: E402
from matplotlib.colors import Normalize, to_rgba  # noqa: E402
from matplotlib.quiver import Quiver  # noqa: E402
from mpl_toolkits.mplot3d import Axes3D  # noqa: E402
from mpl_toolkits.mplot3d.art3d import Line3DCollection, Path3DCollection  # noqa: E402
import numpy as np  # noqa: E402

from skcurve import Curve  # noqa: E402
from skcurve.plot import CurvePlot, curveplot  # noqa: E402

from mc.core import Space  # noqa: E402
from mc.lib import lst, mk_curve, near_seq, raises  # noqa: E402

TITLE = 'Plotting draws exactly the curve, on the axes it should'

ASSUMPTIONS = [
    'the Agg backend of matplotlib; artists are read back and not rendered pixels',
    'the coordinates of 3-d collections are read from the private attributes of matplotlib artists',
]

PTS = {2: [(0, 0), (3, 1), (-2, 5)], 3: [(0, 0, 1), (3, 1, -2), (-2, 5, 4)]}

# coordinates and parameters which single precision or rounding to some digits would change
FINE = {2: [(0.1, 1000.1), (1 / 3, 1e-7 / 3), (-2.7e-5, 5.123456789012)],
        3: [(0.1, 1000.1, 1 / 7), (1 / 3, 1e-7 / 3, -2.2), (-2.7e-5, 5.123456789012, 1e6 / 3)]}

# name: (positional arguments, keywords)
CONFIGS = {
    'line': ((), {}),
    'fmt': (('r--o',), {'label': 'one', 'linewidth': 3}),
    'kw': ((), {'color': 'green', 'marker': 's', 'linestyle': ':', 'alpha': 0.5}),
    'speed': ((), {'param': 'cumarclen'}),
    'chord': ((), {'param': 'chordlen', 'linewidth': 2}),
    'curvature': ((), {'param': 'curvature', 'param_cmap': 'viridis'}),
    't': ((), {'param': 't', 'marker': 'o'}),
    'cmap': ((), {'param': 't', 'param_cmap': 'viridis'}),
    'marked': ((), {'param': 'cumarclen', 'marker': 'x', 'alpha': 0.5, 'param_cmap': 'jet'}),
    'normals': ((), {'show_normals': True}),
    'normals-t': ((), {'show_normals': True, 'param': 't'}),
}
C2 = list(CONFIGS)
C3 = [k for k in CONFIGS if 'normals' not in k]


def artists(ax):
    """Artists in the order of drawing calls"""
    return {'lines': list(ax.lines), 'collections': list(ax.collections)}


def check_line(stat, what, line, rows, args, kw):
    nd = len(rows[0]) if rows else 2
    data = line.get_data_3d() if nd == 3 else line.get_data()
    stat.check([[float(v) for v in lst(x)] for x in data] == [[float(p[k]) for p in rows] for k in range(nd)], '%s: drawn %s', what, [lst(x) for x in data])
    if args:
        stat.check(to_rgba(line.get_color()) == to_rgba('r') and line.get_linestyle() == '--' and line.get_marker() == 'o', '%s: format', what)
    if 'color' in kw:
        stat.check(to_rgba(line.get_color()) == to_rgba(kw['color']), '%s: color', what)
    for k in ('label', 'linewidth', 'marker', 'linestyle', 'alpha'):
        if k in kw:
            stat.check(getattr(line, 'get_' + k)() == kw[k], '%s: %s is %s', what, k, getattr(line, 'get_' + k)())


def flat(values):
    """matplotlib expands tiny ranges of colors"""
    return max(values) - min(values) <= 1e-9 * max(1.0, max(values), -min(values))


def check_collections(stat, what, cols, c, rows, kw):
    """The collection of segments, and the markers"""
    nd = c.ndim
    values = lst(getattr(c, kw['param']))
    real = [v for v in values if v == v] or [0.0]
    lc = cols[0]
    stat.check(type(lc) is (LineCollection if nd == 2 else Line3DCollection), '%s: %r', what, lc)
    segs = [lst(s) for s in (lc.get_segments() if nd == 2 else lc._segments3d)]
    exp = [[list(map(float, p)), list(map(float, q))] for p, q in zip(rows, rows[1:])]
    stat.check(segs == exp, '%s: segments %s, model %s', what, segs, exp)
    stat.check(near_seq(lst(lc.get_array()), values, 0, 0), '%s: array %s, model %s', what, lc.get_array(), values)
    cmap = kw.get('param_cmap', 'plasma')
    stat.check(lc.get_cmap().name == cmap, '%s: colormap %s', what, lc.get_cmap().name)
    stat.check(flat(real) or (lc.norm.vmin, lc.norm.vmax) == (min(real), max(real)), '%s: norm %s %s', what, lc.norm.vmin, lc.norm.vmax)
    if 'linewidth' in kw:
        stat.check(lst(lc.get_linewidth()) == [kw['linewidth']], '%s: line width', what)
    if 'alpha' in kw:
        stat.check(lc.get_alpha() == kw['alpha'], '%s: alpha', what)
    if 'marker' in kw:
        pc = cols[1]
        stat.check(type(pc) is (PathCollection if nd == 2 else Path3DCollection), '%s: markers %r', what, pc)
        pos = [list(map(float, p)) for p in zip(*(lst(np.ma.filled(v)) for v in pc._offsets3d))] if nd == 3 else lst(pc.get_offsets())
        stat.check(pos == [list(map(float, p)) for p in rows], '%s: markers %s', what, pos)
        exp = plt.get_cmap(cmap)(Normalize(min(values), max(values))(np.array(values)))
        if 'alpha' in kw:
            exp[:, 3] = kw['alpha']
        fc = pc.get_facecolor() if nd == 2 else pc._facecolors if hasattr(pc, '_facecolors') else pc.get_facecolor()
        if 'x' != kw['marker'] and nd == 2 and not flat(real) and len(real) == len(values):
            stat.check(near_seq(lst(fc), lst(exp), 1e-6, 1e-6), '%s: colors of markers', what)


def check_plot(stat, what, ax, before, c, rows, config):
    """The new artists since 'before' are what the configuration draws, returns nothing"""
    args, kw = CONFIGS[config]
    now = artists(ax)
    stat.op()
    for k in now:
        stat.check(now[k][:len(before[k])] == before[k], '%s: earlier %s have changed', what, k)
    lines = now['lines'][len(before['lines']):]
    cols = now['collections'][len(before['collections']):]
    nc = (2 if 'marker' in kw else 1) if 'param' in kw else 0
    nn = 1 if kw.get('show_normals') else 0
    stat.check(len(lines) == (0 if nc else 1) and len(cols) == nc + nn, '%s: lines %s collections %s', what, lines, cols)
    if nc:
        check_collections(stat, what, cols, c, rows, kw)
    else:
        check_line(stat, what, lines[0], rows, args, kw)
    if nn:
        q = cols[-1]
        stat.check(isinstance(q, Quiver), '%s: %r', what, q)
        f = lst(c.frenet2)
        stat.check([lst(q.X), lst(q.Y)] == [[float(p[k]) for p in rows] for k in (0, 1)], '%s: positions of normals', what)
        stat.check([lst(np.ma.filled(v, np.nan)) for v in (q.U, q.V)] == [[p[k] for p in f] for k in (0, 1)], '%s: normals', what)


def freeze(c):
    return c.data.tobytes(), c.t.tobytes()


def limits_cover(stat, what, ax, rows):
    lims = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if isinstance(ax, Axes3D) else [])
    for k, (lo, hi) in enumerate(lims):
        vals = [p[k] for p in rows]
        stat.check(min(vals) >= lo - 1e-9 and max(vals) <= hi + 1e-9, '%s: the limits %s do not show the curve', what, lims)


def is_bar(ax):
    return ax.get_label() == '<colorbar>'


def run_single(case, stat):
    rows, t, dt, config, given = case
    nd = len(rows[0])
    c = mk_curve(rows, t, dt)
    before = freeze(c)
    args, kw = CONFIGS[config]
    what = f'{case}'
    try:
        figs = plt.get_fignums()
        if given:
            fig = plt.figure()
            ax = fig.add_subplot(1, 2, 2, projection='3d') if nd == 3 else fig.add_subplot(1, 2, 2)
            other = plt.figure().add_subplot(1, 1, 1)  # now the current axes are others
            ax.plot([0, 1], [0, 1])
            first = artists(ax)
            p = CurvePlot(c, *args, axes=ax, **kw)
            stat.check(p.axes is ax, '%s: the axes are others', what)
            stat.check(not other.lines and not other.collections, '%s: drawn on other axes', what)
            stat.check(len(plt.get_fignums()) == len(figs) + 2, '%s: a new figure', what)
        else:
            p = curveplot(c, *args, **kw)
            ax = p.axes
            first = {'lines': [], 'collections': []}
            stat.check(len(plt.get_fignums()) == len(figs) + 1, '%s: no new figure', what)
            stat.check(isinstance(ax, Axes3D) == (nd == 3), '%s: axes %r', what, ax)
            limits_cover(stat, what, ax, rows)
        check_plot(stat, what, ax, first, c, rows, config)
        bars = [a for a in ax.figure.axes if is_bar(a)]
        stat.check(len(bars) == (1 if 'param' in kw else 0), '%s: color bars %s', what, bars)
        for b in bars:
            stat.check(b.get_ylabel() == kw['param'], '%s: label %r', what, b.get_ylabel())
        stat.check(freeze(c) == before, '%s: the curve has changed', what)
        stat.seen(f'{nd}d {config}')
    finally:
        plt.close('all')


def run_chain(case, stat):
    nd, configs, given = case
    try:
        cs = []
        for k in range(len(configs)):
            rows = [tuple(v * (k + 1) + k for v in (FINE if k == 1 else PTS)[nd][i]) for i in [(0, 1, 2, 0), (1, 2), (2, 0, 1, 0, 2)][k % 3]]
            cs.append((mk_curve(rows, list(range(len(rows)))), rows))
        ax = None
        if given:
            fig = plt.figure()
            ax = fig.add_subplot(1, 1, 1, projection='3d') if nd == 3 else fig.add_subplot(1, 1, 1)
        p = None
        seen = {'lines': [], 'collections': []}
        for k, (config, (c, rows)) in enumerate(zip(configs, cs)):
            args, kw = CONFIGS[config]
            if k == 0:
                p = curveplot(c, *args, axes=ax, **kw)
                ax = p.axes
            else:
                prev = p
                p = p.curveplot(c, *args, **kw)
                stat.check(isinstance(p, CurvePlot) and p is not prev and prev.axes is ax, '%s: chained object', case)
            stat.check(p.axes is ax, '%s: other axes in the chain', case)
            check_plot(stat, f'{case} plot {k}', ax, seen, c, rows, config)
            seen = artists(ax)
            plt.figure()
        stat.check(len(plt.get_fignums()) == 1 + len(configs), '%s: figures', case)
        bars = [a for a in ax.figure.axes if is_bar(a)]
        exp = [CONFIGS[k][1]['param'] for k in configs if 'param' in CONFIGS[k][1]]
        stat.check([b.get_ylabel() for b in bars] == exp, '%s: color bars', case)
        stat.check(len([a for a in ax.figure.axes if not is_bar(a)]) == 1, '%s: axes', case)
    finally:
        plt.close('all')


def run_errors(case, stat):
    kind, config = case
    args, kw = CONFIGS[config]
    try:
        if kind == 'ndim':
            for nd in (4, 5, 7):
                for n in (0, 1, 3):
                    c = mk_curve([tuple(range(k, k + nd)) for k in range(n)], None, 'f8', nd)
                    ax = plt.figure().add_subplot(1, 1, 1)
                    ax3 = plt.figure().add_subplot(1, 1, 1, projection='3d')
                    figs = plt.get_fignums()
                    p = curveplot(mk_curve(PTS[2]), axes=ax)
                    stat.op(4)
                    for f in (lambda: curveplot(c, *args, **kw), lambda: curveplot(c, *args, axes=ax, **kw), lambda: curveplot(c, *args, axes=ax3, **kw),
                              lambda: p.curveplot(c, *args, **kw)):
                        stat.check(raises(ValueError, f), 'a curve of %s dimensions accepted', nd)
                    stat.check(plt.get_fignums() == figs and len(ax.lines) == 1 and not ax.collections and not ax3.lines and not ax3.collections, 'something was drawn')
                    plt.close('all')
        elif kind == '3d on 2d':
            for n in (1, 2, 4):
                rows = [PTS[3][k % 3] for k in range(n)]
                c = mk_curve(rows)
                ax = plt.figure().add_subplot(1, 1, 1)
                p = curveplot(mk_curve(PTS[2]), axes=ax)
                stat.op(2)
                stat.check(raises(TypeError, curveplot, c, *args, axes=ax, **kw), 'a 3-d curve on 2-d axes accepted')
                stat.check(raises(TypeError, p.curveplot, c, *args, **kw), 'a 3-d curve on 2-d axes accepted')
                stat.check(len(ax.lines) == 1 and not ax.collections, 'something was drawn')
                plt.close('all')
        elif kind == 'normals 3d':
            stat.op()
            stat.check(raises(NotImplementedError, curveplot, mk_curve(PTS[3]), *args, **dict(kw, show_normals=True)), 'normals of a 3-d curve')
        elif kind == 'unknown':
            for nd in (2, 3):
                stat.op()
                stat.check(raises(AttributeError, curveplot, mk_curve(PTS[nd]), param='no_such_parameter'), 'unknown parameter')
        elif kind == 'kwargs':
            # dictionaries of the caller are not changed
            for nd in (2, 3):
                k2 = {'marker': 'o', 'linewidth': 2, 'param': 't'}
                saved = dict(k2)
                p = curveplot(mk_curve(PTS[nd]), **k2)
                stat.op()
                stat.check(k2 == saved, 'keywords have changed')
                plt.close('all')
    finally:
        plt.close('all')


def spaces(tier):
    deep = tier == 'thorough'

    def single():
        for nd in (2, 3):
            for config in (C2 if nd == 2 else C3):
                for n in (1, 2, 3, 4):
                    for w in itertools.product(range(3), repeat=n):
                        if any(a == b for a, b in zip(w, w[1:])):
                            continue
                        if (w[0] == 0 and (n < 4 or w[1] == 1)) or deep:
                            if n == 1 and config in ('chord', 'curvature', 'normals', 'normals-t'):
                                continue
                            rows = [PTS[nd][k] for k in w]
                            for given in (False, True):
                                yield rows, None, 'f8', config, given
                                if n == 3:
                                    yield rows, (1, 2.5, 7), 'f8', config, given
                                    yield rows, None, 'i4', config, given
                            if n in (2, 3):
                                fine = [FINE[nd][k] for k in w]
                                yield fine, None, 'f8', config, n == 2
                                yield fine, (0.1, 1 / 3, 7.000000123456)[:n], 'f8', config, n == 3
                                yield [tuple(v + 1e7 for v in p) for p in fine], None, 'f8', config, n == 3
                if config in ('line', 'fmt', 'kw'):
                    yield [PTS[nd][k % 3] for k in range(200)], None, 'f8', config, True

    def chain():
        for nd, cfg in ((2, ['line', 'fmt', 'chord', 'cmap', 't', 'normals']), (3, ['line', 'fmt', 'chord', 'cmap', 't'])):
            if deep:
                cfg = C2 if nd == 2 else C3
            for n in (2, 3):
                for cs in itertools.product(cfg, repeat=n):
                    for given in (False, True):
                        if deep or n == 2 or given:
                            yield nd, cs, given
    return [
        Space('single', single, run_single, 'all short words of points (with exact and inexact coordinates) x configurations x given or new axes'),
        Space('chain', chain, run_chain, 'all chains of up to 3 plots over the configurations'),
        Space('errors', lambda: [(k, c) for k in ('ndim', '3d on 2d', 'normals 3d', 'unknown', 'kwargs') for c in (C3 if k != 'unknown' else ['line'])], run_errors, 'refusals'),
    ]
