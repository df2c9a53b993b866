# -*- coding: utf-8 -*-
from mc.core import Space
from mc import editing as E
from mc.lib import LADDER, LADDER_SHORT

TITLE = 'Editing operations behave as the same edits on a list of points'
WHAT = 'data'
ASSUMPTIONS = ['inserted values are representable in the dtype of the curve (integer-valued alphabets)',
               'multi-index insertion is specified relative to the original indices (as documented for numpy.insert)']


def make_spaces(tier, what):
    core = set(E.CORE)

    def run(case, stat):
        E.explore_case(case, stat, what)

    def run_core(case, stat):
        E.explore_case(case, stat, what, core)

    def run_big(case, stat):
        n, d, dt, par = case
        m, c = E.make(n, d, dt, par)
        for name, exp, func in E.operations(m, full=False):
            E.step(m, c, name, exp, func, stat, what, f'n={n} d={d} {dt} par={par}')
        E.verify(m, c, stat, what, 'afterwards')

    deep = tier == 'thorough'
    out = [
        Space('single', E.case_space(range(0, 7), (2, 3, 4), ('f8', 'f4', 'i8', 'i4', 'i2'), 1, 1), run,
              'every operation of the alphabet on curves of 0-6 points, 2-4 dimensions, 5 dtypes, parametric or not'),
        Space('fine', E.case_space((2, 3, 5, 8), (2, 3, 4) if deep else (2, 3), ('fine',), 1, 1), run,
              'every operation on curves whose points and parameters differ by rounding errors or 1e-9 only'),
        Space('pairs', E.case_space((0, 1, 2, 3, 4) if deep else (0, 1, 3), (2, 3), ('f8', 'i4'), 2, 12),
              run if deep else run_core,
              'every history of two operations from curves of 0-4 points (the first one of the core alphabet when quick)'),
        Space('sizes', lambda: [(n, d, dt, par) for n in (LADDER if deep else LADDER_SHORT)
                                for d, dt in ((2, 'f8'), (3, 'i8'), (4, 'f4'), (2, 'fine')) for par in (False, True)], run_big,
              'the alphabet on a ladder of sizes up to 1025 points'),
    ]
    if deep:
        out.append(Space('triples', E.case_space((1, 2, 3), (2, 3), ('f8',), 3, 24), run_core,
                         'every history core . core . any operation'))
    return out


def spaces(tier):
    return make_spaces(tier, WHAT)
