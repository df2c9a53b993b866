# -*- coding: utf-8 -*-
from mc.checks import c02

TITLE = 'The parametrization travels with its points'
ASSUMPTIONS = c02.ASSUMPTIONS


def spaces(tier):
    return c02.make_spaces(tier, 't')
