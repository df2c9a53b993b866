# -*- coding: utf-8 -*-
"""C22: the registries of methods as a state machine

The registries cannot be emptied through the public API, hence a case (the first events of a history)
explores all its continuations in a forked process, each history with fresh names.
"""

import itertools
import os
import pickle
import signal
import warnings

import numpy as np

import skcurve
from skcurve import (Curve, Point, Segment, InterpolatorBase, InterpolationError, SmoothingError,
                     IntersectionType, NOT_INTERSECTED, SegmentsIntersection,
                     register_interpolator, interp_methods, get_interpolator,
                     register_smooth_method, smooth_methods, get_smooth_method,
                     register_intersect_method, intersect_methods, get_intersect_method,
                     default_intersect_method, set_default_intersect_method)

from mc.core import Space, Stat, Violation
from mc.lib import lst, raises

TITLE = 'Method registries map each name to exactly what was registered'

ASSUMPTIONS = [
    'histories run in forked processes, one process for a common prefix, with fresh names for each history',
]

BUILTIN = {
    'X': {'exact', 'almost'},
    'P': {'linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps'},
    'S': {'savgol', 'window'},
}

REGISTER = {'X': register_intersect_method, 'P': register_interpolator, 'S': register_smooth_method}
METHODS = {'X': intersect_methods, 'P': interp_methods, 'S': smooth_methods}
OLD = {'X': 'almost', 'P': 'linear', 'S': 'window'}

X_EXACT, X_ALMOST = [type(get_intersect_method(n)) for n in ('exact', 'almost')]
IntersectBase = type(get_intersect_method('exact')).__mro__[1]


def x_class(tag):
    class Method(IntersectBase):
        def __init__(self, p=0):
            self.p = p

        def _intersect_segments(self, segment1, segment2):
            return IntersectionType.EXACT(Point([tag, self.p]))

        def _intersect_curves(self, curve1, curve2):
            info = IntersectionType.EXACT(Point([tag, self.p]))
            return [SegmentsIntersection(curve1[0].segment if False else Segment(curve1[0], curve1[1]),
                                         Segment(curve2[0], curve2[1]), info)] * tag
    return Method


def p_class(tag):
    class Method(InterpolatorBase):
        def __init__(self, curve, p=0):
            super().__init__(curve)
            self.p = p

        def _interpolate(self, grid):
            return np.array([[tag, self.p, k] for k, _ in enumerate(grid)], dtype='f8')
    return Method


def s_func(tag):
    def method(curve, p=0):
        return np.full((curve.size, curve.ndim), tag * 10 + p)
    return method


class SObject:
    """A callable object instead of a function"""

    def __call__(self, curve, p=0):
        return np.full((curve.size, curve.ndim), 20 + p)


IMPLS = {
    'X': {1: x_class(1), 2: x_class(2)},
    'P': {1: p_class(1), 2: p_class(2)},
    'S': {1: s_func(1), 2: SObject()},
}


class NotAMethod:
    def __call__(self, *args, **kwargs):
        return None


BAD = {'X': [NotAMethod, InterpolatorBase, object], 'P': [NotAMethod, IMPLS['X'][1], object]}

SEG1 = Segment(Point([0, 0]), Point([4, 4]))
SEG2 = Segment(Point([0, 4]), Point([4, 0]))
CURVE = Curve(np.array([(0, 0, 0), (1, 2, 3), (4, 4, 4)], dtype='f8'))
CURVE2 = Curve(np.array([(0, 0), (4, 4)], dtype='f8'))
CURVE3 = Curve(np.array([(0, 4), (4, 0)], dtype='f8'))

# ------------------------------------------------------------------------------ events
# ('reg', registry, name, impl, default)   impl: 1, 2 or 'bad0'..'bad2'; name: 'a', 'b', 'old'
# ('set', name)                            name: 'a', 'b', 'exact', 'almost', 'none'
# ('use', registry, name, p)

A_X = ([('reg', 'X', n, i, d) for n in ('a', 'b') for i in (1, 2, 'bad0') for d in (False, True)] +
       [('reg', 'X', 'old', 1, d) for d in (False, True)] +
       [('set', n) for n in ('a', 'b', 'exact', 'almost', 'none')])
A_P = [('reg', 'P', n, i, False) for n in ('a', 'b', 'old') for i in (1, 2, 'bad0')]
A_S = [('reg', 'S', n, i, False) for n in ('a', 'b', 'old') for i in (1, 2)]
A_MIX = ([('reg', r, 'a', i, False) for r in 'XPS' for i in (1, 2)] + [('reg', 'X', 'a', 1, True), ('reg', 'X', 'b', 2, True)] +
         [('reg', 'P', 'a', 'bad1', False), ('reg', 'X', 'a', 'bad1', True), ('set', 'a'), ('set', 'exact'), ('use', 'S', 'a', 1), ('use', 'P', 'a', 2),
          ('use', 'X', 'a', 1)])

_serial = itertools.count()
known = {'X': set(), 'P': set(), 'S': set()}  # registered so far in this process


def use(reg, name, p):
    """('ok', tag, p) or the exception"""
    kw = {} if p is None else {'p': p}
    try:
        if reg == 'X':
            r = SEG1.intersect(SEG2, method=name, **kw)
            return ('ok',) + tuple(lst(r.intersect_point.data))
        if reg == 'P':
            r = CURVE.interpolate(4, method=name, **kw)
            return ('ok',) + tuple(lst(r.data)[0][:2])
        r = CURVE.smooth(name, **kw)
        v = lst(r.data)[0][0]
        return 'ok', v // 10, v % 10
    except (NameError, ValueError, TypeError) as err:
        return type(err).__name__,


class Machine:
    def __init__(self, stat, pending):
        k = next(_serial)
        self.names = {'a': f'a{k}', 'b': f'b{k}', 'none': f'none{k}'}
        self.map = {'X': {}, 'P': {}, 'S': {}}
        self.default = 'exact'
        self.stat = stat
        self.trace = []
        self.pending = pending
        self.decorators = {}
        set_default_intersect_method('exact')
        if pending:  # decorators which were made before the events
            for r in 'XPS':
                for n in ('a', 'b', 'old'):
                    self.decorators[r, n] = REGISTER[r](self.name(r, n))

    def name(self, reg, n):
        return self.names.get(n) or (OLD[reg] if n == 'old' else n)

    def event(self, ev):
        stat = self.stat
        self.trace.append(ev)
        stat.op()
        if ev[0] == 'reg':
            _, r, n, i, default = ev
            name = self.name(r, n)
            impl = BAD[r][int(i[3:])] if isinstance(i, str) else IMPLS[r][i]
            if r == 'X' and default:
                dec = register_intersect_method(name, default=True)
            elif self.pending:
                dec = self.decorators[r, n]
            elif r == 'X':
                dec = register_intersect_method(method=name, default=False)
            else:
                dec = REGISTER[r](method=name)
            try:
                got = 'ok', dec(impl)
            except (ValueError, TypeError) as err:
                got = type(err).__name__, None
            used = n == 'old' or name in self.map[r]
            bad = isinstance(i, str)
            if used and bad:
                stat.check(got[0] in ('ValueError', 'TypeError'), '%s: %s', self.trace, got)
            elif used:
                stat.check(got[0] == 'ValueError', '%s: %s', self.trace, got)
            elif bad:
                stat.check(got[0] == 'TypeError', '%s: %s', self.trace, got)
            else:
                stat.check(got[0] == 'ok' and got[1] is impl, '%s: %s', self.trace, got)
                self.map[r][name] = i
                known[r].add(name)
                if default:
                    self.default = name
            stat.seen(('registered' if got[0] == 'ok' else got[0]) + ' ' + r)
        elif ev[0] == 'set':
            name = self.name('X', ev[1])
            ok = name in self.map['X'] or name in BUILTIN['X']
            try:
                res = set_default_intersect_method(name)
                stat.check(ok and res is None, '%s: unknown default accepted', self.trace)
                self.default = name
            except NameError:
                stat.check(not ok, '%s: known default refused', self.trace)
            stat.seen('default set' if ok else 'default refused')
        else:
            _, r, n, p = ev
            name = self.name(r, n)
            got = use(r, name, p)
            exp = ('ok', self.map[r][name], p) if name in self.map[r] else ('NameError',)
            stat.check(got == exp, '%s: used %s, model %s', self.trace, got, exp)

    def observe(self, regs='XPS'):
        stat = self.stat
        stat.op(6)
        stat.check(default_intersect_method() == self.default, '%s: default %s, model %s', self.trace, default_intersect_method(), self.default)
        for r in 'XPS':
            got = METHODS[r]()
            exp = BUILTIN[r] | known[r]
            stat.check(len(got) == len(exp) and set(got) == exp, '%s: methods %s', self.trace, set(got) ^ exp)
        if 'X' in regs:
            self.observe_x()
        if 'P' in regs:
            for n in ('a', 'b'):
                name = self.names[n]
                i = self.map['P'].get(name)
                try:
                    m = get_interpolator(name, CURVE, p=5)
                    stat.check(i is not None and type(m) is IMPLS['P'][i] and m.p == 5 and m.curve is CURVE, '%s: interpolator %s is %r', self.trace, n, m)
                    stat.check(use('P', name, 1) == ('ok', i, 1), '%s: interpolation by %s', self.trace, n)
                except NameError:
                    stat.check(i is None, '%s: interpolator %s is not found', self.trace, n)
            stat.check(lst(CURVE.interpolate([0, CURVE.t[-1]], 'linear').data)[1] == [4, 4, 4], '%s: linear', self.trace)
        if 'S' in regs:
            for n in ('a', 'b'):
                name = self.names[n]
                i = self.map['S'].get(name)
                try:
                    m = get_smooth_method(name)
                    stat.check(i is not None and m is IMPLS['S'][i], '%s: smoothing method %s is %r', self.trace, n, m)
                    stat.check(use('S', name, 3) == ('ok', i, 3), '%s: smoothing by %s', self.trace, n)
                except NameError:
                    stat.check(i is None, '%s: smoothing method %s is not found', self.trace, n)
            stat.check(lst(CURVE.smooth('window', window_size=1).data) == lst(CURVE.data), '%s: window', self.trace)

    def observe_x(self):
        stat = self.stat
        for n in ('a', 'b'):
            name = self.names[n]
            i = self.map['X'].get(name)
            try:
                m = get_intersect_method(name, p=7)
                stat.check(i is not None and type(m) is IMPLS['X'][i] and m.p == 7, '%s: intersection method %s is %r', self.trace, n, m)
                stat.check(use('X', name, 2) == ('ok', i, 2), '%s: intersection by %s', self.trace, n)
            except NameError:
                stat.check(i is None, '%s: intersection method %s is not found', self.trace, n)
        # the default method is what is used
        i = self.map['X'].get(self.default)
        r = SEG1.intersect(SEG2)
        if i is not None:
            stat.check(lst(r.intersect_point.data) == [i, 0], '%s: default intersection %s', self.trace, r)
            stat.check(lst(SEG1.intersect(SEG2, method=None, p=4).intersect_point.data) == [i, 4], '%s: default intersection with parameters', self.trace)
            stat.check(len(CURVE2.intersect(CURVE3)) == i and len(CURVE2.intersect(SEG2)) == i, '%s: default intersection of curves', self.trace)
        else:
            exp = IntersectionType.EXACT if self.default == 'exact' else IntersectionType.ALMOST
            stat.check(r.intersect_type == exp, '%s: default intersection %s', self.trace, r)
            stat.check([x.intersect_type for x in CURVE2.intersect(CURVE3)] == [exp], '%s: default intersection of curves', self.trace)
        # built-in methods are as before, an instance is used as it is
        stat.check(type(get_intersect_method('exact')) is X_EXACT and type(get_intersect_method('almost')) is X_ALMOST, '%s: built-in methods', self.trace)
        stat.check(lst(SEG1.intersect(SEG2, method=IMPLS['X'][2](9)).intersect_point.data) == [2, 9], '%s: instance', self.trace)

    def key(self):
        n = {v: k for k, v in self.names.items()}
        return repr(({r: {n.get(k, k): v for k, v in m.items()} for r, m in self.map.items()}, n.get(self.default, self.default)))


ALPHABETS = {'X': A_X, 'P': A_P, 'S': A_S, 'mix': A_MIX}


def in_child(stat, func):
    """Runs func(stat) in a forked process, and merges the counters"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            s = Stat()
            try:
                func(s)
                msg = None
            except Violation as err:
                msg = str(err)
            except BaseException as err:
                msg = f'unexpected exception {type(err).__name__}: {err}'
            with os.fdopen(wr, 'wb') as f:
                pickle.dump((msg, s.transitions, s.validated, s.outcomes, s.states), f)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    try:
        with os.fdopen(rd, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        pid = None
    finally:
        if pid is not None:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
    stat.check(bool(data), 'the process ended without a result')
    msg, tr, val, out, states = pickle.loads(data)
    stat.transitions += tr
    stat.validated += val
    stat.outcomes.update(out)
    stat.states |= states
    stat.check(msg is None, '%s', msg)


def run_histories(case, stat):
    alphabet, prefix, depth, pending = case
    alpha = ALPHABETS[alphabet]
    regs = 'XPS' if alphabet == 'mix' else alphabet

    def explore(s):
        for rest in itertools.product(range(len(alpha)), repeat=depth - len(prefix)):
            m = Machine(s, pending)
            for k in tuple(prefix) + rest:
                m.event(alpha[k])
                s.state(m.key())
            m.observe(regs)
            s.seen('histories')
        # observing after each event: once for the prefix itself
        m = Machine(s, pending)
        m.observe()
        for k in prefix:
            m.event(alpha[k])
            m.observe()
    in_child(stat, explore)


# ------------------------------------------------------------------------------ single facts

def run_facts(case, stat):
    kind, = case
    in_child(stat, FACTS[kind])


def fact_names(stat):
    """Any hashable text is a name; names differ in case; nothing is normalised"""
    names = ['', ' ', 'Exact', 'EXACT', 'exact ', 'é', 'a.b', 'x' * 300, 'savgol2', '0']
    for k, n in enumerate(names):
        for r in 'XPS':
            stat.op()
            stat.check(n not in METHODS[r](), 'name %r', n)
            impl = IMPLS[r][1 + k % 2]
            stat.check(REGISTER[r](n)(impl) is impl, 'name %r', n)
            stat.check(n in METHODS[r](), 'name %r is not listed', n)
            stat.check(raises(ValueError, REGISTER[r](n), impl), 'name %r registered again', n)
            stat.check(use(r, n, 3) == ('ok', 1 + k % 2, 3), 'name %r: %s', n, use(r, n, 3))
    for k, n in enumerate(names):
        for r in 'XPS':
            stat.check(use(r, n, 3) == ('ok', 1 + k % 2, 3), 'name %r: %s', n, use(r, n, 3))


def fact_lists(stat):
    for r in 'XPS':
        got = METHODS[r]()
        stat.check(isinstance(got, list) and set(got) == BUILTIN[r] and len(got) == len(BUILTIN[r]), 'methods %s', got)
        got.append('zzz')
        got.remove(OLD[r])
        stat.op()
        stat.check(set(METHODS[r]()) == BUILTIN[r], 'the list is the registry')
    stat.check(default_intersect_method() == 'exact', 'default')


def fact_unknown(stat):
    for n in ('', 'Linear', 'zzz', 'exact', 'window', None, 0, 1.5, ('a',)):
        stat.op(3)
        stat.check(raises(NameError, get_interpolator, n, CURVE) and raises(NameError, CURVE.interpolate, 5, n), 'interpolator %r', n)
    for n in ('', 'Savgol', 'zzz', 'exact', 'linear', None, 0, 1.5, ('a',)):
        stat.check(raises(NameError, get_smooth_method, n) and raises(NameError, CURVE.smooth, n), 'smoothing %r', n)
    for n in ('', 'Exact', 'zzz', 'linear', 'window', None, 0, 1.5, ('a',)):
        stat.check(raises(NameError, get_intersect_method, n), 'intersection %r', n)
        stat.check(raises(NameError, set_default_intersect_method, n), 'default %r', n)
        stat.check(default_intersect_method() == 'exact', 'default has changed')
        if isinstance(n, str):
            stat.check(raises(NameError, SEG1.intersect, SEG2, n) and raises(NameError, CURVE2.intersect, SEG2, n) and
                       raises(NameError, CURVE2.intersect, CURVE3, n), 'intersection %r', n)
        elif n is not None:
            stat.check(raises(ValueError, SEG1.intersect, SEG2, n) and raises(ValueError, CURVE2.intersect, SEG2, n) and
                       raises(ValueError, CURVE2.intersect, CURVE3, n), 'intersection %r', n)
    for m in (IMPLS['X'][1], lambda a, b: NOT_INTERSECTED, NotAMethod()):
        stat.check(raises(ValueError, SEG1.intersect, SEG2, m), 'method %r', m)
    # the empty and the single-point curve too
    for c in (Curve(np.zeros((0, 2))), Curve(np.zeros((1, 2)))):
        stat.check(raises(NameError, c.interpolate, 5, 'zzz') and raises(NameError, c.smooth, 'zzz') and raises(NameError, c.intersect, SEG1, 'zzz'), 'small curve')


def fact_bad(stat):
    for r in 'XP':
        for k, impl in enumerate(BAD[r] + [1, None, 'x', lambda c: c, IMPLS['X'][1](3)]):
            for default in (False, True):
                name = f'bad-{r}-{k}-{default}'
                dec = register_intersect_method(name, default) if r == 'X' else REGISTER[r](name)
                stat.op()
                stat.check(raises(TypeError, dec, impl), '%s: %r registered', r, impl)
                stat.check(name not in METHODS[r]() and default_intersect_method() == 'exact', '%s: %r registered', r, impl)
                good = IMPLS[r][1]
                stat.check(dec(good) is good and name in METHODS[r](), '%s: name cannot be used after a refusal', name)
                set_default_intersect_method('exact')
    # a subclass of a registered class; the same class under two names
    for r in 'XP':
        sub = type('Sub', (IMPLS[r][2],), {})
        REGISTER[r]('sub')(sub)
        REGISTER[r]('sub2')(sub)
        stat.op(2)
        stat.check(use(r, 'sub', 1) == use(r, 'sub2', 1) == ('ok', 2, 1), 'two names')
    stat.check(type(get_intersect_method('sub')) is type(get_intersect_method('sub2')), 'two names')


class Boom(Exception):
    pass


def fact_errors(stat):
    from skcurve._intersect import IntersectionError  # noqa  (not exported by the package)

    for k, exc in enumerate((ValueError, TypeError, Boom, KeyError, ZeroDivisionError, NameError, RuntimeError, IndexError)):
        def smooth(curve, _exc=exc, **kw):
            raise _exc('x')
        register_smooth_method(f'boom{k}')(smooth)
        stat.op(4)
        try:
            CURVE.smooth(f'boom{k}')
            stat.check(False, 'no error')
        except Exception as err:
            if exc in (ValueError, TypeError):
                stat.check(type(err) is exc, 'smoothing %s: %r', exc, err)
            else:
                stat.check(type(err) is SmoothingError and type(err.__cause__) is exc, 'smoothing %s: %r', exc, err)

        class P(InterpolatorBase):
            def _interpolate(self, grid, _exc=exc):
                raise _exc('x')

        class P0(InterpolatorBase):
            def __init__(self, curve, _exc=exc, **kw):
                raise _exc('x')

        class X(IntersectBase):
            def _intersect_segments(self, a, b, _exc=exc):
                raise _exc('x')

            def _intersect_curves(self, a, b, _exc=exc):
                raise _exc('x')
        register_interpolator(f'boom{k}')(P)
        register_interpolator(f'boominit{k}')(P0)
        register_intersect_method(f'boom{k}')(X)
        for name in (f'boom{k}', f'boominit{k}'):
            try:
                CURVE.interpolate(5, name)
                stat.check(False, 'no error')
            except Exception as err:
                stat.check(type(err) is InterpolationError and type(err.__cause__) is exc, 'interpolation %s: %r', exc, err)
        for a, b in ((SEG1, SEG2), (CURVE2, SEG2), (SEG1, CURVE3), (CURVE2, CURVE3)):
            for m in (f'boom{k}', X()):
                try:
                    a.intersect(b, method=m)
                    stat.check(False, 'no error')
                except Exception as err:
                    stat.check(type(err) is IntersectionError and type(err.__cause__) is exc, 'intersection %s: %r', exc, err)


def fact_params(stat):
    """Parameters go to the method as given"""
    got = []

    def smooth(curve, **kw):
        got.append((curve, kw))
        return curve.data

    class P(InterpolatorBase):
        def __init__(self, curve, **kw):
            got.append((curve, kw))
            super().__init__(curve, **kw)

        def _interpolate(self, grid):
            got.append(lst(grid))
            return np.zeros((len(grid), 3))

    class X(IntersectBase):
        def __init__(self, **kw):
            got.append(kw)

        def _intersect_segments(self, a, b):
            got.append((a, b))
            return NOT_INTERSECTED

        def _intersect_curves(self, a, b):
            got.append((a, b))
            return []
    register_smooth_method('par')(smooth)
    register_interpolator('par')(P)
    register_intersect_method('par')(X)
    value = object()
    for kw in ({}, {'p': 1}, {'p': value, 'q': [1], 'z': None}):
        del got[:]
        stat.op(5)
        r = CURVE.smooth('par', **kw)
        stat.check(len(got) == 1 and got[0][0] is CURVE and got[0][1] == kw, 'smoothing %s', got)
        stat.check(r == CURVE and r.dtype == np.float64, 'smoothing result')
        del got[:]
        t = [0.0, CURVE.t[1], CURVE.t[2]]
        for grid, exp in ((3, [0, CURVE.t[2] / 2, CURVE.t[2]]), (t, t), (np.array(t), t)):
            del got[:]
            r = CURVE.interpolate(grid, 'par', **kw)
            stat.check(len(got) == 2 and got[0] == (CURVE, kw) and got[0][0] is CURVE, 'interpolation %s', got)
            stat.check(all(abs(x - y) < 1e-9 for x, y in zip(got[1], exp)) and len(got[1]) == 3, 'grid %s, model %s', got[1], exp)
            stat.check(lst(r.data) == [[0.0] * 3] * 3, 'interpolation result')
        for a, b, res in ((SEG1, SEG2, None), (CURVE2, CURVE3, [])):
            del got[:]
            r = a.intersect(b, method='par', **kw)
            stat.check(len(got) == 2 and got[0] == kw and got[1][0] is a and got[1][1] is b, 'intersection %s', got)
            stat.check(r == [] if res == [] else r.intersect_info is NOT_INTERSECTED and r.segment1 is a and r.segment2 is b and not r, 'intersection result %r', r)
        # an instance: the parameters are ignored with a warning
        m = X()
        del got[:]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            SEG1.intersect(SEG2, method=m, **kw)
        stat.check(len(got) == 1 and got[0][0] is SEG1 and len(w) == (1 if kw else 0) and all('ignored' in str(x.message) for x in w), 'instance %s %s', got, w)


def fact_fresh(stat):
    """Each use makes a new method object; instances do not change the registry"""
    for n in ('exact', 'almost'):
        a, b = get_intersect_method(n), get_intersect_method(n)
        stat.op(2)
        stat.check(a is not b and type(a) is type(b), 'the same object')
    wide = get_intersect_method('almost', dist_tol=5.0)
    s1, s2 = Segment(Point([0, 0, 0]), Point([4, 4, 0])), Segment(Point([0, 4, 1]), Point([4, 0, 1]))
    for _ in range(2):
        stat.check(not s1.intersect(s2, method='almost'), 'almost')
        stat.check(bool(s1.intersect(s2, method=wide)), 'wide')
        stat.check(bool(s1.intersect(s2, method='almost', dist_tol=2.0)), 'wide')
        set_default_intersect_method('almost')
        stat.check(not s1.intersect(s2), 'almost')
        stat.check(bool(s1.intersect(s2, dist_tol=2.0)), 'default with parameters')
        stat.check(not s1.intersect(s2), 'almost')
        set_default_intersect_method('exact')
        stat.check(default_intersect_method() == 'exact', 'default')


FACTS = {k[5:]: v for k, v in list(globals().items()) if k.startswith('fact_')}


def spaces(tier):
    deep = tier == 'thorough'

    def histories(alphabet, depth):
        def gen():
            for pending in (False, True):
                for prefix in itertools.product(range(len(ALPHABETS[alphabet])), repeat=2 if deep else 1):
                    yield alphabet, prefix, depth, pending
        return gen
    dx, dp, ds, dm = (4, 5, 6, 4) if deep else (3, 4, 4, 3)
    return [
        Space('facts', lambda: [(k,) for k in sorted(FACTS)], run_facts, 'names, lists, refusals, errors, parameters'),
        Space('intersect', histories('X', dx), run_histories, 'all histories of %d events over %d events' % (dx, len(A_X))),
        Space('interpolate', histories('P', dp), run_histories, 'all histories of %d events over %d events' % (dp, len(A_P))),
        Space('smooth', histories('S', ds), run_histories, 'all histories of %d events over %d events' % (ds, len(A_S))),
        Space('mixed', histories('mix', dm), run_histories, 'all histories of %d events over %d events of all registries' % (dm, len(A_MIX))),
    ]
