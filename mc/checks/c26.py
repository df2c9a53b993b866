# -*- coding: utf-8 -*-
"""C26: shared immutable objects used by several threads: every interleaving gives the sequential results

Two (three) threads execute operations on shared objects under a controlled scheduler: exactly one thread runs, and
the scheduler decides at every executed line of the package (and of ``cached_property``) which one goes on. All
schedules up to a bound of preemptions are executed.
"""

import os
import sys
import _thread
import warnings

import numpy as np

import cached_property as cached_property_module
import skcurve
from skcurve import Curve, Point, Segment, UniformInterpolationGrid as UG, UniformExtrapolationGrid as EG, PreservedSpeedInterpolationGrid as PG
from skcurve import curves as generators

from mc.core import Space
from mc.checks.c23 import canon, same

TITLE = 'Threads that share curves get the values of sequential use, in every interleaving'

ASSUMPTIONS = [
    'the units of interleaving are executed lines of the package and of cached_property (numpy and scipy calls are atomic)',
    'preemptions are bounded: one for all pairs of operations, two for the pairs of short operations',
]

TRACED = (os.path.dirname(os.path.abspath(skcurve.__file__)) + os.sep, os.path.abspath(cached_property_module.__file__))
BLOCKED_S = 2.0
PART = 40


class World:
    """Shared objects (nothing of them is computed yet)"""

    def __init__(self, kind=''):
        if kind:
            self.others()
            if kind == '^':
                self.cut()
            return
        self.o = World('~')
        self.m = World('^')
        self.a = Curve(np.array([(0, 0), (3, 1), (4, 4), (1, 3)], dtype='f8'))
        self.b = Curve(np.array([(0, 1), (2, 4), (4, 0)], dtype='f8'), tdata=[0, 1, 2.5])
        self.c = Curve(np.array([(0, 0, 0), (1, 2, 1), (3, 2, 5), (4, 0, 4), (2, 2, 2)], dtype='f8'))
        self.d = Curve(np.array([(0, 0, 1), (0, 0, 1), (1, 5, 1), (3, 3, 3)], dtype='i4'))
        self.s = Segment(Point([0, 0]), Point([4, 4]))
        self.r = Segment(Point([0, 4]), Point([4, 0]))
        self.u = Segment(Point([0, 0, 0]), Point([4, 4, 0]))
        self.v = Segment(Point([0, 4, 1]), Point([4, 0, 1]))
        self.p = Point([1, 2])
        self.tol, self.n, self.win, self.order, self.metric, self.bc, self.mode = 2.0, 5, 3, 2, 'cityblock', 'natural', 'wrap'
        self.parts()

    def others(self):
        """Objects of the same shapes with other values"""
        self.a = Curve(np.array([(0, 0), (1, 2), (5, 4), (2, 6)], dtype='f8'))
        self.b = Curve(np.array([(0, 3), (3, 1), (4, 5)], dtype='f8'), tdata=[0, 1.5, 2])
        self.c = Curve(np.array([(0, 1, 0), (2, 2, 2), (1, 2, 7), (4, 1, 4), (2, 2, 2)], dtype='f8'))
        self.d = Curve(np.array([(0, 2, 1), (3, 0, 1), (3, 0, 1), (3, 3, 9)], dtype='i4'))
        self.s = Segment(Point([0, 1]), Point([4, 3]))
        self.r = Segment(Point([1, 4]), Point([3, 0]))
        self.u = Segment(Point([0, 1, 0]), Point([4, 3, 0]))
        self.v = Segment(Point([0, 4, 1]), Point([3, 0, 1]))
        self.p = Point([3, 5])
        self.tol, self.n, self.win, self.order, self.metric, self.bc, self.mode = 0.25, 4, 4, 1, 'sqeuclidean', 'clamped', 'nearest'
        self.parts()

    def cut(self):
        """Shorter curves and other dtypes"""
        self.a, self.b, self.c, self.d = self.a[:2], self.b[1:], self.c[:2], self.d[:2]
        self.s, self.r = Segment(Point([0, 1], dtype='i4'), Point([4, 3], dtype='i4')), Segment(Point([9, 9]), Point([9, 9]))
        self.cp = self.c[1]
        self.cs = self.c.segments[0]
        self.sub = self.c[1:]

    def parts(self):
        self.cp = self.c[2]
        self.cs = self.c.segments[1]
        self.sub = self.c[1:]


OPS = {}
SHORT = []
add = OPS.__setitem__

for _n in ('t', 'chordlen', 'arclen', 'cumarclen', 'segments', 'speed', 'firstderiv', 'secondderiv', 'thirdderiv', 'frenet1', 'frenet2', 'frenet3', 'tangent', 'normal',
           'binormal', 'curvature', 'torsion', 'coorientplane', 'isplane'):
    if hasattr(Curve, _n) and not callable(getattr(Curve, _n)):
        add('c.' + _n, (lambda w: list(w.c.segments)) if _n == 'segments' else (lambda w, _n=_n: getattr(w.c, _n)))
        SHORT.append('c.' + _n)
for _n in ('curvature', 't', 'chordlen'):
    add('a.' + _n, lambda w, _n=_n: getattr(w.a, _n))
for _n in ('curvature', 'torsion', 'speed', 'frenet3', 't', 'cumarclen'):
    add('point.' + _n, lambda w, _n=_n: getattr(w.cp, _n))
add('d.curvature', lambda w: w.d.curvature)
add('sub.torsion', lambda w: w.sub.torsion)
add('segment.chordlen', lambda w: [w.cs.chordlen, w.cs.seglen, w.cs.direction, w.cs.data])
add('points', lambda w: [[p, p.t, p.curvature] for p in w.b])
add('segs', lambda w: [s.seglen for s in w.c.segments])
add('getitem', lambda w: [w.a[1], w.b[1:], w.c[::-1]])
add('eq', lambda w: [w.a == w.a[:], w.p in w.a, w.s == w.r])
add('index', lambda w: [w.a.index(Point([4, 4])), w.c.count(Point([2, 2, 2]))])
add('insert', lambda w: [w.b.insert(1, w.p), w.a.append(w.p)])
add('delete', lambda w: [w.b.delete(1), w.a.reverse()])
add('concat', lambda w: w.a + w.b)
add('unique', lambda w: w.d.unique())
add('nonsingular', lambda w: w.d.nonsingular())
add('build', lambda w: [Curve([[1, 2, 3], [4, 5, 6]]), Point([1, 2]), Curve(w.a)])
add('linear', lambda w: w.a.interpolate(w.n, 'linear'))
add('cubic', lambda w: w.b.interpolate([0, 1, 2], 'cubic', bc_type=w.bc))
add('hermite', lambda w: w.c.interpolate(w.n, 'hermite'))
add('spline', lambda w: w.c.interpolate(w.n, 'spline', k=w.order))
add('grid', lambda w: [UG(w.n)(w.a), EG(UG(w.n), 1, w.order)(w.c)])
add('speedgrid', lambda w: PG(w.n)(w.c))
add('window', lambda w: w.a.smooth('window', window_size=w.win, mode=w.mode))
add('savgol', lambda w: w.c.smooth('savgol', window_length=5, polyorder=w.order, mode=w.mode))
add('int-segment', lambda w: w.s.intersect(w.r))
add('int-overlap', lambda w: w.s.intersect(w.s))
add('int-curve', lambda w: w.a[1:3].intersect(w.b[:2]))
add('int-self', lambda w: w.d.intersect(method='exact', feps=1e-9 * w.n))
add('almost-segment', lambda w: w.u.intersect(w.v, method='almost', dist_tol=w.tol))
add('almost-curve', lambda w: w.a[:2].intersect(w.b, method='almost', dist_tol=w.tol / 4))
add('predicates', lambda w: [w.s.parallel(w.r), w.s.collinear(w.p), w.u.coplanar(w.v), w.s.angle(w.r, ndigits=w.order)])
add('segpoint', lambda w: [w.s.point([0.25, 0.5]), w.s.t(Point([1, 1])), w.s.overlap(Segment(Point([1, 1]), Point([5, 5])))])
add('shortest', lambda w: [w.u.shortest_segment(w.v), w.s.distance(w.p)])
add('arith', lambda w: [w.p + 1, 2 * w.p, w.p @ w.p, w.p.norm, w.p.distance(Point([3, 4]), w.metric)])
add('repr', lambda w: [repr(w.a), repr(w.p), repr(w.s)])
add('arc', lambda w: generators.arc(r=w.tol, p_count=4))

NAMES = list(OPS)
SHORT += ['point.curvature', 'point.t', 'segment.chordlen', 'a.curvature', 'arith']


def evaluate(name, w):
    try:
        # "~name" acts on the other objects, "^name" on the shorter ones
        return 'ok', canon(OPS[name.lstrip('~^')](w.o if name[0] == '~' else w.m if name[0] == '^' else w))
    except Exception as err:
        return 'raise', f'{type(err).__name__}: {err}'


def locked():
    lock = _thread.allocate_lock()
    lock.acquire()
    return lock


def release(lock):
    if lock.locked():
        lock.release()


class Scheduler:
    """Runs threads one at a time; ``plan`` is a list of (thread, number of lines or None: until its end)"""

    def __init__(self, programs, plan, world):
        self.world = world
        self.programs = programs
        self.n = len(programs)
        self.plan = list(plan)
        self.locks = [locked() for _ in programs]
        self.steps = [0] * self.n
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.left = None
        self.switched = 0
        self.finished = [locked() for _ in programs]
        self.blocked = False

    def choose(self):
        """The next thread of the plan which is not finished"""
        while self.plan:
            k, count = self.plan.pop(0)
            if not self.done[k]:
                self.left = count
                return k
        for k in range(self.n):
            if not self.done[k]:
                self.left = None
                return k
        return None

    def wait(self, me):
        while not self.locks[me].acquire(True, BLOCKED_S):
            # the running thread waits for something (a lock which is held by this one): let this one go on
            seen = list(self.steps)
            if self.locks[me].acquire(True, BLOCKED_S):
                return
            if seen == self.steps:
                self.blocked = True
                return

    def line(self, me):
        self.steps[me] += 1
        if self.blocked or self.left is None:
            return
        if self.left > 0:
            self.left -= 1
            return
        other = self.choose()
        if other is None or other == me:
            return
        self.switched += 1
        release(self.locks[other])
        self.wait(me)

    def body(self, me):
        def local(frame, event, arg):
            if event == 'line':
                self.line(me)
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(TRACED):
                return local
            return None

        self.wait(me)
        sys.settrace(tracer)
        try:
            self.results[me] = [evaluate(name, self.world) for name in self.programs[me]]
        except BaseException as err:
            self.results[me] = [('raise', f'{type(err).__name__}: {err}')]
        finally:
            sys.settrace(None)
            self.done[me] = True
            other = self.choose()
            if other is not None:
                release(self.locks[other])
            release(self.finished[me])

    def run(self):
        for k in range(self.n):
            _thread.start_new_thread(self.body, (k,))
        release(self.locks[self.choose()])
        for lock in self.finished:
            lock.acquire()
        return self.results


_solo = {}


def solo(program):
    """Sequential values of a program on new objects, and the number of its lines"""
    if program not in _solo:
        sch = Scheduler([program], [(0, None)], World())
        res = canon(sch.run()[0])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            w = World()
            plain = canon([evaluate(n, w) for n in program])
        assert same(res, plain), (program, res, plain)
        _solo[program] = res, sch.steps[0]
    return _solo[program]


def judge(programs, plan, stat, again=True):
    w = World()
    sch = Scheduler(programs, plan, w)
    res = sch.run()
    stat.op(sum(len(p) for p in programs))
    for prog, r in zip(programs, res):
        exp = solo(prog)[0]
        stat.check(same(canon(r), exp), '%s, schedule %s: a thread got %s, sequential value %s', programs, plan, canon(r), exp)
    if again:
        for prog in programs:
            exp = solo(prog)[0]
            got = canon([evaluate(n, w) for n in prog])
            stat.check(same(got, exp), '%s after schedule %s of %s: %s, sequential value %s', prog, plan, programs, got, exp)
    return sch


def run_one(case, stat):
    """All schedules with one preemption of the first thread"""
    first, second, part = case
    programs = tuple((x,) if isinstance(x, str) else tuple(x) for x in (first, second))
    lines = solo(programs[0])[1]
    twins = programs[0][0][0] in '~^' or programs[1][0][0] in '~^'
    for i in range(part * PART, min(lines + 1, part * PART + PART)):
        sch = judge(programs, [(0, i), (1, None), (0, None)], stat, again=not twins)
        stat.state((case, i))
        stat.seen('preempted' if sch.switched else 'one after another')


def run_two(case, stat):
    """All schedules with two preemptions: i lines of the first, j lines of the second, the rest of the first, the rest of the second"""
    a, b = case
    programs = (a,), (b,)
    na = solo(programs[0])[1]
    nb = solo(programs[1])[1]
    for i in range(1, na + 1):
        for j in range(nb + 1):
            sch = judge(programs, [(0, i), (1, j), (0, None), (1, None)], stat)
            stat.state((case, i, j))
            stat.seen(f'{sch.switched} preemptions')


def run_three(case, stat):
    """Three threads: the first is preempted by the second, which is preempted by the third"""
    programs = tuple((x,) for x in case)
    na, nb = (solo(p)[1] for p in programs[:2])
    for i in range(0, na + 1):
        for j in range(0, nb + 1, max(1, nb // 8)):
            judge(programs, [(0, i), (1, j), (2, None), (0, None), (1, None)], stat, again=False)
            stat.state((case, i, j))
            stat.seen('three threads')


def spaces(tier):
    deep = tier == 'thorough'
    size = {x: solo((x,))[1] for n in NAMES for x in (n, '~' + n, '^' + n)}
    limit = 10 ** 9 if deep else 700
    cap = 4000 if deep else 300
    small = [n for n in SHORT if n in size]

    def one():
        for a in NAMES:
            partners = [a, '~' + a, '^' + a] + [b for b in NAMES if b != a and (
                deep or (a in small and b in ('c.torsion', 'c.curvature', 'point.torsion', 'c.normal', 'c.t')) or (a[0] == b[0] == 'c' and size[a] <= 30 and '.' in a + b))]
            for b in partners:
                for x, y in ((a, b), (b, a)) if b[0] in '~^' else ((a, b),):
                    if size[x] <= limit:
                        for k in range(size[x] // PART + 1):
                            yield x, y, k

    def two():
        for a in small:
            for b in small:
                if size[a] * size[b] <= cap:
                    yield a, b

    def three():
        for a in small:
            for b in small:
                for c in ('c.curvature', 'c.torsion', 'point.curvature'):
                    if size[a] * min(size[b], 8) <= (2000 if deep else 100):
                        yield a, b, c

    def sequences():
        for a in small:
            for b in small:
                for c in ('c.torsion', 'c.curvature', 'c.binormal') if deep else ('c.torsion',):
                    if a != b and size[a] + size[b] <= (400 if deep else 40):
                        for k in range((size[a] + size[b]) // PART + 1):
                            yield (a, b), (c, a), k
    return [
        Space('one', one, run_one, 'pairs of %d operations on shared objects, all schedules with one preemption' % len(NAMES)),
        Space('two', two, run_two, 'pairs of short operations (product of lines up to %d), all schedules with two preemptions' % cap),
        Space('three', three, run_three, 'triples of short operations, nested preemptions'),
        Space('sequences', sequences, run_one, 'pairs of sequences of two reads, all schedules with one preemption'),
    ]
