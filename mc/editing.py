# -*- coding: utf-8 -*-
"""Reference model of the curve editing operations: a curve is a plain list of rows

The model knows nothing about numpy broadcasting or the code under test; each operation is a pair
(what the list-of-points model gives, how the real code is called).
"""

import copy

import numpy as np

from mc.lib import Curve, Point, lst, same_rows, near_seq, dist, NAN, INF


class Model:
    """rows: list of lists; t: list or None; ndim; dtype"""

    __slots__ = ('rows', 't', 'ndim', 'dtype')

    def __init__(self, rows, t, ndim, dtype):
        self.rows = [list(r) for r in rows]
        self.t = None if t is None else list(t)
        self.ndim = ndim
        self.dtype = np.dtype(dtype)

    @property
    def n(self):
        return len(self.rows)

    def new(self, rows, t='keep', ndim=None, dtype=None):
        return Model(rows, self.t if t == 'keep' else t, ndim or self.ndim, dtype or self.dtype)

    def take(self, idx):
        return self.new([self.rows[i] for i in idx], None if self.t is None else [self.t[i] for i in idx])

    def build(self):
        data = np.array(self.rows, dtype=self.dtype) if self.rows else np.zeros((0, self.ndim), dtype=self.dtype)
        return Curve(data, tdata=self.t)


class Refuses:
    """The model refuses the operation with one of the exceptions"""

    def __init__(self, *exc):
        self.exc = exc


ROWS = {  # pool of points: distinct, integer-valued (representable in every dtype), with a duplicate (index 4)
    2: [[1, -2], [3, 5], [-4, 6], [7, 0], [3, 5], [2, 2], [9, -7], [0, 1]],
    3: [[1, -2, 3], [3, 5, -1], [-4, 6, 2], [7, 0, 8], [3, 5, -1], [2, 2, 2], [9, -7, 4], [0, 1, 5]],
    4: [[1, -2, 3, 0], [3, 5, -1, 2], [-4, 6, 2, 9], [7, 0, 8, 1], [3, 5, -1, 2], [2, 2, 2, 2], [9, -7, 4, 3],
        [0, 1, 5, -8]],
}
TVALS = [-1.0, 0.5, 2.0, 3.75, 5.0, 8.0, 8.5, 11.0]


FINE = [0.1, 1 / 3, 12345.678901234567, -2e-10, 1 + 2 ** -52, 7e-5, -1e6 / 7, 3e-16]
FINE_T = [-1 / 3, -0.1, 1e-12, 0.3, 0.3 + 2 ** -54, 1.1, 1e6 / 7, 1e6 / 7 + 1e-9]


def fine_rows(n, d):
    """Rows of inexact coordinates; neighbours differ by less than 1e-9 (a rounding error of the values or more),
    the last of eight equals the third"""
    out = []
    for i in range(n):
        r = [FINE[(i // 2 + 3 * k) % 8] for k in range(d)]
        if i % 2:
            r[i // 2 % d] += (1e-10, 5e-13, 2 ** -50, 9e-10)[i // 2 % 4]
        out.append(r if i % 8 < 7 else list(out[2]))
    return out


def big_rows(n, d):
    """n distinct rows with some coordinate collisions, small integers only in part"""
    return [[(i * 7 + 3 * k + (i // 11)) % 101 - 50 + (0 if k else i) for k in range(d)] for i in range(n)]


def new_point(d):
    return [[10, -11, 12, 13][k] for k in range(d)]


def new_rows(d, m=2):
    return [[20 + 10 * j + k for k in range(d)] for j in range(m)]


def _norm_slice(s, n):
    return list(range(n))[s]


def op_insert(m, index, rows):
    """np.insert semantics relative to the original rows"""
    n = m.n
    if isinstance(index, int):
        if not -n <= index <= n:
            return Refuses(IndexError)
        i = index + n if index < 0 else index
        return m.new(m.rows[:i] + rows + m.rows[i:], None)
    if isinstance(index, slice):
        # indices of the points before which the rows are inserted
        idx = _norm_slice(index, n)
    else:
        idx = [int(i) for i in index]
        if any(not -n <= i <= n for i in idx):
            return Refuses(IndexError)
        idx = [i + n if i < 0 else i for i in idx]
    if len(idx) == 1:
        return op_insert(m, idx[0], rows)
    if len(rows) == 1:
        rows = rows * len(idx)
    if len(rows) != len(idx):
        return None  # not claimed
    out = []
    for i in range(n + 1):
        out.extend(rows[k] for k in range(len(idx)) if idx[k] == i)
        if i < n:
            out.append(m.rows[i])
    return m.new(out, None)


def op_delete(m, index):
    n = m.n
    if isinstance(index, int):
        if not -n <= index < n:
            return Refuses(IndexError)
        dead = {index % n}
    elif isinstance(index, slice):
        dead = set(_norm_slice(index, n))
    else:
        if any(not -n <= i < n for i in index):
            return Refuses(IndexError)
        dead = {i % n for i in index}
    return m.take([i for i in range(n) if i not in dead])


def op_unique(m):
    seen = set()
    keep = []
    for i, r in enumerate(m.rows):
        key = tuple(r)
        if key not in seen:
            seen.add(key)
            keep.append(i)
    return m.take(keep)


def op_insertdim(m, axis, values):
    d = m.ndim
    if not -d <= axis <= d:
        return Refuses(IndexError)
    a = axis + d if axis < 0 else axis
    vals = [0] * m.n if values is None else list(values)
    return m.new([r[:a] + [v] + r[a:] for r, v in zip(m.rows, vals)], None, ndim=d + 1)


def op_deletedim(m, index):
    d = m.ndim
    if d == 2:
        return Refuses(ValueError)
    if isinstance(index, int):
        if not -d <= index < d:
            return Refuses(IndexError)
        dead = {index % d}
    elif isinstance(index, slice):
        dead = set(range(d)[index])
    else:
        dead = {i % d for i in index}
    if d - len(dead) < 2:
        return Refuses(ValueError) if m.n else None
    return m.new([[v for k, v in enumerate(r) if k not in dead] for r in m.rows], None, ndim=d - len(dead))


def op_nonsingular(m):
    keep = []
    prev = None
    for i, r in enumerate(m.rows):
        if prev is None or dist(prev, r) > 1e-8:  # no distances near to the tolerance are used
            keep.append(i)
        prev = r
    return m.take(keep)


def op_concat(m, other):
    if m.ndim != other.ndim:
        return Refuses(ValueError)
    t = m.t + other.t if m.t is not None and other.t is not None else None
    return Model(m.rows + other.rows, t, m.ndim, np.result_type(m.dtype, other.dtype))


def op_coorient(m, a1, a2):
    if m.n < 2:
        return m
    b, e = m.rows[0], m.rows[-1]
    det = b[a1] * e[a2] - e[a1] * b[a2]
    if abs(det) <= 1e-9 * abs(b[a1] * e[a2]):
        return None  # not claimed: no orientation
    return m if det > 0 else m.take(range(m.n - 1, -1, -1))


def operations(m, full=True):
    """All (name, expected model | Refuses | None, callable(curve) -> curve) of the alphabet in the state m"""
    n, d = m.n, m.ndim
    ops = []

    def op(name, exp, func):
        if exp is not None:
            ops.append((name, exp, func))

    P = new_point(d)
    K2 = new_rows(d, 2)
    K3 = new_rows(d, 3)

    def pt():
        return Point(P)

    def crv(rows, t=None, dtype='f8'):
        return Curve(np.array(rows, dtype=dtype), tdata=t)

    ints = range(-n - 2, n + 3) if full else sorted({-n - 1, -n, -1, 0, 1, n // 2, n - 1, n, n + 1})
    for i in ints:
        op(f'insert({i},P)', op_insert(m, i, [P]), lambda c, i=i: c.insert(i, pt()))
        op(f'insert({i},K2)', op_insert(m, i, K2), lambda c, i=i: c.insert(i, crv(K2)))
        op(f'delete({i})', op_delete(m, i), lambda c, i=i: c.delete(i))
    op('insert(np.int64(0),P)', op_insert(m, 0, [P]), lambda c: c.insert(np.int64(0), pt()))

    pairs = [[0, 0], [0, n], [n, 0], [0, -1], [-1, 0], [1, 2], [n // 2, n - 1], [-1, -1], [0, n + 1], [-n - 1, 0]]
    if n == 0:
        pairs = [[0, 0]]
    for q in pairs:
        op(f'insert({q},K2)', op_insert(m, q, K2), lambda c, q=q: c.insert(q, crv(K2)))
        op(f'insert({q},P)', op_insert(m, q, [P]), lambda c, q=q: c.insert(np.array(q), pt()))
    if n >= 2:
        for q in ([0, 1, 2], [2, 0, 1], [n, -1, 0], [1, 1, 0]):
            op(f'insert({q},K3)', op_insert(m, q, K3), lambda c, q=q: c.insert(q, crv(K3)))
    for s in (slice(0, 2), slice(None, None, 2), slice(-2, None), slice(1, None, 3)):
        if n:
            op(f'insert({s},P)', op_insert(m, s, [P]) if len(range(n)[s]) else None,
               lambda c, s=s: c.insert(s, pt()))
    op('append(P)', op_insert(m, n, [P]), lambda c: c.append(pt()))
    op('append(K2)', op_insert(m, n, K2), lambda c: c.append(crv(K2)))
    op('append(self)', op_insert(m, n, m.rows), lambda c: c.append(c))
    if n:
        op('append(c[0])', op_insert(m, n, [m.rows[0]]), lambda c: c.append(c[0]))
        op('insert(1,c[-1])', op_insert(m, 1, [m.rows[-1]]), lambda c: c.insert(1, c[-1]))

    # wrong dimension and types
    op('insert(0,P+1)', Refuses(ValueError), lambda c: c.insert(0, Point([0.] * (c.ndim + 1))))
    for k in range(1, d):  # numpy would spread a point of one coordinate over all of the coordinates
        op(f'insert(0,P{k})', Refuses(ValueError), lambda c, k=k: c.insert(0, Point([7.] * k)))
        op(f'append(P{k})', Refuses(ValueError), lambda c, k=k: c.append(Point([0.] * k)))
    op('append(K+1)', Refuses(ValueError), lambda c: c.append(crv(new_rows(c.ndim + 1))))
    op('c+K+1', Refuses(ValueError), lambda c: c + crv(new_rows(c.ndim + 1)))
    op('c+1', Refuses(TypeError), lambda c: c + 1)

    dl = [[0], [-1], [0, 0], [0, -1], [0, n // 2, n - 1]] if n else []
    for q in dl:
        op(f'delete({q})', op_delete(m, q), lambda c, q=q: c.delete(q))
        op(f'delete(np{q})', op_delete(m, q), lambda c, q=q: c.delete(np.array(q)))
    for q in ([n], [-n - 1], [0, n], [n + 2, 0], [-n - 1, -1], [0, 2 * n + 1]):
        op(f'delete({q})', op_delete(m, q), lambda c, q=q: c.delete(list(q)))
        op(f'delete(np{q})', op_delete(m, q), lambda c, q=q: c.delete(np.array(q)))
        op(f'delete(tuple{q})', op_delete(m, q), lambda c, q=q: c.delete(tuple(q)))
        op(f'drop(idx {q})', op_delete(m, q), lambda c, q=q: c.drop(lambda data: np.array(q)))
    if n:
        for q in ([-n], [0, 0, -n], [n - 1, 0, n - 1], list(range(n)), list(range(-n, 0))):
            op(f'delete(long {q})', op_delete(m, q), lambda c, q=q: c.delete(list(q)))
            op(f'delete(long tuple{q})', op_delete(m, q), lambda c, q=q: c.delete(tuple(q)))
            op(f'drop(long idx {q})', op_delete(m, q), lambda c, q=q: c.drop(lambda data: np.array(q)))
        for i in (0, -1, n, -n - 1):
            op(f'delete(np.int64({i}))', op_delete(m, i), lambda c, i=i: c.delete(np.int64(i)))
    op('delete([])', m, lambda c: c.delete([]))
    op('delete(np[])', m, lambda c: c.delete(np.array([], dtype=int)))
    op('drop(np[])', m, lambda c: c.drop(lambda data: np.array([], dtype=int)))

    bounds = (None, 0, 1, 2, -1, -2, n, n + 1, -n - 1) if full else (None, 1, -1)
    for a in bounds:
        for b in bounds:
            for st in ((None, 1, 2, 3, -1, -2) if full else (None, 2, -1)):
                s = slice(a, b, st)
                op(f'[{a}:{b}:{st}]', m.take(_norm_slice(s, n)), lambda c, s=s: c[s])
                if st in (None, 2, -1) and a in (None, 1, -1, 0):
                    op(f'delete({a}:{b}:{st})', op_delete(m, s), lambda c, s=s: c.delete(s))
    if n:
        for q in ([0], [-1], [0, 0], [n - 1, 0], [0, -1, n // 2], [-n], []):
            op(f'[{q}]', m.take(q), lambda c, q=q: c[list(q)] if q else c[np.array([], dtype=int)])
            op(f'[np{q}]', m.take(q), lambda c, q=q: c[np.array(q, dtype=int)])
            op(f'[tuple{q}]', m.take(q), lambda c, q=q: c[tuple(q)] if q else c[np.array([], dtype=int)])
        op(f'[[{n}]]', Refuses(IndexError), lambda c: c[[c.size]])
        op(f'[[{-n - 1}]]', Refuses(IndexError), lambda c: c[[-c.size - 1]])
    for nm, f in (('even', lambda i: i % 2 == 0), ('none', lambda i: False), ('all', lambda i: True),
                  ('last', lambda i: i == n - 1), ('tail', lambda i: i > 0)):
        mask = [f(i) for i in range(n)]
        op(f'[mask {nm}]', m.take([i for i in range(n) if mask[i]]),
           lambda c, mask=mask: c[np.array(mask, dtype=bool)])
        op(f'drop(mask {nm})', m.take([i for i in range(n) if not mask[i]]),
           lambda c, mask=mask: c.drop(lambda data: np.array(mask, dtype=bool)))
        if n:
            op(f'[list mask {nm}]', m.take([i for i in range(n) if mask[i]]), lambda c, mask=mask: c[mask])
            op(f'delete(mask {nm})', m.take([i for i in range(n) if not mask[i]]), lambda c, mask=mask: c.delete(np.array(mask)))
            op(f'delete(list mask {nm})', m.take([i for i in range(n) if not mask[i]]), lambda c, mask=mask: c.delete(mask))
    if n:
        for q in ([0], [0, -1], [n - 1, 0]):
            op(f'drop(idx {q})', op_delete(m, q), lambda c, q=q: c.drop(lambda data: np.array(q)))
        thr = sorted(r[0] for r in m.rows)[n // 2]
        op('drop(any coord > thr)', m.take([i for i in range(n) if not any(v > thr for v in m.rows[i])]),
           lambda c, thr=thr: c.drop(lambda data: data > thr))
        op('drop(last axis > thr)', m.take([i for i in range(n) if not m.rows[i][-1] > thr]),
           lambda c, thr=thr: c.drop(lambda data: data[:, -1] > thr))
    op('drop(notcallable)', Refuses(TypeError), lambda c: c.drop(3))

    op('reverse', m.take(range(n - 1, -1, -1)), lambda c: c.reverse())
    op('unique', op_unique(m), lambda c: c.unique())
    op('nonsingular', op_nonsingular(m), lambda c: c.nonsingular())
    op('copy', m, lambda c: copy.copy(c))
    op('deepcopy', m, lambda c: copy.deepcopy(c))
    op('Curve(c)', m, lambda c: Curve(c))
    op('coorient', op_coorient(m, 0, 1), lambda c: c.coorientplane())
    op('coorient(1,0)', op_coorient(m, 1, 0), lambda c: c.coorientplane(1, 0))
    if d > 2:
        op('coorient(0,2)', op_coorient(m, 0, 2), lambda c: c.coorientplane(0, 2))
        op('coorient(-1,1)', op_coorient(m, d - 1, 1), lambda c: c.coorientplane(-1, 1))

    kt = [100.0, 101.0]
    op('c+c', op_concat(m, m), lambda c: c + c)
    op('c+K2', op_concat(m, Model(K2, None, d, 'f8')), lambda c: c + crv(K2))
    op('c+K2t', op_concat(m, Model(K2, kt, d, 'f8')), lambda c: c + crv(K2, kt))
    op('K2t+c', op_concat(Model(K2, kt, d, 'i4'), m), lambda c: crv(K2, kt, 'i4') + c)
    op('c+empty', op_concat(m, Model([], None, d, 'f8')), lambda c: c + Curve([], ndmin=c.ndim))

    if n:
        for i in sorted({0, 1, n - 1, n // 2} & set(range(n))):
            for j in sorted({0, n - 1, n // 2} & set(range(n))):
                for e in (True, False):
                    op(f'subcurve({i},{j},{e})', m.take(list(range(i, j + (1 if e else 0)))),
                       lambda c, i=i, j=j, e=e: c[i].subcurve(c[j], endpoint=e))
        op('subcurve(-1)', m.take(list(range(0, n))), lambda c: c[-c.size].subcurve(c[-1]))

    vals = [3 * i - 1 for i in range(n)]
    for a in range(-d - 1, d + 2):
        op(f'insertdim({a})', op_insertdim(m, a, None), lambda c, a=a: c.insertdim(a))
        op(f'insertdim({a},vals)', op_insertdim(m, a, vals), lambda c, a=a: c.insertdim(a, vals))
        op(f'deletedim({a})', op_deletedim(m, a), lambda c, a=a: c.deletedim(a))
    op('appenddim', op_insertdim(m, d, None), lambda c: c.appenddim())
    op('appenddim(vals)', op_insertdim(m, d, vals), lambda c: c.appenddim(np.array(vals)))
    if n >= 2:
        op('insertdim(bad size)', Refuses(ValueError), lambda c: c.insertdim(0, [1] * (c.size + 1)))
    for q in ([0], [-1], [0, -1], [0, 1]):
        op(f'deletedim({q})', op_deletedim(m, q), lambda c, q=q: c.deletedim(q))
    op('deletedim(0:1)', op_deletedim(m, slice(0, 1)), lambda c: c.deletedim(slice(0, 1)))
    return ops


# the part of the alphabet with which deeper histories are built
CORE = ('insert(1,P)', 'insert(-1,K2)', 'insert([0, -1],K2)', 'append(P)', 'delete(0)', 'delete(-1)', 'delete([0, -1])',
        'delete(1:None:2)', '[1:None:None]', '[None:None:-1]', '[None:-1:None]', '[[0, -1, 1]]', '[mask even]',
        'drop(mask last)', 'reverse', 'unique', 'c+c', 'c+K2t', 'insertdim(0,vals)', 'appenddim',
        'deletedim(0)', 'Curve(c)', 'nonsingular', 'subcurve(-1)')


def verify(m, c, stat, what, path):
    """Compares the real curve c with the model m"""
    if what == 'data':
        stat.check(isinstance(c, Curve), '%s: not a curve but %s', path, type(c))
        stat.check(c.size == m.n and len(c) == m.n, '%s: size %s, model %s', path, c.size, m.n)
        stat.check(c.ndim == m.ndim, '%s: dimension %s, model %s', path, c.ndim, m.ndim)
        stat.check(c.dtype == m.dtype, '%s: dtype %s, model %s', path, c.dtype, m.dtype)
        got = c.data.tolist()
        if not same_rows(got, m.rows):
            stat.check(False, '%s: points %s, model %s', path, got[:12], m.rows[:12])
        stat.validated += 1
    else:
        stat.check(c.isparametric == (m.t is not None), '%s: isparametric %s, model %s', path, c.isparametric,
                   m.t is not None)
        got = c.t.tolist()
        if m.t is not None:
            stat.check(got == m.t, '%s: t %s, model %s', path, got[:12], m.t[:12])
        else:
            exp = []
            acc = 0.0
            for i, r in enumerate(m.rows):
                acc += dist(m.rows[i - 1], r) if i else 0.0
                exp.append(acc)
            tol = {'f4': 1e-3, 'f2': 1e-1}.get(m.dtype.str[1:], 1e-9)
            stat.check(near_seq(got, exp, rtol=tol, atol=tol), '%s: t of non-parametric %s, cumulative length %s',
                       path, got[:12], exp[:12])
        if m.n:
            k = m.n // 2
            stat.check(c[k].t == got[k] and c[-1].t == got[-1], '%s: t of the points differs from t of the curve', path)


def step(m, c, name, exp, func, stat, what, path):
    """One transition; returns (model, curve) or None when refused"""
    path = f'{path} . {name}'
    stat.op()
    try:
        res = func(c)
    except Exception as err:
        if isinstance(exp, Refuses) and isinstance(err, exp.exc):
            stat.validated += 1
            stat.seen('refused ' + type(err).__name__)
            return None
        stat.check(False, '%s: raised %s: %s%s', path, type(err).__name__, err,
                   ' (the model refuses with %s)' % (exp.exc,) if isinstance(exp, Refuses) else '')
    if isinstance(exp, Refuses):
        stat.check(False, '%s: gave %r, the model refuses with %s', path, res, exp.exc)
    verify(exp, res, stat, what, path)
    stat.state((tuple(map(tuple, exp.rows)), exp.t and tuple(exp.t), exp.ndim, exp.dtype.str))
    stat.seen(f'n={exp.n} d={exp.ndim} t={exp.t is not None}' if exp.n < 9 else 'n>=9')
    return exp, res


def start_models(sizes, dims, dtypes):
    for n in sizes:
        for d in dims:
            for dt in dtypes:
                for par in (False, True):
                    yield (n, d, dt, par)


def make(n, d, dt, par):
    if dt == 'fine':
        m = Model(fine_rows(n, d), [FINE_T[i % 8] + 1e6 * (i // 8) for i in range(n)] if par else None, d, 'f8')
        return m, m.build()
    rows = ROWS[d][:n] if n <= 8 else big_rows(n, d)
    t = (TVALS[:n] if n <= 8 else [0.25 * i * i - 3 for i in range(n)]) if par else None
    m = Model(rows, t, d, dt)
    return m, m.build()


def explore_case(case, stat, what, first=None):
    """case = (n, d, dtype, parametric, depth, part, parts): every history of the depth whose first operation
    belongs to the part"""
    n, d, dt, par, depth, part, parts = case
    m, c = make(n, d, dt, par)
    path = f'n={n} d={d} {dt} par={par}'
    verify(m, c, stat, what, path)

    def go(m, c, k, path, top):
        ops = operations(m, full=top or m.n <= 4)
        if top:
            if first is not None:
                ops = [op for op in ops if op[0] in first]
            if k > 1:
                ops = [op for op in ops if not isinstance(op[1], Refuses)]
            ops = ops[part::parts]
        elif k > 1:
            ops = [op for op in ops if op[0] in CORE]
        for name, exp, func in ops:
            r = step(m, c, name, exp, func, stat, what, path)
            if r is not None and k > 1:
                go(r[0], r[1], k - 1, path + ' . ' + name, False)
        # the object which was operated on is still what the model says
        verify(m, c, stat, what, path + ' afterwards')

    go(m, c, depth, path, True)


def case_space(sizes, dims, dtypes, depth, parts):
    def cases():
        for n, d, dt, par in start_models(sizes, dims, dtypes):
            for part in range(parts):
                yield (n, d, dt, par, depth, part, parts)
    return cases
