# encoding: utf-8
"""C26: invalid requests are refused and leave everything unchanged"""
from __future__ import division

import os
import tempfile

import numpy as np

import mpnum as mp
import mpnum.factory as factory
import mpnum.linalg as linalg
import mpnum.mpsmpo as mpsmpo
import mpnum.povm as mpp
from mpnum import special
from mpnum.mpstruct import LocalTensors
from mpnum.utils import extmath, physics, pmf
from mpnum.utils.array_transforms import global_to_local, local_to_global

from ..engine import Sub
from ..gen import own_canonicalize, rs
from ..oracle import (check_struct, ensure, fscale, snapshot, unchanged,
                      unchanged_tensor)

RULE = """Requests to the public functions which are invalid for one randomly
chosen reason (number of sites or legs, dimensions, positions, orders, unknown
names, contradictory or missing options, values out of range, local tensors with
inconsistent virtual legs, samples or weights of the wrong shape), with operands of
random length, dimensions, rank, dtype and canonical form.  Oracle: an exception
is raised; all operands are bit-wise what they were (functions documented to
canonicalize their operand: represent the same tensor, with true canonical form)
and still usable.  Non-trivial: every case with an operand."""


class Env(object):
    """Operands of one case; remembers them for the final comparison"""

    def __init__(self, spec):
        self.s = spec
        self.r = rs(spec['seed'])
        self.n, self.d, self.D = spec['n'], spec['d'], spec['D']
        self.made = []
        self.weak = False

    def mpa(self, n=None, d=None, legs=1, D=None, dims=None, watch=True):
        r = self.r
        n = self.n if n is None else n
        d = self.d if d is None else d
        D = self.D if D is None else D
        dims = dims or [(d,) * legs] * n
        rk = [1] + [D] * (n - 1) + [1]
        cplx = self.s['cplx']
        lts = [(r.randn(rk[i], *(tuple(dims[i]) + (rk[i + 1],))) +
                (1j * r.randn(rk[i], *(tuple(dims[i]) + (rk[i + 1],)))
                 if cplx else 0)) for i in range(n)]
        if self.s['cf'] and n > 1:
            l = self.s['cf'][0] % n
            rr = min(n, l + 1 + self.s['cf'][1] % n)
            lts = own_canonicalize(lts, l, rr)
            out = mp.MPArray(LocalTensors(lts, cform=(l, rr)))
        else:
            out = mp.MPArray(lts)
        if watch:
            self.made.append((out, snapshot(out)))
        return out

    def other_n(self, lo=1):
        """Another number of sites"""
        opts = [k for k in (self.n - 1, self.n + 1, self.n + 2, 1)
                if k >= lo and k != self.n]
        return self.pick(opts)

    def pick(self, opts):
        return opts[self.r.randint(len(opts))]

    def site(self, n=None):
        return self.r.randint(n or self.n)

    def odd_dims(self, legs=1):
        """Physical shape which differs at one site"""
        dims = [[self.d] * legs for _ in range(self.n)]
        i = self.site()
        j = self.r.randint(legs)
        if self.d > 1 and self.r.rand() < .4:
            # (numpy would broadcast)
            dims[i][j] = 1
        else:
            dims[i][j] += 1 + self.r.randint(2)
        return [tuple(x) for x in dims]

    def odd_legs(self, legs=1):
        """Physical shape with another number of legs at one site"""
        dims = [[self.d] * legs for _ in range(self.n)]
        i = self.site()
        dims[i] = dims[i][1:] if self.r.rand() < .5 else dims[i] + [self.d]
        return [tuple(x) for x in dims]

    def out_of_range(self, n):
        return self.pick([n, n + 1, n + 7, -n - 1, -n - 5])


OPS = {}


def op(fn):
    OPS[fn.__name__] = fn
    return fn


# --- construction and local tensors

@op
def ctor(e):
    k = e.pick(['vleg', 'empty', 'cform'])
    if k == 'empty':
        return lambda: mp.MPArray([])
    n = e.n + 1
    lts = [e.r.rand(1 if i == 0 else 3, 2, 1 if i == n - 1 else 3)
           for i in range(n)]
    if k == 'vleg':
        i = e.site(n - 1)
        lts[i] = e.r.rand(lts[i].shape[0], 2, e.pick([2, 4, 1]))
        return lambda: mp.MPArray(lts)
    cf = e.pick([(n, n), (-1, n), (0, n + 1), (n + 2, None), (0, -1)])
    return lambda: mp.MPArray(LocalTensors(lts, cform=cf))


@op
def update(e):
    a = e.mpa()
    how = e.pick(['left', 'right', 'index', 'ndim'])
    i = e.site()
    s = list(a.lt[i].shape)
    if how == 'left':
        s[0] += 1
    elif how == 'right':
        s[-1] += 2
    elif how == 'ndim':
        return lambda: a.lt.update(i, e.r.rand(3))
    else:
        i = e.out_of_range(e.n)
    t = e.r.rand(*s)
    c = e.pick([None, 'left', 'right'])
    if e.r.rand() < .5:
        return lambda: a.lt.update(i, t, canonicalization=c)
    return lambda: a.lt.__setitem__(i, t)


@op
def update_slice(e):
    n = e.n + 2
    a = e.mpa(n)
    i = e.site(n - 1)
    j = i + 2 + e.site(n - 1 - i)
    lts = [e.r.rand(*t.shape) for t in a.lt[i:j]]
    how = e.pick(['few', 'many', 'left', 'right', 'inner', 'none', 'claims'])
    if how == 'claims':
        c = [None] * e.pick([k for k in (1, j - i - 1, j - i + 1)
                             if k != j - i])
        return lambda: a.lt.update(slice(i, j), lts, canonicalization=c)
    if how == 'few':
        # a shorter list with consistent virtual legs
        lts = lts[:-1]
        s = lts[-1].shape
        lts[-1] = e.r.rand(*(s[:-1] + (a.lt[j - 1].shape[-1],)))
    elif how == 'many':
        k = lts[-1].shape[-1]
        lts = lts + [e.r.rand(k, 2, k)]
    elif how == 'none':
        lts = []
    else:
        k = {'left': 0, 'right': len(lts) - 1, 'inner': 0}[how]
        s = list(lts[k].shape)
        s[0 if how == 'left' else -1] += 1
        lts[k] = e.r.rand(*s)
    if e.r.rand() < .5:
        return lambda: a.lt.update(slice(i, j), lts)
    return lambda: a.lt.__setitem__(slice(i, j), lts)


@op
def lt_index(e):
    a = e.mpa()
    i = e.out_of_range(e.n)
    return lambda: a.lt[i]


@op
def write_lt(e):
    a = e.mpa()
    i = e.site()
    how = e.pick(['item', 'iter', 'iadd', 'slice'])

    def go():
        if how == 'item':
            a.lt[i][...] = 0
        elif how == 'iter':
            list(a.lt)[i][...] = 0
        elif how == 'iadd':
            t = a.lt[i]
            t += 1
        else:
            list(a.lt[i:i + 1])[0][...] = 0
    return go


# --- arithmetic

def bad_partner(e, legs=1):
    """An MPA which does not match mpa(legs=legs)"""
    how = e.pick(['n', 'dims', 'dims', 'legs', 'onelegs'])
    if how == 'onelegs':
        return e.mpa(dims=e.odd_legs(legs))
    if how == 'n':
        return e.mpa(e.other_n(), legs=legs)
    if how == 'legs':
        return e.mpa(legs=legs + 1, d=2 if e.d == 1 else None)
    return e.mpa(dims=e.odd_dims(legs))


@op
def add(e):
    legs = e.pick([1, 2])
    a = e.mpa(legs=legs, d=max(2, e.d))
    e.d = max(2, e.d)
    b = bad_partner(e, legs)
    a, b = (a, b) if e.r.rand() < .5 else (b, a)
    return e.pick([lambda: a + b, lambda: a - b, lambda: mp.normdist(a, b),
                   lambda: mp.sumup([a, a, b]), lambda: mp.sumup([b, a]),
                   lambda: mp.sumup([a, b], weights=[1., 2.])])


@op
def same_size(e):
    """Different physical shape with the same number of entries"""
    x, y = e.pick([((2, 3), (3, 2)), ((2, 3), (6,)), ((2, 2), (4,)),
                   ((4, 1), (2, 2)), ((1, 2), (2, 1)), ((2,), (2, 1))])
    x, y = (x, y) if e.r.rand() < .5 else (y, x)
    dims, other = [x] * e.n, [x] * e.n
    other[e.site()] = y
    D = e.pick([1, e.D])
    a, b = e.mpa(dims=dims, D=D), e.mpa(dims=other, D=D)
    ops = [lambda: mp.inner(a, b), lambda: a + b, lambda: mp.sumup([b, b, a]),
           lambda: mp.normdist(a, b)]
    if D == 1:
        ops += [lambda: special.sumup([a, b], 2), lambda: special.sumup(
            [b, a, a], 1, weights=[1., 2., 3.])]
    return e.pick(ops)


@op
def sumup_weights(e):
    m = e.r.randint(1, 4)
    mpas = [e.mpa() for _ in range(m)]
    k = e.pick([j for j in (0, m - 1, m + 1) if j != m])
    return lambda: mp.sumup(mpas, weights=[1.] * k)


@op
def scale(e):
    a = e.mpa()
    x = e.pick([a, [1., 2.], None, np.ones(2), 'x', np.ones((1, 1))])

    def imul():
        b = a
        b *= x

    def idiv():
        b = a
        b /= x
    return e.pick([lambda: a * x, imul, lambda: a / x, idiv])


# --- contractions

@op
def dot(e):
    e.d = max(2, e.d)
    o = e.mpa(legs=2)
    how = e.pick(['n', 'dims', 'axes'])
    if how == 'n':
        b = e.mpa(e.other_n())
    elif how == 'dims':
        b = e.mpa(dims=e.odd_dims())
    else:
        b = e.mpa()
        return lambda: mp.dot(o, b, axes=e.pick([(3, 0), (-1, 2), (0, 5)]))
    return lambda: mp.dot(o, b)


@op
def inner(e):
    e.d = max(2, e.d)
    a = e.mpa()
    b = bad_partner(e)
    a, b = (a, b) if e.r.rand() < .5 else (b, a)
    return lambda: mp.inner(a, b)


@op
def inner_prod(e):
    e.d = max(2, e.d)
    how = e.pick(['n', 'dims', 'rank', 'legs'])
    a = e.mpa(D=1)
    if how == 'n':
        b = e.mpa(e.other_n())
    elif how == 'dims':
        b = e.mpa(dims=e.odd_dims())
    elif how == 'legs':
        a, b = e.mpa(D=1, legs=2), e.mpa(legs=2)
    else:
        if e.n == 1:
            return None
        a, b = e.mpa(D=2), e.mpa()
    return lambda: special.inner_prod_mps(a, b)


@op
def sandwich(e):
    e.d = max(2, e.d)
    o, a = e.mpa(legs=2), e.mpa()
    how = e.pick(['o', 'n', 'dims', 'bra_n', 'bra_dims'])
    if how == 'o':
        return lambda: mp.sandwich(a, a)
    b = e.mpa(e.other_n()) if how.endswith('n') else e.mpa(dims=e.odd_dims())
    if how.startswith('bra'):
        return lambda: mp.sandwich(o, a, b)
    return lambda: mp.sandwich(o, b)


@op
def partialdot(e):
    e.d = max(2, e.d)
    m = e.r.randint(1, e.n + 1)
    o = e.mpa(m, legs=2)
    a = e.mpa(e.n)
    pos = e.pick([e.n - m + 1, e.n - m + 2, e.n + 3, -1, -2])
    if e.r.rand() < .3:
        o = e.mpa(m, d=e.d + 1, legs=2)
        pos = e.r.randint(0, e.n - m + 1)
    if e.r.rand() < .5:
        return lambda: mp.partialdot(o, a, pos)
    o2, o1 = e.mpa(m, legs=1), e.mpa(e.n, legs=2)
    pos = e.pick([e.n - m + 1, e.n - m + 2, e.n + 3, -1, -2])
    return lambda: mp.partialdot(o1, o2, pos)


@op
def trace(e):
    how = e.pick(['legs', 'axes', 'n'])
    if how == 'legs':
        a = e.mpa()
        return e.pick([lambda: mp.trace(a), lambda: mp.partialtrace(a)])
    o = e.mpa(legs=2)
    if how == 'axes':
        ax = e.pick([(0, 2), (0, -3), (5, 1)])
        return e.pick([lambda: mp.partialtrace(o, axes=ax),
                       lambda: mp.trace(o, axes=ax)])
    axes = [(0, 1)] * e.other_n()
    return lambda: mp.partialtrace(o, axes=axes)


# --- legs

@op
def get(e):
    a = e.mpa()
    if e.r.rand() < .5:
        return lambda: a.get([0] * e.other_n())
    idx = [0] * e.n
    idx[e.site()] = e.pick([e.d, e.d + 3])
    return lambda: a.get(idx)


@op
def reshape(e):
    a = e.mpa()
    d = e.d
    bad = [(d,)] * e.n
    bad[e.site()] = e.pick([(d + 1,), (d, 2), (2 * d,)])
    k = e.other_n()
    return e.pick([lambda: a.reshape((d + 1,)), lambda: a.reshape(bad),
                   lambda: a.reshape([(d,)] * k),
                   lambda: a.reshape((d, 1) for _ in range(k))])


@op
def transpose(e):
    o = e.mpa(legs=2)
    ax = e.pick([(0, 2), (0,), (0, 0), (0, 1, 2), (1, 1)])
    return lambda: o.transpose(ax)


@op
def axes(e):
    o = e.mpa(legs=2)
    k = e.pick([2, 3, 7, -1, -3])
    return e.pick([lambda: o.sum(k), lambda: o.sum((0, k)),
                   lambda: list(o.axis_iter(k)), lambda: mp.diag(o, axis=abs(k) + 1)])


# --- restructuring

@op
def group(e):
    a = e.mpa()
    k = e.pick([j for j in (2, 3, 4, e.n + 1, 2 * e.n, 0) if j == 0 or e.n % j])
    return lambda: a.group_sites(k)


@op
def split_sites(e):
    legs = e.pick([1, 2, 3])
    a = e.mpa(legs=legs, d=min(e.d, 2))
    k = e.pick([j for j in (2, 3, 4, 0) if j == 0 or legs % j])
    return lambda: a.split_sites(k)


@op
def vleg(e):
    a = e.mpa()
    pos = e.pick([e.n - 1, e.n, e.n + 3, -1])
    return e.pick([lambda: a.vleg2leg(pos), lambda: a.leg2vleg(pos)])


@op
def leg2vleg(e):
    n = e.n + 1
    a = e.mpa(n, d=max(2, e.d), D=max(2, e.D))
    i = e.site(n - 1)
    if e.r.rand() < .5:
        # bond legs present: they would be lost
        return lambda: a.leg2vleg(i)
    dims = [(3, 2)] * n
    b = e.mpa(n, D=1, dims=dims)
    return lambda: b.leg2vleg(i)


@op
def canonicalize(e):
    a = e.mpa()
    n = e.n
    how = e.pick(['left', 'right', 'order', 'word', 'word2'])
    if how == 'left':
        return lambda: a.canonicalize(left=e.pick([n, n + 1, -n - 1, n + 9]))
    if how == 'right':
        return lambda: a.canonicalize(right=e.pick([n + 1, n + 4, -n - 2]))
    if how == 'order':
        l = e.r.randint(0, n)
        r = e.r.randint(0, l + 1)
        return lambda: a.canonicalize(left=l, right=r)
    if how == 'word':
        return lambda: a.canonicalize(left='foo')
    return lambda: a.canonicalize(right='foo')


@op
def from_array(e):
    n = e.n + 1
    arr = e.r.rand(*[2] * n)
    how = e.pick(['num', 'list', 'glob', 'toglob'])
    if how == 'num':
        k = e.pick([j for j in (2, 3, 4, 5, 7, 11) if n % j])
        return e.pick([lambda: mp.MPArray.from_array(arr, ndims=k),
                       lambda: mp.MPArray.from_array_global(arr, ndims=k)])
    if how == 'list':
        nd = [1] * n
        if e.r.rand() < .5:
            nd[-1] += e.pick([1, 2])
        else:
            nd = nd[:-1]
        return lambda: mp.MPArray.from_array(arr, ndims=nd)
    if how == 'glob':
        return lambda: global_to_local(e.r.rand(2, 2, 2), e.pick([2, 4, 0]))
    a = e.mpa(n, dims=[(2,)] * (n - 1) + [(2, 2)])
    return lambda: a.to_array_global()


# --- compression

@op
def compress_svd(e):
    a = e.mpa(max(2, e.n))
    kw = e.pick([{'rank': 0}, {'rank': -1}, {'relerr': -.1}, {'relerr': 1.5},
                 {'rank': 2, 'relerr': -1e-3}, {'rank': 0, 'relerr': .1},
                 {'rank': 1, 'direction': 'up'}, {'rnak': 2},
                 {'rank': 2, 'num_sweeps': 1}, {'rank': 1, 'var_sites': 1},
                 {'rank': 1, 'startmpa': a}])
    e.weak = True
    return e.pick([lambda: a.compress('svd', **kw),
                   lambda: a.compression('svd', **kw)])


@op
def compress_var(e):
    n = max(2, e.n)
    a = e.mpa(n, D=3)
    b = e.mpa(n + e.pick([-1, 1, 2] if n > 2 else [1, 2]), D=2)
    c = e.mpa(n, d=e.d + 1, D=2)
    kw = e.pick([{}, {'rank': 2, 'var_sites': n + 1},
                 {'rank': 2, 'var_sites': n + 3},
                 {'rank': 2, 'var_sites': 0}, {'rank': 0},
                 {'startmpa': b}, {'startmpa': c},
                 {'rank': 2, 'direction': 'left'}, {'rank': 2, 'relerr': .1}])
    e.weak = True
    if max(a.ranks) < 2:
        return None            # nothing to do: the result is a copy
    return e.pick([lambda: a.compress('var', num_sweeps=1, **kw),
                   lambda: a.compression('var', num_sweeps=1, **kw)])


@op
def compress_method(e):
    a = e.mpa()
    m = e.pick(['foo', 'SVD', '', None])
    e.weak = True
    return e.pick([lambda: a.compress(m, rank=1),
                   lambda: a.compression(m, rank=1)])


# --- composition

@op
def chain(e):
    return lambda: mp.chain([])


@op
def inject(e):
    o = e.mpa(legs=2)
    how = e.pick(['order', 'dup', 'num'])
    t = np.eye(2)
    if how == 'order':
        if e.n < 2:
            return None
        return lambda: mp.inject(o, [2, 1], [1, 1], [t, t])
    if how == 'dup':
        return lambda: mp.inject(o, [1, 1], [1, 1], [t, t])
    return lambda: mp.inject(o, [0, 1], [1], [t, t])


@op
def embed_slice(e):
    o = e.mpa(legs=2)
    L = e.n + 2
    how = e.pick(['len', 'range', 'step', 'ten'])
    if how == 'len':
        m = e.other_n()
        return lambda: mp.embed_slice(L + 2, slice(0, m), o)
    if how == 'range':
        return lambda: mp.embed_slice(L, slice(3, 3 + e.n), o)
    if how == 'step':
        return lambda: mp.embed_slice(2 * e.n, slice(0, 2 * e.n, 2), o)
    a = e.mpa(dims=[(2, 3)] + [(2, 2)] * (e.n - 1))
    return lambda: mp.embed_slice(L, slice(0, e.n), a)


@op
def local_sum(e):
    m = e.pick([1, 2, 3])
    t = [e.mpa(m, legs=2, d=2) for _ in range(3)]
    how = e.pick(['len', 'few', 'many', 'nolen', 'dims', 'slice',
                  'reg', 'reg'])
    if how == 'len':
        t[e.pick([1, 2])] = e.mpa(m + 1, legs=2, d=2)
        return lambda: mp.local_sum(t)
    if how == 'reg':
        # neighbouring slices, but terms of another number or length
        w, k = e.pick([(m, 2), (m, 4), (m + 1, 3), (m + 1, 2), (m + 1, 4)] +
                      [(m - 1, 3)] * (m > 1))
        sl = [slice(i, i + w) for i in range(k)]
        return lambda: mp.local_sum(t, length=k + w - 1, slices=sl)
    L = 3 * m + 2
    sl = [slice(i * m, (i + 1) * m) for i in range(3)]
    if how == 'few':
        return lambda: mp.local_sum(t, length=L, slices=sl[:2])
    if how == 'many':
        return lambda: mp.local_sum(t[:2], length=L, slices=sl)
    if how == 'nolen':
        return lambda: mp.local_sum(t, slices=sl)
    if how == 'dims':
        t[1] = e.mpa(m, legs=2, d=3)
        return lambda: mp.local_sum(t)
    sl[1] = slice(m, 2 * m + 1)
    return lambda: mp.local_sum(t, length=L, slices=sl)


@op
def regular_slices(e):
    w, o = e.r.randint(1, 5), e.r.randint(2, 5)
    L = w + o * e.r.randint(0, 4) + e.r.randint(1, o)
    return lambda: list(mp.regular_slices(L, w, o))


@op
def localouter(e):
    a, b = e.mpa(), e.mpa(e.other_n())
    return lambda: mp.localouter(a, b)


# --- eigenvalues

@op
def eig(e):
    n = max(3, e.n)
    d = max(2, e.d)
    e.n, e.d = n, d
    o = e.mpa(n, d=d, legs=2)
    v = e.mpa(n, d=d, D=2)
    short, lng = e.mpa(n - 1, d=d, D=2), e.mpa(n + 1, d=d, D=2)
    dim = e.mpa(dims=e.odd_dims(), D=2)
    flat = e.mpa(n, d=d, D=1)
    kw = e.pick([{}, {'startvec_rank': 1}, {'startvec': short},
                 {'startvec': lng}, {'startvec': dim}, {'startvec': flat},
                 {'startvec': v, 'var_sites': n},
                 {'startvec_rank': 2, 'var_sites': n + 1},
                 {'startvec_rank': 2, 'var_sites': 0},
                 {'startvec': o}])
    bad = e.mpa(dims=e.odd_dims(2), D=2)

    def eigs(m, *a, **k):
        m = m.dot(np.eye(m.shape[1])) if hasattr(m, 'dot') else m
        val, vec = np.linalg.eigh(m)
        return val[:1], vec[:, :1]
    how = e.pick(['eig', 'eig', 'sum', 'sum', 'op', 'sumop', 'empty', 'nosweep',
                  'solver'])
    if how == 'solver':
        # (the solver must return exactly one pair)
        form = e.pick(['two', 'vals', 'vecs', 'ndim'])

        def eigs2(m, *a, **k):
            m = m.dot(np.eye(m.shape[1])) if hasattr(m, 'dot') else m
            val, vec = np.linalg.eigh(m)
            return {'two': (val[:2], vec[:, :2]), 'vals': (val[:2], vec[:, 0]),
                    'vecs': (val[:1], vec[:, :2]),
                    'ndim': (val[:1], vec[:, :1, None])}[form]
        return lambda: (linalg.eig if e.r.rand() < .5 else
                        lambda x, *b, **c: linalg.eig_sum([x, v], *b, **c))(
            o, 1, eigs=eigs2, startvec_rank=2, randstate=np.random.RandomState(1))
    if how == 'eig':
        return lambda: linalg.eig(o, 1, eigs=eigs, **kw)
    if how == 'sum':
        return lambda: linalg.eig_sum([o, v], 1, eigs=eigs, **kw)
    if how == 'op':
        return lambda: linalg.eig(bad, 1, eigs=eigs, startvec_rank=2)
    if how == 'sumop':
        x = e.pick([bad, e.mpa(n + 1, legs=2, D=2), e.mpa(n - 1, legs=2)])
        return lambda: linalg.eig_sum([o, x], 1, eigs=eigs, startvec_rank=2)
    if how == 'empty':
        return lambda: linalg.eig_sum([], 1, eigs=eigs, startvec_rank=2)
    return lambda: linalg.eig(o, 0, eigs=eigs, startvec_rank=2)


# --- states

@op
def reductions(e):
    n = max(2, e.n)
    how = e.pick(['mpo', 'pmps', 'mps_mpo', 'mps_pmps'])
    st = e.mpa(n, legs=2 if how in ('mpo', 'pmps') else 1)
    f = {'mpo': mpsmpo.reductions_mpo, 'pmps': mpsmpo.reductions_pmps,
         'mps_mpo': mpsmpo.reductions_mps_as_mpo,
         'mps_pmps': mpsmpo.reductions_mps_as_pmps}[how]
    kw = e.pick([{}, {'startsites': [0]}, {'width': 1, 'stopsites': [1]},
                 {'stopsites': [1]},
                 {'width': 1, 'startsites': [0], 'stopsites': [1]},
                 {'width': 2, 'startsites': [n - 1]},
                 {'width': 2, 'startsites': [0, n - 1]},
                 {'startsites': [0], 'stopsites': [n + 1]},
                 {'startsites': [1], 'stopsites': [1]},
                 {'startsites': [-1], 'stopsites': [n]},
                 {'startsites': [-1], 'stopsites': [1]},
                 {'startsites': [-2], 'width': 2},
                 {'startsites': [0, -1], 'width': 1},
                 {'startsites': [0], 'stopsites': [-1]},
                 {'startsites': [1], 'stopsites': [0]}])
    e.weak = True
    return lambda: list(f(st, **kw))


@op
def state_kind(e):
    a, p = e.mpa(), e.mpa(legs=2, d=max(2, e.d))
    return e.pick([lambda: mpsmpo.mps_to_pmps(p), lambda: mpsmpo.mps_to_mpo(p),
                   lambda: mpsmpo.pmps_to_mps(p),
                   lambda: list(mpsmpo.reductions(a, 'foo', width=1)),
                   lambda: mpsmpo.pmps_reduction(p, [e.n])])


# --- measurements

def povm(e, n=None, d=None):
    m = mpp.MPPovm.from_local_povm(
        e.pick([mpp.x_povm, mpp.z_povm, mpp.y_povm])(d or max(2, e.d)),
        n or e.n)
    e.made.append((m, snapshot(m)))
    return m


def normed(e, **kw):
    a = e.mpa(watch=False, **kw)
    a = mp.MPArray([np.array(t) for t in a.lt])
    a = mp.MPArray(list(a.lt))
    nrm = np.linalg.norm(a.to_array())
    lts = [np.array(t) for t in a.lt]
    lts[0] = lts[0] / nrm
    a = mp.MPArray(lts)
    e.made.append((a, snapshot(a)))
    return a


@op
def mppovm(e):
    d = e.d + 1
    how = e.pick(['legs', 'square', 'embed', 'embed', 'list'])
    if how == 'legs':
        k = e.pick([1, 2, 4])
        lts = [e.r.rand(*([1] + [2] * k + [1])) for _ in range(e.n)]
        return lambda: mpp.MPPovm(lts)
    if how == 'square':
        lts = [e.r.rand(1, 3, 2, 2, 1) for _ in range(e.n)]
        lts[e.site()] = e.r.rand(1, 3, 2, 3, 1)
        return lambda: mpp.MPPovm(lts)
    m = povm(e)
    if how == 'embed':
        pos = e.pick([-1, -2, 3, 4])
        return lambda: m.embed(e.n + 2, pos, d)
    other = povm(e, e.other_n())
    return lambda: mpp.MPPovmList([m, other])


@op
def probabilities(e):
    d = max(2, e.d)
    e.d = d
    m = povm(e, d=d)
    a = normed(e, d=d)
    how = e.pick(['n', 'n', 'dims', 'mode', 'impl', 'norm', 'pos', 'kind'])
    f = e.pick([m.pmf, m.pmf_as_array])
    if how == 'n':
        b = normed(e, n=e.other_n())
        return lambda: f(b, 'mps')
    if how == 'dims':
        b = normed(e, dims=e.odd_dims())
        return lambda: f(b, 'mps')
    if how == 'mode':
        return lambda: f(a, e.pick(['foo', 'MPS']))
    if how == 'impl':
        return lambda: m.pmf_as_array(a, 'mps', impl='foo')
    if how == 'norm':
        b = a * e.pick([2., .5, .9])
        return lambda: m.pmf_as_array(b, 'mps')
    if how == 'kind':
        b = normed(e, legs=2)
        return lambda: f(*e.pick([(a, 'mpdo'), (b, 'mps')]))
    b = normed(e, legs=2)           # not a density operator
    rho = b.to_array_global()
    if abs(np.trace(rho.reshape((d**e.n, d**e.n))) - 1) < .01:
        return None
    return lambda: m.pmf_as_array(b, 'mpdo')


@op
def samples(e):
    d = max(2, e.d)
    m = povm(e, d=d)
    a = normed(e, d=d)
    k = 6
    good = np.array([[e.r.randint(o) for o in m.nsoutdims] for _ in range(k)])
    bad = good.copy()
    j = e.site()
    bad[e.site(k), j] = e.pick([m.nsoutdims[j], m.nsoutdims[j] + 3, -1])
    how = e.pick(['method', 'mode', 'group', 'n', 'norm', 'pack', 'packcols',
                  'unpack', 'est', 'estcols', 'estpacked', 'state'])
    rng = e.r
    meth = e.pick(['cond', 'direct'])
    if how == 'method':
        return lambda: m.sample(rng, a, 3, method='foo')
    if how == 'mode':
        return lambda: m.sample(rng, a, 3, mode='foo', method=meth)
    if how == 'group':
        return lambda: m.sample(rng, a, 3, n_group=0)
    if how == 'n':
        return lambda: m.sample(rng, a, -1, method=meth)
    if how == 'norm':
        b = a * e.pick([2., .5, .9])
        return lambda: m.sample(rng, b, 3, method=meth)
    if how == 'state':
        b = normed(e, n=e.other_n(), d=d)
        return lambda: m.sample(rng, b, 3, method=meth)
    if how == 'pack':
        return lambda: m.pack_samples(bad)
    if how == 'packcols':
        return lambda: m.pack_samples(np.hstack([good, good[:, :1]]))
    if how == 'unpack':
        p = np.array([0, int(np.prod(m.nsoutdims)) + e.pick([0, 5])])
        return lambda: m.unpack_samples(p)
    if how == 'est':
        return lambda: m.est_pmf(bad)
    if how == 'estcols':
        return lambda: m.est_pmf(np.hstack([good, good[:, :1]]))
    p = np.array([0, int(np.prod(m.nsoutdims)) + e.pick([0, 5])])
    return lambda: m.est_pmf(p)


@op
def estimators(e):
    d = max(2, e.d)
    m, m2 = povm(e, d=d), povm(e, d=d)
    a = normed(e, d=d)
    short = povm(e, e.other_n(), d=d)
    wide = povm(e, d=d + 1)
    s = np.array([[e.r.randint(o) for o in m.nsoutdims] for _ in range(7)])
    lst = mpp.MPPovmList([m, m2])
    c = np.ones(m.nsoutdims)
    f = [lambda o: np.asarray(o).sum(1)]
    one = np.ones(1)
    cb = np.ones(m.nsoutdims + (2,))
    return e.pick([
        lambda: m.lfun(cb, None, a), lambda: m.est_lfun(cb, None, s),
        lambda: m.lfun(np.ones(2), f, a),
        lambda: m.est_lfun(np.ones(2), f, s),
        lambda: m.est_lfun(one, f, s, weights=np.ones(4)),
        lambda: m.match_elems(short), lambda: m.match_elems(wide),
        lambda: m.est_pmf_from(short, s),
        lambda: m.est_pmf_from(m, np.hstack([s, s[:, :1]])),
        lambda: list(lst.est_pmf([s])), lambda: list(lst.pack_samples([s])),
        lambda: list(lst.est_pmf_from(lst, [s])),
        lambda: lst.lfun([c], None, a), lambda: lst.lfun([c, c], [f], a),
        lambda: lst.est_lfun([c], None, [s, s]),
        lambda: lst.est_lfun([c, c], None, [s]),
        lambda: lst.lfun([c, c, c], None, a)])


@op
def local_measurement(e):
    x, z = mpp.x_povm(2), mpp.z_povm(2)
    w = e.pick([[.3, .3], [.5, .6], [1., 1.]])
    return e.pick([lambda: mpp.pauli_povm(1),
                   lambda: mpp.localpovm.concat([x, z], w),
                   lambda: mpp.pauli_mpp(0, 2)])


# --- factories, utilities

@op
def factories(e):
    n = e.n
    k = n + e.pick([1, 2])
    return e.pick([
        lambda: factory.random_mpa(0, 2, 2), lambda: factory.random_mps(0, 2, 2),
        lambda: factory.random_mpa(n, [(2,)] * k, 2),
        lambda: factory.random_mpa(n + 2, 2, [2] * n),
        lambda: factory.random_mpa(n + 1, 2, -1),
        lambda: factory.random_mpa(n, 2, 2, dtype=str),
        lambda: factory.eye(0, 2), lambda: factory.eye(n, [2] * k),
        lambda: factory.zero(0, 2, 1), lambda: factory.random_mpdo(0, 2, 2),
        lambda: factory.random_local_ham(n, 2, n + 1),
        lambda: factory.diagonal_mpa(np.ones((2, 2)), n),
        lambda: factory.diagonal_mpa(np.ones(2), 0)])


@op
def special_sumup(e):
    how = e.pick(['rank', 'n', 'dims', 'w', 'zero', 'empty'])
    e.d = max(2, e.d)
    if how in ('rank', 'zero'):
        e.n = max(2, e.n)
    a = [e.mpa(D=1) for _ in range(2)]
    if how == 'rank':
        b = e.mpa(D=2)
        return lambda: special.sumup([a[0], b], 2)
    if how == 'n':
        b = e.mpa(e.other_n(), D=1)
        return lambda: special.sumup([a[0], b], 2)
    if how == 'dims':
        b = e.mpa(dims=e.odd_dims(), D=1)
        return lambda: special.sumup([a[0], b], 2)
    if how == 'w':
        return lambda: special.sumup(a, 2, weights=[1.] * e.pick([1, 3]))
    if how == 'zero':
        return lambda: special.sumup(a, 0)
    return lambda: special.sumup([], 2)


@op
def utilities(e):
    z = e.r.rand
    nan = np.array([.5, .5])
    return e.pick([
        lambda: extmath.block_diag([z(2, 2, 3), z(2, 2, 4)], axes=(0, 1)),
        lambda: extmath.block_diag([z(2, 2, 3), z(2, 2)]),
        lambda: extmath.block_diag([z(2, 2, 3), z(2, 2, 1)]),
        lambda: extmath.block_diag([z(2, 3, 3), z(2, 1, 1)], axes=(0, -1)),
        lambda: extmath.partial_trace(z(2, 2, 2), [0]),
        lambda: extmath.partial_trace(z(2, 2, 2, 2), [2]),
        lambda: local_to_global(z(2, 2, 2), 2),
        lambda: pmf.project_pmf(nan * e.pick([.9, 1.1, -1])),
        lambda: pmf.project_pmf(np.array([1.2, -.2])),
        lambda: pmf.project_pmf(np.array([.5, .5 + .1j])),
        lambda: pmf.project_nonneg(np.array([.5, -.1])),
        lambda: pmf.project_nonneg(np.array([.5, .5 + 1e-3j])),
        lambda: physics.cXY_E0(e.pick([0, 1, 3, 4, 5, 8]), .5),
        lambda: physics.sparse_cH([np.eye(3)] * 3)])


@op
def load(e):
    import h5py
    n = e.n
    a = e.mpa()
    which = e.pick([str(e.site()), 'attr'])

    def go():
        d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
        name = os.path.join(d, 'x.h5')
        try:
            a.dump(name)
            with h5py.File(name, 'a') as f:
                keys = sorted(f)
                if which == 'attr':
                    for k in list(f.attrs):
                        del f.attrs[k]
                elif which in keys:
                    del f[which]
                else:
                    del f[keys[0]]
            return mp.MPArray.load(name)
        finally:
            if os.path.exists(name):
                os.remove(name)
            os.rmdir(d)
    return go


NAMES = sorted(OPS)


def gen(src):
    return {'op': src.pick(NAMES), 'n': src.int(1, 5), 'd': src.int(1, 3),
            'D': src.int(1, 3), 'cplx': src.bool(.5),
            'cf': [src.int(0, 4), src.int(0, 4)] if src.bool(.5) else None,
            'seed': src.seed()}


def run(spec, ctx):
    e = Env(spec)
    ctx.label(spec['op'])
    call = OPS[spec['op']](e)
    if call is None:
        ctx.label('skipped')
        return
    ctx.nt(bool(e.made))
    try:
        res = call()
    except Exception:
        pass
    else:
        ensure(False, '%s: an invalid request was answered with %r',
               spec['op'], res)
    for mpa, snap in e.made:
        if e.weak:
            unchanged_tensor(mpa, snap)
        else:
            unchanged(mpa, snap)
        check_struct(mpa)


SUBS = [Sub('refuse', gen, run, 6000)]
