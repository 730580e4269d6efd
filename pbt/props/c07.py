# encoding: utf-8
"""C07: inner products, norms, expectation values"""
from __future__ import division

import numpy as np

import mpnum as mp
from mpnum import special

from ..engine import Sub
from ..gen import build_mpa, g_mpa, g_nsites, g_shape
from ..oracle import (close, dense, ensure, eps_of, fscale, same, snapshot,
                      unchanged, unchanged_tensor)

RULE = """Random pairs/triples of MPArrays with equal physical shape, complex
and mixed dtypes, random canonical forms and scales; inner products, norms,
norm distances (including nearly and exactly equal operands), sandwiches with
different bra and ket, inner products with product states.  Oracle: vdot /
norm / matrix elements of dense arrays.  Non-trivial: at least two sites, non-
vanishing operands."""

ALLDT = ('c16', 'f8', 'i8', 'f4', 'c8')


def gen_pair(src):
    a = g_mpa(src, dts=ALLDT, hi=7)
    b = g_mpa(src, shape=a['shape'], dts=ALLDT)
    return {'a': a, 'b': b, 'near': src.pick([None, None, None, 0, -4, -7])}


def num(x, what):
    ensure(not isinstance(x, mp.MPArray) and np.ndim(x) == 0,
           '%s is not a number: %r', what, x)
    return x


def run_pair(spec, ctx):
    a, la = build_mpa(spec['a'])
    b, lb = build_mpa(spec['b'])
    A, B = dense(la), dense(lb)
    sa, sb = fscale(la), fscale(lb)
    tol = eps_of(la, lb)
    sna, snb = snapshot(a), snapshot(b)
    ctx.nt(len(la) > 1 and sa > 0 and sb > 0)
    close(num(mp.inner(a, b), 'inner'), np.vdot(A, B), sa * sb, tol, '<a|b>')
    close(num(mp.inner(b, a), 'inner'), np.vdot(B, A), sa * sb, tol, '<b|a>')
    close(num(mp.inner(a, a), 'inner'), np.vdot(A, A), sa * sa, tol, '<a|a>')
    unchanged(a, sna, 'operand of inner: ')
    unchanged(b, snb, 'operand of inner: ')
    d = num(mp.normdist(a, b), 'normdist')
    close(d, np.linalg.norm((A - B).ravel()), sa + sb, tol, 'normdist')
    unchanged(a, sna, 'operand of normdist: ')
    unchanged(b, snb, 'operand of normdist: ')
    close(num(mp.norm(a), 'norm'), np.linalg.norm(A.ravel()), sa, tol, 'norm')
    unchanged_tensor(a, sna, 'operand of norm: ')
    close(mp.norm(a), np.linalg.norm(A.ravel()), sa, tol, 'norm, second call')
    close(mp.inner(a, b), np.vdot(A, B), sa * sb, tol, '<a|b> after norm')
    if spec['near'] is not None and tol < 1e-8:
        # nearly equal operands: normdist must not lose precision
        k = spec['near']
        c = a + 10.**k * b if k else a * 1.0
        C = A + 10.**k * B if k else A * 1.0
        ctx.label('near:%d' % k)
        close(mp.normdist(c, a), np.linalg.norm((C - A).ravel()),
              sa + 10.**k * sb, 1e-10, 'normdist of nearly equal')


def gen_sand(src):
    n = g_nsites(src, 1, 6, 10)
    rows = g_shape(src, n, (1, 1), cap=60)
    # row and column dimensions can be different if two vectors are given
    square = src.bool(.6)
    cols = rows if square else [[src.int(1, 3)] for _ in rows]
    return {'mpo': g_mpa(src, shape=[r + c for r, c in zip(rows, cols)], maxrank=3),
            'ket': g_mpa(src, shape=cols, maxrank=4),
            'bra': g_mpa(src, shape=rows, maxrank=4) if not square or src.bool(.5)
            else None}


def run_sand(spec, ctx):
    h, lh = build_mpa(spec['mpo'])
    k, lk = build_mpa(spec['ket'])
    H, K = dense(lh), dense(lk)
    n = len(lh)
    H = H.transpose([2 * i for i in range(n)] + [2 * i + 1 for i in range(n)])
    H = H.reshape((-1, K.size))
    if spec['bra'] is not None:
        b, lb = build_mpa(spec['bra'])
        ctx.label('bra')
    else:
        b, lb = None, lk
    B = dense(lb)
    snaps = [snapshot(x) for x in (h, k) + ((b,) if b is not None else ())]
    exp = B.conj().ravel().dot(H.dot(K.ravel()))
    sc = fscale(lh) * fscale(lk) * fscale(lb)
    ctx.nt(n > 1 and sc > 0)
    res = mp.sandwich(h, k) if b is None else mp.sandwich(h, k, b)
    close(num(res, 'sandwich'), exp, sc, 1e-10, 'sandwich')
    ref = mp.inner(k if b is None else b, mp.dot(h, k))
    close(ref, exp, sc, 1e-10, 'inner(., dot(., .))')
    for x, s in zip((h, k, b), snaps):
        unchanged(x, s)


def gen_prod(src):
    n = g_nsites(src, 1, 7, 12)
    shape = g_shape(src, n, (1, 1), cap=2000)
    a = g_mpa(src, shape=shape)
    a['ranks'] = [1] * (n - 1)
    return {'a': a, 'b': g_mpa(src, shape=shape)}


def run_prod(spec, ctx):
    a, la = build_mpa(spec['a'])
    b, lb = build_mpa(spec['b'])
    if any(r != 1 for r in a.ranks):
        return
    sna, snb = snapshot(a), snapshot(b)
    res = special.inner_prod_mps(a, b)
    sc = fscale(la) * fscale(lb)
    ctx.nt(len(la) > 1 and sc > 0)
    close(num(res, 'inner_prod_mps'), np.vdot(dense(la), dense(lb)), sc, 1e-10,
          'inner_prod_mps')
    unchanged(a, sna)
    unchanged(b, snb)


def gen_bigint(src):
    return {'a': g_mpa(src, dts=('i8',), hi=4, cforms=False, scale=False),
            'pow': src.int(20, 40)}


def run_bigint(spec, ctx):
    """The norm of large integers is a float: nothing may overflow"""
    lts = [t.astype(np.int64) * 2**spec['pow'] for t in build_mpa(spec['a'])[1]]
    ctx.nt(any((t != 0).any() for t in lts))
    fl = [t.astype(float) for t in lts]
    a = mp.MPArray(lts)
    close(num(mp.norm(a), 'norm'), np.linalg.norm(dense(fl).ravel()), fscale(fl),
          1e-10, 'norm of large integers')


SUBS = [
    Sub('inner_norm', gen_pair, run_pair, 2400),
    Sub('sandwich', gen_sand, run_sand, 1300),
    Sub('product', gen_prod, run_prod, 500),
    Sub('bigints', gen_bigint, run_bigint, 200),
]
