# encoding: utf-8
"""C03: operations on physical legs"""
from __future__ import division

import numpy as np

import mpnum as mp

from ..engine import Sub
from ..gen import OtherArray, build_mpa, g_mpa, g_nsites, g_shape
from ..oracle import (same_class, check_mpa, check_struct, close, dense, ensure, eps_of,
                      fscale, local_legs, same, snapshot, unchanged)

RULE = """Random MPArrays (1-6 sites, inhomogeneous legs and dimensions,
random canonical forms, layouts, dtypes, scales) with random leg permutations,
reshapes (single shape, list, -1, 'prune'), fixed leg values, all documented
forms of the `axes` argument of sums, axis iteration and diagonals.  Oracle:
numpy operation on the dense array.  Non-trivial: at least two sites and at
least one leg that is really affected."""

ALLDT = ('c16', 'f8', 'i8', 'f4', 'c8')


def perm_dense(A, shape, perms):
    legs = local_legs(shape)
    return A.transpose(sum(([l[p] for p in perm] for l, perm
                            in zip(legs, perms)), []))


def gen_unary(src):
    spec = g_mpa(src, dts=ALLDT)
    return {'a': spec, 'op': src.pick(['T', 'transpose', 'adj', 'conj', 'copy'])}


def run_unary(spec, ctx):
    a, l = build_mpa(spec['a'])
    snap = snapshot(a)
    A, sc, tol = dense(l), fscale(l), eps_of(l)
    shape = spec['a']['shape']
    rev = [list(range(len(s)))[::-1] for s in shape]
    rshape = [s[::-1] for s in shape]
    op = spec['op']
    if op == 'T':
        res, exp, sh = a.T, perm_dense(A, shape, rev), rshape
    elif op == 'transpose':
        res, exp, sh = a.transpose(), perm_dense(A, shape, rev), rshape
    elif op == 'adj':
        res, exp, sh = a.adj(), perm_dense(A, shape, rev).conj(), rshape
    elif op == 'conj':
        res, exp, sh = a.conj(), A.conj(), shape
    else:
        res, exp, sh = a.copy(), A, shape
    ctx.label(op)
    ctx.nt(len(shape) > 1 and A.size > 1)
    check_mpa(res, exp, sc, tol, sh)
    same_class(res, type(a))
    same(tuple(res.ranks), tuple(a.ranks), 'ranks')
    unchanged(a, snap)


def gen_perm(src):
    k = src.int(1, 4)
    n = g_nsites(src, 1, 5, 7)
    shape = g_shape(src, n, (k, k), cap=3000, uniform=src.bool(.2))
    return {'a': g_mpa(src, shape=shape, maxrank=4), 'perm': src.perm(k),
            'as': src.pick(['tuple', 'list'])}


def run_perm(spec, ctx):
    a, l = build_mpa(spec['a'])
    snap = snapshot(a)
    perm = spec['perm']
    shape = spec['a']['shape']
    res = a.transpose(tuple(perm) if spec['as'] == 'tuple' else list(perm))
    exp = perm_dense(dense(l), shape, [perm] * len(shape))
    ctx.nt(len(shape) > 1 and perm != sorted(perm))
    check_mpa(res, exp, fscale(l), 1e-10, [[s[p] for p in perm] for s in shape])
    unchanged(a, snap)


def factorize(src, n):
    """Random shape with product n"""
    out = []
    while n > 1 and src.bool(.75):
        divs = [d for d in range(2, n + 1) if n % d == 0]
        d = src.pick(divs)
        out.append(d)
        n //= d
    if n > 1:
        out.append(n)
    while len(out) < 4 and src.bool(.25):
        out.insert(src.int(0, len(out)), 1)
    return out


def gen_reshape(src):
    n = g_nsites(src, 1, 5, 7)
    how = src.pick(['list', 'single', 'prune', 'ravel', 'minus'])
    shape = g_shape(src, n, (0, 3), cap=3000,
                    uniform=True if how == 'single' else None)
    spec = {'a': g_mpa(src, shape=shape, maxrank=4), 'how': how}
    tot = [int(np.prod(s, dtype=object)) for s in shape]
    if how == 'list':
        spec['new'] = [factorize(src, t) for t in tot]
        spec['as'] = src.pick(['list', 'tuple', 'iter'])
    elif how == 'single':
        if len(set(tot)) > 1:
            spec['how'], spec['new'], spec['as'] = 'list', [[t] for t in tot], 'list'
        else:
            new = factorize(src, tot[0])
            spec['new'] = new if new else [1]
    return spec


def run_reshape(spec, ctx):
    a, l = build_mpa(spec['a'])
    snap = snapshot(a)
    A, sc = dense(l), fscale(l)
    shape = spec['a']['shape']
    how = spec['how']
    if how == 'list':
        new = [tuple(s) for s in spec['new']]
        if spec['as'] == 'iter':
            res = a.reshape(iter(new))
        else:
            res = a.reshape(new if spec['as'] == 'list' else tuple(new))
    elif how == 'single':
        new = [tuple(spec['new'])] * len(shape)
        res = a.reshape(tuple(spec['new']))
    elif how == 'prune':
        new = [tuple(d for d in s if d > 1) for s in shape]
        res = a.reshape('prune')
    elif how == 'ravel':
        new = [(int(np.prod(s, dtype=object)),) for s in shape]
        res = a.ravel()
    else:
        new = [(int(np.prod(s, dtype=object)),) for s in shape]
        res = a.reshape((-1,))
    ctx.label(how)
    ctx.nt(len(shape) > 1 and [list(s) for s in new] != shape)
    check_mpa(res, A.reshape(sum(new, ())), sc, 1e-10, new)
    unchanged(a, snap)
    # and back again
    back = res.reshape([tuple(s) for s in shape]) if any(shape) or True else res
    check_mpa(back, A, sc, 1e-10, shape, 'reshaped back: ')


def gen_get(src):
    n = g_nsites(src, 1, 6, 12)
    shape = g_shape(src, n, (1, 3), cap=3000)
    return {'a': g_mpa(src, shape=shape, maxrank=4),
            'idx': [src.int(0, s[0] - 1) for s in shape],
            'neg': src.subset(range(n), .3) if src.bool(.3) else [],
            'as': src.pick(['list', 'tuple', 'array']),
            'astype': src.bool(.15)}


def run_get(spec, ctx):
    a, l = build_mpa(spec['a'])
    snap = snapshot(a)
    shape = spec['a']['shape']
    idx = spec['idx']
    sel = sum(([i] + [slice(None)] * (len(s) - 1)
               for i, s in zip(idx, shape)), [])
    exp = dense(l)[tuple(sel)]
    idx = [i - s[0] if k in spec['neg'] else i
           for k, (i, s) in enumerate(zip(idx, shape))]
    arg = {'list': list, 'tuple': tuple, 'array': np.array}[spec['as']](idx)
    if spec.get('astype'):
        res = a.get(arg, astype=OtherArray)
        same_class(res, OtherArray)
    else:
        res = a.get(arg)
        same_class(res, type(a))
    ctx.nt(len(shape) > 1 and any(idx))
    check_mpa(res, exp, fscale(l), 1e-10, [s[1:] for s in shape])
    unchanged(a, snap)


def gen_axis_iter(src):
    n = g_nsites(src, 1, 4, 8)
    shape = g_shape(src, n, (1, 3), cap=200, maxdim=3)
    how = src.pick(['default', 'int', 'list'])
    if how == 'int':
        ax = src.int(0, min(len(s) for s in shape) - 1)
    else:
        ax = [src.int(0, len(s) - 1) for s in shape]
    return {'a': g_mpa(src, shape=shape, maxrank=3, scale=False), 'how': how,
            'axes': ax}


def run_axis_iter(spec, ctx):
    a, l = build_mpa(spec['a'])
    snap = snapshot(a)
    A, sc = dense(l), fscale(l)
    shape = spec['a']['shape']
    if spec['how'] == 'default':
        axes = [0] * len(shape)
        got = list(a.axis_iter())
    elif spec['how'] == 'int':
        axes = [spec['axes']] * len(shape)
        got = list(a.axis_iter(spec['axes']))
    else:
        axes = spec['axes']
        got = list(a.axis_iter(axes))
    dims = [s[i] for s, i in zip(shape, axes)]
    left = []
    for idx in np.ndindex(*dims):
        sel = sum(([i if p == ax else slice(None) for p in range(len(s))]
                   for i, ax, s in zip(idx, axes, shape)), [])
        left.append(A[tuple(sel)])
    same(len(got), len(left), 'number of items')
    ctx.nt(len(shape) > 1 and len(got) > 1)
    ctx.label(spec['how'])
    sub = [s[:i] + s[i + 1:] for s, i in zip(shape, axes)]
    # the items are the slices, each exactly once (the order is not specified
    # consistently)
    for m in got:
        check_struct(m, 'item: ')
        same([list(s) for s in m.shape], sub, 'shape of item')
        d = dense(list(m.lt))
        hit = [k for k, x in enumerate(left)
               if np.abs(d - x).max() <= 1e-10 * sc + 1e-290]
        ensure(hit, 'item is not one of the remaining slices')
        left.pop(hit[0])
    unchanged(a, snap)


def gen_sum(src):
    n = g_nsites(src, 1, 6, 12)
    how = src.pick(['none', 'empty', 'per', 'ints', 'int'])
    shape = g_shape(src, n, (0, 3) if how in ('none', 'empty', 'per') else (1, 3),
                    cap=3000, same_legs=False)
    m = min(len(s) for s in shape)
    spec = {'a': g_mpa(src, shape=shape, maxrank=4), 'how': how}
    if how == 'per':
        ax = []
        for s in shape:
            k = src.pick(['none', 'sub', 'all', 'empty'])
            if k == 'none':
                ax.append(None)
            elif k == 'empty':
                ax.append([])
            elif k == 'all':
                ax.append(list(range(len(s))))
            else:
                ax.append(src.subset(range(len(s))))
        spec['axes'] = ax
        spec['as'] = src.pick(['list', 'tuple'])
    elif how == 'ints':
        ax = src.subset(range(m))
        spec['axes'] = ax if ax else [0]
    elif how == 'int':
        spec['axes'] = src.int(0, m - 1)
    return spec


def run_sum(spec, ctx):
    a, l = build_mpa(spec['a'])
    snap = snapshot(a)
    A, sc = dense(l), fscale(l)
    shape = spec['a']['shape']
    how = spec['how']
    if how == 'none':
        res = a.sum()
        axes = [list(range(len(s))) for s in shape]
    elif how == 'empty':
        res = a.sum(())
        axes = [[] for _ in shape]
    elif how == 'per':
        conv = list if spec['as'] == 'list' else tuple
        res = a.sum(conv(None if x is None else conv(x) for x in spec['axes']))
        axes = [list(range(len(s))) if x is None else x
                for s, x in zip(shape, spec['axes'])]
    elif how == 'ints':
        res = a.sum(tuple(spec['axes']))
        axes = [spec['axes']] * len(shape)
    else:
        res = a.sum(spec['axes'])
        axes = [[spec['axes']]] * len(shape)
    legs = local_legs(shape)
    exp = A.sum(tuple(lg[x] for lg, ax in zip(legs, axes) for x in ax)) \
        if any(axes) else A
    rest = [[d for i, d in enumerate(s) if i not in ax]
            for s, ax in zip(shape, axes)]
    ctx.label(how)
    ctx.nt(len(shape) > 1 and any(axes))
    sc = sc * max(1, A.size)
    if any(rest):
        check_mpa(res, exp, sc, 1e-11, rest)
    else:
        ctx.label('scalar')
        # no leg is left: the value
        ensure(not isinstance(res, mp.MPArray), 'expected a number')
        close(np.asarray(res).reshape(()), exp, sc, 1e-11, 'sum')
    unchanged(a, snap)


def gen_diag(src):
    n = g_nsites(src, 1, 5, 8)
    k = src.int(1, 3)
    axis = src.int(0, k - 1)
    d = src.int(1, 3)
    shape = [[d if i == axis else src.int(1, 2) for i in range(k)]
             for _ in range(n)]
    if int(np.prod(sum(shape, []), dtype=object)) > 4000:
        shape = [[d if i == axis else 1 for i in range(k)] for _ in range(n)]
    return {'a': g_mpa(src, shape=shape, maxrank=4), 'axis': axis}


def run_diag(spec, ctx):
    a, l = build_mpa(spec['a'])
    snap = snapshot(a)
    A, sc = dense(l), fscale(l)
    shape = spec['a']['shape']
    axis = spec['axis']
    d = shape[0][axis]
    res = mp.diag(a, axis) if axis else mp.diag(a)
    ctx.nt(len(shape) > 1 and d > 1)
    ensure(isinstance(res, np.ndarray) and res.shape == (d,),
           'diag: wrong container')
    for i in range(d):
        sel = sum(([i if p == axis else slice(None) for p in range(len(s))]
                   for s in shape), [])
        exp = A[tuple(sel)]
        if len(shape[0]) == 1:
            close(res[i], exp, sc, 1e-10, 'diag')
        else:
            check_mpa(res[i], exp, sc, 1e-10,
                      [s[:axis] + s[axis + 1:] for s in shape])
    unchanged(a, snap)


SUBS = [
    Sub('unary', gen_unary, run_unary, 1400),
    Sub('transpose', gen_perm, run_perm, 600),
    Sub('reshape', gen_reshape, run_reshape, 1200),
    Sub('get', gen_get, run_get, 500),
    Sub('axis_iter', gen_axis_iter, run_axis_iter, 500),
    Sub('sum', gen_sum, run_sum, 1300),
    Sub('diag', gen_diag, run_diag, 500),
]
