# encoding: utf-8
"""C04: restructuring of sites and virtual legs keeps the tensor"""
from __future__ import division

import numpy as np

import mpnum as mp

from ..engine import Sub
from ..gen import build_mpa, g_mpa, g_nsites, g_shape
from ..oracle import (check_mpa, check_struct, close, contract, dense, ensure,
                      eps_of, fscale, local_legs, same, snapshot, unchanged)

RULE = """Random MPArrays (1-8 sites, inhomogeneous legs including sites
without legs and legs of dimension 1, random canonical forms); grouping and
splitting of sites, conversion of virtual to physical legs and back at every
position (with re-canonicalization in between), splitting the chain, reversal,
rank padding, pruning of empty sites, and histories mixing these.  Oracle:
dense array (permuted / reshaped with numpy) and validity of ranks and claimed
normalization.  Non-trivial: at least two sites and a rank larger than one."""


def nt(ctx, spec):
    ctx.nt(len(spec['shape']) > 1 and max(spec['ranks'] + [0]) > 1)


def gen_group(src):
    k = src.int(1, 4)
    m = src.int(1, 3 if k > 2 else 4)
    shape = g_shape(src, k * m, (0, 2), cap=2000)
    return {'a': g_mpa(src, shape=shape, maxrank=4), 'k': k}


def run_group(spec, ctx):
    a, l = build_mpa(spec['a'])
    snap = snapshot(a)
    A, sc = dense(l), fscale(l)
    shape, k = spec['a']['shape'], spec['k']
    nt(ctx, spec['a'])
    res = a.group_sites(k)
    new = [sum(shape[i:i + k], []) for i in range(0, len(shape), k)]
    check_mpa(res, A, sc, 1e-10, new)
    same(tuple(res.ranks), tuple(a.ranks[k - 1::k]), 'ranks after grouping')
    unchanged(a, snap)


def gen_split_sites(src):
    k = src.int(1, 3)
    n = g_nsites(src, 1, 4, 10)
    per = src.int(1, 2)
    if n > 4:
        k, per = min(k, 2), 1
    mode = src.bool(.6)
    shape = []
    size = 1
    for _ in range(n):
        p = per if mode else min(src.weighted([(1, 4), (2, 4), (0, 1)]),
                                 1 if n > 4 else 2)
        s = []
        for _ in range(k * p):
            d = src.weighted([(2, 4), (1, 1), (3, 2)])
            d = 1 if size * d > 3000 else d
            size *= d
            s.append(d)
        shape.append(s)
    return {'a': g_mpa(src, shape=shape, maxrank=4), 'k': k}


def run_split_sites(spec, ctx):
    a, l = build_mpa(spec['a'])
    snap = snapshot(a)
    A, sc = dense(l), fscale(l)
    shape, k = spec['a']['shape'], spec['k']
    res = a.split_sites(k)
    new = []
    for s in shape:
        w = len(s) // k
        new += [s[i * w:(i + 1) * w] for i in range(k)]
    nt(ctx, spec['a'])
    ctx.nt(k > 1)
    check_mpa(res, A, sc, 1e-10, new)
    unchanged(a, snap)
    if len(set(len(s) for s in shape)) == 1:
        back = res.group_sites(k)
        check_mpa(back, A, sc, 1e-10, shape, 'grouped back: ')


def gen_vleg(src):
    n = g_nsites(src, 2, 7, 12)
    spec = g_mpa(src, nsites=n, legs=(0, 2), cap=600, maxrank=4)
    return {'a': spec, 'pos': src.int(0, n - 2),
            'canon': [src.int(0, n - 1), src.int(0, n - 1)]
            if src.bool(.6) else None,
            'norm': src.bool(.3)}


def vleg_dense(lts, pos):
    """Dense array with the virtual leg `pos` made physical twice"""
    left = contract(lts[:pos + 1])[0]
    right = contract(lts[pos + 1:])[..., 0]
    return np.multiply.outer(left, right)


def run_vleg(spec, ctx):
    a, l = build_mpa(spec['a'])
    snap = snapshot(a)
    shape = spec['a']['shape']
    pos = spec['pos']
    nt(ctx, spec['a'])
    A, sc, n = dense(l), fscale(l), len(l)
    cur = [np.array(x) for x in a.lt]
    rank = cur[pos].shape[-1]
    v = a.vleg2leg(pos)
    exp = vleg_dense(cur, pos)
    vsh = [list(s) for s in shape]
    vsh[pos] = vsh[pos] + [rank]
    vsh[pos + 1] = [rank] + vsh[pos + 1]
    vs = sc + fscale(cur)
    check_mpa(v, exp, vs, 1e-10, vsh, 'vleg2leg: ')
    same(v.ranks[pos], 1, 'rank at the position')
    unchanged(a, snap)
    vl = [np.array(x) for x in v.lt]
    if spec['canon']:
        # the gauge may be changed in between
        lo = spec['canon'][0]
        v.canonicalize(left=lo, right=lo + 1 + spec['canon'][1] % (n - lo))
        ctx.label('canonicalized')
    snapv = snapshot(v)
    w = v.leg2vleg(pos)
    check_mpa(w, A, vs + fscale(vl), 1e-10, shape, 'leg2vleg: ')
    same(w.ranks[pos], rank, 'restored rank')
    unchanged(v, snapv, 'argument of leg2vleg: ')
    if spec['norm']:
        close(mp.norm(w), np.linalg.norm(A.ravel()), vs + fscale(vl), 1e-10,
              'norm after leg2vleg')


def gen_split(src):
    n = g_nsites(src, 1, 7, 12)
    spec = g_mpa(src, nsites=n, legs=(0, 2), cap=600, maxrank=4)
    # (pos == n - 1 is not a virtual leg)
    pos = src.int(0, n + 2)
    pos = {n: -1, n + 1: n, n + 2: n + 3}.get(pos, pos)
    return {'a': spec, 'pos': 0 if pos == n - 1 and n > 1 else
            (-1 if pos == n - 1 else pos)}


def run_split(spec, ctx):
    a, l = build_mpa(spec['a'])
    snap = snapshot(a)
    shape = spec['a']['shape']
    pos, n = spec['pos'], len(l)
    A, sc = dense(l), fscale(l)
    nt(ctx, spec['a'])
    left, right = a.split(pos)
    if pos < 0 or pos >= n:
        ctx.label('outside')
        keep, none = (right, left) if pos < 0 else (left, right)
        ensure(none is None, 'split outside the chain')
        check_mpa(keep, A, sc, 1e-10, shape)
        return
    cur = snap[0]
    rank = cur[pos].shape[-1]
    sc = sc + fscale(cur)
    # each part has the virtual leg as last / first physical leg
    check_struct(left, 'left part: ')
    check_struct(right, 'right part: ')
    same([list(s) for s in left.shape],
         shape[:pos] + [shape[pos] + [rank]], 'left shape')
    same([list(s) for s in right.shape],
         [[rank] + shape[pos + 1]] + shape[pos + 2:], 'right shape')
    L, R = dense(list(left.lt)), dense(list(right.lt))
    close(np.tensordot(L, R, axes=(-1, 0)), A, sc, 1e-10, 'recombined parts')
    close(L, contract(cur[:pos + 1])[0], sc + np.linalg.norm(L.ravel()), 1e-10,
          'left part')
    for part, d in ((left, L), (right, R)):
        close(mp.norm(part), np.linalg.norm(d.ravel()),
              np.linalg.norm(d.ravel()) + fscale(list(part.lt)), 1e-10, 'norm of part')
    unchanged(a, snap)


def gen_reverse(src):
    return {'a': g_mpa(src, hi=7, legs=(0, 3), dts=('c16', 'f8', 'i8', 'f4'))}


def run_reverse(spec, ctx):
    a, l = build_mpa(spec['a'])
    snap = snapshot(a)
    shape = spec['a']['shape']
    A, sc, tol = dense(l), fscale(l), eps_of(l)
    nt(ctx, spec['a'])
    res = a.reverse()
    order = sum(local_legs(shape)[::-1], [])
    check_mpa(res, A.transpose(order), sc, tol, shape[::-1])
    same(tuple(res.ranks), tuple(a.ranks)[::-1], 'ranks')
    unchanged(a, snap)
    check_mpa(res.reverse(), A, sc, tol, shape, 'twice reversed: ')


def gen_pad(src):
    n = g_nsites(src, 1, 7, 12)
    return {'a': g_mpa(src, nsites=n, legs=(0, 2), maxrank=6),
            'rank': src.pick([None, None, 1, 2, 3, 5, 8]), 'force': src.bool()}


def run_pad(spec, ctx):
    a, l = build_mpa(spec['a'])
    snap = snapshot(a)
    shape = spec['a']['shape']
    A, sc = dense(l), fscale(l)
    nt(ctx, spec['a'])
    before = tuple(a.ranks)
    kw = {}
    if spec['rank'] is not None:
        kw['rank'] = spec['rank']
    if spec['force']:
        kw['force_rank'] = True
    res = a.pad_ranks(**kw)
    check_mpa(res, A, sc, 1e-10, shape)
    target = spec['rank'] if spec['rank'] is not None else max(before + (1,))
    dims = [int(np.prod(s, dtype=object)) for s in shape]
    for i, (old, new) in enumerate(zip(before, res.ranks)):
        lim = target
        if not spec['force']:
            full = min(int(np.prod(dims[:i + 1], dtype=object)),
                       int(np.prod(dims[i + 1:], dtype=object)))
            lim = min(lim, full)
        same(new, max(old, lim), 'padded rank %d' % i)
    unchanged(a, snap)


def gen_prune(src):
    n = g_nsites(src, 1, 8, 14)
    how = src.pick(['mixed', 'none', 'ends', 'mid'])
    shape = []
    size = 1
    for i in range(n):
        empty = {'mixed': src.bool(.5), 'none': True,
                 'ends': i in (0, n - 1), 'mid': 0 < i < n - 1}[how]
        if empty:
            shape.append([])
        else:
            s = [src.weighted([(2, 3), (1, 2), (3, 1)])
                 for _ in range(src.int(0, 2))]
            if size * int(np.prod(s, dtype=object)) > 2000:
                s = [1] * len(s)
            size *= int(np.prod(s, dtype=object))
            shape.append(s)
    return {'a': g_mpa(src, shape=shape, maxrank=4), 'single': src.bool()}


def run_prune(spec, ctx):
    a, l = build_mpa(spec['a'])
    snap = snapshot(a)
    shape = spec['a']['shape']
    A, sc = dense(l), fscale(l)
    ctx.nt(any(not s for s in shape) and len(shape) > 1)
    if spec['single']:
        res = mp.prune(a, singletons=True)
        keep = [s for s in shape if int(np.prod(s, dtype=object)) > 1]
        ctx.label('singletons')
    else:
        res = mp.prune(a)
        keep = [s for s in shape if s]
    keep = keep or [[]]
    # legs of the contracted sites are all gone
    check_mpa(res, A.reshape(sum((tuple(s) for s in keep), ())), sc, 1e-10, keep)
    same(len(res), len(keep), 'number of sites')
    unchanged(a, snap)


def gen_hist(src):
    n = g_nsites(src, 2, 6, 10)
    spec = g_mpa(src, nsites=n, legs=(1, 2), cap=300, maxrank=3, scale=False)
    return {'a': spec, 'ops': [[src.pick(
        ['reverse', 'pad', 'group2', 'split2', 'vleg', 'canon', 'T', 'conj',
         'prune', 'ravel', 'norm', 'compress', 'copy']),
        src.int(0, 7), src.int(0, 7)]
        for _ in range(src.int(1, 8))]}


def run_hist(spec, ctx):
    """Sequences of restructuring operations on one object"""
    m, l = build_mpa(spec['a'])
    A, sc = dense(l), fscale(l)
    shape = [list(s) for s in spec['a']['shape']]
    done = 0
    for op, x, y in spec['ops']:
        n = len(shape)
        if op == 'reverse':
            m = m.reverse()
            A = A.transpose(sum(local_legs(shape)[::-1], []))
            shape = shape[::-1]
        elif op == 'pad' and n > 1:
            m = m.pad_ranks(1 + x)
        elif op == 'group2':
            if n % 2:
                continue
            m = m.group_sites(2)
            shape = [shape[i] + shape[i + 1] for i in range(0, n, 2)]
        elif op == 'split2':
            if any(len(s) % 2 or not s for s in shape):
                continue
            m = m.split_sites(2)
            shape = [p for s in shape for p in (s[:len(s) // 2], s[len(s) // 2:])]
        elif op == 'vleg' and n > 1:
            pos = x % (n - 1)
            m = m.vleg2leg(pos)
            lo = y % n
            m.canonicalize(left=lo, right=n if x % 2 else lo + 1)
            m = m.leg2vleg(pos)
        elif op == 'canon' and n > 1:
            lo = x % n
            m.canonicalize(left=lo, right=lo + 1 + y % (n - lo))
        elif op == 'T':
            legs = local_legs(shape)
            A = A.transpose(sum((g[::-1] for g in legs), []))
            shape = [s[::-1] for s in shape]
            m = m.T
        elif op == 'conj':
            m, A = m.conj(), A.conj()
        elif op == 'prune':
            m = mp.prune(m, singletons=True)
            shape = [s for s in shape if int(np.prod(s, dtype=object)) > 1] or [[]]
            A = A.reshape(sum((tuple(s) for s in shape), ()))
        elif op == 'ravel':
            m = m.ravel()
            shape = [[int(np.prod(s, dtype=object))] for s in shape]
            A = A.reshape(sum((tuple(s) for s in shape), ()))
        elif op == 'norm':
            close(mp.norm(m), np.linalg.norm(A.ravel()), sc, 1e-10, 'norm')
        elif op == 'compress' and n > 1:
            m.compress(rank=max(m.ranks) + 1)
        elif op == 'copy':
            m = m.copy()
        else:
            continue
        done += 1
        check_mpa(m, A, sc, 1e-9, shape, 'after %s: ' % op)
    ctx.nt(done >= 2)
    ctx.label('steps:%d' % done)


SUBS = [
    Sub('group', gen_group, run_group, 500),
    Sub('split_sites', gen_split_sites, run_split_sites, 500),
    Sub('vleg', gen_vleg, run_vleg, 1200),
    Sub('split', gen_split, run_split, 800),
    Sub('reverse', gen_reverse, run_reverse, 400),
    Sub('pad', gen_pad, run_pad, 500),
    Sub('prune', gen_prune, run_prune, 600),
    Sub('history', gen_hist, run_hist, 1000),
]
