# encoding: utf-8
"""C01: conversions between dense arrays and MPArrays are exact"""
from __future__ import division

import numpy as np

import mpnum as mp
from mpnum.mpstruct import LocalTensors

from ..engine import Sub
from ..gen import (KINDS, build_mpa, g_mpa, g_nsites, g_shape, layout,
                   rand_array, rs)
from ..oracle import (check_mpa, check_struct, close, contract, dense, ensure,
                      eps_of, fscale, global_perm, same, snapshot, unchanged)

RULE = """Random dense arrays (1-8 sites, 0-3 legs per site, leg dimensions
1-5, real/complex/integer/single precision, Gaussian/integer/sparse/low-rank/
zero content, different memory layouts, scales 1e-60..1e60) are converted to
MPArrays and back, random MPArrays (random ranks and canonical forms) are
converted to arrays; the oracle is an independent contraction of the local
tensors.  Non-trivial: at least two sites and a dense array with at least 4
entries which are not all equal."""


def g_dense(src, legs=(0, 3), uniform_legs=False, hi=7):
    n = g_nsites(src, 1, hi, 12 if hi >= 7 else 0)
    shape = g_shape(src, n, legs, cap=4000, same_legs=uniform_legs,
                    uniform=False if uniform_legs else None)
    return {'shape': shape, 'dt': src.weighted(
        [('c16', 4), ('f8', 4), ('i8', 1), ('f4', .5), ('c8', .5)]),
        'kind': src.weighted(KINDS), 'seed': src.seed(),
        'scale': src.weighted([(0, 6), (-8, 1), (-60, .5), (8, 1), (60, .5)]),
        'layout': src.weighted([('C', 5), ('F', 1), ('strided', 1), ('neg', 1),
                                ('ro', 1)])}


def b_dense(spec, shape=None):
    shape = shape if shape is not None else sum((tuple(s) for s in spec['shape']), ())
    r = rs(spec['seed'])
    a = rand_array(r, shape, spec['kind'], spec['dt'])
    if a.dtype.kind in 'fc' and a.dtype.itemsize >= 8 and spec['dt'] in ('f8', 'c16'):
        a = a * 10.**spec['scale']
    return a, layout(a, spec['layout'], r) if a.ndim else a.copy()


def nontriv(ctx, nsites, a):
    ctx.nt(nsites >= 2 and a.size >= 4 and np.abs(a - a.flat[0]).max() > 0)


def maxranks(shape):
    dims = [int(np.prod(s, dtype=object)) for s in shape]
    out = []
    for c in range(1, len(dims)):
        l = r = 1
        for d in dims[:c]:
            l *= d
        for d in dims[c:]:
            r *= d
        out.append(min(l, r))
    return out


def gen_from(src):
    spec = g_dense(src)
    # the last site takes all remaining legs, it must have at least one
    if not spec['shape'][-1]:
        spec['shape'][-1] = [src.int(1, 3)]
    spec['form'] = src.pick(['list', 'tuple', 'iter', 'scalar'])
    return spec


def run_from(spec, ctx):
    shape = spec['shape']
    orig, arr = b_dense(spec)
    nl = [len(s) for s in shape]
    form = spec['form']
    if form == 'scalar' and len(set(nl)) == 1 and nl[0] > 0:
        if len(shape) == 1:
            mpa = mp.MPArray.from_array(arr)
        else:
            mpa = mp.MPArray.from_array(arr, nl[0])
    elif form == 'iter':
        mpa = mp.MPArray.from_array(arr, iter(nl))
    else:
        mpa = mp.MPArray.from_array(arr, tuple(nl) if form == 'tuple' else nl)
    ctx.label('dt:' + spec['dt'])
    nontriv(ctx, len(shape), orig)
    ensure(np.array_equal(arr, orig), 'the array was modified')
    sc = np.linalg.norm(orig.astype(complex).ravel())
    tol = eps_of([orig])
    check_mpa(mpa, orig, sc, tol, shape)
    n = len(shape)
    same(len(mpa), n, 'number of sites')
    same(tuple(mpa.canonical_form), (n - 1, n), 'left-canonical form')
    for got, lim in zip(mpa.ranks, maxranks(shape)):
        ensure(got <= lim, 'rank %r larger than the maximal rank %r', got, lim)
    if orig.dtype.kind != 'c':
        same(np.dtype(mpa.dtype).kind, 'f', 'dtype of a real array')


def gen_virtual(src):
    spec = g_dense(src, legs=(0, 2), hi=5)
    if not spec['shape'][-1]:
        spec['shape'][-1] = [2]
    spec['virt'] = [src.int(1, 4), src.int(1, 4)]
    return spec


def run_virtual(spec, ctx):
    shape = spec['shape']
    full = (spec['virt'][0],) + sum((tuple(s) for s in shape), ()) + (spec['virt'][1],)
    orig, arr = b_dense(spec, full)
    mpa = mp.MPArray.from_array(arr, [len(s) for s in shape], has_virtual=True)
    nontriv(ctx, len(shape), orig)
    lts = list(mpa.lt)
    same(len(lts), len(shape), 'number of sites')
    same([list(a.shape[1:-1]) for a in lts], shape, 'physical shape')
    same((lts[0].shape[0], lts[-1].shape[-1]), tuple(spec['virt']), 'outer legs')
    close(contract(lts), orig, np.linalg.norm(orig.astype(complex).ravel()),
          eps_of([orig]), 'has_virtual: dense array')


def gen_global(src):
    spec = g_dense(src, legs=(1, 3), uniform_legs=True, hi=6)
    return spec


def run_global(spec, ctx):
    shape = spec['shape']
    n, k = len(shape), len(shape[0])
    loc, _ = b_dense(spec)
    perm = global_perm(n, k)
    glob = loc.transpose(perm)
    arr = layout(glob, spec['layout'], None)
    mpa = mp.MPArray.from_array_global(arr, k)
    nontriv(ctx, n, loc)
    ctx.label('legs:%d' % k)
    sc = np.linalg.norm(loc.astype(complex).ravel())
    tol = eps_of([loc])
    check_mpa(mpa, loc, sc, tol, shape)
    close(mpa.to_array_global(), glob, sc, tol, 'to_array_global()')
    # the utility functions are the same permutation
    close(mp.utils.global_to_local(glob, n), loc, 0, 0, 'global_to_local')
    close(mp.utils.local_to_global(loc, n), glob, 0, 0, 'local_to_global')


def gen_kron(src):
    n = g_nsites(src, 1, 6, 12)
    return {'shape': g_shape(src, n, (0, 3), cap=4000),
            'dt': [src.weighted([('c16', 3), ('f8', 3), ('i8', 1)])
                   for _ in range(n)],
            'kind': src.weighted(KINDS), 'seed': src.seed(),
            'as': src.pick(['list', 'tuple', 'iter'])}


def run_kron(spec, ctx):
    r = rs(spec['seed'])
    facs = [rand_array(r, s, spec['kind'], d)
            for s, d in zip(spec['shape'], spec['dt'])]
    keep = [f.copy() for f in facs]
    arg = {'list': list, 'tuple': tuple, 'iter': iter}[spec['as']](facs)
    mpa = mp.MPArray.from_kron(arg)
    exp = np.ones(())
    for f in keep:
        exp = np.multiply.outer(exp, f)
    nontriv(ctx, len(facs), exp)
    check_mpa(mpa, exp, fscale([f[None] for f in keep]), 1e-11, spec['shape'])
    ensure(all(x == 1 for x in mpa.ranks), 'ranks of a product: %r', mpa.ranks)
    for f, k in zip(facs, keep):
        ensure(np.array_equal(f, k), 'factor modified')


def gen_to(src):
    spec = g_mpa(src, hi=8, dts=('c16', 'f8', 'i8', 'f4', 'c8'), cap=5000)
    spec['ctor'] = src.pick(['list', 'tuple', 'gen', 'lt'])
    return spec


def run_to(spec, ctx):
    mpa, lts = build_mpa(spec)
    snap = snapshot(mpa)
    exp = dense(lts)
    sc, tol = fscale(lts), eps_of(lts)
    nontriv(ctx, len(lts), exp)
    ctx.label('cform' if 'cform' in spec else 'plain')
    check_mpa(mpa, exp, sc, tol, spec['shape'])
    arr = mpa.to_array()
    if all(a.dtype.kind in 'fc' for a in snap[0]):
        same(np.dtype(mpa.dtype), np.result_type(*snap[0]), 'dtype')
        same(arr.dtype, np.dtype(mpa.dtype), 'dtype of to_array()')
    same(arr.shape, sum((tuple(s) for s in spec['shape']), ()), 'to_array shape')
    # the returned array belongs to the caller
    if arr.size:
        ensure(arr.flags.writeable, 'to_array() is not writable')
        arr[...] = 17
        unchanged(mpa, snap, 'after writing to to_array(): ')
    k = set(len(s) for s in spec['shape'])
    if len(k) == 1 and k != {0}:
        ctx.label('global')
        n = len(spec['shape'])
        g = mpa.to_array_global()
        close(g, exp.transpose(global_perm(n, k.pop())), sc, tol,
              'to_array_global()')
    # constructors take local tensors in any form
    src_lts = [a.copy() for a in snap[0]]
    how = spec['ctor']
    if how == 'lt':
        new = mp.MPArray(LocalTensors(src_lts))
    else:
        new = mp.MPArray({'list': list, 'tuple': tuple, 'gen': iter}[how](src_lts))
    check_mpa(new, exp, sc, tol, spec['shape'], 'constructor: ')
    same(tuple(new.canonical_form), (0, len(src_lts)), 'default canonical form')
    # copies
    cp = mpa.copy()
    check_struct(cp, 'copy: ')
    unchanged(cp, snap, 'copy: ')
    unchanged(mpa, snap, 'source of copy: ')
    # round trip
    if spec['shape'][-1] and len(lts) <= 6:
        back = mp.MPArray.from_array(mpa.to_array(), [len(s) for s in spec['shape']])
        check_mpa(back, exp, sc, tol, spec['shape'], 'round trip: ')


def gen_full_rank(src):
    n = src.int(1, 40)
    how = src.pick(['int', 'tuple', 'np'])
    if how == 'int':
        dims = [src.int(1, 5) for _ in range(n)]
    else:
        dims = [[src.int(1, 4) for _ in range(src.int(0, 3))] for _ in range(n)]
    return {'dims': dims, 'how': how}


def run_full_rank(spec, ctx):
    dims = spec['dims']
    arg = dims if spec['how'] == 'int' else [tuple(d) for d in dims]
    if spec['how'] == 'int':
        exp = maxranks([[d] for d in dims])
    else:
        exp = maxranks(dims)
    got = mp.full_rank(arg)
    same(list(int(g) for g in got), exp, 'full_rank')
    ctx.nt(len(dims) > 3)


SUBS = [
    Sub('from_array', gen_from, run_from, 2600),
    Sub('has_virtual', gen_virtual, run_virtual, 700),
    Sub('global_form', gen_global, run_global, 900),
    Sub('from_kron', gen_kron, run_kron, 600),
    Sub('to_array', gen_to, run_to, 2600),
    Sub('full_rank', gen_full_rank, run_full_rank, 400),
]
