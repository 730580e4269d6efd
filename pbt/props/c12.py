# encoding: utf-8
"""C12: variational compression"""
from __future__ import division

import numpy as np

import mpnum as mp

from ..engine import Sub
from ..gen import build_mpa, g_mpa, g_nsites, rs
from ..oracle import (check_mpa, check_struct, close, dense, ensure, fscale,
                      same, snapshot, unchanged)
from .c11 import tails

RULE = """Random MPArrays (1-6 sites, any legs, ranks up to 6, real and
complex), compressed variationally with given rank or start vector (also one
with inhomogeneous ranks, other dtype, other norm or canonical form), 1-4
sweeps, 1 or 2 varied sites, in place and as copy.  Oracles: rank bound,
<u|c> = <c|c> = returned overlap, distance not larger than the one of the start
vector and than the one after fewer sweeps, Eckart-Young lower bound, exactness
when the rank suffices (random start), reproducibility from the random state,
operands unchanged.  Non-trivial: at least two sites and at least one bond with
rank > 1."""

KINDS = (('gauss', 8), ('int', 2), ('dup', 2), ('sparse', 1), ('ones', .5))


def gen(src):
    n = g_nsites(src, 1, 6, 9)
    a = g_mpa(src, nsites=n, legs=(0, 2), cap=400, maxrank=6, scale=False,
              dts=('c16', 'f8'), kinds=KINDS)
    vs = src.weighted([(1, 3), (2, 3), (None, 2)])
    how = src.weighted([('rank', 3), ('start', 5)])
    spec = {'a': a, 'how': how, 'var_sites': vs, 'sweeps': src.int(1, 4),
            'inplace': src.bool(), 'scale': src.weighted([(0, 4), (-5, 1), (4, 1)]),
            'seed': src.seed(), 'r': src.int(1, 6), 'userand': src.bool(.8)}
    if how == 'start':
        spec['start'] = g_mpa(src, shape=a['shape'], maxrank=5, scale=False,
                              dts=('c16', 'f8'), kinds=KINDS)
    return spec


def run(spec, ctx):
    m, l = build_mpa(spec['a'])
    if spec['scale']:
        m = m * 10.**spec['scale']
        l[0] = l[0] * 10.**spec['scale']
    n = len(m)
    A = dense(l)
    nrm = float(np.linalg.norm(A.ravel()))
    sc = fscale(l)
    shape = spec['a']['shape']
    before = snapshot(m)
    kw = {'num_sweeps': spec['sweeps'], 'method': 'var'}
    if spec['var_sites'] is not None:
        kw['var_sites'] = spec['var_sites']
    start = None
    if spec['how'] == 'rank':
        # more than the current rank is allowed: nothing to do
        rank = spec['r']
        kw['rank'] = rank
        if spec['userand']:
            kw['randstate'] = rs(spec['seed'])
        else:
            np.random.seed(spec['seed'] % 2**32)
    else:
        start, sl = build_mpa(spec['start'])
        S = dense(sl)
        kw['startmpa'] = start
        snap_start = snapshot(start)
        rank = max(tuple(start.ranks) + (1,))
    ranks = tuple(m.ranks)

    def again(**change):
        """Compression of the original once more"""
        k = dict(kw, **change)
        if spec['how'] == 'rank':
            if spec['userand']:
                k['randstate'] = rs(spec['seed'])
            else:
                np.random.seed(spec['seed'] % 2**32)
        x = mp.MPArray([t.copy() for t in before[0]])
        return x.compression(**k)

    if spec['inplace']:
        c, overlap = m, m.compress(**kw)
    else:
        c, overlap = m.compression(**kw)
        unchanged(m, before, 'original: ')
        ensure(c is not m, 'compression returns the original')
        for x in c.lt:
            for y in m.lt:
                ensure(not np.shares_memory(x, y),
                       'compression() shares memory with the original')
    if start is not None:
        unchanged(start, snap_start, 'start vector: ')
    check_struct(c, 'compressed: ')
    same(tuple(c.shape), tuple(tuple(s) for s in shape), 'physical shape')
    C = dense(list(c.lt))
    err = float(np.linalg.norm((A - C).ravel()))
    cc = float(np.linalg.norm(C.ravel()))**2
    tol = 1e-8
    close(overlap, cc, sc**2, tol, 'overlap, <c|c>')
    close(np.vdot(A.ravel(), C.ravel()), cc, sc**2, tol, '<u|c>, <c|c>')
    if n == 1 or rank > max(ranks):
        ctx.label('copy')
        close(C, A, sc, 1e-10, 'copy')
        return
    ctx.nt(rank > 1 or max(ranks) > 1,
           '%s/var_sites=%r' % (spec['how'], spec['var_sites']))
    ensure(all(r <= rank for r in c.ranks), 'ranks %r, allowed %d', c.ranks,
           rank)
    sv = tails(A, shape)
    lower = max(float(np.sqrt(np.sum(s[rank:]**2))) for s in sv)
    ensure(err >= lower - tol * sc, 'error %g < possible %g', err, lower)
    ensure(err <= nrm + tol * sc, 'error %g > norm %g', err, nrm)
    if start is not None:
        e0 = float(np.linalg.norm((A - S).ravel()))
        ensure(err <= e0 + tol * (sc + e0), 'error %g, start vector: %g', err, e0)
    if spec['sweeps'] > 1:
        c1, o1 = again(num_sweeps=spec['sweeps'] - 1)
        e1 = float(np.linalg.norm((A - dense(list(c1.lt))).ravel()))
        ensure(err <= e1 + tol * sc, 'error %g, with fewer sweeps %g', err, e1)
    c2, o2 = again()
    close(dense(list(c2.lt)), C, sc, 1e-9, 'the same compression again')
    close(o2, overlap, sc**2, 1e-9, 'overlap of the same compression')


def gen_exact(src):
    """Random start vector, rank suffices"""
    n = g_nsites(src, 2, 5, 8)
    a = g_mpa(src, nsites=n, legs=(1, 2), cap=200, maxrank=4, scale=False,
              dts=('c16', 'f8'), kinds=(('gauss', 1),), cforms=True)
    return {'a': a, 'extra': src.int(0, 2), 'seed': src.seed(),
            'var_sites': src.int(1, 2), 'factor': src.pick([0, -4, 3])}


def run_exact(spec, ctx):
    m, l = build_mpa(spec['a'])
    if len(set(spec['a']['dt'])) > 1:
        return
    f = 10.**spec['factor']
    A = dense(l) * f
    m = m * f
    shape = spec['a']['shape']
    sv = tails(A, shape)
    exact = max(int(np.sum(s > 1e-9 * s[0])) for s in sv)
    rank = min(exact + spec['extra'], max(m.ranks))
    c, overlap = m.compression(method='var', rank=rank, num_sweeps=8,
                               randstate=rs(spec['seed']),
                               var_sites=spec['var_sites'])
    ensure(max(c.ranks) <= rank, 'rank')
    # generic start vector: converges to the tensor itself
    check_mpa(c, A, np.linalg.norm(A.ravel()), 1e-5, shape)
    close(overlap, np.linalg.norm(A.ravel())**2, np.linalg.norm(A.ravel())**2,
          1e-5, 'overlap')
    ctx.nt(exact > 1, 'var_sites=%d' % spec['var_sites'])


SUBS = [Sub('var', gen, run, 1600), Sub('exact', gen_exact, run_exact, 500)]
