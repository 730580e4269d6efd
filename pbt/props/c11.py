# encoding: utf-8
"""C11: SVD compression"""
from __future__ import division

import functools

import numpy as np

import mpnum as mp
from mpnum.utils import randomized_svd, truncated_svd

from ..engine import Sub
from ..gen import build_mpa, g_mpa, g_nsites, rs
from ..oracle import (check_mpa, check_struct, close, dense, ensure, fscale,
                      same, snapshot, unchanged)

RULE = """Random MPArrays (1-7 sites, ranks up to 7 including more than needed
and linearly dependent bond legs, any initial canonical form, all dtypes and
scales), compressed with every combination of target rank, relative error,
sweep direction and SVD function, in place and as a copy.  Oracles: a dense
reference that truncates the matricizations one after the other (exact
agreement where the truncation is unambiguous), Eckart-Young lower bound and the
sum-of-tails upper bound on the error, <u|c> = <c|c> = returned overlap, rank
bounds, canonical form of the result, operand unchanged for the copying variant.
Non-trivial: at least two sites and the compression discards something."""


def gen(src):
    n = g_nsites(src, 1, 7, 10)
    a = g_mpa(src, nsites=n, legs=src.pick([(1, 2), (1, 2), (0, 2)]), cap=600, maxrank=7,
              dts=('c16', 'f8', 'i8'))
    spec = {'a': a, 'inplace': src.bool(),
            'direction': src.pick([None, 'left', 'right']),
            'canon': src.weighted([('default', 3), ('true', 1), ('false', 1)]),
            'rank': src.weighted([(None, 2), ('some', 5), ('max', 1),
                                  ('big', 1)]),
            'r': src.weighted([(1, 3), (2, 4), (3, 2), (4, 1), (5, .5), (6, .3)]),
            'relerr': src.weighted([(None, 5), (0.0, 1), (1e-9, 1), (1e-3, 1),
                                    (.05, 1), (.2, 2), (.5, 1), (1.0, .7)]),
            'explicit_method': src.bool(.3),
            'svd': src.weighted([('default', 4), ('trunc', 1), ('own', 1)])}
    return spec


def own_svd(A, k):
    """svdfunc following the documented convention (independent)"""
    u, s, v = np.linalg.svd(A, full_matrices=False)
    return u[:, :k], s[:k], v[:k]


def tails(A, shape):
    """Singular values for all bipartitions, cut = 1, 2, ..., n - 1"""
    out, left = [], 1
    for s in shape[:-1]:
        left *= int(np.prod(s, dtype=object))
        out.append(np.linalg.svd(A.reshape((left, -1)), compute_uv=False))
    return out


def reference(A, shape, rank, relerr, direction):
    """Truncate one bond after the other; (tensor, unambiguous, ranks)"""
    n = len(shape)
    dims = [int(np.prod(s, dtype=object)) for s in shape]
    sure = True
    cuts = range(1, n) if direction == 'right' else range(n - 1, 0, -1)
    ranks = {}
    for cut in cuts:
        m = A.reshape((int(np.prod(dims[:cut], dtype=object)), -1))
        u, s, v = np.linalg.svd(m, full_matrices=False)
        k = len(s)
        if rank is not None:
            k = min(k, rank)
        if relerr is not None:
            if s[0] == 0:
                return A, False, ranks
            frac = np.cumsum(s) / np.sum(s)
            if np.abs(frac - (1 - relerr)).min() < 1e-7:
                sure = False
            k = min(k, int(np.sum(frac < 1 - relerr)) + 1)
        if k < len(s):
            if s[k - 1] - s[k] < 1e-4 * s[0]:
                sure = False
            A = (u[:, :k] * s[:k]).dot(v[:k]).reshape(A.shape)
        ranks[cut] = k
    return A, sure, ranks


def run(spec, ctx):
    m, l = build_mpa(spec['a'])
    n = len(m)
    A = dense(l)
    shape = spec['a']['shape']
    nrm = float(np.linalg.norm(A.ravel()))
    sc = fscale(l)
    # cancellation: the tensor is much smaller than the products of the norms
    if nrm < 1e-7 * sc:
        ctx.label('cancelled')
    rank = {None: None, 'some': spec['r'], 'max': max(tuple(m.ranks) + (1,)),
            'big': max(tuple(m.ranks) + (1,)) + spec['r']}[spec['rank']]
    relerr = spec['relerr']
    kw = {}
    if rank is not None:
        kw['rank'] = rank
    if relerr is not None:
        kw['relerr'] = relerr
    if spec['direction'] is not None:
        kw['direction'] = spec['direction']
    if spec['canon'] != 'default':
        kw['canonicalize'] = spec['canon'] == 'true'
    if spec['svd'] == 'trunc':
        kw['svdfunc'] = truncated_svd
    elif spec['svd'] == 'own':
        kw['svdfunc'] = own_svd
    if spec['explicit_method']:
        kw['method'] = 'svd'
    before = snapshot(m)
    cf = tuple(m.canonical_form)
    old_ranks = tuple(m.ranks)
    if spec['inplace']:
        c = m
        overlap = m.compress(**kw)
    else:
        c, overlap = m.compression(**kw)
        unchanged(m, before, 'original: ')
        ensure(c is not m, 'compression() must not return the original')
    check_struct(c, 'compressed: ')
    same(tuple(c.shape), tuple(tuple(s) for s in shape), 'physical shape')
    C = dense(list(c.lt))
    tol = 1e-9 * max(sc, nrm)
    ctx.label('%s/%s' % (spec['direction'], spec['canon']))
    if n == 1:
        close(C, A, sc, 1e-10, 'single site')
        close(overlap, nrm**2, sc**2, 1e-10, 'overlap')
        return
    bound = max(old_ranks) if rank is None else rank
    for i, r in enumerate(c.ranks):
        ensure(1 <= r <= bound, 'rank %d at bond %d, requested %r', r, i, rank)
        ensure(r <= old_ranks[i], 'rank at bond %d grew from %d to %d', i,
               old_ranks[i], r)
    final = tuple(c.canonical_form)
    ok = {'right': [(n - 1, n)], 'left': [(0, 1)],
          None: [(n - 1, n), (0, 1)]}[spec['direction']]
    ensure(final in ok, 'canonical form %r after compression in direction %r',
           final, spec['direction'])
    direction = 'right' if final == (n - 1, n) else 'left'
    cc = float(np.linalg.norm(C.ravel()))**2
    ensure(np.ndim(overlap) == 0 and np.imag(overlap) == 0, 'overlap %r', overlap)
    close(overlap, cc, sc**2, 1e-9, 'returned overlap, <c|c>')
    canonical = spec['canon'] != 'false' or (
        cf[1] == 1 if direction == 'right' else cf[0] == n - 1)
    err = float(np.linalg.norm((A - C).ravel()))
    if canonical:
        uc = np.vdot(A.ravel(), C.ravel())
        close(uc, cc, sc**2, 1e-9, '<u|c>, <c|c>')
        ref, sure, ref_ranks = reference(A, shape, bound, relerr, direction)
        sv = tails(A, shape)
        lower = max(float(np.sqrt(np.sum(s[r:]**2)))
                    for s, r in zip(sv, c.ranks))
        ensure(err >= lower - tol, 'error %g is below the possible %g (wrong '
               'overlap with the original?)', err, lower)
        if relerr is None:
            upper = float(np.sqrt(sum(np.sum(s[bound:]**2) for s in sv)))
            ensure(err <= upper + tol, 'error %g, bound %g', err, upper)
        else:
            upper2 = 0.
            for s in sv:
                # the singular values of the truncated tensor are not larger
                by_relerr = relerr * float(np.sum(s))
                upper2 += by_relerr**2 + float(np.sum(s[bound:]**2))
            upper = float(np.sqrt(upper2))
            ensure(err <= upper + tol, 'error %g, bound %g', err, upper)
        ctx.label('sure' if sure else 'ambiguous')
        if sure and nrm > 1e-6 * sc:
            close(C, ref, sc, 1e-6, 'compressed tensor, dense reference')
            for cut, k in sorted(ref_ranks.items()):
                r = c.ranks[cut - 1]
                ensure(r >= min(k, int(np.sum(sv[cut - 1] > 1e-7 * nrm))),
                       'rank %d at cut %d, reference keeps %d', r, cut, k)
                if relerr is not None:
                    ensure(r <= k, 'rank %d at cut %d, reference keeps %d', r,
                           cut, k)
        ctx.nt(err > 1e-6 * nrm, 'discards')
        if err > 1e-6 * nrm:
            ctx.label('discards-' + direction)
    else:
        ctx.label('not-canonical')
    # idempotence: compressing again with the same rank changes nothing
    if relerr is None:
        d, o2 = c.compression(rank=bound, direction='left'
                              if direction == 'right' else 'right')
        check_mpa(d, C, sc, 1e-8, shape, 'second compression: ', toarray=False)
        close(o2, cc, sc**2, 1e-8, 'second overlap')


def gen_rsvd(src):
    """randomized SVD: exact if the rank is large enough"""
    n = g_nsites(src, 2, 6, 9)
    a = g_mpa(src, nsites=n, legs=(1, 2), cap=400, maxrank=5, scale=False,
              dts=('c16', 'f8'), kinds=(('gauss', 5), ('dup', 1)))
    return {'a': a, 'direction': src.pick([None, 'left', 'right']),
            'extra': src.int(0, 3), 'seed': src.seed(), 'over': src.int(5, 12),
            'trunc': src.bool(.4), 'r': src.int(1, 4)}


def run_rsvd(spec, ctx):
    m, l = build_mpa(spec['a'])
    A = dense(l)
    # one dtype for all sites is needed by randomized_svd
    if len({a.dtype for a in m.lt}) > 1:
        return
    sc = fscale(l)
    shape = spec['a']['shape']
    f = functools.partial(randomized_svd, n_oversamples=spec['over'],
                          n_iter=4, randstate=rs(spec['seed']))
    rank = max(m.ranks) + spec['extra']
    if spec['trunc']:
        rank = spec['r']
    before = snapshot(m)
    c, overlap = m.compression(rank=rank, svdfunc=f,
                               direction=spec['direction'])
    unchanged(m, before, 'original: ')
    check_struct(c)
    ensure(all(r <= rank for r in c.ranks), 'ranks %r > %d', c.ranks, rank)
    C = dense(list(c.lt))
    cc = float(np.linalg.norm(C.ravel()))**2
    close(overlap, cc, sc**2, 1e-9, 'overlap')
    close(np.vdot(A.ravel(), C.ravel()), cc, sc**2, 1e-8, '<u|c>')
    sv = tails(A, shape)
    ctx.nt(True, 'trunc' if spec['trunc'] else 'exact')
    # sketch (rank + oversamples >= all bond dimensions) covers the full range,
    # so that the result is the one of the usual SVD
    upper = float(np.sqrt(sum(np.sum(s[rank:]**2) for s in sv)))
    err = float(np.linalg.norm((A - C).ravel()))
    ensure(err <= upper + 1e-7 * sc, 'error %g, bound %g', err, upper)


SUBS = [Sub('svd', gen, run, 4500), Sub('randomized', gen_rsvd, run_rsvd, 500)]
