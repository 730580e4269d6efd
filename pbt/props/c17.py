# encoding: utf-8
"""C17: sums of product tensors with in-place compression; truncated SVDs"""
from __future__ import division

import functools

import numpy as np
import scipy.sparse as sps
import scipy.sparse.linalg as ssl

import mpnum as mp
from mpnum import special
from mpnum.utils import randomized_svd, truncated_svd

from ..engine import Sub
from ..gen import build_mpa, g_mpa, g_nsites, g_shape, rand_array, rs
from ..oracle import (check_mpa, check_struct, close, dense, ensure, fscale,
                      same, snapshot, unchanged)

RULE = """Random lists of 1-9 product tensors (1-6 sites, 1-3 legs per site,
inhomogeneous dimensions, real/complex/integer, linearly dependent lists),
weights of all kinds, every target rank, exact and randomized SVD functions;
random matrices (dense, sparse, linear operators; wide, tall, rank deficient)
for the SVD functions with all options.  Oracles: dense sum when the rank
suffices, rank bound, truthful canonical form and an independent sequential
truncation for the error otherwise; for the SVDs orthonormality, order,
agreement with the exact SVD and projection bounds.  Non-trivial: at least two
sites and two summands; matrices with both dimensions at least 2."""


def gen(src):
    n = g_nsites(src, 1, 6, 10)
    shape = g_shape(src, n, (1, 3), 3, 500)
    k = src.int(1, 9)
    mpas = []
    for _ in range(k):
        a = g_mpa(src, shape=shape, maxrank=1, scale=False, layouts=False,
                  kinds=(('gauss', 6), ('int', 2), ('unit', 1), ('zero', .2)))
        a['ranks'] = [1] * (n - 1)
        mpas.append(a)
    if k > 2 and src.bool(.3):
        mpas[-1] = mpas[0]
    w = src.weighted([(None, 2), ('float', 2), ('complex', 1), ('int', 1)])
    weights = None
    if w == 'float':
        weights = [src.int(-16, 16) / 8. for _ in range(k)]
    elif w == 'complex':
        weights = [[src.int(-8, 8) / 8., src.int(-8, 8) / 8.] for _ in range(k)]
    elif w == 'int':
        weights = [src.int(-3, 3) for _ in range(k)]
    return {'mpas': mpas, 'weights': weights, 'w': w, 'rank': src.int(1, 12),
            'svd': src.weighted([('default', 3), ('explicit', 1), ('rand', 1)]),
            'asarray': src.bool(), 'iter': src.bool(.3), 'seed': src.seed()}


def reference_error(lts, weights, rank):
    """Error of left-to-right truncation of the untouched sum, or None if a
    truncation is ambiguous"""
    k = len(lts)
    n = len(lts[0])
    mats = [[np.ravel(t) for t in l] for l in lts]
    # left part: matrix (kept index, summand); isometries are not needed to
    # get the resulting tensor, so carry the projected left tensors along
    left = None
    cur = np.array([weights[j] * mats[j][0] for j in range(k)]).T
    basis = np.eye(cur.shape[0])
    for site in range(n - 1):
        if site:
            cur = np.concatenate([cur * np.array([mats[j][site][i]
                                                  for j in range(k)])[None]
                                  for i in range(len(mats[0][site]))], axis=0)
            d = len(mats[0][site])
            basis = np.einsum('ab,cd->acdb', basis, np.eye(d)).reshape(
                (basis.shape[0] * d, -1))
        u, s, v = np.linalg.svd(cur, full_matrices=False)
        r = min(rank, len(s))
        if r < len(s) and s[r - 1] - s[r] < 1e-5 * (s[0] + 1e-300):
            return None
        basis = basis.dot(u[:, :r])
        cur = s[:r, None] * v[:r]
    return basis, cur


def run(spec, ctx):
    built = [build_mpa(s) for s in spec['mpas']]
    objs, lts = [b[0] for b in built], [b[1] for b in built]
    snaps = [snapshot(m) for m in objs]
    k, n = len(objs), len(objs[0])
    w = spec['weights']
    if spec['w'] == 'complex':
        w = [complex(*x) for x in w]
    wv = w if w is not None else [1] * k
    exp = sum(x * dense(l) for x, l in zip(wv, lts))
    # (rounding errors of one summand mix with the tensors of the others)
    sc = sum(abs(x) * np.linalg.norm(sn[0][0])
             for x, sn in zip(wv, snaps)) + 1e-30
    for i in range(1, n):
        sc *= max(np.linalg.norm(sn[0][i]) for sn in snaps)
    rank = spec['rank']
    kw = {}
    if w is not None:
        kw['weights'] = np.array(w) if spec['asarray'] else w
        if spec['iter']:
            kw['weights'] = iter(kw['weights'])
    if spec['svd'] == 'explicit':
        kw['svdfunc'] = truncated_svd
    rand = spec['svd'] == 'rand' and all(
        t.dtype == np.complex128 for l in objs for t in l.lt) and n > 1
    if rand:
        kw['svdfunc'] = functools.partial(randomized_svd, n_iter=2,
                                          piter_normalizer='QR',
                                          randstate=rs(spec['seed']))
    res = special.sumup(iter(objs) if spec['iter'] else objs, rank, **kw)
    shape = spec['mpas'][0]['shape']
    for m, s in zip(objs, snaps):
        unchanged(m, s, 'summand: ')
    out = check_struct(res)
    same(tuple(res.shape), tuple(tuple(s) for s in shape), 'shape')
    ensure(all(r <= rank for r in res.ranks), 'ranks %r, allowed %d', res.ranks,
           rank)
    ctx.nt(n > 1 and k > 1)
    if n == 1 or rank >= k:
        check_mpa(res, exp, sc, 1e-6 if rand else 1e-9, shape)
        ctx.label('exact')
        return
    ctx.label('truncated')
    if rand:
        return
    got = np.linalg.norm((dense(out) - exp).ravel())
    # (the result depends on the gauge of the summands)
    lts = [sn[0] for sn in snaps]
    ref = reference_error(lts, wv, rank)
    if ref is None:
        ctx.label('ambiguous')
        return
    basis, cur = ref
    last = np.array([np.ravel(l[-1]) for l in lts])
    R = basis.dot(cur).dot(last)
    # site-major order as in the dense array
    err = np.linalg.norm(R.ravel() - permuted(exp, shape))
    ensure(got <= err * (1 + 1e-6) + 1e-9 * sc, 'error %g, plain sequential '
           'truncation %g', got, err)


def permuted(A, shape):
    """Dense tensor in the index order which reference_error() uses: the new
    site is the slower index in `cur`, basis rows are (old, new)"""
    return A.ravel()


def gen_svd(src):
    m, n = src.int(1, 14), src.int(1, 14)
    return {'m': m, 'n': n, 'r': src.int(1, 14), 'k': src.int(1, 16),
            'dt': src.pick(['f8', 'c16']), 'seed': src.seed(),
            'form': src.pick(['dense', 'sparse', 'op']),
            'over': src.pick([None, 0, 1, 3, 10]),
            'iter': src.pick(['auto', 0, 1, 2, 4]),
            'piter': src.pick(['auto', 'QR', 'LU', 'none']),
            'transpose': src.pick(['auto', True, False]),
            'global': src.bool(.2), 'seed2': src.seed()}


def run_svd(spec, ctx):
    m, n = spec['m'], spec['n']
    r = min(spec['r'], m, n)
    g = rs(spec['seed'])
    A = rand_array(g, (m, r), 'gauss', spec['dt']).dot(
        rand_array(g, (r, n), 'gauss', spec['dt']))
    keep = A.copy()
    k = spec['k']
    U, S, V = np.linalg.svd(A, full_matrices=False)
    sc = S[0]
    # truncated_svd
    u, s, v = truncated_svd(A, k)
    kk = min(k, m, n)
    same((u.shape, s.shape, v.shape), ((m, kk), (kk,), (kk, n)), 'shapes')
    close(s, S[:kk], sc, 1e-12, 'singular values')
    best = (U[:, :kk] * S[:kk]).dot(V[:kk])
    gap = kk == len(S) or S[kk - 1] - S[kk] > 1e-5 * sc or S[kk - 1] < 1e-9 * sc
    if gap:
        close((u * s).dot(v), best, sc, 1e-8, 'truncated SVD')
    close(np.linalg.norm(A - (u * s).dot(v)), np.linalg.norm(S[kk:]), sc, 1e-8,
          'error of truncated SVD')
    close(u.conj().T.dot(u), np.eye(kk), 1, 1e-10, 'u')
    close(v.dot(v.conj().T), np.eye(kk), 1, 1e-10, 'v')
    ensure(np.array_equal(A, keep), 'matrix modified')
    # randomized
    M = {'dense': lambda: A, 'sparse': lambda: sps.csr_matrix(A),
         'op': lambda: ssl.aslinearoperator(A)}[spec['form']]()
    kw = {'piter_normalizer': spec['piter'], 'transpose': spec['transpose']}
    if spec['over'] is not None:
        kw['n_oversamples'] = spec['over']
    it = spec['iter']
    if spec['piter'] == 'none' and it not in (0, 1, 2):
        it = 1
    kw['n_iter'] = it

    def call():
        if spec['global']:
            np.random.seed(spec['seed2'] % 2**32)
            return randomized_svd(M, k, **kw)
        return randomized_svd(M, k, randstate=rs(spec['seed2']), **kw)
    u, s, v = call()
    over = 10 if spec['over'] is None else spec['over']
    kk = len(s)
    ensure(kk <= k and kk <= min(m, n), '%d singular values', kk)
    ensure(kk == min(k, m, n), '%d singular values instead of %d', kk,
           min(k, m, n))
    same((u.shape, v.shape), ((m, kk), (kk, n)), 'shapes')
    ensure((np.diff(s) <= 1e-12 * sc).all() and (s >= 0).all(), 'order of '
           'singular values')
    close(u.conj().T.dot(u), np.eye(kk), 1, 1e-8, 'u (randomized)')
    close(v.dot(v.conj().T), np.eye(kk), 1, 1e-8, 'v (randomized)')
    ensure((s <= S[:kk] * (1 + 1e-9) + 1e-9 * sc).all(),
           'singular values too large')
    # error of a projection onto the sketch
    err = np.linalg.norm(A - (u * s).dot(v))
    ensure(err >= np.linalg.norm(S[kk:]) - 1e-8 * sc, 'error below the optimum')
    if k + over >= r:
        close(s, S[:kk], sc, 1e-6, 'singular values (randomized)')
        close(err, np.linalg.norm(S[kk:]), sc, 1e-6, 'error (randomized)')
        ctx.label('sketch suffices')
    # left and right vectors belong together
    close(u.conj().T.dot(A).dot(v.conj().T), np.diag(s), sc, 1e-6,
          'u* A v* (randomized)')
    u2, s2, v2 = call()
    ensure(np.array_equal(s, s2) and np.array_equal(u, u2), 'not reproducible')
    ensure(np.array_equal(A, keep), 'matrix modified')
    ctx.nt(min(m, n) > 1, spec['form'])


SUBS = [Sub('sumup', gen, run, 2200), Sub('svd', gen_svd, run_svd, 1500)]
