# encoding: utf-8
"""C15: factory functions"""
from __future__ import division

import itertools

import numpy as np

import mpnum as mp

from ..engine import Sub, Violation
from ..gen import g_nsites, g_shape, rand_array, rs
from ..oracle import (check_mpa, check_struct, close, dense, ensure, fscale,
                      global_perm, same)

RULE = """Random parameters of every factory function (sites 1-7, physical legs
given as number, per-leg and per-site sequences, rank given as number or per
bond, force_rank, normalized, hermitian, dtype, random state given or global).
Oracles: exact shapes and ranks, unit norm, hermiticity, positivity and trace
from the dense operator, identity / diagonal / zero tensors, locality of random
Hamiltonians from their operator-basis expansion, moments of the drawn entries,
reproducibility from the random state and independence of the global one.
Non-trivial: at least two sites."""


def full_ranks(shape):
    d = [int(np.prod(s, dtype=object)) for s in shape]
    return [min(int(np.prod(d[:i], dtype=object)),
                int(np.prod(d[i:], dtype=object))) for i in range(1, len(d))]


def gen_mpa(src):
    n = g_nsites(src, 1, 7, 16)
    form = src.pick(['scalar', 'legs', 'sites'])
    if form == 'scalar':
        ldim = src.int(1, 4)
        shape = [[ldim]] * n
    elif form == 'legs':
        ldim = [src.int(1, 3) for _ in range(src.int(1, 3))]
        shape = [ldim] * n
    else:
        ldim = [[src.int(1, 4) for _ in range(src.int(0, 3))] for _ in range(n)]
        shape = ldim
    top = 9 if src.bool(.95) else 40
    rank = src.int(1, top) if src.bool(.6) else [src.int(1, top)
                                                 for _ in range(n - 1)]
    return {'n': n, 'form': form, 'ldim': ldim, 'shape': shape, 'rank': rank,
            'force': src.bool(), 'normalized': src.bool(), 'cplx': src.bool(),
            'fun': src.weighted([('random_mpa', 4), ('zero', 1),
                                 ('random_mps', 2)]),
            'seed': src.seed(), 'global': src.bool(.3), 'conv': src.pick(
                ['list', 'tuple', 'iter'])}


def conv(x, how):
    if not isinstance(x, list):
        return x
    x = [conv(y, 'tuple') if isinstance(y, list) else y for y in x]
    return {'list': list, 'tuple': tuple, 'iter': iter}[how](x)


def tnorm(lts):
    """Norm of the tensor (it may be too large for the memory)"""
    E = np.ones((1, 1))
    for t in lts:
        t = t.reshape((t.shape[0], -1, t.shape[-1]))
        E = np.tensordot(t.conj(), np.tensordot(E, t, axes=(1, 0)),
                         axes=((0, 1), (0, 1)))
    return np.sqrt(abs(E[0, 0]))


def state_equal(a, b):
    return a[0] == b[0] and (a[1] == b[1]).all() and a[2:] == b[2:]


def run_mpa(spec, ctx):
    n, fun = spec['n'], spec['fun']
    shape = tuple(tuple(s) for s in spec['shape'])
    if fun == 'random_mps':
        # one leg
        if spec['form'] != 'scalar':
            fun = 'random_mpa'

    def make(randstate):
        kw = {'force_rank': True} if spec['force'] else {}
        rank = conv(spec['rank'], spec['conv'])
        ldim = conv(spec['ldim'], spec['conv'])
        if fun == 'zero':
            return mp.factory.zero(n, ldim, rank, **kw)
        if randstate is not None:
            kw['randstate'] = randstate
        if fun == 'random_mps':
            return mp.random_mps(n, ldim, rank, **kw)
        if spec['normalized']:
            kw['normalized'] = True
        if spec['cplx']:
            kw['dtype'] = np.complex_
        return mp.random_mpa(n, ldim, rank, **kw)

    gl = spec['global']
    if gl:
        np.random.seed(spec['seed'])
        m = make(None)
        np.random.seed(spec['seed'])
        m2 = make(None)
    else:
        np.random.seed(5)
        before = np.random.get_state()
        m = make(rs(spec['seed']))
        ensure(state_equal(before, np.random.get_state()),
               'uses the global random state')
        np.random.seed(77)
        m2 = make(rs(spec['seed']))
    lts = check_struct(m)
    same(tuple(m.shape), shape, 'shape')
    req = [spec['rank']] * (n - 1) if not isinstance(spec['rank'], list) \
        else spec['rank']
    if spec['force']:
        same(tuple(m.ranks), tuple(req), 'ranks (forced)')
    else:
        for r, q, f in zip(m.ranks, req, full_ranks(shape)):
            ensure(r == min(q, f), 'rank %d, requested %d, maximal '
                   'sensible %d', r, q, f)
    ctx.nt(n > 1, fun)
    for x, y in zip(lts, m2.lt):
        ensure(np.array_equal(x, y), 'not reproducible')
    if fun == 'zero':
        same(tnorm(lts), 0, 'norm of zero()')
        return
    cplx = spec['cplx'] or fun == 'random_mps'
    same(np.dtype(m.dtype), np.dtype(complex if cplx else float), 'dtype')
    if fun == 'random_mps' or spec['normalized']:
        close(tnorm(lts), 1, fscale(lts) + 1, 1e-10, 'norm')
    else:
        # a fresh draw from the same state must differ
        r = rs(spec['seed'])
        make(r)
        other = make(r)
        ensure(not all(np.array_equal(x, y) for x, y in zip(lts, other.lt)),
               'consecutive draws agree')
        # documented stream: site by site normal variates
        r = rs(spec['seed'])
        for t in lts:
            ref = r.randn(*t.shape)
            if cplx:
                ref = ref + 1j * r.randn(*t.shape)
            close(t, ref, 10, 1e-12, 'documented random stream')


def gen_moments(src):
    return {'cplx': src.bool(), 'seed': src.seed(), 'n': src.int(2, 5),
            'd': src.int(2, 4), 'rank': src.int(8, 12)}


def run_moments(spec, ctx):
    m = mp.random_mpa(spec['n'], spec['d'], spec['rank'], randstate=rs(spec['seed']),
                      force_rank=True,
                      **({'dtype': np.complex_} if spec['cplx'] else {}))
    x = np.concatenate([np.ravel(t) for t in m.lt])
    parts = [x.real, x.imag] if spec['cplx'] else [x]
    for p in parts:
        k = len(p)
        ensure(abs(p.mean()) < 7 / np.sqrt(k), 'mean %g', p.mean())
        ensure(abs((p**2).mean() - 1) < 7 * np.sqrt(2 / k), 'variance %g of %d',
               (p**2).mean(), k)
    if spec['cplx']:
        c = (parts[0] * parts[1]).mean()
        ensure(abs(c) < 7 / np.sqrt(k), 'real and imaginary part correlated')
    ctx.nt(True)


def gen_fixed(src):
    n = g_nsites(src, 1, 6, 9)
    what = src.pick(['eye', 'diagonal'])
    if what == 'eye':
        top = 2 if n > 6 else (3 if n > 2 or src.bool(.9) else 12)
        dims = src.int(1, top) if src.bool() else [src.int(1, top)
                                                   for _ in range(n)]
        return {'what': what, 'n': n, 'dims': dims, 'conv': src.pick(
            ['list', 'tuple', 'iter'])}
    d = src.int(1, 4) if n <= 5 else src.int(1, 2)
    if n <= 3 and src.bool(.1):
        d = src.int(5, 12)
    return {'what': what, 'n': n, 'd': d, 'seed': src.seed(),
            'dt': src.pick(['f8', 'c16', 'i8']),
            'kind': src.pick(['gauss', 'int', 'sparse', 'zero'])}


def run_fixed(spec, ctx):
    n = spec['n']
    ctx.nt(n > 1, spec['what'])
    if spec['what'] == 'eye':
        dims = spec['dims'] if isinstance(spec['dims'], list) else [spec['dims']] * n
        m = mp.eye(n, conv(spec['dims'], spec['conv']))
        exp = np.ones(())
        for d in dims:
            exp = np.multiply.outer(exp, np.eye(d))
        check_mpa(m, exp, 1, 1e-13, [[d, d] for d in dims])
        ensure(all(r == 1 for r in m.ranks), 'ranks')
        return
    entries = rand_array(rs(spec['seed']), (spec['d'],), spec['kind'], spec['dt'])
    keep = entries.copy()
    m = mp.diagonal_mpa(entries, n)
    exp = np.zeros((spec['d'],) * n, dtype=complex)
    for i, e in enumerate(keep):
        exp[(i,) * n] = e
    check_mpa(m, exp, 1 + np.abs(keep).max(), 1e-13, [[spec['d']]] * n)
    ensure(np.array_equal(entries, keep), 'entries modified')
    ensure(all(r == spec['d'] for r in m.ranks), 'ranks %r', m.ranks)


def gen_phys(src):
    n = g_nsites(src, 1, 5)
    what = src.pick(['mpo', 'mpo', 'mpdo', 'ham'])
    d = src.weighted([(2, 4), (3, 1), (1, .5), (4, .2), (5, .2)])
    while d**n > 32:
        n -= 1
    spec = {'what': what, 'n': n, 'd': d, 'rank': src.int(1, 5) if src.bool(.95) else src.int(6, 16),
            'seed': src.seed(), 'hermitian': src.bool(), 'norm': src.pick(
                [None, True, False]), 'force': src.bool(.3), 'global': src.bool(.3)}
    if what == 'ham':
        spec['d'] = d = max(d, 2)
        while d**n > 32:
            n -= 1
        spec['n'] = n
        spec['intlen'] = src.int(1, min(n, 3))
        spec['default'] = src.bool(.3)
        if spec['default'] and n >= 2:
            spec['intlen'] = 2
            if n <= 5:
                spec['d'] = 2
    return spec


def op_matrix(m, n, d):
    return dense(list(m.lt)).transpose(global_perm(n, 2)).reshape((d**n,) * 2)


def run_phys(spec, ctx):
    n, d, what = spec['n'], spec['d'], spec['what']
    kw = {}

    def make(randstate):
        kw = {}
        if randstate is not None:
            kw['randstate'] = randstate
        if what == 'mpo':
            if spec['hermitian']:
                kw['hermitian'] = True
            if spec['norm'] is not None:
                kw['normalized'] = spec['norm']
            if spec['force']:
                kw['force_rank'] = True
            return mp.random_mpo(n, d, spec['rank'], **kw)
        if what == 'mpdo':
            return mp.random_mpdo(n, d, spec['rank'], **kw)
        if spec['default'] and spec['intlen'] == 2 and d == 2:
            return mp.random_local_ham(n, **kw)
        return mp.random_local_ham(n, d, spec['intlen'], **kw)

    if spec['global']:
        np.random.seed(spec['seed'])
        m = make(None)
        np.random.seed(spec['seed'])
        m2 = make(None)
    else:
        np.random.seed(5)
        before = np.random.get_state()
        m = make(rs(spec['seed']))
        ensure(state_equal(before, np.random.get_state()),
               'uses the global random state')
        np.random.seed(6)
        m2 = make(rs(spec['seed']))
    lts = check_struct(m)
    same(tuple(m.shape), ((d, d),) * n, 'shape')
    for x, y in zip(lts, m2.lt):
        ensure(x.shape == y.shape and np.array_equal(x, y), 'not reproducible')
    M = op_matrix(m, n, d)
    sc = fscale(lts) + 1
    ctx.nt(n > 1, what)
    if what == 'mpo':
        if spec['hermitian']:
            close(M, M.conj().T, sc, 1e-10, 'hermitian')
        elif d**n > 1:
            # an operator without symmetry
            ensure(np.abs(M - M.conj().T).max() > 1e-9 * np.abs(M).max(),
                   'random operator is hermitian')
        if spec['norm'] in (None, True):
            close(np.linalg.norm(M), 1, sc, 1e-10, 'norm')
        if spec['force']:
            same(tuple(m.ranks), (spec['rank'],) * (n - 1), 'ranks')
        else:
            for r, f in zip(m.ranks, full_ranks([[d, d]] * n)):
                ensure(r == min(spec['rank'], f), 'rank %d', r)
    elif what == 'mpdo':
        close(M, M.conj().T, sc, 1e-10, 'hermitian')
        close(np.trace(M), 1, sc, 1e-10, 'trace')
        ensure(np.linalg.eigvalsh((M + M.conj().T) / 2).min() > -1e-10 * sc,
               'not positive semidefinite')
        same(tuple(m.ranks), (spec['rank'],) * (n - 1), 'ranks')
    else:
        close(M, M.conj().T, sc, 1e-10, 'hermitian')
        k = spec['intlen']
        # operator basis: identity and traceless matrices (orthonormal)
        basis = np.zeros((d * d, d, d))
        vecs = np.eye(d * d)
        vecs[0] = np.eye(d).ravel() / np.sqrt(d)
        q, _ = np.linalg.qr(np.concatenate(
            (vecs[:1], np.eye(d * d)[:d * d - 1])).T if d > 1 else vecs)
        basis = q.T.reshape((d * d, d, d))
        coef = dense(lts)
        for _ in range(n):
            coef = np.tensordot(coef, basis, axes=((0, 1), (1, 2)))
        windows = set()
        for idx in itertools.product(range(d * d), repeat=n):
            sites = [i for i, b in enumerate(idx) if b]
            if not sites:
                continue
            size = abs(coef[idx])
            if sites[-1] - sites[0] >= k:
                ensure(size < 1e-9 * sc, 'interaction on sites %r, range %d',
                       sites, k)
            elif size > 1e-6 and sites[-1] - sites[0] == k - 1:
                windows.add(sites[0])
        same(len(windows), n - k + 1, 'number of local terms')


SUBS = [Sub('random_mpa', gen_mpa, run_mpa, 2200),
        Sub('moments', gen_moments, run_moments, 300),
        Sub('fixed', gen_fixed, run_fixed, 700),
        Sub('physical', gen_phys, run_phys, 1400)]
