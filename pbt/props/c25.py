# encoding: utf-8
"""C25: long chains: values from transfer matrices, growth of ranks"""
from __future__ import division

import os
import tempfile

import numpy as np

import mpnum as mp
import mpnum.mpsmpo as mpsmpo
from mpnum import special
from mpnum.mpstruct import LocalTensors

from ..engine import Sub
from ..gen import rs
from ..oracle import (check_cform, close, ensure, left_err, right_err, same,
                      snapshot, unchanged)

RULE = """Chains of 9-400 sites (1500 in the thorough tier) with inhomogeneous
local dimensions and ranks up to 7 whose tensors have norm one (random isometries
with random gauge), real and complex, and operators made of local terms or of
local unitaries.  Arithmetic, contractions, canonicalization, compression,
restructuring, singular values, reductions, amplitudes, storage and eigenvalue
search, factory functions; oracle: transfer matrices, environments and canonical forms computed by
the harness, formulas for the ranks of results.  Non-trivial: at least 9 sites,
where a dense tensor would not fit in most cases, and a rank larger than one."""


def isometry(r, m, n, cplx):
    a = r.randn(m, n) + (1j * r.randn(m, n) if cplx else 0)
    return np.linalg.qr(a)[0]


def chain_of(spec, legs=1, n=None, sq=False, shapes=None):
    """Local tensors of a tensor with norm one"""
    r = rs(spec['seed'])
    n = n or spec['n']
    out, D = [], 1
    for i in range(n):
        d = shapes[i] if shapes else tuple(
            r.randint(1, spec['d'] + 1) for _ in range(legs))
        if sq and not shapes:
            d = (d[0],) * legs
        p = int(np.prod(d))
        nxt = 1 if i == n - 1 else min(
            D * p, r.randint(1, spec['D'] + 1) if spec['vary'] else spec['D'])
        out.append(isometry(r, D * p, nxt, spec['cplx']).reshape(
            (D,) + d + (nxt,)))
        D = nxt
    # last site is a unit vector; gauge freedom
    if spec['gauge']:
        for i in range(n - 1):
            k = out[i].shape[-1]
            g = isometry(r, k, k, False).dot(np.diag(.5 + 1.5 * r.rand(k)))
            out[i] = out[i].dot(g)
            out[i + 1] = np.tensordot(np.linalg.inv(g), out[i + 1], (1, 0))
    return out


def overlap(a, b):
    """<a|b> of lists of local tensors"""
    e = np.ones((1, 1))
    for x, y in zip(a, b):
        x = x.reshape((x.shape[0], -1, x.shape[-1]))
        y = y.reshape((y.shape[0], -1, y.shape[-1]))
        t = np.tensordot(e, y, (1, 0))
        e = np.tensordot(x.conj(), t, ((0, 1), (0, 1)))
    return e[0, 0]


def dist(a, b):
    d = overlap(a, a) - 2 * overlap(a, b).real + overlap(b, b)
    return np.sqrt(abs(d))


def tensor(mpa, lts, what, scale=1., ranks=None, shape=None):
    """`mpa` represents the same tensor as `lts`"""
    now = list(mpa.lt)
    same(tuple(tuple(s) for s in mpa.shape),
         tuple(tuple(x) for x in (shape or [a.shape[1:-1] for a in lts])),
         what + ': shape')
    for x, y in zip(now[:-1], now[1:]):
        same(x.shape[-1], y.shape[0], what + ': virtual legs')
    check_cform(mpa, what=what + ': ')
    d = dist(now, lts)
    ensure(d <= 1e-6 * scale, '%s: differs by %g (scale %g)', what, d, scale)
    if ranks is not None:
        ensure(all(x <= y for x, y in zip(mpa.ranks, ranks)) and
               len(mpa.ranks) == len(ranks),
               '%s: ranks %r exceed %r', what, mpa.ranks, ranks)


def add_lts(items):
    """Weighted sum [(weight, ltens)] with block diagonal bonds"""
    n = len(items[0][1])
    out = []
    for i in range(n):
        ts = [l[i] * (w if i == 0 else 1) for w, l in items]
        cl = 1 if i == 0 else sum(t.shape[0] for t in ts)
        cr = 1 if i == n - 1 else sum(t.shape[-1] for t in ts)
        res = np.zeros((cl,) + ts[0].shape[1:-1] + (cr,), complex)
        a = b = 0
        for t in ts:
            res[a:a + t.shape[0], ..., b:b + t.shape[-1]] += t
            a += 0 if i == 0 else t.shape[0]
            b += 0 if i == n - 1 else t.shape[-1]
        out.append(res)
    return out


def canon_svals(lts):
    """Singular values at all cuts"""
    lts = [a.reshape((a.shape[0], -1, a.shape[-1])) for a in lts]
    for i in range(len(lts) - 1, 0, -1):
        a = lts[i]
        q, x = np.linalg.qr(a.reshape((a.shape[0], -1)).T)
        lts[i] = q.T.reshape((-1,) + a.shape[1:])
        lts[i - 1] = np.tensordot(lts[i - 1], x.T, (2, 0))
    out = []
    cur = lts[0]
    for i in range(len(lts) - 1):
        u, s, v = np.linalg.svd(cur.reshape((-1, cur.shape[-1])), False)
        out.append(s)
        cur = np.tensordot(s[:, None] * v, lts[i + 1], (1, 0))
    return out


def max_ranks(shape):
    """Largest sensible ranks, in exact arithmetic"""
    dims = []
    for sh in shape:
        p = 1
        for d in sh:
            p *= int(d)
        dims.append(p)
    left, right = [1], [1]
    for d in dims:
        left.append(left[-1] * d)
    for d in dims[::-1]:
        right.append(right[-1] * d)
    right = right[::-1]
    return [min(left[i], right[i]) for i in range(1, len(dims))]


def ranks_of(lts):
    return [a.shape[-1] for a in lts[:-1]]


def build(spec, lts, who='a'):
    """MPArray; canonical form from the spec"""
    mpa = mp.MPArray([x.copy() for x in lts])
    cf = spec.get('cf' + who)
    if cf:
        n = len(lts)
        l = int(cf[0] * (n - 1))
        r = min(n, l + 1 + int(cf[1] * (n - l)))
        mpa.canonicalize(left=l, right=r)
    return mpa


def g_base(src, hi=400, dmax=3):
    top = src.weighted([(30, 3), (90, 3), (hi, 2)])
    if src.tier == 'thorough' and src.bool(.2):
        top = 4 * hi
    out = {'n': src.int(9, top), 'd': src.int(2, dmax), 'D': src.int(1, 7),
           'vary': src.bool(.5), 'cplx': src.bool(.6), 'gauge': src.bool(.7),
           'seed': src.seed()}
    for w in 'ab':
        if src.bool(.5):
            out['cf' + w] = [src.int(0, 10) / 10., src.int(0, 10) / 10.]
    return out


OPS = ('inner', 'sum', 'sumup', 'scale', 'canon', 'compress', 'compress', 'var',
       'reverse', 'split', 'chain', 'group', 'vleg', 'pad', 'svals', 'get',
       'store', 'inject', 'legs', 'proddot', 'special')


def gen_state(src):
    out = g_base(src)
    out['op'] = src.pick(OPS)
    out['seed2'] = src.seed()
    out['x'] = [src.int(0, 100) / 100. for _ in range(4)]
    out['k'] = src.int(1, 5)
    out['dir'] = src.pick(['left', 'right', None])
    out['tol'] = src.pick([0., 1e-8, 1e-3, .02])
    out['legs'] = src.int(1, 2)
    return out


def run_state(spec, ctx):
    op, n, x = spec['op'], spec['n'], spec['x']
    ctx.label(op)
    ctx.nt(spec['D'] > 1)
    A = chain_of(spec, spec['legs'])
    spec2 = dict(spec, seed=spec['seed2'], D=max(1, spec['D'] - 1))
    B = chain_of(spec2, shapes=[t.shape[1:-1] for t in A])
    a, b = build(spec, A, 'a'), build(spec, B, 'b')
    if spec.get('cfa'):
        tensor(a, A, 'canonicalize()', ranks=ranks_of(A))
    sa, sb = snapshot(a), snapshot(b)
    pure = True
    tol = 1e-12 * n + 1e-10
    if op == 'inner':
        close(mp.inner(a, b), overlap(A, B), 1., tol, 'inner')
        close(mp.inner(a, a), 1., 1., tol, 'inner(a, a)')
        c = a.copy()
        close(mp.norm(c), 1., 1., tol, 'norm')
        tensor(c, A, 'after norm')
        d = mp.normdist(a, b)
        close(d, dist(A, B), 1., 1e-7, 'normdist')
    elif op == 'sum':
        c = a + b if x[0] < .5 else a - b
        tensor(c, add_lts([(1, A), (1 if x[0] < .5 else -1, B)]), 'a +- b', 2.,
               [p + q for p, q in zip(a.ranks, b.ranks)])
    elif op == 'sumup':
        ws = [x[0] + .1, -x[1] - .2, 1j * x[2] + .3][:1 + spec['k'] % 3]
        mpas = [a, b, a][:len(ws)]
        c = mp.sumup(mpas, weights=ws)
        tensor(c, add_lts(list(zip(ws, [A, B, A]))), 'sumup', 4.,
               [sum(r) for r in zip(*[m.ranks for m in mpas])])
    elif op == 'scale':
        c = a * (2. - 1j * x[0])
        tensor(c, [A[0] * (2. - 1j * x[0])] + A[1:], 'a * c', 4., a.ranks)
        c = a / -3.
        tensor(c, [A[0] / -3] + A[1:], 'a / c', 1., a.ranks)
        tensor(-a, [-A[0]] + A[1:], '-a', 1., a.ranks)
        e = a.copy()
        e *= 7
        close(mp.norm(e), 7., 7., tol, 'norm of a *= 7')
    elif op == 'canon':
        c = a.copy()
        for l, r in zip(x[::2], x[1::2]):
            l = int(l * (n - 1))
            r = min(n, l + 1 + int(r * (n - l)))
            c.canonicalize(left=l, right=r)
            cl, cr = c.canonical_form
            ensure(cl >= l and cr <= r, 'canonicalize(%d, %d) gave %r', l, r,
                   c.canonical_form)
        for kw, lo, hi in (({'right': 1}, 0, 1), ({'left': n - 1}, n - 1, n),
                           ({}, None, None)):
            c.canonicalize(**kw)
            if lo is not None:
                same(tuple(c.canonical_form), (lo, hi), 'canonical form')
        tensor(c, A, 'canonicalize', ranks=a.ranks)
        pos = c.canonical_form[0]
        close(np.linalg.norm(c.lt[pos]), 1., 1., tol, 'norm of center site')
    elif op == 'compress':
        s = canon_svals(A)
        kw = {}
        if spec['k'] < 5:
            kw['rank'] = spec['k']
        if spec['tol'] or not kw:
            kw['relerr'] = spec['tol'] or 1e-12
        if spec['dir']:
            kw['direction'] = spec['dir']
        c = a.copy()
        ov = c.compress(method='svd', **kw)
        C = list(c.lt)
        close(ov, overlap(A, C), 1., tol, 'returned overlap')
        close(ov, overlap(C, C), 1., tol, 'returned overlap and norm')
        check_cform(c)
        if 'rank' in kw:
            ensure(max(c.ranks) <= kw['rank'], 'rank %r', c.ranks)
        ensure(all(p <= q for p, q in zip(c.ranks, a.ranks)), 'ranks increased')
        tails = [np.sum(t[k:]**2) for t, k in zip(s, c.ranks)]
        d2 = dist(A, C)**2
        ensure(d2 <= sum(tails) + 1e-9, 'error %g is larger than the bound %g',
               d2, sum(tails))
        ensure(d2 >= max(tails) - 1e-9, 'error %g is smaller than possible '
               '(%g)', d2, max(tails))
        if 'rank' not in kw:
            # with relative error e per bond at most n * e of the norm is lost
            ensure(d2 <= n * kw['relerr']**2 + 1e-9, 'error %g for relerr %g',
                   d2, kw['relerr'])
        same(tuple(tuple(t) for t in c.shape), tuple(tuple(t) for t in a.shape),
             'shape')
    elif op == 'var':
        if n > 60:
            a, A = (v[:40] for v in (list(a.lt), A))
            return
        k = spec['k']
        c, ov = a.compression(method='var', rank=k, num_sweeps=1,
                              randstate=rs(spec['seed2']))
        C = list(c.lt)
        ensure(max(c.ranks) <= max(k, 1), 'rank %r', c.ranks)
        close(ov, overlap(A, C), 1., tol, 'returned overlap')
        close(ov, overlap(C, C), 1., tol, 'returned overlap and norm')
        s = canon_svals(A)
        tails = [np.sum(t[j:]**2) for t, j in zip(s, c.ranks)]
        ensure(dist(A, C)**2 >= max(tails) - 1e-9, 'better than possible')
    elif op == 'reverse':
        c = a.reverse()
        R = [t.transpose([t.ndim - 1] + list(range(1, t.ndim - 1)) + [0])
             for t in A[::-1]]
        tensor(c, R, 'reverse', ranks=list(a.ranks)[::-1])
    elif op == 'split':
        pos = int(x[0] * (n - 2))
        left, right = a.split(pos)
        same((len(left), len(right)), (pos + 1, n - pos - 1), 'split: lengths')
        # contraction of the virtual leg gives the tensor
        lt, rt = list(left.lt), list(right.lt)
        k = A[pos].shape[-1]
        same(lt[-1].shape[-2], rt[0].shape[1], 'leg of the split')
        lt[-1] = lt[-1][..., 0]
        rt[0] = rt[0][0]
        d = dist(lt + rt, A)
        ensure(d < 1e-6, 'split at %d: differs by %g', pos, d)
        check_cform(left, what='left part: ')
        check_cform(right, what='right part: ')
        ensure(k >= 1, '')
    elif op == 'chain':
        c = mp.chain([a, b, a])
        tensor(c, A + B + A, 'chain', ranks=list(a.ranks) + [1] +
               list(b.ranks) + [1] + list(a.ranks))
        same(len(c), 3 * n, 'length')
        close(mp.norm(c), 1., 1., 3 * tol, 'norm of chain')
    elif op == 'group':
        k = spec['k'] % 3 + 1
        m = n // k * k
        c = mp.MPArray([t.copy() for t in a.lt[:m]]) if m == n else None
        if c is None:
            return
        g = a.group_sites(k)
        same(len(g), n // k, 'number of groups')
        same(tuple(g.ranks), tuple(a.ranks[k - 1::k][:n // k - 1]), 'ranks')
        shape = [sum((t.shape[1:-1] for t in A[i:i + k]), ())
                 for i in range(0, n, k)]
        G = []
        for i in range(0, n, k):
            t = A[i]
            for u in A[i + 1:i + k]:
                t = np.tensordot(t, u, (-1, 0))
            G.append(t)
        tensor(g, G, 'group_sites', shape=shape)
        h = g.split_sites(k)
        tensor(h, A, 'split_sites', ranks=None)
    elif op == 'vleg':
        pos = int(x[0] * (n - 2))
        c = a.vleg2leg(pos)
        e = c.copy()
        e.canonicalize(left=int(x[1] * (n - 1)))
        e = e.leg2vleg(pos)
        tensor(e, A, 'vleg2leg / leg2vleg')
    elif op == 'pad':
        k = spec['k'] + 3
        c = a.pad_ranks(k, force_rank=x[0] < .3)
        tensor(c, A, 'pad_ranks')
        top = [k] * (n - 1) if x[0] < .3 else \
            [min(k, f) for f in max_ranks(a.shape)]
        same(tuple(c.ranks), tuple(max(p, q) for p, q in zip(a.ranks, top)),
             'pad_ranks: ranks')
    elif op == 'svals':
        s = canon_svals(A)
        c = a.copy()
        got = list(c.singularvals())
        same(len(got), n - 1, 'number of cuts')
        for i, (p, q) in enumerate(zip(got, s)):
            p = np.sort(np.asarray(p))[::-1]
            m = max(len(p), len(q))
            close(np.pad(p, (0, m - len(p)), 'constant'),
                  np.pad(q, (0, m - len(q)), 'constant'), 1., 1e-8,
                  'singular values of cut %d' % i)
        tensor(c, A, 'after singularvals')
    elif op == 'get':
        r = rs(spec['seed2'])
        idx = [tuple(r.randint(k) for k in t.shape[1:-1]) for t in A]
        v = np.ones((1, 1))
        bound = 1.
        for t, i in zip(A, idx):
            m = t[(slice(None),) + i]
            v = v.dot(m)
            bound *= np.linalg.norm(m)
        c = a
        for k in range(spec['legs']):
            c = c.get([i[k] for i in idx])
        u = np.ones((1, 1))
        for t in c.lt:
            same(t.ndim, 2, 'legs after get')
            u = u.dot(t)
        close(u, v, bound, 1e-8, 'amplitude')
    elif op == 'store':
        import h5py
        d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
        name = os.path.join(d, 'x.h5')
        try:
            a.dump(name)
            c = mp.MPArray.load(name)
        finally:
            if os.path.exists(name):
                os.remove(name)
            os.rmdir(d)
        unchanged(c, sa, 'loaded: ')
    elif op == 'inject':
        pos = sorted(set(int(v * n) for v in x[:2]))
        num = spec['k'] % 3 + 1
        d = 3
        ten = rs(spec['seed2']).rand(*(d,) * spec['legs']) + .1
        ten /= np.linalg.norm(ten)
        if len(pos) == 1:
            c = mp.inject(a, pos[0], num, ten)
        else:
            c = mp.inject(a, pos, [num] * len(pos), [ten] * len(pos))
        R = []
        for i in range(n + 1):
            if i in pos:
                k = R[-1].shape[-1] if R else 1
                for _ in range(num):
                    t = np.einsum('ab,...->a...b', np.eye(k), ten)
                    R.append(t)
            if i < n:
                R.append(A[i])
        tensor(c, R, 'inject')
    elif op == 'legs':
        tensor(a.conj(), [t.conj() for t in A], 'conj', ranks=a.ranks)
        if spec['legs'] == 2:
            T = [t.transpose((0, 2, 1, 3)) for t in A]
            tensor(a.T, T, 'T', ranks=a.ranks)
            tensor(a.adj(), [t.conj() for t in T], 'adj', ranks=a.ranks)
        tensor(a.ravel(), [t.reshape((t.shape[0], -1, t.shape[-1])) for t in A],
               'ravel', ranks=a.ranks)
        # sum over all legs
        v = np.ones((1, 1))
        bound = 1.
        for t in A:
            m = t.sum(tuple(range(1, t.ndim - 1)))
            v = v.dot(m)
            bound *= np.linalg.norm(m)
        s = a.sum()
        close(np.asarray(s).reshape(()), v[0, 0], bound, 1e-8, 'sum')
    elif op == 'proddot':
        # apply local unitaries (MPO of rank 1 or 2) to the state
        r = rs(spec['seed2'])
        U = [isometry(r, t.shape[1], t.shape[1], True) for t in A]
        mpo = mp.MPArray.from_kron(U)
        two = spec['k'] % 2
        if two:
            mpo = mpo + mpo
        c = mp.dot(mpo, a)
        f = 2. if two else 1.
        R = [np.moveaxis(np.tensordot(u, t, (1, 1)), 0, 1)
             for u, t in zip(U, A)]
        R[0] = R[0] * f
        tensor(c, R, 'dot', f, [p * q for p, q in zip(mpo.ranks, a.ranks)])
        if spec['legs'] == 1:
            val = mp.sandwich(mpo, a)
            close(val, overlap(A, R), f, tol, 'sandwich')
            val = mp.sandwich(mpo, a, b)
            close(val, overlap(B, R), f, tol, 'sandwich (two states)')
        if two == 0:
            pos = int(x[0] * (n - 1))
            m = min(n - pos, 5)
            part = mp.MPArray.from_kron(U[pos:pos + m])
            c = mp.partialdot(part, a, pos)
            R = A[:pos] + R[pos:pos + m] + A[pos + m:]
            tensor(c, R, 'partialdot', ranks=a.ranks)
    elif op == 'special':
        r = rs(spec['seed2'])
        vs = []
        for _ in range(1 + spec['k']):
            vs.append([isometry(r, int(np.prod(t.shape[1:-1])), 1,
                                spec['cplx']).reshape((1,) + t.shape[1:-1]
                                                      + (1,)) for t in A])
        ps = [mp.MPArray([t.copy() for t in v]) for v in vs]
        if spec['legs'] == 1:
            close(special.inner_prod_mps(ps[0], a), overlap(vs[0], A), 1., tol,
                  'inner_prod_mps')
        ws = r.randn(len(ps))
        c = special.sumup(ps, rank=len(ps), weights=list(ws))
        tensor(c, add_lts(list(zip(ws, vs))), 'special.sumup',
               np.abs(ws).sum() + 1)
        ensure(max(c.ranks) <= len(ps), 'special.sumup: rank %r', c.ranks)
    if pure:
        unchanged(a, sa, op + ': ')
        unchanged(b, sb, op + ': ')


# ---------------------------------------------------------------- operators

def gen_oper(src):
    out = g_base(src, 200)
    out['op'] = src.pick(['local_sum', 'reductions', 'reductions', 'mpdo',
                          'eig', 'trace'])
    if out['op'] == 'eig':
        out['n'] = min(out['n'], 24)
    out['width'] = src.int(1, 3)
    out['starts'] = [src.int(0, 100) / 100. for _ in range(src.int(1, 4))]
    out['how'] = src.pick(['mps', 'pmps', 'mpo', 'mps_pmps'])
    out['seed2'] = src.seed()
    out['trank'] = src.int(1, 3)
    return out


def envs(lts):
    """Left and right environments of <A|A> for tensors (D, p, anc, D)"""
    L = [np.ones((1, 1))]
    for t in lts:
        e = np.tensordot(L[-1], t, (1, 0))
        L.append(np.tensordot(t.conj(), e, ((0, 1, 2), (0, 1, 2))))
    R = [np.ones((1, 1))]
    for t in lts[::-1]:
        e = np.tensordot(t, R[-1], (3, 0))
        R.append(np.tensordot(e, t.conj(), ((1, 2, 3), (1, 2, 3))))
    return L, R[::-1]


def reduced(lts, L, R, i, w):
    """Reduced density matrix (p1..pw, q1..qw) of sites i .. i+w-1"""
    t = lts[i]
    for u in lts[i + 1:i + w]:
        t = np.tensordot(t, u, (-1, 0))
    # t: (D, p1, a1, p2, a2, ..., D')
    phys = list(range(1, 2 * w + 1, 2))
    anc = list(range(2, 2 * w + 1, 2))
    t = t.transpose([0] + phys + anc + [2 * w + 1])
    p = t.shape[1:1 + w]
    t = t.reshape((t.shape[0], int(np.prod(p)), -1, t.shape[-1]))
    # L[bra, ket], R[ket, bra]
    m = np.tensordot(L[i], t, (1, 0))
    m = np.tensordot(m, R[i + w], (3, 0))      # bra, p, anc, bra'
    rho = np.tensordot(m, t.conj(), ((0, 2, 3), (0, 2, 3)))
    return rho, p


def run_oper(spec, ctx):
    op, n = spec['op'], spec['n']
    ctx.label(op)
    ctx.nt(spec['D'] > 1)
    r = rs(spec['seed2'])
    tol = 1e-12 * n + 1e-9
    w = spec['width']
    legs = 2 if op == 'mpdo' or (op == 'reductions' and
                                 spec['how'] in ('pmps', 'mpo')) else 1
    if op == 'local_sum':
        # homogeneous dimension, random hermitian terms
        d = spec['d']
        w = max(w, 1)
        terms, mats = [], []
        for i in range(n - w + 1):
            k = spec['trank']
            lt = [r.randn(1 if j == 0 else k, d, d, 1 if j == w - 1 else k)
                  / d / k + (1j * r.randn() if spec['cplx'] else 0)
                  for j in range(w)]
            t = lt[0]
            for u in lt[1:]:
                t = np.tensordot(t, u, (-1, 0))
            t = t[0, ..., 0]
            t = t.transpose(list(range(0, 2 * w, 2)) +
                            list(range(1, 2 * w, 2)))
            mats.append(t.reshape((d**w, d**w)))
            terms.append(mp.MPArray(lt))
        how = spec['seed2'] % 3
        if how == 0:
            H = mp.local_sum(terms)
        else:
            sl = list(mp.regular_slices(n, w, 1))
            H = mp.local_sum(terms, length=n, slices=iter(sl))
        same(len(H), n, 'number of sites')
        bound = w * max([max(t.ranks) if len(t) > 1 else 1
                         for t in terms]) + 1
        ensure(n == 1 or max(H.ranks) <= bound, 'local_sum: rank %d is larger '
               'than %d', max(H.ranks), bound)
        A = chain_of(spec, shapes=[(d,)] * n)
        psi = build(spec, A)
        X = [t[:, :, None, :] for t in A]
        L, R = envs(X)
        val, scale = 0., 1.
        for i, m in enumerate(mats):
            rho, _ = reduced(X, L, R, i, w)
            val = val + np.trace(m.dot(rho))
            scale += np.linalg.norm(m)
        close(mp.sandwich(H, psi), val, scale, tol, 'energy')
        close(mp.inner(psi, mp.dot(H, psi)), val, scale, tol, 'energy (dot)')
        # sum over a subset of places goes through embedding
        sel = sorted(set(int(v * (n - w)) for v in spec['starts']))
        H2 = mp.local_sum([terms[i] for i in sel], length=n,
                          slices=[slice(i, i + w) for i in sel])
        val = sum(np.trace(mats[i].dot(reduced(X, L, R, i, w)[0]))
                  for i in sel)
        close(mp.sandwich(H2, psi), val, scale, tol, 'partial sum')
    elif op in ('reductions', 'mpdo'):
        A = chain_of(spec, legs)
        X = A if legs == 2 else [t[:, :, None, :] for t in A]
        a = build(spec, A)
        L, R = envs(X)
        starts = [int(v * (n - w)) for v in spec['starts']]
        how = spec['how']
        if op == 'mpdo':
            m = mpsmpo.pmps_to_mpo(a)
            ensure(all(p <= q**2 for p, q in zip(m.ranks, a.ranks)),
                   'pmps_to_mpo: ranks')
            close(mp.trace(m), 1., 1., tol, 'trace')
            reds = mpsmpo.reductions_mpo(m, w, startsites=starts)
        elif how == 'mps':
            reds = mpsmpo.reductions_mps_as_mpo(a, w, startsites=starts)
        elif how == 'mps_pmps':
            reds = mpsmpo.reductions_mps_as_pmps(a, w, startsites=starts)
        elif how == 'pmps':
            reds = mpsmpo.reductions_pmps(a, w, startsites=starts)
        else:
            reds = mpsmpo.reductions_mpo(mpsmpo.pmps_to_mpo(a), w,
                                         startsites=starts)
        count = 0
        for i, red in zip(starts, reds):
            count += 1
            if op == 'reductions' and how in ('pmps', 'mps_pmps'):
                red = mpsmpo.pmps_to_mpo(red)
            same(len(red), w, 'sites of the reduced state')
            rho, p = reduced(X, L, R, i, w)
            got = red.to_array_global().reshape(rho.shape)
            close(got, rho, 1., tol, 'reduced state at %d' % i)
        same(count, len(starts), 'number of reductions')
        tensor(a, A, 'state after the reductions')
    elif op == 'trace':
        # random operator close to identity, so that the trace stays finite
        A = chain_of(dict(spec, seed=spec['seed2']), 2, sq=True)
        o = build(spec, A)
        v, bound = np.ones((1, 1)), 1.
        for t in A:
            m = np.trace(t, axis1=1, axis2=2)
            v = v.dot(m)
            bound *= np.linalg.norm(m)
        close(mp.trace(o), v[0, 0], bound, 1e-8, 'trace')
        keep = sorted(set(int(x * (n - 1)) for x in spec['starts']))
        pt = mp.partialtrace(o, axes=[None if i in keep else (0, 1)
                                      for i in range(n)])
        same(len(pt), len(keep), 'sites after partial trace')
        out = np.ones((1, 1))
        bound = 1.
        for i, t in enumerate(A):
            if i in keep:
                out = np.tensordot(out, t, (-1, 0))
                bound *= np.linalg.norm(t)
            else:
                m = np.trace(t, axis1=1, axis2=2)
                out = out.dot(m)
                bound *= np.linalg.norm(m)
        if len(keep) <= 4:
            close(pt.to_array(), out[0, ..., 0], bound, 1e-8, 'partial trace')
    elif op == 'eig':
        d = spec['d']
        hs = []
        for _ in range(n):
            h = r.randn(d, d) + (1j * r.randn(d, d) if spec['cplx'] else 0)
            hs.append(h + h.conj().T)
        H = mp.local_sum([mp.MPArray.from_kron([h]) for h in hs])
        E0 = sum(np.linalg.eigvalsh(h)[0] for h in hs)
        S = chain_of(dict(spec, D=2, vary=False), shapes=[(d,)] * n)
        start = build(spec, S)
        snap = snapshot(start)

        def solver(op_, *args, **kwargs):
            k = op_.shape[0]
            m = op_.dot(np.eye(k)) if hasattr(op_, 'dot') else op_
            m = np.asarray(m)
            val, vec = np.linalg.eigh((m + m.conj().T) / 2)
            return val[:1], vec[:, :1]
        Es = mp.sandwich(H, start)
        val, vec = mp.linalg.eig(H, num_sweeps=1, var_sites=1 + w % 2,
                                 startvec=start, eigs=solver)
        scale = sum(np.linalg.norm(h) for h in hs)
        V = list(vec.lt)
        close(overlap(V, V), 1., 1., 1e-9, 'norm of the vector')
        ensure(val >= E0 - 1e-9 * scale, 'eigenvalue %r below the smallest %r',
               val, E0)
        if w % 2 == 0:
            ensure(val <= Es.real + 1e-9 * scale, 'worse than the start vector')
        X = [t[:, :, None, :] for t in V]
        L, R = envs(X)
        e = sum(np.trace(h.dot(reduced(X, L, R, i, 1)[0]))
                for i, h in enumerate(hs))
        close(val, e, scale, 1e-9, 'expectation value')
        ensure(max(vec.ranks) <= 2, 'ranks %r', vec.ranks)
        unchanged(start, snap, 'start vector: ')


# ---------------------------------------------------------------- factories

def gen_factory(src):
    op = src.pick(['full_rank', 'mpa', 'mps', 'mpo', 'mpdo', 'zero', 'eye',
                   'diagonal', 'ham'])
    n = src.int(9, src.weighted([(30, 2), (80, 3), (220, 2)]))
    legs = src.int(1, 2)
    return {'op': op, 'n': n, 'd': src.int(1, 3), 'legs': legs,
            'D': src.int(1, 9), 'seed': src.seed(), 'each': src.bool(.5),
            'force': src.bool(.3), 'norm': src.bool(.5), 'cplx': src.bool(.5),
            'herm': src.bool(.5), 'w': src.int(1, 3)}


def run_factory(spec, ctx):
    op, n, D, legs = spec['op'], spec['n'], spec['D'], spec['legs']
    r = rs(spec['seed'])
    ctx.label(op)
    ctx.nt(True)
    shape = [tuple(r.randint(1, 4) for _ in range(legs)) for _ in range(n)] \
        if spec['each'] else [(spec['d'],) * legs] * n
    cap = max_ranks(shape)
    if op == 'full_rank':
        arg = [sh[0] for sh in shape] if legs == 1 and spec['force'] else shape
        got = mp.full_rank(arg)
        same([int(x) for x in got], cap, 'full_rank')
        return
    # the norm of the tensors must not overflow
    m = min(n, int(200 / np.log10(9. * D * 2 + 2)))
    tol = 1e-12 * n + 1e-9
    want = [D] * (n - 1) if spec['force'] else [min(D, f) for f in cap]
    if op in ('mpa', 'zero'):
        if op == 'mpa':
            shape, want = shape[:m], want[:m - 1]
            if not spec['force']:
                want = [min(D, f) for f in max_ranks(shape)]
            kw = dict(dtype=np.complex_) if spec['cplx'] else {}
            a = mp.random_mpa(m, shape, D, randstate=rs(spec['seed']),
                              normalized=spec['norm'],
                              force_rank=spec['force'], **kw)
            same(a.dtype, np.dtype(complex if spec['cplx'] else float), 'dtype')
            if spec['norm']:
                close(overlap(list(a.lt), list(a.lt)), 1., 1., tol, 'norm')
            same(len(a), m, 'number of sites')
        else:
            a = mp.zero(n, shape, D, force_rank=spec['force'])
            ensure(not any(np.any(t) for t in a.lt), 'zero')
            same(len(a), n, 'number of sites')
        same(tuple(tuple(x) for x in a.shape), tuple(shape), 'shape')
        same(tuple(a.ranks), tuple(want), 'ranks')
        check_cform(a)
    elif op in ('mps', 'mpo'):
        d = spec['d'] + 1
        cap = max_ranks([(d,) if op == 'mps' else (d, d)] * m)
        want = [D if spec['force'] else min(D, f) for f in cap]
        if op == 'mps':
            a = mp.random_mps(m, d, D, rs(spec['seed']),
                              force_rank=spec['force'])
        else:
            a = mp.random_mpo(m, d, D, rs(spec['seed']), spec['herm'], True,
                              spec['force'])
        lts = list(a.lt)
        same(tuple(a.ranks), tuple(want), 'ranks')
        close(overlap(lts, lts), 1., 1., tol, 'norm')
        check_cform(a)
        if op == 'mpo' and spec['herm']:
            d2 = dist(lts, [t.conj().transpose((0, 2, 1, 3)) for t in lts])
            ensure(d2 < 1e-6, 'not hermitian: %g', d2)
    elif op == 'mpdo':
        n, D = min(n, 30), min(D, 5)
        rho = mp.random_mpdo(n, spec['d'] + 1, D, rs(spec['seed']))
        lts = list(rho.lt)
        same(tuple(rho.ranks), (D,) * (n - 1), 'ranks')
        v, bound = np.ones((1, 1)), 1.
        for t in lts:
            m = np.trace(t, axis1=1, axis2=2)
            v = v.dot(m)
            bound *= np.linalg.norm(m)
        close(v[0, 0], 1., 1. + bound, 1e-9, 'trace')
    elif op == 'eye':
        dims = [sh[0] for sh in shape]
        a = mp.eye(n, dims if spec['each'] else dims[0])
        same(tuple(tuple(x) for x in a.shape), tuple((d, d) for d in dims),
             'shape')
        same(set(a.ranks), {1}, 'ranks')
        s = 1.
        for t, d in zip(a.lt, dims):
            t = t[0, ..., 0]
            close(t, np.eye(d) * t[0, 0], abs(t[0, 0]), 1e-9, 'local tensor')
            s = s * t[0, 0]
        close(s, 1., 1., 1e-8, 'factor')
        check_cform(a)
    elif op == 'diagonal':
        k = spec['d'] + 1
        v = r.randn(k)
        a = mp.factory.diagonal_mpa(v, n)
        same(tuple(tuple(x) for x in a.shape), ((k,),) * n, 'shape')
        same(tuple(a.ranks), (k,) * (n - 1), 'ranks')
        lts = list(a.lt)
        for i in range(k):
            u = np.ones((1, 1))
            for t in lts:
                u = u.dot(t[:, i])
            close(u[0, 0], v[i], 1., 1e-9, 'diagonal entry')
        close(overlap(lts, lts), np.sum(v**2), 1. + np.sum(v**2), 1e-9,
              'other entries')
        check_cform(a)
    elif op == 'ham':
        d, w = 2, spec['w']
        H = mp.random_local_ham(n, d, w, rs(spec['seed']))
        same(tuple(tuple(x) for x in H.shape), ((d, d),) * n, 'shape')
        top = 2 + (w - 1) * max([1] + max_ranks([(d, d)] * w))
        ensure(max(H.ranks) <= top, 'rank %d exceeds %d', max(H.ranks), top)
        # normalized hermitian terms: norm of H / 2**(n/2) is limited
        lts = [np.array(t) / np.sqrt(2.) for t in H.lt]
        d2 = dist(lts, [t.conj().transpose((0, 2, 1, 3)) for t in lts])
        num = n - w + 1
        ensure(d2 < 1e-6 * num, 'not hermitian: %g', d2)
        nrm = np.sqrt(abs(overlap(lts, lts)))
        ensure(nrm <= num * 2**(-w / 2.) + 1e-6, 'norm %g of a sum of %d terms',
               nrm, num)
        check_cform(H)


# ---------------------------------------------------------------- very long

def gen_verylong(src):
    if src.bool(.45):
        out = gen_state(src)
        out['sub'] = 'state'
    else:
        out = gen_oper(src)
        out['sub'] = 'oper'
    if out['op'] != 'eig':
        out['n'] = src.weighted([(2000, 1), (3100, 2), (4500, 1)])
        out['D'] = min(out['D'], 2)
    return out


def run_verylong(spec, ctx):
    if spec['sub'] == 'state':
        run_state(spec, ctx)
    else:
        run_oper(spec, ctx)


SUBS = [
    Sub('verylong', gen_verylong, run_verylong, 24),
    Sub('factory', gen_factory, run_factory, 500),
    Sub('state', gen_state, run_state, 900),
    Sub('oper', gen_oper, run_oper, 260),
]
