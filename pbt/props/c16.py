# encoding: utf-8
"""C16: variational eigenvalue search"""
from __future__ import division

import functools

import numpy as np
import scipy.sparse.linalg as ssl

import mpnum as mp
from mpnum import linalg as mplinalg

from ..engine import Sub
from ..gen import build_mpa, g_mpa, g_nsites, rand_array, rs
from ..oracle import (check_struct, close, dense, ensure, fscale, global_perm,
                      same, snapshot, unchanged)

RULE = """Random hermitian and non-hermitian matrix product operators and sums
of operators and projectors (2-6 sites, real and complex, inhomogeneous local
dimensions), random and given start vectors (sufficient and insufficient rank,
any canonical form and norm), 1-3 varied sites, 1-3 sweeps, local solver: dense
(smallest / largest / nearest eigenvalue) supplied by the harness, or the
default.  Oracles: dense diagonalization (bounds by the extreme eigenvalues for
the result and for every local problem, exact eigenpair when the rank
suffices), eigenvalue = Rayleigh quotient of the returned vector, monotone local
optima, agreement of the sum version with the single-operator version, ranks,
start vector and operators unchanged.  Non-trivial: dense dimension at least 4
and operator not proportional to the identity."""


def matrix(lts, dims):
    n = len(dims)
    D = int(np.prod(dims))
    return dense(lts).transpose(global_perm(n, 2)).reshape((D, D))


def g_dims(src, lo, hi, cap=64):
    n = src.int(lo, hi)
    dims, size = [], 1
    for _ in range(n):
        d = src.weighted([(2, 6), (3, 2), (4, .4), (6, .3)])
        if size * d * 2**(n - len(dims) - 1) > cap:
            d = 2
        dims.append(d)
        size *= d
    return dims


def full(dims):
    return [min(int(np.prod(dims[:i])), int(np.prod(dims[i:])))
            for i in range(1, len(dims))]


def gen(src):
    vs = src.weighted([(1, 4), (2, 3), (3, 1)])
    dims = g_dims(src, vs + 1, 6)
    n = len(dims)
    num = src.int(1, 3)
    terms = []
    for _ in range(num):
        if num > 1 and src.bool(.35):
            terms.append({'mps': g_mpa(src, shape=[[d] for d in dims], maxrank=3,
                                       scale=False, dts=('c16', 'f8'),
                                       kinds=(('gauss', 3), ('int', 1)))})
        else:
            terms.append({'mpo': g_mpa(src, shape=[[d, d] for d in dims],
                                       maxrank=3, scale=False,
                                       dts=('c16', 'f8'),
                                       kinds=(('gauss', 3), ('int', 1)))})
    spec = {'dims': dims, 'terms': terms, 'var_sites': vs,
            'hermitian': True if num > 1 else src.bool(.75),
            'sweeps': src.int(1, 3), 'which': src.pick(['SA', 'LA']),
            'startrank': src.weighted([('full', 3), ('low', 3)]),
            'given': src.bool(.7), 'r': src.int(2, 4), 'seed': src.seed(),
            'norm': src.pick([0, 0, -3, 3]), 'real': src.bool(.3),
            'ret1d': src.bool(.3), 'pass_vs': src.bool(.8),
            'start_cform': src.pick([None, 'left', 'right', 'mid'])}
    return spec


class Solver(object):
    """Dense solver for the local problem, remembers what it has seen"""

    def __init__(self, which, hermitian, ret1d, target=None):
        self.which, self.hermitian, self.ret1d = which, hermitian, ret1d
        self.target = target
        self.vals, self.ray, self.extreme, self.gaps, self.herm = [], [], [], [], []

    def __call__(self, op, v0=None):
        op = np.asarray(op)
        ensure(op.ndim == 2 and op.shape[0] == op.shape[1], 'local operator')
        same(v0.shape, (op.shape[0],), 'shape of v0')
        if self.hermitian:
            self.herm.append(np.abs(op - op.conj().T).max())
            w, v = np.linalg.eigh((op + op.conj().T) / 2)
            k = 0 if self.which == 'SA' else len(w) - 1
            self.ray.append(np.vdot(v0, op.dot(v0)).real /
                            np.vdot(v0, v0).real)
            self.extreme.append((w[0], w[-1]))
            others = np.delete(w, k)
            self.gaps.append(np.abs(others - w[k]).min() if len(others) else 1.)
        else:
            w, v = np.linalg.eig(op)
            k = int(np.argmin(np.abs(w - self.target)))
        vec = v[:, k] / np.linalg.norm(v[:, k])
        self.vals.append(w[k])
        if self.ret1d:
            return w[k:k + 1], vec
        return w[k:k + 1], vec[:, None]


def build_terms(spec):
    """[(kind, mpa, dense matrix)]; hermitian if requested"""
    dims = spec['dims']
    out = []
    for t in spec['terms']:
        kind = 'mps' if 'mps' in t else 'mpo'
        m, l = build_mpa(t[kind])
        if kind == 'mps':
            v = dense(l).ravel()
            s = 1. / max(np.linalg.norm(v), 1e-10)
            m, v = m * s, v * s
            out.append((kind, m, np.outer(v, v.conj())))
            continue
        if spec['hermitian']:
            # sum with the adjoint
            m = m + mp.MPArray([t.swapaxes(1, 2).conj() for t in m.lt])
        M = matrix(list(m.lt), dims)
        nrm = max(np.linalg.norm(M), 1e-10)
        out.append((kind, m * (1. / nrm), M / nrm))
    return out


def make_start(spec):
    dims = spec['dims']
    n = len(dims)
    r = rs(spec['seed'])
    fr = full(dims)
    ranks = fr if spec['startrank'] == 'full' else [min(f, spec['r']) for f in fr]
    if any(p == (1, 1) for p in zip([1] + ranks, ranks + [1])):
        ranks = fr
    ranks = [1] + ranks + [1]
    lts = [rand_array(r, (ranks[i], d, ranks[i + 1]), 'gauss',
                      'f8' if spec['real'] else 'c16')
           for i, d in enumerate(dims)]
    m = mp.MPArray(lts)
    if spec['start_cform'] == 'left':
        m.canonicalize(left=n - 1)
    elif spec['start_cform'] == 'right':
        m.canonicalize(right=1)
    elif spec['start_cform'] == 'mid':
        m.canonicalize(left=n // 2, right=n // 2 + 1)
    if spec['norm']:
        m = m * 10.**spec['norm']
    return m


def run(spec, ctx):
    dims = spec['dims']
    n = len(dims)
    terms = build_terms(spec)
    M = sum(t[2] for t in terms)
    herm = spec['hermitian']
    if herm:
        lam, vecs = np.linalg.eigh((M + M.conj().T) / 2)
        lo, hi = lam[0], lam[-1]
    else:
        lam, vecs = np.linalg.eig(M)
    snaps = [snapshot(t[1]) for t in terms]
    isfull = spec['startrank'] == 'full' or all(
        f <= spec['r'] for f in full(dims))
    if not herm and not isfull:
        isfull = True
        spec = dict(spec, startrank='full')
    target = None if herm else lam[spec['seed'] % len(lam)]
    solver = Solver(spec['which'], herm, spec['ret1d'], target)
    kw = {'eigs': solver}
    if spec['pass_vs'] or spec['var_sites'] != 2:
        kw['var_sites'] = spec['var_sites']
    start = None
    if spec['given'] or not herm:
        start = make_start(spec)
        ssnap = snapshot(start)
        kw['startvec'] = start
        srank = max(start.ranks)
    else:
        srank = max(full(dims)) if isfull else spec['r']
        kw['startvec_rank'] = srank
        kw['randstate'] = rs(spec['seed'])
    single = len(terms) == 1 and terms[0][0] == 'mpo'
    if single and spec['seed'] % 3:
        eigval, vec = mp.eig(terms[0][1], spec['sweeps'], **kw)
        fun = 'eig'
    else:
        eigval, vec = mp.eig_sum([t[1] for t in terms], spec['sweeps'], **kw)
        fun = 'eig_sum'
    ctx.label('%s/%s/var_sites=%d' % (fun, 'full' if isfull else 'low',
                                      spec['var_sites']))
    for t, s in zip(terms, snaps):
        unchanged(t[1], s, 'operator: ')
    if start is not None:
        unchanged(start, ssnap, 'start vector: ')
    lts = check_struct(vec, 'eigenvector: ')
    same(tuple(vec.shape), tuple((d,) for d in dims), 'shape of eigenvector')
    ensure(max(vec.ranks) <= max(srank, 1), 'rank %r > %d', vec.ranks, srank)
    v = dense(lts).ravel()
    nrm = np.linalg.norm(v)
    sc = sum(fscale(list(t[1].lt)) for t in terms) + 1
    tol = 1e-7 * sc
    close(eigval, solver.vals[-1], sc, 1e-12, 'eigenvalue, last local solution')
    ctx.nt(np.prod(dims) >= 4 and np.linalg.norm(
        M - np.trace(M) / len(M) * np.eye(len(M))) > 1e-6)
    ensure(nrm > 1e-6, 'eigenvector is zero')
    if not herm:
        w = np.abs(lam - target)
        w[spec['seed'] % len(lam)] = 1
        cond = np.linalg.cond(vecs)
        if cond > 1e4 or w.min() < 1e-3:
            ctx.label('ill-conditioned')
            return
        close(eigval, target, sc, 1e-6, 'eigenvalue')
        close(M.dot(v), target * v, sc * nrm, 1e-5, 'eigenvector')
        ctx.label('nonhermitian')
        return
    ensure(max(solver.herm) <= tol, 'local operator not hermitian: %g',
           max(solver.herm))
    ensure(abs(np.imag(eigval)) <= tol, 'eigenvalue %r', eigval)
    for a, b in solver.extreme:
        ensure(a >= lo - tol and b <= hi + tol, 'spectrum of local problem '
               '[%g, %g] exceeds the one of the operator [%g, %g]', a, b, lo, hi)
    sign = 1 if spec['which'] == 'SA' else -1
    # a local step improves on the vector it starts from
    for val, ray in zip(solver.vals, solver.ray):
        ensure(sign * (val - ray) <= tol, 'local step worsens the value')
    ray = np.vdot(v, M.dot(v)).real / nrm**2
    if spec['var_sites'] == 1 or isfull:
        close(nrm, 1, 1, 1e-8, 'norm of eigenvector')
        close(eigval, ray, sc, 1e-8, 'eigenvalue, Rayleigh quotient')
        # next step starts with the vector found in the previous one
        for prev, nxt in zip(solver.vals[:-1], solver.ray[1:]):
            close(nxt, prev, sc, 1e-8, 'value carried to the next step')
        if start is not None:
            s = dense(ssnap[0]).ravel()
            close(solver.ray[0], np.vdot(s, M.dot(s)).real / np.vdot(s, s).real,
                  sc, 1e-7, 'first Rayleigh quotient')
        close(mp.inner(vec, vec), 1, 1, 1e-8, '<v|v>')
    if isfull:
        close(eigval, lo if spec['which'] == 'SA' else hi, sc, 1e-8,
              'exact eigenvalue')
        close(M.dot(v), eigval * v, sc, 1e-6, 'exact eigenvector')
    # same search once more
    if start is not None or True:
        kw2 = dict(kw, eigs=Solver(spec['which'], herm, not spec['ret1d']))
        if start is None:
            kw2['randstate'] = rs(spec['seed'])
        if min(solver.gaps) > 1e-4:
            # agreement between the two implementations
            mpos = [t[1] if t[0] == 'mpo' else mp.mpsmpo.mps_to_mpo(t[1])
                    for t in terms]
            total = mpos[0]
            for m in mpos[1:]:
                total = total + m
            if fun == 'eig':
                e2, v2 = mp.eig_sum([t[1] for t in terms], spec['sweeps'], **kw2)
            else:
                e2, v2 = mp.eig(total, spec['sweeps'], **kw2)
            close(e2, eigval, sc, 1e-6, 'eig and eig_sum')
            ov = abs(np.vdot(v, dense(list(v2.lt)).ravel()))
            close(ov, nrm**2, 1, 1e-5, 'overlap of eig and eig_sum')
            ctx.label('agreement')


def gen_default(src):
    vs = src.int(1, 2)
    dims = g_dims(src, 3, 5, cap=40)
    return {'dims': dims, 'mpo': g_mpa(
        src, shape=[[d, d] for d in dims], maxrank=3, scale=False,
        dts=('c16', 'f8'), kinds=(('gauss', 1),), cforms=False),
        'seed': src.seed(), 'var_sites': vs, 'which': src.pick([None, 'SA', 'LA']),
        'sum': src.bool(), 'sweeps': src.int(2, 3)}


def run_default(spec, ctx):
    dims = spec['dims']
    m, _ = build_mpa(spec['mpo'])
    m = m + mp.MPArray([t.swapaxes(1, 2).conj() for t in m.lt])
    M = matrix(list(m.lt), dims)
    nrm = np.linalg.norm(M)
    m, M = m * (1. / nrm), M / nrm
    lam = np.linalg.eigvalsh((M + M.conj().T) / 2)
    kw = {} if spec['which'] is None else {
        'eigs': functools.partial(ssl.eigsh, k=1, tol=1e-8, which=spec['which'])}
    rank = max(full(dims))
    f = (lambda *a, **k: mp.eig_sum([m], *a, **k)) if spec['sum'] else \
        (lambda *a, **k: mp.eig(m, *a, **k))
    try:
        val, vec = f(spec['sweeps'], var_sites=spec['var_sites'],
                     startvec_rank=rank, randstate=rs(spec['seed']), **kw)
    except ssl.ArpackNoConvergence:
        ctx.label('no convergence')
        return
    check_struct(vec)
    v = dense(list(vec.lt)).ravel()
    exp = {None: lam[np.argmax(np.abs(lam))], 'SA': lam[0],
           'LA': lam[-1]}[spec['which']]
    if spec['which'] is None and abs(lam[0] + lam[-1]) < 1e-2:
        ctx.label('degenerate')
        return
    close(val, exp, 1, 1e-4, 'eigenvalue')
    close(np.vdot(v, M.dot(v)) / np.vdot(v, v), val, 1, 1e-4, 'Rayleigh quotient')
    close(mp.sandwich(m, vec), val * np.vdot(v, v), 1, 1e-4, 'sandwich')
    ctx.nt(True, 'which=%s' % spec['which'])


SUBS = [Sub('search', gen, run, 1500), Sub('default', gen_default, run_default, 150)]
