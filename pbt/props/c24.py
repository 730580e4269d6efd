# encoding: utf-8
"""C24: model Hamiltonians"""
from __future__ import division

import numpy as np

import mpnum as mp
from mpnum.utils import physics

from ..engine import Sub
from ..gen import g_mpa, build_mpa, rand_array, rs
from ..oracle import check_struct, close, dense, ensure, same, snapshot, unchanged

RULE = """Cyclic XY chains with 2-6 (10 in the thorough tier) sites and random
asymmetry, and cyclic nearest-neighbour Hamiltonians of 2-7 sites made of random
inhomogeneous, not symmetric two-site terms (MPOs of any rank and canonical
form or dense matrices, real and complex, local dimension 2 and 3).  Oracles:
the Hamiltonian assembled from its definition with dense Kronecker products,
smallest eigenvalue from dense diagonalization, closed form for chains of
hundreds of sites from an independent formulation (free-fermion sum).
Non-trivial: at least three sites or asymmetry not equal to 0 and +-1."""

X = np.array([[0, 1], [1, 0]], complex)
Y = np.array([[0, -1j], [1j, 0]], complex)


def two_site(op, i, j, n, d):
    """op (legs k1 k2 b1 b2) acting on sites i and j of n sites, as matrix"""
    eye = np.eye(d**(n - 2))
    t = np.tensordot(op.reshape((d,) * 4), eye.reshape((d,) * (2 * (n - 2))),
                     axes=0)
    # legs: k_i k_j b_i b_j, rest kets, rest bras
    rest = [s for s in range(n) if s not in (i, j)]
    src = {('k', i): 0, ('k', j): 1, ('b', i): 2, ('b', j): 3}
    for q, s in enumerate(rest):
        src['k', s] = 4 + q
        src['b', s] = 4 + len(rest) + q
    perm = [src['k', s] for s in range(n)] + [src['b', s] for s in range(n)]
    return t.transpose(perm).reshape((d**n, d**n))


def glob(mpo_lts):
    """matrix of an MPO"""
    t = dense(mpo_lts)
    n = t.ndim // 2
    t = t.transpose(list(range(0, 2 * n, 2)) + list(range(1, 2 * n, 2)))
    k = int(np.prod(t.shape[:n]))
    return t.reshape((k, -1))


def xy_matrix(n, gamma):
    op = (.25 * (1 + gamma) * np.kron(X, X) + .25 * (1 - gamma) * np.kron(Y, Y))
    return sum(two_site(op, i, (i + 1) % n, n, 2) for i in range(n))


def gen_xy(src):
    n = src.weighted([(2, 1), (6, 2), (3, 1), (4, 1), (5, 1)])
    return {'n': n, 'gamma': src.weighted([('r', 6), (0, .5), (1, .5), (-1, .5)]),
            'g': src.int(-1000, 1000) / 1000.}


def run_xy(spec, ctx):
    n = spec['n']
    gamma = spec['g'] if spec['gamma'] == 'r' else spec['gamma']
    ctx.nt(n > 2 or spec['gamma'] == 'r')
    H = xy_matrix(n, gamma)
    terms = physics.cXY_local_terms(n, gamma)
    same(len(terms), n, 'number of terms')
    op = (.25 * (1 + gamma) * np.kron(X, X) + .25 * (1 - gamma) * np.kron(Y, Y))
    for t in terms:
        close(glob(check_struct(t, 'term: ')), op, 1, 1e-14, 'local term')
    S = physics.sparse_cH(terms)
    close(S.toarray(), H, n, 1e-13, 'sparse_cH')
    M = physics.mpo_cH(terms)
    close(glob(check_struct(M, 'mpo_cH: ')), H, n, 1e-13, 'mpo_cH')
    if n % 4 == 2:
        ctx.label('energy')
        e0 = physics.cXY_E0(n, gamma)
        close(e0, np.linalg.eigvalsh(H)[0], n, 1e-12, 'ground state energy')
    else:
        try:
            physics.cXY_E0(n, gamma)
        except ValueError:
            ctx.label('refused')
        else:
            ensure(False, 'cXY_E0(%d) was accepted', n)


def gen_long(src):
    return {'n': src.pick([10, 14, 18, 50, 102, 202, 502, 1002]),
            'g': src.int(-1000, 1000) / 1000.}


def run_long(spec, ctx):
    """cXY_E0 = - sum over positive momenta, grouped differently"""
    n, g = spec['n'], spec['g']
    ctx.nt(True)
    tot = 0.
    for l in range(n):
        k = 2 * np.pi * l / n
        tot += np.hypot(np.cos(k), g * np.sin(k))
    close(physics.cXY_E0(n, g), -.5 * tot, n, 1e-13, 'ground state energy')
    # the isotropic and the Ising limits
    close(physics.cXY_E0(n, 1.0), -.5 * n, n, 1e-13, 'Ising limit')
    close(physics.cXY_E0(n, g), physics.cXY_E0(n, -g), n, 1e-13,
          'gamma -> -gamma')
    for m in (n - 1, n + 1, n + 2):
        try:
            physics.cXY_E0(m, g)
        except ValueError:
            continue
        ensure(False, 'cXY_E0(%d) was accepted', m)


def gen_cyc(src):
    d = src.weighted([(2, 3), (3, 1)])
    n = src.int(2, 7 if d == 2 else 4)
    terms = []
    for _ in range(n):
        terms.append(g_mpa(src, shape=[[d, d], [d, d]], maxrank=4, scale=False,
                           layouts=False, dts=('c16', 'f8')))
    return {'d': d, 'n': n, 'terms': terms,
            'dense': [src.bool(.25) for _ in range(n)]}


def run_cyc(spec, ctx):
    d, n = spec['d'], spec['n']
    ctx.nt(n > 2)
    built = [build_mpa(t) for t in spec['terms']]
    mats = [glob(b[1]) for b in built]
    objs = [b[0] for b in built]
    snaps = [snapshot(o) for o in objs]
    # term i acts on sites (i, i + 1), the last one on the first and last site
    H = two_site(mats[-1], 0, n - 1, n, d)
    for i in range(n - 1):
        H = H + two_site(mats[i], i, i + 1, n, d)
    sc = sum(np.abs(m).max() for m in mats) * n + 1e-300
    M = physics.mpo_cH(objs)
    close(glob(check_struct(M, 'mpo_cH: ')), H, sc, 1e-11, 'mpo_cH')
    args = [m if dn else o for m, o, dn in zip(mats, objs, spec['dense'])]
    if any(spec['dense']):
        ctx.label('dense terms')
    S = physics.sparse_cH(args, ldim=d)
    close(S.toarray(), H, sc, 1e-11, 'sparse_cH')
    for o, s in zip(objs, snaps):
        unchanged(o, s, 'term: ')


SUBS = [Sub('xy', gen_xy, run_xy, 200),
        Sub('energy', gen_long, run_long, 300),
        Sub('cyclic', gen_cyc, run_cyc, 400)]
