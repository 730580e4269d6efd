# encoding: utf-8
"""Generators and dense oracles for quantum states and multi-site POVMs.

Everything here is built from plain numpy arrays; the code under test is only
used to wrap local tensors."""
from __future__ import division

import numpy as np

import mpnum as mp
import mpnum.povm as mpp
from mpnum.mpstruct import LocalTensors

from .gen import own_canonicalize, rand_array, rs
from .oracle import contract, dense


# ------------------------------------------------------------------ local POVM

def pauli_vectors(name, d):
    """(vectors, factor) of the generalized Pauli measurements"""
    if name == 'z':
        return list(np.eye(d, dtype=complex)), 1.
    ph = 1 if name == 'x' else 1j
    out = []
    for i in range(d):
        for j in range(i + 1, d):
            for s in (1, -1):
                v = np.zeros(d, complex)
                v[i], v[j] = 1, s * ph
                out.append(v)
    return out, 1. / (2 * (d - 1))


def psd_elements(r, k, d, rank=None, dt='c16'):
    """k positive matrices which sum to the identity"""
    while True:
        gs = [rand_array(r, (d, rank or d), 'gauss', dt) for _ in range(k)]
        els = [g.dot(g.conj().T) for g in gs]
        w, v = np.linalg.eigh(sum(els))
        if w[0] > 1e-3 * w[-1]:
            break
        rank = None
    s = (v / np.sqrt(w)).dot(v.conj().T)
    return np.array([s.dot(e).dot(s) for e in els])


def local_elements(kind, d, k, seed):
    """Array (outcome, row, column) of a POVM on one site"""
    r = rs(seed)
    if kind in ('x', 'y', 'z'):
        vecs, f = pauli_vectors(kind, d)
        out = np.array([np.outer(v, v.conj()) * f for v in vecs])
        return out.real if kind in 'xz' else out
    if kind == 'pauli':
        names = 'xyz' if d == 2 else 'xy'
        return np.concatenate([local_elements(n, d, 0, 0)
                               for n in names]) / len(names)
    if kind == 'eye':
        return np.eye(d)[None]
    if kind == 'basis':
        q, _ = np.linalg.qr(rand_array(r, (d, d), 'gauss', 'c16'))
        return np.array([np.outer(v, v.conj()) for v in q.T])
    if kind == 'rand':
        return psd_elements(r, k, d)
    if kind == 'realrand':
        return psd_elements(r, k, d, dt='f8')
    if kind == 'part':
        # shares (a multiple of) a single element with 'z'
        w = .3 + .5 * r.rand()
        if seed % 4 == 0:
            # elements with a very small weight
            w = 10.**(-1 - 3 * r.rand())
        root = np.eye(d)
        root[0, 0] = np.sqrt(1 - w)
        els = [root.dot(e).dot(root) for e in psd_elements(r, max(k - 1, 1), d)]
        return np.array([np.diag([w] + [0.] * (d - 1))] + els)
    if kind == 'scaled':
        # multiples of projectors: linearly dependent elements
        els = local_elements('z', d, 0, 0)
        w = .2 + .6 * r.rand()
        if seed % 4 == 0:
            w = 10.**(-1 - 3 * r.rand())
        return np.concatenate([w * els, (1 - w) * els])
    raise ValueError(kind)


def n_outcomes(kind, d, k):
    return {'x': d * (d - 1), 'y': d * (d - 1), 'z': d, 'eye': 1, 'basis': d,
            'scaled': 2 * d,
            'pauli': 6 if d == 2 else 2 * d * (d - 1)}.get(kind, k)


LOCAL_KINDS = (('z', 2), ('x', 2), ('y', 1.5), ('pauli', 1), ('eye', 2.5),
               ('basis', 1), ('rand', 3), ('realrand', .7))


def g_povm(src, dims, cap=250, pair=.25, kinds=LOCAL_KINDS, gauge=True):
    """Spec of an MP-POVM on sites with Hilbert space dimensions `dims`"""
    segs, pos, tot = [], 0, 1
    n = len(dims)
    while pos < n:
        if pos + 1 < n and dims[pos] * dims[pos + 1] <= 6 and src.bool(pair):
            o = [src.int(1, 3), src.int(1, 3)]
            if tot * o[0] * o[1] > cap:
                o = [1, 1]
            tot *= o[0] * o[1]
            segs.append({'kind': 'pair', 'd': [dims[pos], dims[pos + 1]],
                         'o': o, 'rank': src.pick([None, 1, 2]),
                         'seed': src.seed()})
            pos += 2
            continue
        d = dims[pos]
        kind = src.weighted(kinds)
        k = src.int(2, 4)
        if d < 2 and kind in ('x', 'y', 'pauli'):
            kind = 'eye'
        if tot * n_outcomes(kind, d, k) > cap:
            kind = 'z' if tot * d <= cap and src.bool() else 'eye'
        tot *= n_outcomes(kind, d, k)
        segs.append({'kind': kind, 'd': [d], 'k': k, 'seed': src.seed()})
        pos += 1
    spec = {'segs': segs}
    if gauge and n > 1 and src.bool(.3):
        l = src.int(0, n - 1)
        spec['cform'] = [l, src.int(l + 1, n)]
    return spec


def povm_ltens(spec):
    """Local tensors (left, outcome, row, column, right)"""
    out = []
    for seg in spec['segs']:
        if seg['kind'] == 'pair':
            (d1, d2), (o1, o2) = seg['d'], seg['o']
            els = psd_elements(rs(seg['seed']), o1 * o2, d1 * d2, seg['rank'])
            t = els.reshape((o1, o2, d1, d2, d1, d2))
            t = t.transpose((0, 2, 4, 1, 3, 5)).reshape((o1 * d1 * d1, -1))
            u, s, v = np.linalg.svd(t, full_matrices=False)
            k = max(1, int(np.sum(s > 1e-13 * s[0])))
            out.append((u[:, :k] * s[:k]).reshape((1, o1, d1, d1, k)))
            out.append(v[:k].reshape((k, o2, d2, d2, 1)))
        else:
            e = local_elements(seg['kind'], seg['d'][0], seg['k'], seg['seed'])
            out.append(e[None, ..., None])
    if spec.get('cform'):
        out = own_canonicalize(out, *spec['cform'])
    return out


def build_povm(spec):
    """(MPPovm, local tensors)"""
    lts = povm_ltens(spec)
    if spec.get('cform'):
        return mpp.MPPovm(LocalTensors([a.copy() for a in lts],
                                       cform=tuple(spec['cform']))), lts
    return mpp.MPPovm([a.copy() for a in lts]), lts


def elements_of(lts):
    """Dense elements, shape outdims + (D, D)"""
    t = dense(lts)
    n = len(lts)
    t = t.transpose(list(range(0, 3 * n, 3)) + list(range(1, 3 * n, 3))
                    + list(range(2, 3 * n, 3)))
    D = int(np.prod(t.shape[n:2 * n]))
    return t.reshape(t.shape[:n] + (D, D))


def outdims_of(lts):
    return tuple(a.shape[1] for a in lts)


def probabilities(lts, rho):
    """tr(M_i rho) for all outcomes, non-singleton outcome shape"""
    E = elements_of(lts)
    p = np.tensordot(E, rho, axes=((-2, -1), (1, 0)))
    return p.reshape([k for k in outdims_of(lts) if k > 1]).real


# ------------------------------------------------------------------ states

def g_dims(src, lo=1, hi=4, cap=24, maxd=3, uniform=None):
    n = src.weighted([(k, {1: 1, 2: 3, 3: 4, 4: 3, 5: 2, 6: 1}.get(k, 1))
                      for k in range(lo, hi + 1)])
    if uniform is None:
        uniform = src.bool(.4)
    if hi >= 4 and src.bool(.05):    # unusually long
        n = src.int(hi + 1, hi + 3)
        uniform, maxd, cap = False, 2, max(cap, 64)
    dims, tot = [], 1
    for i in range(n):
        d = dims[0] if uniform and dims else src.weighted(
            [(2, 6)] + ([(3, 2), (4, .15), (5, .15)] if maxd >= 3 else []) +
            ([(1, .5)] if not uniform else []) + ([(4, .5)] if maxd >= 4 else []))
        if uniform and d > 2 and d**n > 2 * cap:
            d = 2
        if tot * d > cap:
            d = 1 if not uniform else d
        tot *= d
        dims.append(d)
    return dims


def g_state(src, dims, modes=('mps', 'pmps', 'mpdo')):
    """Spec of a normalized state on the given dimensions"""
    mode = src.pick(list(modes))
    n = len(dims)
    spec = {'mode': mode, 'dims': list(dims), 'seed': src.seed(),
            'kind': src.weighted([('random', 6), ('basis', 1.2), ('ghz', 1),
                                  ('product', 1.2)]),
            'ranks': [src.int(1, 3) for _ in range(n - 1)],
            'anc': [src.int(1, 2) for _ in range(n)],
            'dt': src.weighted([('c16', 4), ('f8', 1)])}
    if n > 1 and src.bool(.4):
        l = src.int(0, n - 1)
        spec['cform'] = [l, src.int(l + 1, n)]
    return spec


def pure_ltens(spec):
    """Local tensors (left, system, ancilla, right), normalized"""
    r = rs(spec['seed'])
    dims = spec['dims']
    n = len(dims)
    anc = spec['anc'] if spec['mode'] != 'mps' else [1] * n
    kind = spec['kind']
    out = []
    if kind == 'basis':
        for d in dims:
            a = np.zeros((1, d, 1, 1), spec['dt'].replace('f8', 'float64')
                         .replace('c16', 'complex128'))
            a[0, r.randint(d), 0, 0] = 1
            out.append(a)
    elif kind == 'ghz':
        t = .2 + r.rand()
        for i, d in enumerate(dims):
            a = np.zeros((2, d, 1, 2), complex)
            a[0, 0, 0, 0] = 1
            a[1, d - 1, 0, 1] = 1
            if i == 0:
                a = (np.array([np.cos(t), np.sin(t)])[:, None, None, None]
                     * a).sum(0)[None]
            if i == n - 1:
                a = a.sum(-1)[..., None]
            out.append(a)
    else:
        ranks = [1] + (list(spec['ranks']) if kind == 'random'
                       else [1] * (n - 1)) + [1]
        for i, d in enumerate(dims):
            out.append(rand_array(r, (ranks[i], d, anc[i], ranks[i + 1]),
                                  'gauss', spec['dt']))
    nrm = np.linalg.norm(contract(out).ravel())
    if not nrm > 1e-6:
        return pure_ltens(dict(spec, kind='basis'))
    out[0] = out[0] / nrm
    return out


def state_ltens(spec):
    """Local tensors in the representation given by the mode"""
    lts = pure_ltens(spec)
    if spec['mode'] == 'mps':
        lts = [a[:, :, 0] for a in lts]
    elif spec['mode'] == 'mpdo':
        new = []
        for a in lts:
            t = np.tensordot(a, a.conj(), axes=(2, 2))  # l k r l' b r'
            t = t.transpose((0, 3, 1, 4, 2, 5))
            s = t.shape
            new.append(t.reshape((s[0] * s[1], s[2], s[3], s[4] * s[5])))
        lts = new
    if spec.get('cform'):
        lts = own_canonicalize(lts, *spec['cform'])
    return lts


def build_state(spec):
    """(MPArray, density matrix)"""
    lts = state_ltens(spec)
    psi = contract(pure_ltens(spec))
    n = len(spec['dims'])
    t = psi.reshape(psi.shape[1:-1])
    t = t.transpose(list(range(0, 2 * n, 2)) + list(range(1, 2 * n, 2)))
    D = int(np.prod(spec['dims']))
    m = t.reshape((D, -1))
    rho = m.dot(m.conj().T)
    if spec.get('cform'):
        return mp.MPArray(LocalTensors(lts, cform=tuple(spec['cform']))), rho
    return mp.MPArray(lts), rho


def reduce_dm(rho, dims, keep):
    n = len(dims)
    t = rho.reshape(tuple(dims) * 2)
    for pos in reversed(range(n)):
        if pos not in keep:
            t = np.trace(t, axis1=pos, axis2=pos + t.ndim // 2)
    d = int(np.prod([dims[k] for k in keep]))
    return t.reshape((d, d))
