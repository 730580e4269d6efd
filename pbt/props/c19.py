# encoding: utf-8
"""C19: local POVMs"""
from __future__ import division

import numpy as np

from mpnum.povm import localpovm as lp

from ..engine import Sub
from ..gen import rand_array, rs
from ..oracle import close, ensure, same

RULE = """Local dimensions 2-9, the predefined measurements, random rank-one
POVMs (from tight frames and arbitrary vectors, real and complex), random convex
combinations of POVMs, random density matrices and arbitrary matrices (real,
complex, pure, mixed).  Oracles: POVM axioms (positive elements which sum to the
identity), defining eigenprojectors of the generalized Pauli measurements,
Born's rule tr(M rho) computed element by element, rank of the span of the
elements, exact reconstruction by linear inversion when informationally
complete and the pseudoinverse axioms otherwise.  Non-trivial: dimension at
least 2 (always)."""


def rand_dm(r, d, how):
    if how == 'arb':
        return rand_array(r, (d, d), 'gauss', 'c16')
    k = {'pure': 1, 'mixed': d, 'low': max(1, d // 2)}.get(how, d)
    g = rand_array(r, (d, k), 'gauss', 'f8' if how == 'real' else 'c16')
    rho = g.dot(g.conj().T)
    return rho / np.trace(rho).real


def expected_vectors(name, d):
    """Unnormalized defining vectors (|i> +- |j>, |i> +- i|j>, |i>)"""
    if name == 'z':
        return list(np.eye(d)), 1.
    ph = 1 if name == 'x' else 1j
    out = []
    for i in range(d):
        for j in range(i + 1, d):
            for s in (1, -1):
                v = np.zeros(d, complex)
                v[i], v[j] = 1, s * ph
                out.append(v)
    return out, 1. / (2 * (d - 1))


def check_povm(povm, d, what, complete=True):
    els = [np.asarray(e) for e in povm]
    same(len(povm), len(els), what + 'len')
    for i, e in enumerate(els):
        same(e.shape, (d, d), what + 'shape of an element')
        ensure(np.array_equal(np.asarray(povm[i]), e), what + 'item %d', i)
        close(e, e.conj().T, 1, 1e-13, what + 'hermiticity')
        ensure(np.linalg.eigvalsh(e)[0] > -1e-12, what +
               'element %d is not positive', i)
    if complete:
        close(sum(els), np.eye(d), 1, 1e-12, what + 'sum of the elements')
    return els


def check_maps(povm, els, r, d, spec, what):
    pm = povm.probability_map
    same(pm.shape, (len(els), d * d), what + 'shape of the probability map')
    rho = rand_dm(r, d, spec['rho'])
    p = np.array([np.trace(e.dot(rho)) for e in els])
    sc = max(1, np.abs(rho).max()) * d * max(np.abs(e).max() for e in els)
    close(pm.dot(rho.ravel()), p, sc, 1e-12, what + 'probabilities')
    A = np.array([e.T.ravel() for e in els])
    s = np.linalg.svd(A, compute_uv=False)
    rank = int(np.sum(s > 1e-9 * s[0]))
    bad = np.any((s <= 1e-6 * s[0]) & (s > 1e-13 * s[0]))
    if bad:
        return rank, False
    inv = povm.linear_inversion_map
    same(inv.shape, (d * d, len(els)), what + 'shape of the inversion map')
    isc = 1. / s[rank - 1]
    if rank == d * d:
        close(inv.dot(p), rho.ravel(), sc * isc * len(els), 1e-11,
              what + 'linear inversion')
    P = pm.dot(inv)
    close(P.dot(pm), pm, s[0] * max(1, s[0] * isc), 1e-11, what + 'A A+ A = A')
    close(P, P.conj().T, max(1, s[0] * isc), 1e-11, what + 'A A+ hermitian')
    Q = inv.dot(pm)
    close(Q, Q.conj().T, max(1, s[0] * isc), 1e-11, what + 'A+ A hermitian')
    close(Q.dot(inv), inv, isc * max(1, s[0] * isc), 1e-11,
          what + 'A+ A A+ = A+')
    return rank, True


def gen_std(src):
    return {'d': src.weighted([(2, 4), (3, 3), (4, 2), (5, 2), (6, 1), (7, 1),
                               (9, .3)]),
            'which': src.pick(['x', 'y', 'z', 'pauli', 'parts']),
            'rho': src.pick(['pure', 'mixed', 'low', 'real', 'arb']),
            'seed': src.seed()}


def run_std(spec, ctx):
    d, which = spec['d'], spec['which']
    ctx.nt(True)
    ctx.label(which)
    r = rs(spec['seed'])
    fun = {'x': lp.x_povm, 'y': lp.y_povm, 'z': lp.z_povm,
           'pauli': lp.pauli_povm}
    names = ['x', 'y', 'z'] if d == 2 else ['x', 'y']
    if which == 'parts':
        parts = lp.pauli_parts(d)
        same(len(parts), len(names), 'number of parts')
        todo = list(zip(parts, [[n] for n in names], [1.] * len(names)))
    else:
        grp = names if which == 'pauli' else [which]
        todo = [(fun[which](d), grp, 1. / len(grp))]
    for povm, grp, weight in todo:
        what = '%s(%d): ' % (''.join(grp), d)
        els = check_povm(povm, d, what)
        exp = []
        for name in grp:
            vecs, f = expected_vectors(name, d)
            exp += [np.outer(v, v.conj()) * f * weight for v in vecs]
        same(len(els), len(exp), what + 'number of elements')
        for e, x in zip(els, exp):
            close(e, x, 1, 1e-13, what + 'element')
        rank, _ = check_maps(povm, els, r, d, spec, what)
        if which == 'pauli':
            same(rank, d * d, what + 'dimension of the span')
        same(bool(povm.informationally_complete), which == 'pauli',
             what + 'informationally_complete')


def gen_vecs(src):
    d = src.int(2, 5)
    return {'d': d, 'k': src.int(1, 3 * d), 'dt': src.pick(['c16', 'f8']),
            'frame': src.bool(), 'ic': src.bool(), 'seed': src.seed(),
            'gen': src.bool(), 'rho': src.pick(['pure', 'mixed', 'low', 'arb'])}


def run_vecs(spec, ctx):
    d, k = spec['d'], spec['k']
    r = rs(spec['seed'])
    ctx.nt(True)
    if spec['frame']:
        k = max(k, d)
        q, _ = np.linalg.qr(rand_array(r, (k, d), 'gauss', spec['dt']))
        vecs = q.conj()          # rows: sum_k |v_k><v_k| = 1
    else:
        vecs = rand_array(r, (k, d), 'gauss', spec['dt'])
    orig = vecs.copy()
    arg = (v for v in vecs) if spec['gen'] else vecs
    povm = lp.POVM.from_vectors(arg, info_complete=spec['ic'])
    same(len(povm), k, 'number of elements')
    els = check_povm(povm, d, 'from_vectors: ', spec['frame'])
    for e, v in zip(els, orig):
        close(e, np.array([[a * b.conjugate() for b in v] for a in v]),
              np.linalg.norm(v)**2, 1e-13, 'element')
    same(bool(povm.informationally_complete), spec['ic'],
         'informationally_complete')
    check_maps(povm, els, r, d, spec, 'from_vectors: ')
    # documented default
    for p in (lp.POVM(els), lp.POVM.from_vectors(orig),
              lp.concat([lp.POVM(els)], [1.])):
        same(bool(p.informationally_complete), False,
             'informationally_complete by default')
    same(bool(lp.POVM(els, spec['ic']).informationally_complete), spec['ic'],
         'informationally_complete')
    ensure(np.array_equal(vecs, orig), 'vectors were modified')
    ctx.label('frame' if spec['frame'] else 'vectors')


def raises(exc, f, what):
    try:
        f()
    except exc:
        return
    ensure(False, '%s was accepted', what)


def gen_concat(src):
    d = src.weighted([(2, 3), (3, 2), (4, 1)])
    k = src.int(1, 4)
    return {'d': d, 'seed': src.seed(), 'ic': src.bool(),
            'parts': [src.pick(['x', 'y', 'z', 'pauli', 'frame'])
                      for _ in range(k)],
            'w': [src.int(1, 20) for _ in range(k)],
            'bad': src.bool(.1), 'as': src.pick(['list', 'tuple', 'array', 'iter']),
            'pas': src.pick(['list', 'iter']), 'miss': src.bool(.15),
            'rho': src.pick(['pure', 'mixed', 'low', 'arb'])}


def run_concat(spec, ctx):
    d = spec['d']
    r = rs(spec['seed'])
    ctx.nt(True)
    parts = []
    for name in spec['parts']:
        if name == 'frame':
            q, _ = np.linalg.qr(rand_array(r, (d + 2, d), 'gauss', 'c16'))
            els = [np.outer(v, v.conj()) for v in q.conj()]
            parts.append(lp.POVM(els))
        else:
            parts.append({'x': lp.x_povm, 'y': lp.y_povm, 'z': lp.z_povm,
                          'pauli': lp.pauli_povm}[name](d))
    w = np.array(spec['w'], float)
    w /= w.sum()
    if spec['bad']:
        try:
            lp.concat(parts, w * 1.3)
        except AssertionError:
            ctx.label('refused')
            return
        ensure(False, 'weights which do not sum to one were accepted')
    kinds = {'list': list, 'tuple': tuple, 'array': np.array,
             'iter': lambda x: (y for y in list(x))}
    arg = kinds[spec['as']](w)
    before = [[np.array(e) for e in p] for p in parts]
    if spec['miss'] and len(parts) > 1:
        # a part without weight or a weight without part
        raises(Exception, lambda: lp.concat(kinds[spec['pas']](parts[:-1]), arg),
               'a weight without a POVM')
        w = np.array(w[:-1]) / sum(w[:-1])
        raises(Exception, lambda: lp.concat(parts, kinds[spec['as']](w)),
               'a POVM without a weight')
        ctx.label('refused')
        return
    povm = lp.concat(kinds[spec['pas']](parts), arg, info_complete=spec['ic'])
    els = check_povm(povm, d, 'concat: ')
    exp = [x * e for x, p in zip(w, before) for e in p]
    same(len(els), len(exp), 'number of elements')
    for a, b in zip(els, exp):
        close(a, b, 1, 1e-13, 'element of concat')
    for p, b in zip(parts, before):
        ensure(all(np.array_equal(x, y) for x, y in zip(p, b)),
               'part was modified')
    same(bool(povm.informationally_complete), spec['ic'],
         'informationally_complete')
    check_maps(povm, els, r, d, spec, 'concat: ')
    ctx.label('concat')


SUBS = [Sub('standard', gen_std, run_std, 600),
        Sub('vectors', gen_vecs, run_vecs, 1000),
        Sub('concat', gen_concat, run_concat, 800)]
