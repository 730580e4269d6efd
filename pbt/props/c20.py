# encoding: utf-8
"""C20: matrix product POVMs: construction and probabilities"""
from __future__ import division

import itertools

import numpy as np

import mpnum as mp
import mpnum.povm as mpp

from ..engine import Sub
from ..gen import rand_array, rs
from ..oracle import (check_struct, close, dense, ensure, same, snapshot,
                      unchanged, unchanged_tensor)
from ..povmgen import (build_povm, build_state, elements_of, g_dims, g_povm,
                       g_state, local_elements, outdims_of, povm_ltens,
                       probabilities, reduce_dm)

RULE = """Random MP-POVMs on 1-5 sites (inhomogeneous Hilbert space dimensions
1-4; per site Pauli-type, basis, random, or no measurement; correlated two-site
measurements with entangled elements, hence ranks larger than one; any canonical
form) and random normalized states (MPS, PMPS, MPDO; random, product, GHZ and
basis states).  All implementations, state formats and block/embedding/
repetition constructions.  Oracle: tr(M rho) with dense elements and dense
(reduced) density matrices.  Non-trivial: at least two sites and at least two
outcomes."""


def pmf_checks(got, exp, what):
    ensure(isinstance(got, (np.ndarray, np.floating)), what + 'type %r',
           type(got))
    ensure(np.asarray(got).dtype.kind == 'f', what + 'not real')
    close(got, exp, 1, 1e-10, what + 'probabilities')
    ensure((np.asarray(got) >= 0).all(), what + 'negative probability')
    close(np.sum(got), 1, 1, 1e-12, what + 'sum')


def to_dense_pmf(pmf, outdims, what):
    lts = check_struct(pmf, what)
    same(tuple(tuple(s) for s in pmf.shape), tuple((k,) for k in outdims),
         what + 'shape')
    return dense(lts).reshape([k for k in outdims if k > 1])


def has_outcome(spec):
    return any(a.shape[1] > 1 for a in povm_ltens(spec))


# ---------------------------------------------------------------- pmf

def gen_pmf(src):
    dims = g_dims(src, 1, 5)
    return {'povm': g_povm(src, dims), 'state': g_state(src, dims),
            'auto': src.bool(), 'bad': src.bool(.08),
            'impl': src.pick(['auto', 'default', 'pmps-symm', 'pmps-ltr']),
            'eps': src.pick([None, 1e-9])}


def run_pmf(spec, ctx):
    povm, plts = build_povm(spec['povm'])
    state, rho = build_state(spec['state'])
    mode = spec['state']['mode']
    psnap, ssnap = snapshot(povm), snapshot(state)
    n = len(plts)
    out = outdims_of(plts)
    exp = probabilities(plts, rho)
    E = elements_of(plts)
    ctx.nt(n > 1 and exp.size > 1)
    ctx.label(mode)
    # attributes
    same(tuple(povm.outdims), out, 'outdims')
    same(tuple(povm.nsoutdims), tuple(k for k in out if k > 1), 'nsoutdims')
    same(tuple(povm.nsoutpos), tuple(i for i, k in enumerate(out) if k > 1),
         'nsoutpos')
    same(tuple(povm.hdims), tuple(spec['state']['dims']), 'hdims')
    m = mode
    if spec['auto'] and mode != 'pmps':
        m = 'auto'
        ctx.label('auto')
    kw = {} if m == 'auto' and spec['auto'] else {'mode': m}
    pmf = povm.pmf(state, **kw)
    close(to_dense_pmf(pmf, out, 'pmf: '), exp, 1, 1e-10, 'pmf')
    impl = spec['impl']
    if mode != 'pmps' and impl not in ('auto', 'default'):
        impl = 'auto'
    if impl != 'auto':
        kw['impl'] = impl
    if spec['eps'] is not None:
        kw['eps'] = spec['eps']
    ctx.label(impl)
    if exp.ndim:
        pmf_checks(povm.pmf_as_array(state, **kw), exp, 'pmf_as_array: ')
        if spec['bad']:
            bad = state * 1.001
            try:
                povm.pmf_as_array(bad, **kw)
            except AssertionError:
                ctx.label('refused')
            else:
                ensure(False, 'probabilities which do not sum to one')
    # map, elements
    pm = povm.probability_map
    D = spec['state']['dims']
    same(tuple(tuple(s) for s in pm.shape),
         tuple((k, d * d) for k, d in zip(out, D)), 'shape of the map')
    mpdo = dense([x for x in rho_as_local(rho, D)])
    res = np.asarray(dense(list(pm.lt)))
    A = res.transpose(list(range(0, 2 * n, 2)) + list(range(1, 2 * n, 2)))
    A = A.reshape((int(np.prod(out)), -1))
    close(A.dot(mpdo.ravel()).reshape(exp.shape), exp, 1, 1e-10,
          'probability_map')
    if exp.size <= 64:
        els = list(povm.elements)
        same(len(els), exp.size, 'number of elements')
        flat = [e for e in E.reshape((-1,) + E.shape[-2:])]
        for k, e in enumerate(els):
            lts = check_struct(e, 'element: ')
            same(tuple(tuple(s) for s in e.shape), tuple((d, d) for d in D),
                 'shape of an element')
            t = dense(lts).transpose(list(range(0, 2 * n, 2)) +
                                     list(range(1, 2 * n, 2)))
            t = t.reshape(rho.shape)
            hits = [j for j, f in enumerate(flat)
                    if np.abs(f - t).max() < 1e-10]
            ensure(hits, 'element %d is not an element of the POVM', k)
            del flat[hits[0]]
    unchanged(povm, psnap, 'POVM: ')
    if mode == 'pmps':
        unchanged_tensor(state, ssnap, 'state: ')
    else:
        unchanged(state, ssnap, 'state: ')


def rho_as_local(rho, dims):
    """rho as list of one tensor in local leg order"""
    n = len(dims)
    t = rho.reshape(tuple(dims) * 2)
    t = t.transpose([x for i in range(n) for x in (i, n + i)])
    t = t.reshape([d * d for d in dims])
    return [t[None, ..., None]]


# ---------------------------------------------------------------- reduced states

def gen_block(src):
    d = src.weighted([(2, 4), (3, 1)])
    n = src.int(1, 5 if d == 2 else 3)
    w = src.int(1, n)
    k = src.int(1, 4)
    lst = src.bool(.4)
    form = src.weighted([('default', 3), ('start', 2), ('startstop', 1)])
    if lst and form == 'default':
        k = n - w + 1
    return {'d': d, 'n': n, 'w': w, 'state': g_state(src, [d] * n), 'list': lst,
            'povms': [g_povm(src, [d] * w, 40)
                      for _ in range(k if lst else 1)],
            'form': form, 'start': [src.int(0, n - w) for _ in range(k)],
            'asarray': src.bool(), 'what': src.pick(['exp', 'block', 'pmfs'])}


def run_block(spec, ctx):
    d, n, w = spec['d'], spec['n'], spec['w']
    dims = [d] * n
    built = [build_povm(p) for p in spec['povms']]
    state, rho = build_state(spec['state'])
    mode = spec['state']['mode']
    ssnap = snapshot(state)
    psnaps = [snapshot(b[0]) for b in built]
    ctx.nt(n > 1 and any(probabilities(b[1], np.eye(d**w)).size > 1
                         for b in built))
    ctx.label(spec['what'])
    if spec['what'] == 'exp':
        povm, plts = built[0]
        got = list(povm.expectations(state, mode))
        same(len(got), n - w + 1, 'number of expectation values')
        for i, g in enumerate(got):
            r = reduce_dm(rho, dims, list(range(i, i + w)))
            close(to_dense_pmf(g, outdims_of(plts), 'expectations: '),
                  probabilities(plts, r), 1, 1e-10, 'expectations, site %d' % i)
    else:
        if not all(has_outcome(p) for p in spec['povms']):
            return
        red = {}
        if spec['form'] == 'start':
            red = {'width': w, 'startsites': spec['start']}
            start = spec['start']
        elif spec['form'] == 'startstop':
            red = {'startsites': spec['start'],
                   'stopsites': [s + w for s in spec['start']]}
            start = spec['start']
        else:
            start = list(range(n - w + 1))
        if spec['list']:
            obj = mpp.MPPovmList([b[0] for b in built])
            use = [b[1] for b in built]
            ctx.label('list')
        else:
            obj = built[0][0]
            use = [built[0][1]] * len(start)
        exp = [probabilities(p, reduce_dm(rho, dims, list(range(s, s + w))))
               for p, s in zip(use, start)]
        asarray = spec['asarray'] and len(set(e.shape for e in exp)) == 1
        if spec['what'] == 'pmfs':
            lts = [build_sub(spec['state'], s, w, dims, rho) for s in start]
            got = obj.pmfs_as_array(iter(lts), 'mpdo', asarray=asarray)
        else:
            got = obj.block_pmfs_as_array(state, mode, asarray=asarray, **red)
        if asarray:
            ensure(isinstance(got, np.ndarray), 'no array')
        got = list(got)
        same(len(got), len(exp), 'number of results')
        for g, e in zip(got, exp):
            pmf_checks(np.asarray(g), e, 'block probabilities: ')
    for b, s in zip(built, psnaps):
        unchanged(b[0], s, 'POVM: ')
    if mode == 'pmps':
        unchanged_tensor(state, ssnap, 'state: ')
    else:
        unchanged(state, ssnap, 'state: ')


def build_sub(spec, start, w, dims, rho):
    """MPDO of a reduced state (built without the library's reductions)"""
    r = reduce_dm(rho, dims, list(range(start, start + w)))
    t = rho_as_local(r, dims[start:start + w])[0]
    t = t.reshape(t.shape[1:-1])
    # product of trivially exact decomposition: identity matrices as bonds
    lts, left = [], 1
    for i in range(w - 1):
        m = t.reshape((left * t.shape[1 if i else 0], -1))
        u, s, v = np.linalg.svd(m, full_matrices=False)
        dd = m.shape[0] // left
        lts.append(u.reshape((left, dd, len(s))))
        t = (s[:, None] * v).reshape((len(s), dims[start + i + 1]**2, -1))
        left = len(s)
    lts.append(t.reshape((left, -1, 1)))
    out = []
    for a, d in zip(lts, dims[start:start + w]):
        out.append(a.reshape((a.shape[0], d, d, a.shape[-1])))
    return mp.MPArray(out)


# ---------------------------------------------------------------- construction

def gen_cons(src):
    what = src.pick(['local', 'eye', 'embed', 'block', 'repeat', 'pauli',
                     'paulis', 'blocklist', 'repeatlist', 'invalid'])
    d = src.weighted([(2, 4), (3, 1)])
    spec = {'what': what, 'd': d, 'seed': src.seed()}
    w = src.int(1, 3)
    if what == 'local':
        spec.update(kind=src.pick(['x', 'y', 'z', 'pauli', 'rand', 'basis']),
                    k=src.int(2, 3), w=w, povmobj=src.bool())
    elif what == 'eye':
        spec['dims'] = [src.int(1, 4) for _ in range(src.int(1, 5))]
        spec['gen'] = src.bool()
    elif what == 'embed':
        dims = [src.weighted([(2, 4), (3, 1)]) for _ in range(src.int(1, 3))]
        l, r = src.int(0, 2), src.int(0, 2)
        spec.update(povm=g_povm(src, dims, 40), l=l, r=r, uni=src.bool(.4),
                    ld=[src.int(1, 3) for _ in range(l)],
                    rd=[src.int(1, 3) for _ in range(r)], dims=dims,
                    bad=src.bool(.1))
    elif what in ('block', 'repeat', 'blocklist', 'repeatlist'):
        k = src.int(1, 3) if what.endswith('list') else 1
        spec.update(povms=[g_povm(src, [d] * w, 12,
                                  .5 if what[:6] == 'repeat' else .25)
                           for _ in range(k)], w=w, n=w + src.int(0, 3))
        if d == 3:
            spec['n'] = min(spec['n'], max(w, 4))
    elif what in ('pauli', 'paulis'):
        spec['w'] = min(w, 2 if d == 3 else 3)
    else:
        spec['bad'] = src.pick(['ndims', 'hdim', 'out', 'lists'])
    return spec


def check_povm_equal(povm, exp_lts, what):
    ensure(isinstance(povm, mpp.MPPovm), what + 'type %r', type(povm))
    lts = check_struct(povm, what)
    same(tuple(tuple(s) for s in povm.shape),
         tuple(tuple(a.shape[1:-1]) for a in exp_lts), what + 'shape')
    close(dense(lts), dense(exp_lts), 1, 1e-10, what + 'elements')
    same(tuple(povm.outdims), outdims_of(exp_lts), what + 'outdims')


def eye_lt(d):
    return np.eye(d)[None, None, :, :, None]


def run_cons(spec, ctx):
    what, d = spec['what'], spec['d']
    ctx.label(what)
    ctx.nt(True)
    if what == 'local':
        e = local_elements(spec['kind'], d, spec['k'], spec['seed'])
        arg = mpp.localpovm.POVM(e) if spec['povmobj'] else e.copy()
        got = mpp.MPPovm.from_local_povm(arg, spec['w'])
        check_povm_equal(got, [e[None, ..., None]] * spec['w'],
                         'from_local_povm: ')
    elif what == 'eye':
        dims = spec['dims']
        arg = (x for x in dims) if spec['gen'] else dims
        check_povm_equal(mpp.MPPovm.eye(arg), [eye_lt(k) for k in dims],
                         'eye: ')
    elif what == 'embed':
        povm, lts = build_povm(spec['povm'])
        snap = snapshot(povm)
        l, r = spec['l'], spec['r']
        ld, rd = spec['ld'], spec['rd']
        if spec['uni']:
            arg = 2
            ld, rd = [2] * l, [2] * r
        else:
            # the dimensions at the position of the POVM are not used
            arg = ld + spec['dims'] + rd
        n = l + r + len(lts)
        got = povm.embed(n, l, arg)
        check_povm_equal(got, [eye_lt(k) for k in ld] + lts +
                         [eye_lt(k) for k in rd], 'embed: ')
        unchanged(povm, snap)
        if spec['bad']:
            try:
                povm.embed(n, l + r + 1, 2)
            except AssertionError:
                ctx.label('refused')
            else:
                ensure(False, 'impossible embedding was accepted')
    elif what in ('block', 'blocklist'):
        built = [build_povm(p) for p in spec['povms']]
        n, w = spec['n'], spec['w']
        if what == 'block':
            got = built[0][0].block(n)
        else:
            got = mpp.MPPovmList([b[0] for b in built]).block(n)
        ensure(isinstance(got, mpp.MPPovmList), 'type')
        exp = [[eye_lt(d)] * s + b[1] + [eye_lt(d)] * (n - w - s)
               for s in range(n - w + 1) for b in built]
        same(len(got.mpps), len(exp), 'number of MP-POVMs')
        for g, e in zip(got.mpps, exp):
            check_povm_equal(g, e, 'block: ')
    elif what in ('repeat', 'repeatlist'):
        built = [build_povm(p) for p in spec['povms']]
        n, w = spec['n'] + spec['seed'] % 4, spec['w']
        n = min(n, 5 if d == 2 else 3)
        n = max(n, w)
        if w > 1 and spec['seed'] % 5 < 2:
            n = 1 + spec['seed'] // 5 % (w - 1)
        rest = n % w
        ctx.label('shorter' if n < w else 'longer')
        ok = all(rest == 0 or b[0].ranks[rest - 1] == 1 for b in built)
        total = max(np.prod([k for i in range(n) for k in
                             [outdims_of(b[1])[i % w]]], dtype=object) *
                    d**(2 * n) for b in built)
        if total > 3e5:
            return
        obj = built[0][0] if what == 'repeat' else \
            mpp.MPPovmList([b[0] for b in built])
        try:
            got = obj.repeat(n)
        except AssertionError:
            ensure(not ok, 'repeat(%d) was refused', n)
            ctx.label('refused')
            return
        ensure(ok, 'repetition which cuts a correlated POVM was accepted')
        got = [got] if what == 'repeat' else got.mpps
        same(len(got), len(built), 'number')
        for g, b in zip(got, built):
            check_povm_equal(g, [b[1][i % w] for i in range(n)], 'repeat: ')
    elif what == 'pauli':
        e = local_elements('pauli', d, 0, 0)
        check_povm_equal(mpp.pauli_mpp(spec['w'], d),
                         [e[None, ..., None]] * spec['w'], 'pauli_mpp: ')
    elif what == 'paulis':
        names = 'xyz' if d == 2 else 'xy'
        got = mpp.pauli_mpps(spec['w'], d)
        exp = list(itertools.product(names, repeat=spec['w']))
        same(len(got.mpps), len(exp), 'number of MP-POVMs')
        for g, e in zip(got.mpps, exp):
            check_povm_equal(g, [local_elements(k, d, 0, 0)[None, ..., None]
                                 for k in e], 'pauli_mpps: ')
    else:
        bad = spec['bad']
        r = rs(spec['seed'])
        ctx.label(bad)
        if bad == 'ndims':
            lts = [rand_array(r, s, 'gauss', 'f8')
                   for s in ((1, 2, 2, 2, 2), (2, 2, 2, 1))]
        elif bad == 'hdim':
            lts = [rand_array(r, s, 'gauss', 'f8')
                   for s in ((1, 2, 2, 2, 2), (2, 2, 2, 3, 1))]
        elif bad == 'out':
            check_struct(mpp.MPPovm([np.zeros((1, 255, 1, 1, 1))]))
            lts = [np.zeros((1, 256, 1, 1, 1))]
        else:
            p = [mpp.MPPovm.eye([2] * k) for k in (1 + spec['seed'] % 2, 3)]
            try:
                mpp.MPPovmList(p)
            except AssertionError:
                return
            ensure(False, 'MP-POVMs of different length were accepted')
        try:
            mpp.MPPovm(lts)
        except AssertionError:
            return
        ensure(False, 'invalid MP-POVM was accepted')


# ---------------------------------------------------------------- lists

def gen_list(src):
    dims = g_dims(src, 1, 4)
    return {'povms': [g_povm(src, dims, 60) for _ in range(src.int(1, 4))],
            'state': g_state(src, dims), 'gen': src.bool()}


def run_list(spec, ctx):
    built = [build_povm(p) for p in spec['povms']]
    state, rho = build_state(spec['state'])
    mode = spec['state']['mode']
    objs = [b[0] for b in built]
    lst = mpp.MPPovmList(iter(objs) if spec['gen'] else objs)
    same(len(lst.mpps), len(built), 'number of MP-POVMs')
    ensure(all(isinstance(m, mpp.MPPovm) for m in lst.mpps), 'type')
    exp = [probabilities(b[1], rho) for b in built]
    ctx.nt(len(built) > 1)
    got = list(lst.pmf(state, mode))
    same(len(got), len(exp), 'number')
    for g, e, b in zip(got, exp, built):
        close(to_dense_pmf(g, outdims_of(b[1]), 'pmf: '), e, 1, 1e-10, 'pmf')
    if all(e.ndim for e in exp):
        got = list(lst.pmf_as_array(state, mode))
        same(len(got), len(exp), 'number')
        for g, e in zip(got, exp):
            pmf_checks(g, e, 'pmf_as_array: ')


SUBS = [Sub('pmf', gen_pmf, run_pmf, 1500),
        Sub('block', gen_block, run_block, 1000),
        Sub('construct', gen_cons, run_cons, 1200),
        Sub('list', gen_list, run_list, 500)]
