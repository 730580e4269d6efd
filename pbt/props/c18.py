# encoding: utf-8
"""C18: state representations (MPS, PMPS, MPO) and reduced states"""
from __future__ import division

import numpy as np

import mpnum as mp
from mpnum import mpsmpo

from ..engine import Sub
from ..gen import build_mpa, g_mpa, g_nsites, g_shape
from ..oracle import (check_mpa, check_struct, close, dense, ensure, eps_of,
                      fscale, same, snapshot, unchanged, unchanged_tensor)

RULE = """Random unnormalized pure states (MPS), locally purified states (PMPS,
ancilla dimensions 1-3 differing from site to site) and operators (MPO, not
hermitian in general) with 1-6 sites, inhomogeneous dimensions including 1, any
rank, dtype, scale and canonical form.  Conversions between all representations;
reduced states for every way to give the supports (width; width and start sites;
start and stop sites; as lists, tuples, ranges, generators; overlapping, in any
order, repeated, varying widths), several interleaved iterators over the same
state, reductions to arbitrary non-consecutive supports.  Oracle: partial trace
of the dense density matrix.  Non-trivial: at least two sites and an entangled
(rank larger than one) or mixed state."""

KINDS = (('gauss', 8), ('int', 2), ('sparse', 1.5), ('dup', 1), ('unit', .5),
         ('zero', .15))


def mat_of(t, shape):
    """local form tensor with legs (k0, b0, k1, b1, ...) -> matrix"""
    n = len(shape)
    t = np.asarray(t).transpose(list(range(0, 2 * n, 2)) +
                                list(range(1, 2 * n, 2)))
    d = int(np.prod([s[0] for s in shape], dtype=object))
    e = int(np.prod([s[1] for s in shape], dtype=object))
    return t.reshape((d, e))


def state_matrix(mode, t, shape):
    """Dense density matrix / operator for a state given as dense tensor"""
    if mode == 'mps':
        v = t.ravel()
        return np.outer(v, v.conj())
    m = mat_of(t, shape)
    if mode == 'pmps':
        return m.dot(m.conj().T)
    return m


def reduce_matrix(rho, kd, bd, keep):
    """Partial trace keeping the sites `keep` (in increasing order)"""
    n = len(kd)
    t = rho.reshape(tuple(kd) + tuple(bd))
    for pos in reversed(range(n)):
        if pos not in keep:
            t = np.trace(t, axis1=pos, axis2=pos + t.ndim // 2)
    d = int(np.prod([kd[k] for k in keep], dtype=object))
    e = int(np.prod([bd[k] for k in keep], dtype=object))
    return t.reshape((d, e))


def g_state(src, mode, hi=6, cap=36, **kw):
    n = g_nsites(src, 1, hi, 12)
    shape, tot, atot = [], 1, 1
    for _ in range(n):
        d = src.weighted([(2, 5), (3, 2), (1, 1), (4, .5), (5, .25), (7, .15)])
        if tot * d > cap:
            d = 1 if src.bool(.3) or tot * 2 > cap else 2
        tot *= d
        if mode == 'mps':
            shape.append([d])
        elif mode == 'pmps':
            a = src.weighted([(2, 3), (1, 2), (3, 2), (5, .2)])
            if atot * a > 48:
                a = 1
            atot *= a
            shape.append([d, a])
        else:
            shape.append([d, d])
    return g_mpa(src, shape=shape, maxrank=4, kinds=KINDS,
                 dts=('c16', 'f8', 'i8'), **kw)


def kdims(spec):
    return [s[0] for s in spec['shape']]


def check_operator(mpo, exp, kd, bd, sc, tol, what):
    """mpo is an MPO for the matrix exp"""
    shape = [(a, b) for a, b in zip(kd, bd)]
    lts = check_struct(mpo, what)
    same(tuple(tuple(s) for s in mpo.shape), tuple(shape), what + 'shape')
    close(mat_of(dense(lts), shape), exp, sc, tol, what + 'matrix')
    close(mat_of(mpo.to_array(), shape), exp, sc, tol, what + 'to_array()')


def check_pmps(pm, exp, kd, sc, tol, what):
    lts = check_struct(pm, what)
    ensure(all(k == 2 for k in pm.ndims), what + 'number of legs')
    same(tuple(s[0] for s in pm.shape), tuple(kd), what + 'system dimensions')
    m = mat_of(dense(lts), pm.shape)
    close(m.dot(m.conj().T), exp, sc, tol, what + 'density matrix')


# ---------------------------------------------------------------- conversions

def gen_convert(src):
    mode = src.pick(['mps', 'pmps', 'pmps1'])
    spec = {'mode': mode, 'a': g_state(src, 'pmps' if mode == 'pmps1' else mode)}
    if mode == 'pmps1':
        spec['a']['shape'] = [[s[0], 1] for s in spec['a']['shape']]
    return spec


def run_convert(spec, ctx):
    a, orig = build_mpa(spec['a'])
    snap = snapshot(a)
    mode = 'mps' if spec['mode'] == 'mps' else 'pmps'
    t = dense(orig)
    kd = kdims(spec['a'])
    rho = state_matrix(mode, t, spec['a']['shape'])
    sc = fscale(orig)
    tol = eps_of(orig)
    ctx.nt(len(kd) > 1 and (max(a.ranks) > 1 or mode == 'pmps'))
    ctx.label(spec['mode'])
    if mode == 'mps':
        p = mpsmpo.mps_to_pmps(a)
        check_mpa(p, t.reshape([x for d in kd for x in (d, 1)]), sc, tol,
                  [(d, 1) for d in kd], 'mps_to_pmps: ')
        check_operator(mpsmpo.mps_to_mpo(a), rho, kd, kd, sc**2, tol,
                       'mps_to_mpo: ')
        check_mpa(mpsmpo.pmps_to_mps(p), t, sc, tol, [(d,) for d in kd],
                  'pmps_to_mps: ')
        check_operator(mpsmpo.pmps_to_mpo(p), rho, kd, kd, sc**2, tol,
                       'pmps_to_mpo: ')
    else:
        mpo = mpsmpo.pmps_to_mpo(a)
        check_operator(mpo, rho, kd, kd, sc**2, tol, 'pmps_to_mpo: ')
        if all(s[1] == 1 for s in spec['a']['shape']):
            check_mpa(mpsmpo.pmps_to_mps(a), t.reshape(kd), sc, tol,
                      [(d,) for d in kd], 'pmps_to_mps: ')
        else:
            try:
                mpsmpo.pmps_to_mps(a)
            except AssertionError:
                ctx.label('refused')
            else:
                ensure(False, 'PMPS with ancilla dimensions %r converted to '
                       'MPS', [s[1] for s in spec['a']['shape']])
        p = a
    # dense density matrix
    loc = rho.reshape(tuple(kd) * 2)
    n = len(kd)
    loc = loc.transpose([x for i in range(n) for x in (i, n + i)])
    loc = loc.reshape([d for d in kd if d > 1 for _ in (0, 1)])
    got = mpsmpo.pmps_dm_to_array(p)
    close(got, loc, sc**2, tol, 'pmps_dm_to_array')
    big = [d for d in kd if d > 1]
    if big and len(set(big)) == 1:
        k = len(big)
        glob = rho.reshape(tuple(big) * 2)
        close(mpsmpo.pmps_dm_to_array(p, global_=True), glob, sc**2, tol,
              'pmps_dm_to_array(global_)')
        ctx.label('global')
    unchanged(a, snap, 'state: ')


# ---------------------------------------------------------------- reductions

def g_supports(src, n):
    """How the supports are given, and the supports"""
    form = src.weighted([('width', 3), ('wstart', 3), ('startstop', 4)])
    cont = src.pick(['list', 'tuple', 'gen', 'array'])
    if form == 'width':
        w = src.int(1, n)
        return {'form': form, 'width': w}
    k = src.int(1, 5)
    if form == 'wstart':
        w = src.int(1, n)
        return {'form': form, 'width': w, 'cont': cont,
                'start': [src.int(0, n - w) for _ in range(k)]}
    start, stop = [], []
    for _ in range(k):
        s = src.int(0, n - 1)
        start.append(s)
        stop.append(src.int(s + 1, n))
    return {'form': form, 'start': start, 'stop': stop, 'cont': cont}


def wrap(x, cont):
    if cont == 'tuple':
        return tuple(x)
    if cont == 'gen':
        return (i for i in x)
    if cont == 'array':
        return np.array(x, dtype=int)
    return list(x)


def args_of(sup, n):
    """(kwargs, list of (start, stop))"""
    if sup['form'] == 'width':
        w = sup['width']
        return {'width': w}, [(i, i + w) for i in range(n - w + 1)]
    start = sup['start']
    if sup['form'] == 'wstart':
        w = sup['width']
        return ({'width': w, 'startsites': wrap(start, sup['cont'])},
                [(i, i + w) for i in start])
    return ({'startsites': wrap(start, sup['cont']),
             'stopsites': wrap(sup['stop'], sup['cont'])},
            list(zip(start, sup['stop'])))


def gen_red(src):
    mode = src.pick(['mps', 'pmps', 'mpo', 'mps_as_mpo'])
    a = g_state(src, 'mps' if mode == 'mps_as_mpo' else mode)
    n = len(a['shape'])
    k = src.weighted([(1, 3), (2, 1.5), (3, .5)])
    return {'mode': mode, 'a': a, 'sup': [g_supports(src, n) for _ in range(k)],
            'generic': src.bool(), 'order': [src.int(0, 2) for _ in range(20)],
            'scale': src.bool(.2)}


def run_red(spec, ctx):
    a, orig = build_mpa(spec['a'])
    snap = snapshot(a)
    mode = spec['mode']
    base = 'mps' if mode == 'mps_as_mpo' else mode
    t = dense(orig)
    kd = kdims(spec['a'])
    n = len(kd)
    rho = state_matrix(base, t, spec['a']['shape'])
    sc = fscale(snap[0]) if mode == 'mpo' else fscale(snap[0])**2
    sc = max(sc, fscale(orig) ** (1 if mode == 'mpo' else 2))
    tol = eps_of(orig)
    if mode == 'mpo':
        # factors sqrt(dim) from tracing the remaining sites
        tol *= np.sqrt(np.prod(kd))
    ctx.nt(n > 1 and (max(a.ranks) > 1 or mode == 'pmps'))
    ctx.label(mode)
    its, todo, outs = [], [], []
    for sup in spec['sup']:
        kw, exp = args_of(sup, n)
        ctx.label(sup['form'])
        if mode == 'mps_as_mpo':
            it = mpsmpo.reductions_mps_as_mpo(a, **kw)
            kind = 'mpo'
        elif spec['generic']:
            it, newmode = mpsmpo.reductions(
                a, 'mpdo' if mode == 'mpo' else mode, **kw)
            same(newmode, 'mpdo' if mode == 'mpo' else 'pmps', 'mode')
            kind = 'mpo' if mode == 'mpo' else 'pmps'
        else:
            f = {'mps': mpsmpo.reductions_mps_as_pmps,
                 'pmps': mpsmpo.reductions_pmps,
                 'mpo': mpsmpo.reductions_mpo}[mode]
            it = f(a, **kw)
            kind = 'mpo' if mode == 'mpo' else 'pmps'
        its.append(iter(it))
        todo.append(list(exp))
    sentinel = object()
    step, results = 0, []
    while its:
        k = spec['order'][step % 20] % len(its)
        step += 1
        red = next(its[k], sentinel)
        if not todo[k]:
            ensure(red is sentinel, 'too many reduced states')
            del its[k], todo[k]
            continue
        ensure(red is not sentinel, 'reduced states %r missing', todo[k])
        start, stop = todo[k].pop(0)
        results.append((red, start, stop))
    # everything is checked after all iterators have finished
    for red, start, stop in results:
        keep = list(range(start, stop))
        exp = reduce_matrix(rho, kd, kd, keep)
        d = [kd[i] for i in keep]
        what = 'reduced state on %d:%d of %d sites: ' % (start, stop, n)
        if kind == 'mpo':
            check_operator(red, exp, d, d, sc, tol, what)
        else:
            check_pmps(red, exp, d, sc, tol, what)
    if mode == 'pmps':
        unchanged_tensor(a, snap, 'state: ')
    else:
        unchanged(a, snap, 'state: ')
    if spec['scale'] and results:
        # results are independent of the state
        red, start, stop = results[-1]
        s = snapshot(a)
        red *= 3
        unchanged(a, s, 'state after scaling the result: ')


def gen_support(src):
    a = g_state(src, 'pmps')
    n = len(a['shape'])
    keep = src.subset(range(n), .5) or [src.int(0, n - 1)]
    return {'a': a, 'keep': keep, 'as': src.pick(['list', 'set', 'tuple', 'rev'])}


def run_support(spec, ctx):
    a, orig = build_mpa(spec['a'])
    snap = snapshot(a)
    kd = kdims(spec['a'])
    n = len(kd)
    keep = spec['keep']
    rho = state_matrix('pmps', dense(orig), spec['a']['shape'])
    sc = max(fscale(snap[0]), fscale(orig))**2
    tol = eps_of(orig)
    arg = {'list': list, 'set': set, 'tuple': tuple,
           'rev': lambda x: list(reversed(x))}[spec['as']](keep)
    red = mpsmpo.pmps_reduction(a, arg)
    lo, hi = keep[0], keep[-1]
    ctx.nt(n > 1 and len(keep) < n)
    ctx.label('gap' if len(keep) < hi - lo + 1 else 'consecutive')
    exp = reduce_matrix(rho, kd, kd, keep)
    d = [kd[i] if i in keep else 1 for i in range(lo, hi + 1)]
    check_pmps(red, exp, d, sc, tol, 'pmps_reduction: ')
    unchanged_tensor(a, snap, 'state: ')
    # dense array of a reduction: only legs with dimension > 1
    big = [kd[i] for i in keep if kd[i] > 1]
    m = len(big)
    loc = exp.reshape(tuple(big) * 2)
    loc = loc.transpose([x for i in range(m) for x in (i, m + i)])
    close(mpsmpo.pmps_dm_to_array(red), loc, sc, tol, 'pmps_dm_to_array')


SUBS = [Sub('convert', gen_convert, run_convert, 1200),
        Sub('reductions', gen_red, run_red, 1600),
        Sub('support', gen_support, run_support, 1000)]
