# encoding: utf-8
"""C22: estimators for functions of measurement outcomes"""
from __future__ import division

import itertools

import numpy as np

import mpnum.povm as mpp

from ..engine import KnownFinding, Sub
from ..gen import rs
from ..oracle import close, ensure, same, snapshot, unchanged
from ..povmgen import (build_povm, build_state, elements_of, g_dims, g_povm,
                       g_state, outdims_of, povm_ltens, probabilities)

RULE = """Random MP-POVMs and lists of MP-POVMs on 1-4 sites which share local
measurements (so that elements of one are multiples of coarse-grained elements
of another, including POVMs with linearly dependent elements, correlated
two-site elements and sites without measurement), random states, arbitrary
samples, real and integer sample weights, random functions of the outcomes given
as tables, random coefficients.  Oracles: linear dependence of dense elements,
moments of the dense distribution, plain sample means and unbiased sample
variances of the combined function, explicit weighted averages over all
estimators of a probability.  Non-trivial: at least two outcomes and at least
one element that can be estimated."""

KINDS = (('z', 3), ('x', 3), ('y', 2), ('pauli', 2), ('eye', 3), ('rand', 2),
         ('scaled', .7), ('basis', .7), ('part', .7))


def g_shared(src, dims, cap=40, kinds=KINDS, eye_ok=False):
    spec = g_povm(src, dims, cap, pair=.15, kinds=kinds)
    for seg in spec['segs']:
        seg['seed'] %= 2
        if seg['kind'] == 'pair':
            seg['o'] = [2, 2] if seg['o'] != [1, 1] else [1, 1]
            seg['rank'] = None
        else:
            seg['k'] = 3
    if not eye_ok and all(a.shape[1] == 1 for a in povm_ltens(spec)):
        spec = {'segs': [{'kind': 'z' if i == 0 else 'eye', 'd': [d], 'k': 2,
                          'seed': 0} for i, d in enumerate(dims)]}
    return spec


def dims_of(src, hi=4, cap=12):
    dims = g_dims(src, 1, hi, cap=cap)
    if dims[0] == 1:
        dims[0] = 2
    return dims


def g_weaker(src, spec, p=.3):
    """A POVM made from another one by dropping measurements"""
    segs = []
    for seg in spec['segs']:
        if len(seg['d']) == 1 and src.bool(p):
            seg = dict(seg, kind='eye')
        segs.append(dict(seg))
    return {'segs': segs}


def coarse(lts, mine):
    """Elements of `lts` with outcomes summed where `mine` has only one

    :returns: (vectors as rows, outcome shape, selected sites)
    """
    E = elements_of(lts)
    n = len(lts)
    drop = tuple(i for i in range(n) if mine[i] == 1)
    E = E.sum(axis=drop) if drop else E
    shape = tuple(k for k, m in zip(outdims_of(lts), mine) if m > 1 and k > 1)
    return E.reshape((-1, E.shape[-1] * E.shape[-2])), shape


def match_oracle(slts, olts):
    """(matches, prefactors) as matrices self outcome x coarse other outcome,
    shapes, and whether everything is unambiguous"""
    mine = outdims_of(slts)
    S = elements_of(slts)
    S = S.reshape((-1, S.shape[-1] * S.shape[-2]))
    O, oshape = coarse(olts, mine)
    sn = np.linalg.norm(S, axis=1)
    on = np.linalg.norm(O, axis=1)
    cos2 = np.abs(S.conj().dot(O.T))**2 / np.outer(sn, on)**2
    m = np.abs(cos2 - 1) <= 1e-9
    sure = not ((np.abs(cos2 - 1) > 1e-12) & (np.abs(cos2 - 1) < 1e-7)).any()
    # small elements are accurate relative to themselves if they are products
    low = 1e-9 if all(a.shape[0] == 1 for a in list(slts) + list(olts)) else 1e-4
    sure = sure and sn.min() > low and on.min() > low
    pref = np.where(m, np.outer(sn, 1 / on), np.nan)
    return m, pref, tuple(k for k in mine if k > 1), oshape, sure


def close_nan(a, b, tol, what):
    a, b = np.asarray(a), np.asarray(b)
    same(a.shape, b.shape, what + ': shape')
    ensure(np.array_equal(np.isnan(a), np.isnan(b)), '%s: nan at wrong places '
           '(%r, expected %r)', what, a.tolist(), b.tolist())
    ok = ~np.isnan(b)
    if ok.any():
        close(a[ok], b[ok], 1 + np.abs(b[ok]).max(), tol, what)


# ---------------------------------------------------------------- match_elems

def gen_match(src):
    dims = dims_of(src)
    a = g_shared(src, dims)
    b = g_shared(src, dims, eye_ok=True) if src.bool(.5) else g_weaker(src, a, .2)
    c = g_weaker(src, a) if src.bool(.4) else a
    if all(x.shape[1] == 1 for x in povm_ltens(c)):
        c = a
    return {'self': c, 'other': b if src.bool(.7) else a,
            'dup': src.pick([[], ['self'], ['other'], ['self', 'other']]),
            'bad': src.bool(.05)}


def run_match(spec, ctx):
    a, alts = build_povm(spec['self'])
    b, blts = build_povm(spec['other'])
    if spec['bad']:
        d = list(a.hdims)
        d[-1] += 1
        try:
            a.match_elems(mpp.MPPovm.eye(d))
        except ValueError:
            ctx.label('refused')
            return
        ensure(False, 'different Hilbert spaces were accepted')
    sa, sb = snapshot(a), snapshot(b)
    m, pref, sshape, oshape, sure = match_oracle(alts, blts)
    if not sure:
        ctx.label('ambiguous')
        return
    ctx.nt(m.any() and m.size > 1)
    got = a.match_elems(b)
    same(len(got), 2, 'number of results')
    gm, gp = got
    same(gm.shape, sshape + oshape, 'shape of matches')
    ensure(np.array_equal(np.asarray(gm, bool).reshape(m.shape), m),
           'matches: %r, expected %r', np.argwhere(gm).tolist(),
           np.argwhere(m.reshape(gm.shape)).tolist())
    close_nan(np.asarray(gp).reshape(m.shape), pref, 1e-9, 'prefactors')
    if spec['dup']:
        bad = ('self' in spec['dup'] and (m.sum(0) > 1).any()) or \
            ('other' in spec['dup'] and (m.sum(1) > 1).any())
        try:
            a.match_elems(b, exclude_dup=spec['dup'])
        except AssertionError:
            ensure(bad, 'linearly dependent elements were claimed')
            ctx.label('dup')
        else:
            ensure(not bad, 'linearly dependent elements were not noticed')
    unchanged(a, sa, 'self: ')
    unchanged(b, sb, 'other: ')


# ---------------------------------------------------------------- functions

def tables(r, k, shape):
    return [np.round(r.randn(*shape) * 4) / 4 if r.rand() < .6 else
            (r.rand(*shape) < .5).astype(float) for _ in range(k)]


def as_fun(tab):
    return lambda s: tab[tuple(np.asarray(s).T.astype(int))]


def rand_samples(r, shape, n):
    """Arbitrary samples, not uniform"""
    s = np.zeros((n, len(shape)), np.uint8)
    for j, k in enumerate(shape):
        w = r.rand(k)**2 + .05
        s[:, j] = r.choice(k, n, p=w / w.sum())
    if n > 3 and len(shape) > 1 and r.rand() < .5:
        s[: n // 2, 0] = np.minimum(s[: n // 2, 1], shape[0] - 1)
    return s


def gen_lfun(src):
    dims = dims_of(src)
    return {'povm': g_povm(src, dims, 40), 'state': g_state(src, dims),
            'k': src.int(1, 4), 'funs': src.bool(.7), 'coeff': src.bool(.7),
            'seed': src.seed(), 'n': src.weighted([(2, 1), (3, 1), (10, 2),
                                                   (50, 2)]),
            'w': src.weighted([(None, 2), ('count', 2), ('big', 1),
                               ('real', 1)]),
            'wtype': src.pick(['u1', 'i1', 'u2', 'i2', 'i4', 'i8', 'f4']),
            'auto': src.bool(), 'empty': src.bool(.05),
            'const': src.bool(.1)}


def moments(F, p):
    e = F.dot(p)
    return e, (F * p).dot(F.T) - np.outer(e, e)


def run_lfun(spec, ctx):
    if all(a.shape[1] == 1 for a in povm_ltens(spec['povm'])):
        return
    povm, lts = build_povm(spec['povm'])
    state, rho = build_state(spec['state'])
    mode = spec['state']['mode']
    p = probabilities(lts, rho)
    shape = p.shape
    r = rs(spec['seed'])
    tabs = tables(r, spec['k'], shape) if spec['funs'] else None
    if tabs and spec['const']:
        tabs[0] = np.ones(shape) * 1.5
    F = np.array([t.ravel() for t in tabs]) if tabs else np.eye(p.size)
    funs = [as_fun(t) for t in tabs] if tabs else None
    c = np.round(r.randn(len(F)) * 4) / 4 if spec['coeff'] else None
    ctx.nt(p.size > 1)
    ctx.label('coeff' if spec['coeff'] else 'vector')
    kw = {} if spec['auto'] and mode != 'pmps' else {'mode': mode}
    sc = 1 + np.abs(F).max()**2 * len(F)**2 * 16
    # exact
    e, cov = moments(F, p.ravel())
    if spec['empty']:
        close(povm.lfun(np.zeros(0), [], state, **kw), (0, 0), 1, 1e-14,
              'empty sum')
    got = povm.lfun(c, funs, state, **kw)
    if c is None:
        close(got[0], e, sc, 1e-10, 'lfun: expectation values')
        close(got[1], cov, sc, 1e-10, 'lfun: covariance')
    else:
        close(got[0], c.dot(e), sc, 1e-10, 'lfun: value')
        close(got[1], c.dot(cov).dot(c), sc, 1e-10, 'lfun: variance')
        ensure(got[1] >= 0, 'negative variance')
    # estimated
    n = spec['n']
    s = rand_samples(r, shape, n)
    idx = np.zeros(n, int)
    for j, k in enumerate(shape):
        idx = idx * k + s[:, j]
    w, W = np.ones(n), n
    kw = {}
    if spec['w'] == 'count':
        w = r.randint(0, 4, n)
        w[0] += 2
        kw['weights'] = w
    elif spec['w'] == 'big':
        # counts stored with a small type; their sum need not fit
        t = spec.get('wtype', 'u1')
        top = {'u1': 255, 'i1': 127, 'u2': 65535, 'i2': 32767, 'i4': 10**6,
               'i8': 10**6, 'f4': 255}[t]
        w = r.randint(0, top + 1, n)
        w[0] = top
        kw['weights'] = w.astype(t)
    elif spec['w'] == 'real':
        w = r.rand(n) * 3 + .7
        kw['weights'] = w
    W = float(w.sum())
    ctx.label('w:%s' % spec['w'])
    Y = F[:, idx]
    mean = (Y * w).sum(1) / W
    C = ((Y - mean[:, None]) * w).dot((Y - mean[:, None]).T) / (W - 1) / W
    s0 = s.copy()
    got = povm.est_lfun(c, funs, s, **kw)
    if c is None:
        close(got[0], mean, sc, 1e-10, 'est_lfun: values')
        close(got[1], C, sc, 1e-10, 'est_lfun: covariance')
    else:
        close(got[0], c.dot(mean), sc, 1e-10, 'est_lfun: value')
        close(got[1], c.dot(C).dot(c), sc, 1e-10, 'est_lfun: variance')
        ensure(got[1] >= 0, 'negative variance')
    ensure(np.array_equal(s, s0), 'samples were modified')
    if spec['w'] == 'count' and c is not None:
        rep = np.repeat(s, w, axis=0)
        g2 = povm.est_lfun(c, funs, rep)
        close(got, g2, sc, 1e-10, 'counts as weights')
    # samples of all outcomes in exact proportion reproduce the exact value
    if c is not None and spec['state']['kind'] != 'basis':
        allout = np.array(list(itertools.product(*[range(k) for k in shape])),
                          np.uint8)
        g3 = povm.est_lfun(c, funs, allout, weights=p.ravel().clip(0) * 1000)
        close(g3[0], c.dot(e), sc, 1e-9, 'est_lfun with exact frequencies')


# ---------------------------------------------------------------- lists of functions

def gen_llist(src):
    dims = dims_of(src)
    k = src.int(1, 3)
    return {'povms': [g_shared(src, dims, 16) for _ in range(k)],
            'state': g_state(src, dims), 'seed': src.seed(),
            'k': [src.int(1, 3) for _ in range(k)],
            'funs': src.bool(.7), 'n': [src.int(2, 20) for _ in range(k)],
            'w': src.bool(.3)}


def run_llist(spec, ctx):
    built = [build_povm(p) for p in spec['povms']]
    state, rho = build_state(spec['state'])
    mode = spec['state']['mode']
    lst = mpp.MPPovmList([b[0] for b in built])
    r = rs(spec['seed'])
    ps = [probabilities(b[1], rho) for b in built]
    val = var = est = evar = 0.
    coeff, funs, samples, weights = [], [], [], []
    west = wvar = 0.
    sc = 1.
    for p, k, n in zip(ps, spec['k'], spec['n']):
        tabs = tables(r, k, p.shape) if spec['funs'] else None
        F = np.array([t.ravel() for t in tabs]) if tabs else np.eye(p.size)
        c = np.round(r.randn(len(F)) * 4) / 4
        g = c.dot(F)
        sc += np.abs(g).max()**2 + (np.abs(c).dot(np.abs(F)).max())**2
        val += g.dot(p.ravel())
        var += (g**2).dot(p.ravel()) - g.dot(p.ravel())**2
        s = rand_samples(r, p.shape, n)
        y = g.reshape(p.shape)[tuple(s.T.astype(int))]
        est += y.mean()
        evar += y.var(ddof=1) / n
        w = r.randint(1, 4, n)
        yy = np.repeat(y, w)
        west += yy.mean()
        wvar += yy.var(ddof=1) / len(yy)
        coeff.append(c)
        funs.append([as_fun(t) for t in tabs] if tabs else None)
        samples.append(s)
        weights.append(w)
    if not spec['funs']:
        funs = None
    ctx.nt(len(ps) > 1)
    got = lst.lfun(coeff, funs, state, mode)
    close(got, (val, var), sc, 1e-10, 'list: lfun')
    got = lst.est_lfun(coeff, funs, samples)
    close(got, (est, evar), sc, 1e-10, 'list: est_lfun')
    if spec['w']:
        ctx.label('weights')
        got = lst.est_lfun(coeff, funs, samples, weights)
        if np.abs(np.array(got) - (west, wvar)).max() > 1e-10 * sc:
            if np.abs(np.array(got) - (est, evar)).max() <= 1e-10 * sc:
                raise KnownFinding('est_lfun-weights', 'MPPovmList.est_lfun('
                                   'coeff, funs, samples, weights) returns the '
                                   'estimate for unweighted samples')
            close(got, (west, wvar), sc, 1e-10, 'list: est_lfun with weights')


# ---------------------------------------------------------------- est_pmf_from

def gen_from(src):
    dims = dims_of(src)
    spec = {'seed': src.seed()}
    kinds = (('z', 3), ('x', 3), ('y', 2), ('pauli', 2), ('eye', 2),
             ('rand', 2), ('part', 1))
    how = src.weighted([('pauli', 3), ('weaker', 3), ('any', 1)])
    k = src.int(1, 3)
    if how == 'pauli':
        dims = [2] * min(len(dims), 3)
        me = {'segs': [{'kind': src.weighted([('pauli', 3), ('eye', 1), ('z', .5),
                                              ('part', .3)]),
                        'd': [2], 'k': 3, 'seed': 0} for _ in dims]}
        if all(s['kind'] == 'eye' for s in me['segs']):
            me['segs'][0]['kind'] = 'pauli'
        others = [{'segs': [{'kind': src.weighted([('x', 2), ('y', 2), ('z', 2),
                                                   ('eye', .3), ('pauli', .4)]),
                             'd': [2], 'k': 3, 'seed': 0} for _ in dims]}
                  for _ in range(k)]
    elif how == 'weaker':
        others = [g_shared(src, dims, kinds=kinds) for _ in range(k)]
        me = g_weaker(src, others[0], .4)
        if all(x.shape[1] == 1 for x in povm_ltens(me)):
            me = others[0]
    else:
        me = g_shared(src, dims, kinds=kinds)
        others = [g_shared(src, dims, kinds=kinds, eye_ok=True)
                  for _ in range(k)]
    spec.update(me=me, others=others, n=[src.int(1, 40) for _ in range(k)],
                list=src.bool())
    return spec


def from_oracle(alts, blts, s):
    """('ok', est, n_used) / ('refuse',) / ('skip',)"""
    m, pref, sshape, oshape, sure = match_oracle(alts, blts)
    if not sure:
        return ('skip',)
    n = len(s)
    given = m.any(1)
    if not given.any():
        return 'ok', np.zeros(sshape) * np.nan, 0
    if (m.sum(1) > 1).any():
        return ('skip',)      # linearly dependent elements in other
    S = elements_of(alts)
    D = S.shape[-1]
    S = S.reshape((-1, D, D))[given].sum(0)
    frac = np.trace(S).real / D
    dev = np.abs(S - frac * np.eye(D)).max()
    if 1e-12 < dev < 1e-3:
        return ('skip',)
    if dev >= 1e-3:
        return ('refuse',)
    per = np.where(m, pref, 0).sum(0)
    if np.abs(per - frac).max() > 1e-9:
        # over-complete `other`: the estimates need not sum to the fraction
        return ('skip',)
    mine, his = outdims_of(alts), outdims_of(blts)
    cols = [j for j, i in enumerate(i for i, o in enumerate(his) if o > 1)
            if mine[i] > 1]
    idx = np.zeros(n, int)
    for j, k in zip(cols, oshape):
        idx = idx * k + s[:, j]
    cnt = np.bincount(idx, minlength=m.shape[1])
    est = np.where(m, pref, 0).dot(cnt) / n
    est[~given] = np.nan
    return 'ok', est.reshape(sshape), int(m.any(0)[idx].sum())


def run_from(spec, ctx):
    a, alts = build_povm(spec['me'])
    built = [build_povm(p) for p in spec['others']]
    r = rs(spec['seed'])
    samples = [rand_samples(r, [k for k in outdims_of(b[1]) if k > 1], n)
               for b, n in zip(built, spec['n'])]
    exp = [from_oracle(alts, b[1], s) for b, s in zip(built, samples)]
    good = []
    for (b, blts), s, x in zip(built, samples, exp):
        if x[0] == 'skip':
            ctx.label('skip')
            continue
        if x[0] == 'refuse':
            ctx.label('refused')
            try:
                a.est_pmf_from(b, s)
            except AssertionError:
                continue
            ensure(False, 'elements which do not sum to a multiple of the '
                   'identity were accepted')
        est, used = a.est_pmf_from(b, s)
        close_nan(est, x[1], 1e-9, 'est_pmf_from')
        same(int(used), x[2], 'number of samples used')
        good.append((b, s, x))
        if x[2]:
            ctx.nt(True)
            ctx.label('partial' if np.isnan(x[1]).any() else 'full')
    if not good:
        return
    # several sources
    num = sum(np.where(np.isnan(x[1]), 0, x[1]) * x[2] for _, _, x in good)
    den = sum(np.where(np.isnan(x[1]), 0, x[2]) for _, _, x in good)
    with np.errstate(divide='ignore', invalid='ignore'):
        avg = num / den
    lst = mpp.MPPovmList([g[0] for g in good])
    sam = [g[1] for g in good]
    with np.errstate(divide='ignore', invalid='ignore'):
        if spec['list']:
            res = list(mpp.MPPovmList([a, a]).est_pmf_from(lst, sam))
            same(len(res), 2, 'number of results')
        else:
            res = [a.est_pmf_from_mpps(lst, sam)]
    for est, used in res:
        close_nan(est, avg, 1e-9, 'est_pmf_from_mpps')
        ensure(np.array_equal(used, den), 'number of samples used: %r, '
               'expected %r', used.tolist(), den.tolist())
    if len(good) > 1:
        ctx.label('several')


# ---------------------------------------------------------------- lfun_from

def gen_lfrom(src):
    dims = dims_of(src, 3)
    how = src.weighted([('pauli', 2), ('any', 1), ('weaker', 2)])
    k, l = src.int(1, 3), src.int(1, 3)
    if how == 'pauli':
        dims = [2] * min(len(dims), 3)

        def one(kinds):
            return {'segs': [{'kind': src.weighted(kinds), 'd': [2], 'k': 3,
                              'seed': 0} for _ in dims]}
        me = [one((('pauli', 1), ('eye', 2), ('x', 1), ('z', 1)))
              for _ in range(l)]
        others = [one((('x', 2), ('z', 1), ('pauli', 3), ('y', .5)))
                  for _ in range(k)]
    elif how == 'any':
        me = [g_shared(src, dims, 20) for _ in range(l)]
        others = [g_shared(src, dims, 20) for _ in range(k)]
    else:
        others = [g_shared(src, dims, 20) for _ in range(k)]
        me = [g_weaker(src, others[src.int(0, k - 1)], .4) for _ in range(l)]
    for i, m in enumerate(me):
        if all(x.shape[1] == 1 for x in povm_ltens(m)):
            me[i] = {'segs': [{'kind': 'z', 'd': [d], 'k': 3, 'seed': 0}
                              for d in dims]}
    return {'me': me, 'others': others, 'state': g_state(src, dims),
            'seed': src.seed(), 'n': [src.int(2, 30) for _ in range(k)],
            'only': src.bool(.7), 'w': src.weighted([(None, 2), ('real', 1),
                                                     ('int', 1)])}


def run_lfrom(spec, ctx):
    me = [build_povm(p) for p in spec['me']]
    others = [build_povm(p) for p in spec['others']]
    state, rho = build_state(spec['state'])
    mode = spec['state']['mode']
    r = rs(spec['seed'])
    info = [[match_oracle(a[1], b[1]) for b in others] for a in me]
    if not all(x[4] for row in info for x in row):
        ctx.label('ambiguous')
        return
    coeff = []
    for (a, alts), row in zip(me, info):
        shape = row[0][2]
        c = np.round(r.randn(*shape) * 4) / 4
        if spec['only']:
            # use only what can be estimated
            can = np.any([x[0].any(1) for x in row], axis=0)
            c = c * can.reshape(shape)
        coeff.append(c)
    oshapes = [tuple(k for k in outdims_of(b[1]) if k > 1) for b in others]
    samples = [rand_samples(r, s, n) for s, n in zip(oshapes, spec['n'])]

    def estimator(weights):
        """Table g_o(outcome) for every MP-POVM in others, or None"""
        tabs = [np.zeros(s) for s in oshapes]
        scale = 1.
        for (a, alts), row, c in zip(me, info, coeff):
            W = sum(w * x[0].sum(1) for w, x in zip(weights, row))
            cf = c.ravel()
            if ((W == 0) & (cf != 0)).any():
                return None, 1.
            mine = outdims_of(alts)
            for q, (w, x) in enumerate(zip(weights, row)):
                m, pref, _, osh, _ = x
                tab = np.zeros(m.shape[1])
                for i, j in np.argwhere(m):
                    tab[j] += cf[i] * w * pref[i, j] / W[i]
                    scale += abs(cf[i] * pref[i, j])
                his = outdims_of(others[q][1])
                full = tab.reshape([k if mine[i] > 1 else 1
                                    for i, k in enumerate(his) if k > 1])
                tabs[q] = tabs[q] + full
        return tabs, scale**2

    lme = mpp.MPPovmList([a[0] for a in me])
    lot = mpp.MPPovmList([b[0] for b in others])
    kw = {}
    wts = np.ones(len(others))
    if spec['w'] == 'real':
        wts = r.rand(len(others)) + .1
        kw['other_weights'] = wts
    elif spec['w'] == 'int':
        wts = r.randint(1, 9, len(others))
        kw['other_weights'] = wts
    tabs, sc = estimator(wts)
    got = lme.lfun_from(lot, coeff, state, mode, **kw)
    if tabs is None:
        ctx.label('impossible')
        ensure(len(got) == 2 and np.isnan(got[0]) and np.isnan(got[1]),
               'lfun_from: %r although the function cannot be estimated', got)
    else:
        ctx.label('possible')
        ctx.nt(any(np.abs(c).max() > 0 for c in coeff))
        exact = sum((c * probabilities(a[1], rho)).sum()
                    for c, a in zip(coeff, me))
        ps = [probabilities(b[1], rho) for b in others]
        val = sum((t * p).sum() for t, p in zip(tabs, ps))
        close(val, exact, sc, 1e-9, '(oracle)')
        var = sum((t**2 * p).sum() - (t * p).sum()**2
                  for t, p in zip(tabs, ps))
        close(got[0], exact, sc, 1e-9, 'lfun_from: value')
        close(got[1], var, sc, 1e-9, 'lfun_from: variance')
    tabs, sc = estimator(spec['n'])
    got = lme.est_lfun_from(lot, coeff, samples)
    if tabs is None:
        ensure(len(got) == 2 and np.isnan(got[0]) and np.isnan(got[1]),
               'est_lfun_from: %r although the function cannot be estimated',
               got)
    else:
        ys = [t[tuple(s.T.astype(int))] for t, s in zip(tabs, samples)]
        close(got[0], sum(y.mean() for y in ys), sc, 1e-9,
              'est_lfun_from: value')
        close(got[1], sum(y.var(ddof=1) / len(y) for y in ys), sc, 1e-9,
              'est_lfun_from: variance')


SUBS = [Sub('match', gen_match, run_match, 900),
        Sub('lfun', gen_lfun, run_lfun, 900),
        Sub('list', gen_llist, run_llist, 300),
        Sub('pmf_from', gen_from, run_from, 700),
        Sub('lfun_from', gen_lfrom, run_lfrom, 500)]
