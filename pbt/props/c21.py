# encoding: utf-8
"""C21: sampling of measurement outcomes"""
from __future__ import division

import numpy as np

import mpnum as mp
import mpnum.povm as mpp

from ..engine import Sub
from ..gen import rs
from ..oracle import close, ensure, same, snapshot, unchanged, unchanged_tensor
from ..povmgen import (build_povm, build_state, g_dims, g_povm, g_state,
                       outdims_of, povm_ltens, probabilities)

RULE = """Random MP-POVMs with at least one non-trivial outcome and random states
(see C20; many have outcomes with probability zero or one), conditional sampling
with every group size and direct sampling, all state formats, unpacked and packed
with different integer types.  Oracles: exact dense distribution (outcomes of
probability zero never occur; every count within a Chernoff bound of false alarm
probability 3e-11; pairwise marginals likewise), reproducibility from
the generator alone, mixed-radix packing, counting.  Chains of 15-40 sites are
sampled with closed-form distributions (product and GHZ states).  Non-trivial: at
least two outcomes and at least 50 samples."""

LOG = 25.0       # log(2 / delta), delta = 3e-11 per comparison


def bernstein(count, n, p, what):
    """Chernoff bound for a binomial count: n KL(count / n || p) <= LOG"""
    c = np.ravel(count) / float(max(n, 1))
    p = np.clip(np.ravel(p), 1e-15, 1 - 1e-15)
    with np.errstate(divide='ignore', invalid='ignore'):
        kl = np.where(c > 0, c * np.log(c / p), 0) + \
            np.where(c < 1, (1 - c) * np.log((1 - c) / (1 - p)), 0)
    worst = np.argmax(kl)
    ensure(n * kl[worst] <= LOG, '%s: %d of %d samples, probability %g', what,
           np.ravel(count)[worst], n, p[worst])


def check_samples(s, exp, n, what):
    """s: samples (n, k); exp: dense distribution"""
    ensure(isinstance(s, np.ndarray), what + 'type')
    same(s.shape, (n, exp.ndim), what + 'shape')
    same(s.dtype, np.dtype(np.uint8), what + 'dtype')
    ensure((s < np.array(exp.shape)[None, :]).all(), what + 'outcome too large')
    flat = np.zeros(n, int)
    for j, k in enumerate(exp.shape):
        flat = flat * k + s[:, j]
    cnt = np.bincount(flat, minlength=exp.size)
    p = np.clip(exp.ravel(), 0, 1)
    ensure(not (cnt[p < 1e-12] > 0).any(), '%soutcome of probability zero',
           what)
    bernstein(cnt, n, p, what + 'joint distribution')
    # single and pairwise marginals
    for i in range(exp.ndim):
        m = exp.sum(tuple(a for a in range(exp.ndim) if a != i))
        bernstein(np.bincount(s[:, i], minlength=exp.shape[i]), n,
                  np.clip(m, 0, 1), what + 'marginal %d' % i)
        for j in range(i):
            m = exp.sum(tuple(a for a in range(exp.ndim) if a not in (i, j)))
            c = np.bincount(s[:, j].astype(int) * exp.shape[i] + s[:, i],
                            minlength=m.size)
            bernstein(c, n, np.clip(m.ravel(), 0, 1),
                      what + 'marginal %d, %d' % (j, i))
    return cnt


def usable(src, dims, cap=100):
    povm = g_povm(src, dims, cap)
    if not any(a.shape[1] > 1 for a in povm_ltens(povm)):
        povm = {'segs': [{'kind': 'z', 'd': [d], 'k': 2, 'seed': 0}
                         for d in dims]}
    return povm


def gen(src):
    dims = g_dims(src, 1, 5)
    if all(d == 1 for d in dims):
        dims[0] = 2
    n = len(dims)
    return {'povm': usable(src, dims), 'state': g_state(src, dims),
            'method': src.weighted([('cond', 3), ('direct', 2)]),
            'group': src.int(1, n + 1), 'seed': src.seed(),
            'auto': src.bool(), 'n': src.weighted([(120, 4), (300, 1), (1, .3),
                                                   (0, .2)]),
            'pack': src.weighted([(None, 3), ('true', 1), ('uint8', 1),
                                  ('int64', 1), ('uint32', .5)]),
            'default': src.bool(.2)}


def draw(povm, spec, seed, state, mode, **kw):
    rng = rs(seed)
    if not spec['default']:
        kw['method'] = spec['method']
        if spec['method'] == 'cond' or spec['group'] == 1:
            kw['n_group'] = spec['group']
    if mode != 'auto':
        kw['mode'] = mode
    n = spec['n'] * (1 if spec['default'] or spec['method'] == 'cond' else 20)
    return povm.sample(rng, state, n, **kw), n, rng


def run(spec, ctx):
    povm, plts = build_povm(spec['povm'])
    state, rho = build_state(spec['state'])
    exp = probabilities(plts, rho)
    mode = spec['state']['mode']
    m = 'auto' if spec['auto'] and mode != 'pmps' else mode
    psnap, ssnap = snapshot(povm), snapshot(state)
    glob = np.random.get_state()
    s, n, rng = draw(povm, spec, spec['seed'], state, m)
    ctx.nt(exp.size > 1 and n >= 50)
    ctx.label('cond' if spec['default'] else spec['method'])
    what = '%s: ' % spec['method']
    cnt = check_samples(s, exp, n, what)
    s2, _, rng2 = draw(povm, spec, spec['seed'], state, m)
    ensure(np.array_equal(s, s2), 'samples are not determined by the generator')
    now = np.random.get_state()
    ensure(np.array_equal(now[1], glob[1]) and now[2] == glob[2],
           'global random state was used')
    unchanged(povm, psnap, 'POVM: ')
    if mode == 'pmps':
        unchanged_tensor(state, ssnap, 'state: ')
    else:
        unchanged(state, ssnap, 'state: ')
    # packing
    flat = np.zeros(n, int)
    for j, k in enumerate(exp.shape):
        flat = flat * k + s[:, j]
    packed = povm.pack_samples(s)
    same(packed.shape, (n,), 'shape of packed samples')
    ensure(np.array_equal(packed, flat), 'pack_samples')
    back = povm.unpack_samples(packed)
    ensure(back.dtype == np.uint8 and np.array_equal(back, s),
           'unpack_samples does not invert pack_samples')
    if spec['pack'] and n > 0:
        ctx.label('pack')
        dt = {'true': True, 'uint8': np.uint8, 'int64': np.int64,
              'uint32': np.uint32}[spec['pack']]
        got, _, _ = draw(povm, spec, spec['seed'], state, m, pack=dt)
        ensure(np.array_equal(got, flat), 'packed samples')
        if dt is not True:
            same(got.dtype, np.dtype(dt), 'dtype of packed samples')
            ensure(np.array_equal(povm.pack_samples(s, dtype=dt), flat) and
                   povm.pack_samples(s, dtype=dt).dtype == dt, 'pack_samples')
        ensure(np.array_equal(povm.unpack_samples(got), s), 'unpack_samples')
    if n > 0:
        # counting
        est = povm.est_pmf(s)
        same(est.shape, exp.shape, 'shape of est_pmf')
        close(est, cnt.reshape(exp.shape) / n, 1, 1e-14, 'est_pmf')
        raw = povm.est_pmf(s, normalize=False)
        ensure(raw.dtype.kind in 'iu' and
               np.array_equal(raw, cnt.reshape(exp.shape)), 'counts')
        close(povm.est_pmf(packed), est, 1, 1e-14, 'est_pmf (packed)')


def gen_stat(src):
    dims = g_dims(src, 2, 3, cap=12)
    if all(d == 1 for d in dims):
        dims[0] = 2
    return {'povm': usable(src, dims, 12), 'state': g_state(src, dims),
            'group': src.int(1, 2), 'seed': src.seed(), 'n': 1200}


def run_stat(spec, ctx):
    """Many samples for a small system"""
    povm, plts = build_povm(spec['povm'])
    state, rho = build_state(spec['state'])
    exp = probabilities(plts, rho)
    s = povm.sample(rs(spec['seed']), state, spec['n'], n_group=spec['group'],
                    mode=spec['state']['mode'])
    ctx.nt(exp.size > 1)
    check_samples(s, exp, spec['n'], 'cond: ')


# ---------------------------------------------------------------- packing

def gen_pack(src):
    outs = [src.weighted([(1, 2), (2, 3), (3, 2), (6, 1), (17, .5), (255, .4)])
            for _ in range(src.int(1, 6))]
    if all(o == 1 for o in outs):
        outs[0] = 2
    return {'outs': outs, 'n': src.int(1, 30), 'seed': src.seed(),
            'dt': src.pick([None, 'uint8', 'int8', 'int16', 'uint32', 'int64', 'uint64']),
            'extreme': src.bool(), 'intype': src.pick(['uint8', 'int64']),
            'list': src.bool(.3), 'limit': src.weighted(
                [(None, 1), (-1, .3), (0, .5), (1, .7), (2, .3), (200, .3)])}


def run_pack(spec, ctx):
    """Packing and counting for arbitrary samples and outcome dimensions"""
    outs = spec['outs']
    povm = mpp.MPPovm([np.ones((1, o, 1, 1, 1)) / o for o in outs])
    ns = [o for o in outs if o > 1]
    r = rs(spec['seed'])
    n = spec['n']
    s = np.array([[r.randint(o) for o in ns] for _ in range(n)],
                 dtype=spec['intype'])
    if spec['extreme']:
        s[0] = [o - 1 for o in ns]
    if spec['dt'] and spec.get('limit') is not None:
        # largest sample close to the largest value of the integer type
        lim = int(np.iinfo(getattr(np, spec['dt'])).max) + spec['limit']
        tot = 1
        for o in ns:
            tot *= o
        if lim < tot:
            ctx.label('limit')
            s[:, 0] = 0
            for j in range(len(ns))[::-1]:
                s[-1, j] = lim % ns[j]
                lim //= ns[j]
    ctx.nt(len(ns) > 1)
    flat = [0] * n
    for i in range(n):
        for j, o in enumerate(ns):
            flat[i] = flat[i] * o + int(s[i, j])
    dt = getattr(np, spec['dt']) if spec['dt'] else None
    fits = dt is None or max(flat) <= np.iinfo(dt).max
    orig = s.copy()
    try:
        got = povm.pack_samples(s, dtype=dt) if dt else povm.pack_samples(s)
    except AssertionError:
        ensure(not fits, 'samples up to %d do not fit into %r', max(flat), dt)
        ctx.label('refused')
        return
    ensure(fits, 'sample %d was put into %r', max(flat), dt)
    ensure([int(x) for x in got] == flat, 'packed samples')
    if dt:
        same(got.dtype, np.dtype(dt), 'dtype')
    back = povm.unpack_samples(got)
    same(back.dtype, np.dtype(np.uint8), 'dtype of unpacked samples')
    ensure(np.array_equal(back, orig), 'unpacked samples')
    if np.prod(ns) < 3 * 10**6:
        ctx.label('count')
        cnt = np.zeros(int(np.prod(ns)), int)
        for x in flat:
            cnt[x] += 1
        for sam in (s, got):
            ensure(np.array_equal(povm.est_pmf(sam, normalize=False),
                                  cnt.reshape(ns)), 'counts')
            close(povm.est_pmf(sam), cnt.reshape(ns) / n, 1, 1e-14, 'est_pmf')
        if spec['list']:
            lst = mpp.MPPovmList([povm, povm])
            s2 = s[::-1][:max(1, n // 2)]
            pk = list(lst.pack_samples([s, s2]))
            ensure([int(x) for x in pk[0]] == flat, 'list: packed samples')
            up = list(lst.unpack_samples(pk))
            ensure(np.array_equal(up[0], s) and np.array_equal(up[1], s2),
                   'list: unpacked samples')
            e = list(lst.est_pmf([s, s2]))
            same(len(e), 2, 'list: number of estimates')
            close(e[0], cnt.reshape(ns) / n, 1, 1e-14, 'list: est_pmf')
            close(e[1], povm.est_pmf(s2), 1, 1e-14, 'list: est_pmf')
            e = list(lst.est_pmf([s, s2], normalized=False))
            ensure(np.array_equal(e[0], cnt.reshape(ns)), 'list: counts')


# ---------------------------------------------------------------- lists

def gen_list(src):
    dims = g_dims(src, 1, 4)
    if all(d == 1 for d in dims):
        dims[0] = 2
    return {'povms': [usable(src, dims, 40) for _ in range(src.int(1, 3))],
            'state': g_state(src, dims), 'seed': src.seed(),
            'method': src.pick(['cond', 'direct']), 'group': src.int(1, 3),
            'pack': src.bool(.3)}


def run_list(spec, ctx):
    built = [build_povm(p) for p in spec['povms']]
    state, rho = build_state(spec['state'])
    mode = spec['state']['mode']
    lst = mpp.MPPovmList([b[0] for b in built])
    n = 100 if spec['method'] == 'cond' else 1500
    got = list(lst.sample(rs(spec['seed']), state, n, spec['method'],
                          n_group=spec['group'], mode=mode))
    same(len(got), len(built), 'number of results')
    ctx.nt(len(built) > 1)
    for g, b in zip(got, built):
        check_samples(g, probabilities(b[1], rho), n, 'list: ')
    if spec['pack']:
        pk = list(lst.sample(rs(spec['seed']), state, n, spec['method'],
                             n_group=spec['group'], mode=mode, pack=True))
        for g, p, b in zip(got, pk, built):
            ensure(np.array_equal(b[0].unpack_samples(p), g),
                   'list: packed samples')


# ---------------------------------------------------------------- long chains

def gen_long(src):
    return {'n': src.int(12, 30), 'group': src.int(1, 3), 'seed': src.seed(),
            'kind': src.pick(['product', 'ghzz', 'ghzx', 'zero']),
            'mode': src.pick(['mps', 'pmps', 'mpdo']),
            'skip': src.pick([0, 0, 2, 3])}


def run_long(spec, ctx):
    """Conditional sampling far beyond the reach of dense distributions"""
    n, r = spec['n'], rs(spec['seed'])
    kind = spec['kind']
    ctx.nt(True)
    ctx.label(kind)
    X, _ = np.array([[[.5, .5], [.5, .5]], [[.5, -.5], [-.5, .5]]]), 0
    Z = np.array([[[1, 0], [0, 0]], [[0, 0], [0, 1.]]])
    measured = [i for i in range(n)
                if not spec['skip'] or i % spec['skip'] == 0 or i == n - 1]
    el = X if kind == 'ghzx' else Z
    if kind == 'ghzx':
        measured = list(range(n))
    povm = mpp.MPPovm([el[None, ..., None] if i in measured
                       else np.eye(2)[None, None, :, :, None]
                       for i in range(n)])
    if kind in ('product', 'zero'):
        q = r.rand(n) if kind == 'product' else np.zeros(n)
        lts = [np.array([np.sqrt(1 - x), np.sqrt(x)])[None, :, None]
               for x in q]
    else:
        lts = []
        for i in range(n):
            a = np.zeros((2, 2, 2))
            a[0, 0, 0] = a[1, 1, 1] = 1
            if i == 0:
                a = a.sum(0)[None] / np.sqrt(2)
            if i == n - 1:
                a = a.sum(-1)[..., None]
            lts.append(a)
    if spec['mode'] == 'pmps':
        lts = [a[:, :, None, :] for a in lts]
    elif spec['mode'] == 'mpdo':
        lts = [np.einsum('aib,cjd->acijbd', a, a).reshape(
            (a.shape[0]**2, 2, 2, a.shape[-1]**2)) for a in lts]
    N = 60
    s = povm.sample(rs(spec['seed'] + 1), mp.MPArray(lts), N,
                    n_group=spec['group'], mode=spec['mode'])
    same(s.shape, (N, len(measured)), 'shape')
    ensure((s < 2).all(), 'outcome')
    if kind == 'zero':
        ensure((s == 0).all(), 'outcome of probability zero')
    elif kind == 'product':
        for k, i in enumerate(measured):
            bernstein(np.array([s[:, k].sum()]), N, q[i:i + 1], 'site %d' % i)
        tot = q[measured].sum() * N
        dev = abs(float(s.astype(int).sum()) - tot)
        var = N * (q * (1 - q))[measured].sum()
        ensure(dev <= np.sqrt(2 * var * LOG) + LOG, 'sum of all outcomes')
    elif kind == 'ghzz':
        ensure((s == s[:, :1]).all(), 'GHZ state: different outcomes in the '
               'computational basis')
        bernstein(np.array([s[:, 0].sum()]), N, np.array([.5]), 'first site')
    else:
        ensure((s.sum(1) % 2 == 0).all(), 'GHZ state: wrong parity')
        # all outcomes but the last are independent fair coins
        c = s[:, :-1].astype(int).sum()
        m = N * (n - 1)
        bernstein(np.array([c]), m, np.array([.5]), 'fair coins')


SUBS = [Sub('sample', gen, run, 400),
        Sub('statistics', gen_stat, run_stat, 48),
        Sub('pack', gen_pack, run_pack, 1500),
        Sub('list', gen_list, run_list, 120),
        Sub('long', gen_long, run_long, 60)]
