# encoding: utf-8
"""C23: array utilities"""
from __future__ import division

import numpy as np

from mpnum import utils
from mpnum.utils import extmath
from mpnum.utils.pmf import project_nonneg, project_pmf

from ..engine import Sub
from ..gen import layout, rand_array, rs
from ..oracle import close, ensure, same

RULE = """Random arrays (up to 10 legs, dimensions 1-4, real, complex, integer,
different memory layouts): global and local leg order with arbitrary skipped
legs, partial traces of arbitrary site sets, Kronecker products of 1-5 factors,
block-diagonal sums along any set of axes (positive, negative, any order),
default and general matrix products, projections of nearly non-negative arrays
(with violations just inside and outside the tolerance, nan, complex noise).  Oracles: explicit index loops.
Non-trivial: at least two legs, sites, factors or entries."""


def raises(exc, f, what):
    try:
        f()
    except exc:
        return
    ensure(False, '%s was accepted', what)


# ------------------------------------------------------------- leg order

def gen_legs(src):
    sites = src.int(1, 5)
    plegs = src.int(0, 3 if sites < 4 else 2)
    ls, rsk = src.int(0, 2), src.int(0, 2)
    n = sites * plegs + ls + rsk
    return {'sites': sites, 'plegs': plegs, 'ls': ls, 'rs': rsk,
            'shape': [src.weighted([(2, 5), (1, 2), (3, 2)]) if i < 7 else 1
                      for i in range(n)], 'layout': src.pick(['C', 'F', 'strided']),
            'seed': src.seed(), 'dt': src.pick(['f8', 'c16', 'i8']),
            'kw': src.bool(), 'bad': src.bool(.1)}


def run_legs(spec, ctx):
    n, p, l, r = spec['sites'], spec['plegs'], spec['ls'], spec['rs']
    a = layout(rand_array(rs(spec['seed']), spec['shape'], 'gauss', spec['dt']),
               spec['layout'], None)
    orig = a.copy()
    ctx.nt(n > 1 and p > 1)
    args = dict(left_skip=l, right_skip=r)
    if not spec['kw'] and l == 0 and r == 0:
        args = {}
    if spec['bad'] and (p * n + 1) % n and a.ndim:
        b = a[None] if l == 0 else a[..., None]
        for f in (utils.global_to_local, utils.local_to_global):
            raises(AssertionError, lambda: f(b, n, **args), 'wrong ndim')
        ctx.label('refused')
        return
    loc = utils.global_to_local(a, n, **args)
    glo = utils.local_to_global(a, n, **args)
    # leg (site i, number j): global position i + n * j, local j + p * i
    gpos = {(i, j): l + i + n * j for i in range(n) for j in range(p)}
    lpos = {(i, j): l + j + p * i for i in range(n) for j in range(p)}
    exp_shape_l, exp_shape_g = list(a.shape), list(a.shape)
    for key in gpos:
        exp_shape_l[lpos[key]] = a.shape[gpos[key]]
        exp_shape_g[gpos[key]] = a.shape[lpos[key]]
    same(loc.shape, tuple(exp_shape_l), 'shape of global_to_local')
    same(glo.shape, tuple(exp_shape_g), 'shape of local_to_global')
    g = rs(spec['seed'] + 1)
    for _ in range(min(a.size, 20)):
        idx = [g.randint(s) for s in a.shape]
        li, gi = list(idx), list(idx)
        for key in gpos:
            li[lpos[key]] = idx[gpos[key]]
            gi[gpos[key]] = idx[lpos[key]]
        ensure(loc[tuple(li)] == a[tuple(idx)], 'entry of global_to_local')
        ensure(glo[tuple(gi)] == a[tuple(idx)], 'entry of local_to_global')
    ensure(np.array_equal(utils.local_to_global(loc, n, **args), orig),
           'local_to_global does not invert global_to_local')
    ensure(np.array_equal(utils.global_to_local(glo, n, **args), orig),
           'global_to_local does not invert local_to_global')
    ensure(np.array_equal(a, orig), 'argument modified')
    ctx.label('legs%d' % p)


# ------------------------------------------------------------- linear algebra

def gen_alg(src):
    what = src.pick(['ptrace', 'mkron', 'matdot', 'block_diag'])
    spec = {'what': what, 'seed': src.seed(), 'dt': src.pick(['f8', 'c16', 'i8'])}
    if what == 'ptrace':
        n = src.int(1, 5)
        spec['dims'] = [src.weighted([(2, 4), (1, 1), (3, 2)]) if i < 4 else 2
                        for i in range(n)]
        spec['trace'] = src.subset(range(n), .5)
    elif what == 'mkron':
        spec['shapes'] = [[src.int(1, 3), src.int(1, 3)]
                          for _ in range(src.int(1, 5))]
        spec['vec'] = src.bool(.2)
    elif what == 'matdot':
        spec['l'] = [src.int(1, 3) for _ in range(src.int(0, 3))]
        spec['r'] = [src.int(1, 3) for _ in range(src.int(0, 3))]
        spec['c'] = [src.int(1, 3) for _ in range(src.int(1, 3))]
        spec['perm'] = src.perm(len(spec['c']))
        spec['default'] = src.bool()
    else:
        nd = src.int(1, 4)
        axes = src.subset(range(nd), .6) or [0]
        order = src.perm(len(axes))
        spec['axes'] = [axes[i] - (nd if src.bool(.4) else 0) for i in order]
        spec['pos'] = [axes[i] for i in order]
        base = [src.int(1, 3) for _ in range(nd)]
        spec['shapes'] = []
        for _ in range(src.int(1, 4)):
            s = list(base)
            for x in axes:
                s[x] = src.int(1, 3)
            spec['shapes'].append(s)
        spec['dts'] = [src.pick(['f8', 'c16', 'i8', 'f4'])
                       for _ in spec['shapes']]
    return spec


def run_alg(spec, ctx):
    r = rs(spec['seed'])
    what = spec['what']
    ctx.label(what)
    if what == 'ptrace':
        dims, tr = spec['dims'], spec['trace']
        n = len(dims)
        a = rand_array(r, dims * 2, 'gauss', spec['dt'])
        orig = a.copy()
        got = utils.partial_trace(a, tr)
        keep = [i for i in range(n) if i not in tr]
        letters = 'abcdefghijklmn'
        up = letters[:n]
        lo = ''.join(up[i] if i in tr else letters[n + keep.index(i)]
                     for i in range(n))
        exp = np.einsum(up + lo + '->' + ''.join(up[i] for i in keep)
                        + ''.join(lo[i] for i in keep), a)
        close(got, exp, np.abs(a).max() * np.prod(dims) + 1e-300, 1e-13,
              'partial trace')
        ensure(np.array_equal(a, orig), 'argument modified')
        ctx.nt(n > 1 and len(tr) > 0)
    elif what == 'mkron':
        shapes = [s[:1] for s in spec['shapes']] if spec['vec'] \
            else spec['shapes']
        ms = [rand_array(r, s, 'gauss', spec['dt']) for s in shapes]
        got = utils.mkron(*ms)
        exp = ms[0]
        for m in ms[1:]:
            exp = np.multiply.outer(exp, m)
            k = exp.ndim // 2
            exp = exp.transpose([x for i in range(k) for x in (i, k + i)])
            exp = exp.reshape([exp.shape[2 * i] * exp.shape[2 * i + 1]
                               for i in range(k)])
        sc = np.prod([np.abs(m).max() for m in ms]) + 1e-300
        close(got, exp, sc, 1e-13, 'Kronecker product')
        ctx.nt(len(ms) > 1)
    elif what == 'matdot':
        l, rr, c = spec['l'], spec['r'], spec['c']
        if spec['default']:
            c = c[:1]
        A = rand_array(r, l + c, 'gauss', spec['dt'])
        if spec['default']:
            B = rand_array(r, c + rr, 'gauss', 'c16')
            got = extmath.matdot(A, B)
        else:
            p = spec['perm']
            B = rand_array(r, [c[i] for i in p] + rr, 'gauss', 'c16')
            got = extmath.matdot(A, B, axes=(
                [len(l) + i for i in p], list(range(len(c)))))
            inv = [p.index(i) for i in range(len(c))]
            B = B.transpose(inv + list(range(len(c), B.ndim)))
        k = int(np.prod(c))
        exp = A.reshape((-1, k)).dot(B.reshape((k, -1))).reshape(l + rr)
        close(got, exp, np.abs(A).max() * np.abs(B).max() * k + 1e-300, 1e-13,
              'matdot')
        ctx.nt(len(l) + len(rr) > 0)
    else:
        arrs = [rand_array(r, s, 'gauss', d)
                for s, d in zip(spec['shapes'], spec['dts'])]
        origs = [a.copy() for a in arrs]
        got = utils.block_diag(arrs, axes=tuple(spec['axes']))
        pos = spec['pos']
        shape = list(arrs[0].shape)
        for x in pos:
            shape[x] = sum(a.shape[x] for a in arrs)
        exp = np.zeros(shape, complex)
        off = {x: 0 for x in pos}
        for a in arrs:
            sl = [slice(None)] * a.ndim
            for x in pos:
                sl[x] = slice(off[x], off[x] + a.shape[x])
                off[x] += a.shape[x]
            exp[tuple(sl)] = a
        same(got.shape, exp.shape, 'shape of block_diag')
        ensure(np.array_equal(got, exp), 'block_diag: wrong entries')
        ensure(got.dtype == np.result_type(*arrs), 'block_diag: dtype %r',
               got.dtype)
        ensure(all(np.array_equal(a, b) for a, b in zip(arrs, origs)),
               'argument modified')
        ctx.nt(len(arrs) > 1)


# ------------------------------------------------------------- projections

def gen_proj(src):
    spec = {'n': src.int(1, 12), 'nd': src.int(1, 2), 'seed': src.seed(),
            'cplx': src.bool(), 'pmf': src.bool(),
            'ieps': src.pick([None, 1e-10, 1e-6, 1e-3]),
            'reps': src.pick([None, 1e-10, 1e-6, 1e-3]),
            'trunc': src.pick([None, 0.0, 1e-8, 1e-3]),
            'neg': src.weighted([('none', 2), ('in', 3), ('out', 1)]),
            'imag': src.weighted([('none', 2), ('in', 3), ('out', 1)]),
            'sum': src.weighted([('in', 4), ('out', 1), ('one', 2)]),
            'special': src.weighted([(None, 9), ('nan', .5), ('scalar', 1.5)]),
            'k': src.int(0, 11), 'low': src.bool()}
    return spec


def run_proj(spec, ctx):
    r = rs(spec['seed'])
    n = spec['n']
    reps = 1e-10 if spec['reps'] is None else spec['reps']
    ieps = 1e-10 if spec['ieps'] is None else spec['ieps']
    trunc = 0.0 if spec['trunc'] is None else spec['trunc']
    kw = {}
    for name, key in (('imag_eps', 'ieps'), ('real_eps', 'reps'),
                      ('real_trunc', 'trunc')):
        if spec[key] is not None:
            kw[name] = spec[key]
    v = r.rand(n) + .05
    ok = True
    k = spec['k'] % n
    scalar = spec['special'] == 'scalar'
    if scalar:
        v, k, n = v[:1], 0, 1
    pmf = spec['pmf'] and not scalar
    if spec['neg'] != 'none' and n > 1 or (scalar and spec['neg'] != 'none'):
        v[k] = 0
    if pmf:
        if v.sum() == 0:
            v[k] = 1.
        v /= v.sum()
    if spec['low'] and trunc > 0 and n > 2 and not pmf:
        v[(k + 1) % n] = trunc * (.5 if r.rand() < .5 else 1)
    if v[k] == 0 and spec['neg'] != 'none':
        v[k] = -reps * (.4 if spec['neg'] == 'in' else 3)
        ok = ok and spec['neg'] == 'in'
        if pmf and spec['sum'] != 'in':
            # correct the sum (after projection) elsewhere
            pass
    if pmf and spec['sum'] == 'out' and n > 1:
        v[(k + 1) % n] += 20 * reps * (1 if r.rand() < .5 else -1)
        ok = False
    elif pmf and spec['sum'] == 'in' and n > 1:
        d = .3 * reps * (1 if r.rand() < .5 else -1)
        v[(k + 1) % n] += d if v[(k + 1) % n] + d > trunc else abs(d)
    if pmf and trunc > 0:
        # values which are truncated change the sum: keep it unambiguous
        s = np.where(v <= trunc, 0, v).sum()
        if .5 * reps < abs(s - 1) < 2 * reps:
            return
        if abs(s - 1) > reps:
            ok = False
    if spec['special'] == 'nan':
        v[k] = np.nan
        ok = False
    vals = v.copy()
    if spec['cplx']:
        im = np.zeros(n)
        if spec['imag'] == 'in':
            im = ieps * .9 * (2 * r.rand(n) - 1)
        elif spec['imag'] == 'out':
            im[k] = 2 * ieps * (1 if r.rand() < .5 else -1)
            ok = False
        vals = v + 1j * im
    if scalar:
        vals = vals[0]
        if spec['seed'] % 2:
            vals = vals.item()  # a Python number
    elif spec['nd'] == 2:
        vals = vals.reshape((1, -1)) if r.rand() < .5 else vals.reshape((-1, 1))
    f = project_pmf if pmf else project_nonneg
    orig = np.array(vals)
    ctx.nt(n > 1)
    ctx.label('pmf' if pmf else 'nonneg')
    if not ok:
        ctx.label('refused')
        raises(AssertionError, lambda: f(vals, **kw),
               'array violating the tolerance (%r)' % (orig.tolist(),))
        return
    out = f(vals, **kw)
    exp = np.where(v <= trunc, 0., v)
    if pmf:
        exp = exp / exp.sum()
    if scalar:
        close(out, exp[0], 1, 1e-15, 'projected value')
        return
    ensure(isinstance(out, np.ndarray) and out.dtype.kind == 'f', 'type')
    close(out, exp.reshape(vals.shape), 1, 1e-14, 'projected values')
    ensure((out >= 0).all(), 'negative value')
    if pmf:
        close(out.sum(), 1, 1, 1e-13, 'sum')
    if spec['cplx']:
        ensure(np.array_equal(vals, orig), 'complex array was modified')
    else:
        ensure(np.array_equal(vals, out), 'real array not modified in place')


SUBS = [Sub('legs', gen_legs, run_legs, 1500),
        Sub('algebra', gen_alg, run_alg, 3000),
        Sub('projection', gen_proj, run_proj, 3000)]
