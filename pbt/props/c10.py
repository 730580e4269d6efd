# encoding: utf-8
"""C10: no operation modifies anything but its documented target"""
from __future__ import division

import numpy as np

import os
import tempfile

import mpnum as mp
import mpnum.linalg as mpl
import mpnum.mpsmpo as mpsmpo
import mpnum.povm as mpp
from mpnum import factory, special, utils
from mpnum.utils import extmath, physics, pmf as upmf

from ..engine import Sub, Violation
from ..gen import (build_mpa, g_mpa, g_nsites, g_scalar, layout, rand_array, rs,
                   scalar)
from ..oracle import (check_struct, close, dense, ensure, fscale, same,
                      snapshot, unchanged, unchanged_tensor)
from ..povmgen import (build_povm, build_state, g_dims, g_state, outdims_of)
from .c21 import usable

RULE = """Random histories of 2-14 operations over a pool of MPArrays and user
arrays which are related to each other (results of copies, transposes,
reshapes, sums, splits, ... of each other and therefore possibly sharing
memory).  Pure operations must leave every object of the pool bit-wise as it
was; in-place operations (item update, *=, /=, canonicalize, compress, norm,
singular values) may change the target only; arrays handed in by the user and
arrays handed out stay independent; handed out local tensors are read-only; a
copy shares no memory.  Second sub-check: calls of the functions of linalg,
special, mpsmpo, povm, factory and utils with MPArrays, POVMs, arrays, lists and
dictionaries; nothing handed in changes (a state in purified form may be
re-gauged), not even when the results are modified in place afterwards, and the
same call gives the same result again.  Non-trivial: at least one in-place
operation while the pool holds an object derived from its target or the target's
origin; all function calls with at least one MPArray or array of two entries."""

PURE = (('copy', 3), ('T', 1), ('conj', 1), ('adj', 1), ('transpose', 1),
        ('add', 2), ('sub', 1), ('mul', 2), ('rmul', 1), ('neg', 1), ('div', 1),
        ('ravel', 1), ('reshape', 1), ('reverse', 1), ('group', 1),
        ('splitsites', .7), ('vleg', 1), ('split', 1.2), ('pad', 1), ('sum', 1),
        ('get', 1), ('axisiter', 1), ('toarray', 1.5), ('compression', 1),
        ('compressionvar', 1), ('dot', 1), ('sumup', 1), ('sumupw', 1),
        ('partialdot', 1), ('inner', 1), ('sandwich', 1), ('chain', 1.5),
        ('diag', 1), ('inject', 1.5), ('outer', 1), ('normdist', 1),
        ('prune', 1), ('ptrace', 1), ('trace', 1), ('embed', 1),
        ('localsum', 1), ('construct', 1.5), ('fromarray', 1.5),
        ('fromkron', 1), ('props', 1))
INPLACE = (('imul', 4), ('idiv', 2), ('canon', 3), ('compress', 2),
           ('compressvar', 1.5), ('set', 3), ('setslice', 2), ('norm', 2),
           ('sv', 2), ('writelt', 1.5), ('iadd', 1.5), ('isub', 1))


def gen(src):
    n = g_nsites(src, 1, 4, 6)
    d = src.int(1, 2) if src.bool(.95) or n > 2 else src.int(3, 6)
    a = g_mpa(src, shape=[[d, d]] * n, maxrank=3, scale=False,
              dts=('c16', 'f8', 'i8'),
              kinds=(('gauss', 5), ('int', 1), ('dup', 1)))
    b = g_mpa(src, shape=[[d, d]] * n, maxrank=3, scale=False,
              dts=('c16', 'f8'), kinds=(('gauss', 5), ('int', 1)))
    ops = []
    for _ in range(src.int(2, 14)):
        op = src.weighted(INPLACE) if src.bool(.45) else src.weighted(PURE)
        ops.append([op, src.int(0, 30), src.int(0, 30), src.int(0, 30),
                    src.seed(), g_scalar(src)])
    return {'a': a, 'b': b, 'd': d, 'ops': ops}


class Pool(object):
    def __init__(self):
        self.mpas = []       # [mpa, snapshot]
        self.arrays = []     # [array, copy, what]

    def add(self, mpa, what=None):
        if not isinstance(mpa, mp.MPArray):
            return
        if any(mpa is x[0] for x in self.mpas):
            # the result of a pure operation would change with the operand
            ensure(what is None, '%s: the result is not a new object', what)
            return
        if len(self.mpas) > 16 or mpa.size > 4000 or \
                np.prod([float(np.prod(s)) for s in mpa.shape]) > 5000 or \
                max(tuple(mpa.ranks) + (1,)) > 24:
            return
        self.mpas.append([mpa, None])
        self.snap(len(self.mpas) - 1)

    def add_array(self, arr, what):
        self.arrays.append([arr, np.array(arr), what])

    def snap(self, i):
        m = self.mpas[i][0]
        self.mpas[i][1] = ([np.array(t) for t in m.lt], tuple(m.canonical_form),
                           type(m))

    def verify(self, what, but=None):
        for i, (m, (lts, cf, _)) in enumerate(self.mpas):
            if i == but:
                continue
            now = list(m.lt)
            same(len(now), len(lts), what + ': sites of object %d' % i)
            for k, (x, y) in enumerate(zip(now, lts)):
                ensure(x.shape == y.shape and x.dtype == y.dtype and
                       np.array_equal(x, y),
                       '%s: modified local tensor %d of object %d', what, k, i)
            same(tuple(m.canonical_form), cf,
                 '%s: canonical form of object %d' % (what, i))
        for arr, cp, where in self.arrays:
            ensure(np.array_equal(arr, cp), '%s: modified the array from/to %s',
                   what, where)


def square(m):
    return all(len(s) == 2 and s[0] == s[1] for s in m.shape)


def pure(op, pool, m, o, x, y, z, seed, s, d):
    """Results of the pure operation `op`; None: not applicable"""
    n = len(m)
    alike = len(o) == n and tuple(o.shape) == tuple(m.shape)
    if op == 'copy':
        c = m.copy()
        for t in c.lt:
            for u in m.lt:
                ensure(not np.shares_memory(t, u), 'copy shares memory')
        return [c]
    if op == 'T':
        return [m.T]
    if op == 'conj':
        return [m.conj()]
    if op == 'adj':
        return [m.adj()]
    if op == 'transpose':
        if len(set(m.ndims)) > 1:
            return [m.transpose()]
        return [m.transpose(tuple(range(m.ndims[0]))[::-1])]
    if op == 'add' and alike:
        return [m + o]
    if op == 'sub' and alike:
        return [m - o]
    if op == 'mul':
        return [m * s]
    if op == 'rmul':
        return [s * m]
    if op == 'neg':
        return [-m]
    if op == 'div' and s != 0:
        return [m / s]
    if op == 'ravel':
        return [m.ravel()]
    if op == 'reshape':
        return [m.reshape([(int(np.prod(sh)), 1) for sh in m.shape])]
    if op == 'reverse':
        return [m.reverse()]
    if op == 'group':
        ks = [k for k in range(2, n + 1) if n % k == 0]
        return [m.group_sites(ks[x % len(ks)])] if ks else None
    if op == 'splitsites' and all(k == 2 for k in m.ndims):
        return [m.split_sites(2)]
    if op == 'vleg' and n > 1:
        t = m.vleg2leg(x % (n - 1))
        return [t, t.leg2vleg(x % (n - 1))]
    if op == 'split' and n > 1:
        return list(m.split(x % (n - 1)))
    if op == 'pad' and n > 1:
        return [m.pad_ranks(rank=1 + x % 5, force_rank=bool(y % 2))]
    if op == 'sum':
        return [m.sum()] if x % 2 else [m.sum([()] * n)]
    if op == 'get' and all(k > 0 for k in m.ndims):
        return [m.get([x % sh[0] for sh in m.shape])]
    if op == 'axisiter' and all(k > 0 for k in m.ndims):
        if np.prod([sh[0] for sh in m.shape]) > 16:
            return None
        return list(m.axis_iter())[:3]
    if op == 'toarray':
        arr = m.to_array()
        try:
            arr[...] = 17        # either refused or without consequences
        except ValueError:
            pass
        arr = m.to_array_global() if len(set(m.ndims)) == 1 else arr
        return []
    if op == 'compression':
        return [m.compression(rank=1 + x % 3,
                              direction=[None, 'left', 'right'][y % 3])[0]]
    if op == 'compressionvar':
        if n < 2 or np.linalg.norm(dense(list(m.lt))) == 0:
            return None
        kw = dict(startmpa=o) if alike and x % 2 else dict(
            rank=1 + y % 3, randstate=rs(seed))
        return [m.compression('var', num_sweeps=1, var_sites=1 + z % 2, **kw)[0]]
    if op == 'dot' and len(o) == n and all(
            len(p) and len(q) and p[-1] == q[0] for p, q in zip(m.shape, o.shape)):
        return [mp.dot(m, o)]
    if op == 'sumup' and alike:
        return [mp.sumup([m, o, m])]
    if op == 'sumupw' and alike:
        return [mp.sumup([m, o], weights=[2., -1.5])]
    if op == 'partialdot' and len(o) <= n and all(
            len(p) and len(q) and p[-1] == q[0] for p, q in zip(m.shape, o.shape)):
        return [mp.partialdot(m, o, 0)]
    if op == 'inner' and alike:
        mp.inner(m, o)
        return []
    if op == 'sandwich' and square(m):
        v = o if len(o) == n and all(
            len(q) == 1 and q[0] == p[0] for p, q in zip(m.shape, o.shape)) \
            else m.get([0] * n)
        mp.sandwich(m, v)
        return []
    if op == 'chain' and n + len(o) <= 6:
        return [mp.chain([m, o])]
    if op == 'diag' and square(m):
        return list(mp.diag(m))[:2]
    if op == 'inject' and n <= 4 and all(len(sh) for sh in m.shape):
        ten = rand_array(rs(seed), (2,), 'gauss', 'f8')
        pool.add_array(ten, 'inject')
        return [mp.inject(m, x % (n + 1), 1, ten)]
    if op == 'outer' and len(o) == n:
        return [mp.localouter(m, o)]
    if op == 'normdist' and alike:
        mp.normdist(m, o)
        return []
    if op == 'prune':
        return [mp.prune(m, singletons=bool(x % 2))]
    if op == 'ptrace' and square(m):
        axes = [(0, 1) if (x >> i) % 2 else None for i in range(n)]
        return [mp.partialtrace(m, axes)]
    if op == 'trace' and square(m):
        mp.trace(m)
        return []
    if op == 'embed' and square(m) and n <= 4:
        return [mp.embed_slice(n + 1, slice(0, n), m)]
    if op == 'localsum' and alike and square(m) and n <= 3:
        return [mp.local_sum([m, o])]
    if op == 'construct':
        lts = [np.array(t) for t in m.lt]
        lts = [layout(t, ['C', 'F', 'strided', 'neg'][(seed >> i) % 4], None)
               for i, t in enumerate(lts)]
        for t in lts:
            pool.add_array(t, 'MPArray()')
        return [mp.MPArray(lts)]
    if op == 'fromarray':
        arr = rand_array(rs(seed), [2, 2] * (1 + x % 3), 'gauss',
                         'c16' if y % 2 else 'f8')
        pool.add_array(arr, 'from_array')
        return [mp.MPArray.from_array(arr, 2)]
    if op == 'fromkron':
        fs = [rand_array(rs(seed + i), [d, d], 'gauss', 'f8') for i in range(n)]
        for f in fs:
            pool.add_array(f, 'from_kron')
        return [mp.MPArray.from_kron(fs)]
    if op == 'props':
        m.size, m.dtype, m.ranks, m.shape, m.ndims, m.canonical_form, len(m)
        return []
    return None


def run(spec, ctx):
    pool = Pool()
    related = {}
    for key in ('a', 'b'):
        m, _ = build_mpa(spec[key])
        pool.add(m)
    nontrivial = False
    derived = 0
    for num, (op, x, y, z, seed, sca) in enumerate(spec['ops']):
        i = x % len(pool.mpas)
        m = pool.mpas[i][0]
        # often the most recent one
        if z % 3 == 0:
            i = len(pool.mpas) - 1
            m = pool.mpas[i][0]
        # second operand: preferably of the same shape
        cands = [q[0] for q in pool.mpas if tuple(q[0].shape) == tuple(m.shape)]
        o = cands[y % len(cands)] if seed % 4 else \
            pool.mpas[y % len(pool.mpas)][0]
        n = len(m)
        s = scalar(sca)
        if s == 0 or not 1e-3 < abs(s) < 1e3:
            s = [1, 1., 2][seed % 3]
        what = 'step %d (%s on %d)' % (num, op, i)
        if op not in dict(INPLACE):
            res = pure(op, pool, m, o, x // 3, y, z, seed, s, spec['d'])
            pool.verify(what)
            if res:
                for r in res:
                    if isinstance(r, mp.MPArray):
                        check_struct(r, what + ' result: ')
                        before = len(pool.mpas)
                        pool.add(r, what)
                        derived += len(pool.mpas) > before
                ctx.label(op)
            continue
        old = dense(list(m.lt))
        sc = max(fscale(list(m.lt)), float(np.linalg.norm(old.ravel())))
        expected = old
        if op == 'imul':
            m2 = m
            m2 *= s
            ensure(m2 is m, 'in-place multiplication makes a new object')
            expected = old * s
        elif op == 'idiv':
            m2 = m
            m2 /= s
            ensure(m2 is m, 'in-place division makes a new object')
            expected = old / s
        elif op in ('iadd', 'isub'):
            # no in-place addition: must make a new object
            if tuple(o.shape) != tuple(m.shape):
                continue
            m2 = m
            if op == 'iadd':
                m2 += o
            else:
                m2 -= o
            if m2 is not m:
                pool.verify(what)
                pool.add(m2, what)
                continue
            o_old = dense(list(o.lt)) if o is not m else old
            expected = old + o_old if op == 'iadd' else old - o_old
        elif op == 'canon':
            lo = y % n
            m.canonicalize(left=lo, right=lo + 1 + seed % (n - lo))
        elif op == 'compress':
            if n > 1:
                m.compress(rank=1 + y % 3)
            expected = None
        elif op == 'compressvar':
            if n < 2 or np.linalg.norm(old.ravel()) == 0:
                continue
            kw = dict(startmpa=o) if o is not m and tuple(o.shape) == \
                tuple(m.shape) else dict(rank=1 + y % 3, randstate=rs(seed))
            m.compress('var', num_sweeps=1, var_sites=1, **kw)
            expected = None
        elif op == 'set':
            pos = y % n
            new = rand_array(rs(seed), m.lt[pos].shape, 'gauss', 'f8')
            pool.add_array(new, 'item assignment')
            m.lt[pos] = new
            expected = None
        elif op == 'setslice':
            lo = y % n
            hi = lo + 1 + seed % (n - lo)
            news = [rand_array(rs(seed + k), t.shape, 'gauss', 'c16')
                    for k, t in enumerate(m.lt[lo:hi])]
            for t in news:
                pool.add_array(t, 'slice assignment')
            m.lt[lo:hi] = news
            expected = None
        elif op == 'norm':
            mp.norm(m)
        elif op == 'sv':
            list(m.singularvals())
        elif op == 'writelt':
            got = [m.lt[y % n], list(m.lt)[y % n], list(m.lt[y % n:])[0]]
            for t in got:
                try:
                    t[...] = 3
                except ValueError:
                    continue
                raise Violation(what + ': local tensors can be written to')
            pool.verify(what)
            continue
        pool.verify(what, but=i)
        nontrivial = nontrivial or derived > 0
        ctx.label(op)
        check_struct(m, what + ': ')
        if expected is not None:
            close(dense(list(m.lt)), expected, max(sc, 1e-30) * max(abs(s), 1, 1 / abs(s)),
                  1e-9, what + ': target')
        pool.snap(i)
    ctx.nt(nontrivial)


# ------------------------------------------------------- functions, not methods

FUNCS = ('eig', 'eig_sum', 'special.sumup', 'inner_prod_mps', 'mps_to_mpo',
         'mps_to_pmps', 'pmps_to_mpo', 'pmps_to_mps', 'pmps_dm_to_array',
         'reductions_mpo', 'reductions_pmps', 'reductions_mps', 'reductions',
         'pmps_reduction', 'pmf', 'pmf_as_array', 'expectations', 'embed',
         'block', 'repeat', 'elements', 'probability_map', 'sample', 'pack',
         'est_pmf', 'lfun', 'est_lfun', 'match_elems', 'est_pmf_from',
         'mpplist', 'project_pmf', 'project_nonneg', 'truncated_svd',
         'randomized_svd', 'block_diag', 'partial_trace', 'transforms',
         'matdot', 'local_sum', 'mpo_cH', 'concat', 'diagonal_mpa',
         'from_array', 'dump', 'sumup', 'chain', 'compress_var', 'partialdot',
         'inject', 'localpovm', 'group_split', 'louter')


def gen_funcs(src):
    dims = g_dims(src, 1, 4, cap=16)
    if all(d == 1 for d in dims):
        dims[0] = 2
    return {'op': src.pick(list(FUNCS)), 'dims': dims,
            'state': g_state(src, dims), 'state2': g_state(src, dims, ['mps']),
            'povm': usable(src, dims, 60), 'seed': src.seed(),
            'k': src.int(0, 5), 'l': src.int(0, 5), 'flag': src.bool(.5)}


def freeze(obj):
    """Copy of the value of an argument"""
    if isinstance(obj, mp.MPArray):
        return ('mpa', snapshot(obj))
    if isinstance(obj, np.ndarray):
        return ('array', obj.copy(), obj.flags.writeable)
    if isinstance(obj, (list, tuple)):
        return ('seq', type(obj), [freeze(x) for x in obj])
    if isinstance(obj, dict):
        return ('dict', dict((k, freeze(v)) for k, v in obj.items()))
    if isinstance(obj, mpp.MPPovmList):
        return ('mpplist', [freeze(x) for x in obj.mpps])
    return ('other', obj)


def compare(obj, val, what, gauge=False):
    if val[0] == 'mpa':
        if gauge:
            unchanged_tensor(obj, val[1], what + ': ')
        else:
            unchanged(obj, val[1], what + ': ')
    elif val[0] == 'array':
        ensure(obj.shape == val[1].shape and obj.dtype == val[1].dtype and
               np.array_equal(obj, val[1]), '%s: array was modified', what)
        same(obj.flags.writeable, val[2], what + ': writeable flag')
    elif val[0] == 'seq':
        same(len(obj), len(val[2]), what + ': number of items')
        for i, (x, y) in enumerate(zip(obj, val[2])):
            compare(x, y, '%s, item %d' % (what, i), gauge)
    elif val[0] == 'dict':
        same(sorted(map(str, obj)), sorted(map(str, val[1])), what + ': keys')
        for k in val[1]:
            compare(obj[k], val[1][k], '%s[%r]' % (what, k), gauge)
    elif val[0] == 'mpplist':
        same(len(obj.mpps), len(val[1]), what + ': number of POVMs')
        for i, (x, y) in enumerate(zip(obj.mpps, val[1])):
            compare(x, y, '%s, POVM %d' % (what, i), gauge)


def mpas_in(obj, out=None):
    out = [] if out is None else out
    if isinstance(obj, mp.MPArray):
        out.append(obj)
    elif isinstance(obj, (list, tuple)):
        for x in obj:
            mpas_in(x, out)
    elif isinstance(obj, mpp.MPPovmList):
        mpas_in(list(obj.mpps), out)
    return out


def solver(op, *args, **kwargs):
    k = op.shape[0]
    m = np.asarray(op.dot(np.eye(k)) if hasattr(op, 'dot') else op)
    val, vec = np.linalg.eigh((m + m.conj().T) / 2)
    return val[:1], vec[:, :1]


def equal(a, b, what):
    """Results of two identical calls"""
    if isinstance(a, mp.MPArray):
        same(tuple(a.shape), tuple(b.shape), what + ': shape')
        if np.prod([float(d) for sh in a.shape for d in sh]) > 1e5:
            return
        x, y = dense(list(a.lt)), dense(list(b.lt))
        close(x, y, max(1., np.abs(y).max()) * 1e3, 1e-9, what)
    elif isinstance(a, (list, tuple)):
        same(len(a), len(b), what)
        for x, y in zip(a, b):
            equal(x, y, what)
    elif isinstance(a, mpp.MPPovmList):
        equal(list(a.mpps), list(b.mpps), what)
    elif isinstance(a, np.ndarray) or np.isscalar(a):
        a, b = np.asarray(a), np.asarray(b)
        same(a.dtype, b.dtype, what + ': dtype')
        if a.dtype.kind in 'fc':
            fin = np.isfinite(b)
            ensure(np.array_equal(fin, np.isfinite(a)), what)
            close(np.where(fin, a, 0), np.where(fin, b, 0),
                  max(1., np.abs(np.where(fin, b, 0)).max()
                      if b.size else 1.) * 1e3, 1e-9, what)
        else:
            ensure(np.array_equal(a, b), what)


def case(spec):
    """(arguments, function without arguments, gauge of arguments is free)"""
    op, dims = spec['op'], spec['dims']
    n = len(dims)
    seed = spec['seed']
    r = rs(seed)
    state, rho = build_state(spec['state'])
    psi, _ = build_state(spec['state2'])
    povm, _ = build_povm(spec['povm'])
    mode = spec['state']['mode']
    k, l, flag = spec['k'], spec['l'], spec['flag']

    def oper(nn=None, d=None):
        ds = [d] * nn if nn else dims
        lts, D = [], 1
        for i, dd in enumerate(ds):
            e = 1 if i == len(ds) - 1 else 2
            x = r.randn(D, dd, dd, e)
            lts.append(x + x.transpose((0, 2, 1, 3)))
            D = e
        return mp.MPArray(lts)

    def prod(num):
        return [mp.MPArray.from_kron([r.randn(d) for d in dims])
                for _ in range(num)]

    def pure(kind='pmps'):
        return build_state(dict(spec['state'], mode=kind))[0]

    if op == 'eig':
        if n < 2:
            return None
        H = oper()
        start = build_state(dict(spec['state2'], kind='random', seed=seed,
                                 ranks=[2] * (n - 1)))[0]
        if min(start.ranks) < 2 or min(dims) < 2:
            return None
        kw = dict(num_sweeps=1, var_sites=1 + l % 2 if n > 2 else 1,
                  startvec=start, eigs=solver)
        if flag:
            kw.pop('startvec')
            kw.update(startvec_rank=2, randstate=None)

            def fun():
                kw['randstate'] = rs(seed)
                return mpl.eig(H, **kw)
            return [H], fun, False
        return [H, start], lambda: mpl.eig(H, **kw), False
    if op == 'eig_sum':
        if n < 2:
            return None
        parts = [oper(), psi, oper()][:1 + k % 3]
        start = build_state(dict(spec['state2'], kind='random', seed=seed,
                                 ranks=[2] * (n - 1)))[0]
        if min(start.ranks) < 2 or min(dims) < 2:
            return None
        return [parts, start], lambda: mpl.eig_sum(
            parts, num_sweeps=1, var_sites=1, startvec=start,
            eigs=solver), False
    if op == 'special.sumup':
        ms = prod(1 + k)
        w = list(r.randn(len(ms))) if flag else None
        return [ms, w], lambda: special.sumup(ms, 1 + l, w), False
    if op == 'inner_prod_mps':
        a = prod(1)[0]
        return [a, psi], lambda: special.inner_prod_mps(a, psi), False
    if op in ('mps_to_mpo', 'mps_to_pmps'):
        f = getattr(mpsmpo, op)
        return [psi], lambda: f(psi), False
    if op in ('pmps_to_mpo', 'pmps_dm_to_array'):
        f = getattr(mpsmpo, op)
        p = pure()
        return [p], lambda: f(p), False
    if op == 'pmps_to_mps':
        p = mpsmpo.mps_to_pmps(psi)
        return [p], lambda: mpsmpo.pmps_to_mps(p), False
    if op in ('reductions_mpo', 'reductions_pmps', 'reductions_mps',
              'reductions'):
        w = 1 + k % n
        starts = [r.randint(n - w + 1) for _ in range(3)]
        kw = dict(width=w) if flag else dict(
            startsites=starts, stopsites=[s + w for s in starts])
        if op == 'reductions':
            return [state, kw], lambda: list(
                mpsmpo.reductions(state, mode, **kw)[0]), mode == 'pmps'
        if op == 'reductions_mps':
            f = [mpsmpo.reductions_mps_as_mpo,
                 mpsmpo.reductions_mps_as_pmps][l % 2]
            return [psi, kw], lambda: list(f(psi, **kw)), False
        p = pure('pmps' if op == 'reductions_pmps' else 'mpdo')
        f = getattr(mpsmpo, op)
        return [p, kw], lambda: list(f(p, **kw)), op == 'reductions_pmps'
    if op == 'pmps_reduction':
        p = pure()
        sup = sorted(set(r.randint(n) for _ in range(1 + k)))
        return [p, sup], lambda: mpsmpo.pmps_reduction(p, sup), True
    if op in ('pmf', 'pmf_as_array', 'expectations'):
        f = getattr(povm, op)
        if op == 'expectations':
            return [povm, state], lambda: list(f(state, mode)), mode == 'pmps'
        return [povm, state], lambda: f(state, mode), mode == 'pmps'
    if op == 'embed':
        if len(set(dims)) > 1:
            dd = [2] * (n + k % 3 + 2)
            dd[1:1 + n] = dims
            return [povm, dd], lambda: povm.embed(len(dd), 1, dd), False
        return [povm], lambda: povm.embed(n + 2, 1, dims[0]), False
    if op in ('block', 'repeat'):
        loc = mpp.MPPovm.from_local_povm(mpp.pauli_povm(2), 1 + k % 2)
        f = getattr(loc, op)
        return [loc], lambda: (list(f(len(loc) + l % 3).mpps) if op == 'block'
                               else f(len(loc) + l % 3)), False
    if op == 'elements':
        return [povm], lambda: list(povm.elements), False
    if op == 'probability_map':
        return [povm], lambda: povm.probability_map, False
    if op == 'sample':
        meth = ['cond', 'direct'][k % 2]
        return [povm, state], lambda: povm.sample(
            rs(seed), state, 20, meth, 1 + l % 3, mode, flag), mode == 'pmps'
    ns = povm.nsoutdims
    raw = np.array([[r.randint(d) for d in ns] for _ in range(30)], np.uint8)
    if op == 'pack':
        return [povm, raw], lambda: [povm.pack_samples(raw),
                                     povm.unpack_samples(
                                         povm.pack_samples(raw))], False
    if op == 'est_pmf':
        s = povm.pack_samples(raw) if flag else raw
        return [povm, s], lambda: povm.est_pmf(s), False
    if op in ('lfun', 'est_lfun'):
        coeff = r.randn(int(np.prod(ns)))
        if op == 'lfun':
            return [povm, coeff, state], lambda: povm.lfun(
                coeff, None, state, mode), mode == 'pmps'
        w = 1. + r.rand(len(raw)) if flag else None
        return [povm, coeff, raw, w], lambda: povm.est_lfun(
            coeff, None, raw, w), False
    if op == 'match_elems':
        other = build_povm(spec['povm'])[0]
        return [povm, other], lambda: povm.match_elems(other), False
    if op == 'est_pmf_from':
        other = mpp.MPPovm.from_local_povm(mpp.z_povm(dims[0]), 1)
        big = mpp.MPPovm.from_local_povm(mpp.z_povm(dims[0]), 1) \
            if dims[0] > 1 else None
        if big is None or n < 2:
            return None
        allz = mp.chain([mpp.MPPovm.from_local_povm(
            mpp.z_povm(d), 1) for d in dims])
        s = np.array([[r.randint(d) for d in allz.nsoutdims]
                      for _ in range(30)], np.uint8)
        tgt = other.embed(n, 0, dims)
        return [tgt, allz, s], lambda: tgt.est_pmf_from(allz, s), False
    if op == 'mpplist':
        if len(set(dims)) > 1 or dims[0] < 2:
            return None
        lst = mpp.pauli_mpps(min(2, n), dims[0]).repeat(n)
        how = ['pmf', 'pmf_as_array', 'sample', 'block'][k % 4]
        if how == 'block':
            return [lst], lambda: mpas_in(lst.block(n + 1).mpps), False
        if how == 'sample':
            return [lst, state], lambda: [np.asarray(x) for x in lst.sample(
                rs(seed), state, 10, 'cond', 1, mode, flag)], mode == 'pmps'
        return [lst, state], lambda: list(getattr(lst, how)(state, mode)), \
            mode == 'pmps'
    if op == 'project_pmf':
        v = r.rand(3, 1 + k)
        v /= v.sum()
        v = v + 1e-14j * r.randn(*v.shape)  # documented: real is in place
        return [v], lambda: upmf.project_pmf(v), False
    if op == 'project_nonneg':
        v = r.rand(3, 1 + k) - 1e-13
        v[0, 0] = -1e-14
        v = v + 0j
        return [v], lambda: upmf.project_nonneg(v), False
    if op in ('truncated_svd', 'randomized_svd'):
        A = r.randn(3 + k, 4 + l) + (1j if flag else 0)
        if op == 'truncated_svd':
            return [A], lambda: list(utils.truncated_svd(A, 2)), False
        return [A], lambda: list(extmath.randomized_svd(
            A, 2, randstate=rs(seed))), False
    if op == 'block_diag':
        ms = [r.randn(1 + i, 2, 1 + l) for i in range(1 + k)]
        return [ms], lambda: extmath.block_diag(ms, (0, 2)), False
    if op == 'partial_trace':
        A = r.randn(2, 2, 3, 3, 2, 2)
        which = sorted(set(r.randint(3) for _ in range(2)))
        return [A, which], lambda: extmath.partial_trace(A, which), False
    if op == 'transforms':
        A = r.randn(2, 3, 2, 3)
        return [A], lambda: [np.array(utils.global_to_local(A, 2)),
                             np.array(utils.local_to_global(A, 2))], False
    if op == 'matdot':
        A, B = r.randn(2, 3), r.randn(3, 4)
        return [A, B], lambda: [utils.matdot(A, B), utils.mkron(A, B)], False
    if op == 'local_sum':
        m = 1 + k % 2
        ts = [oper(m, 2) for _ in range(2 + l % 3)]
        return [ts], lambda: mp.local_sum(ts), False
    if op == 'mpo_cH':
        ts = list(physics.cXY_local_terms(2 + k, .3))
        return [ts], lambda: physics.mpo_cH(ts), False
    if op == 'concat':
        ps = [mpp.x_povm(2), mpp.z_povm(2)]
        w = [.3, .7]
        els = [list(q) for q in ps]
        return [els, w], lambda: np.array(list(mpp.localpovm.concat(ps, w))), False
    if op == 'diagonal_mpa':
        v = r.randn(1 + k)
        return [v], lambda: factory.diagonal_mpa(v, 1 + l % 4), False
    if op == 'from_array':
        A = r.randn(*[2] * (2 * n))
        nd = [2] * n
        return [A, nd], lambda: mp.MPArray.from_array(A, nd), False
    if op == 'dump':
        def store():
            d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
            name = os.path.join(d, 'x.h5')
            try:
                state.dump(name)
                return mp.MPArray.load(name)
            finally:
                if os.path.exists(name):
                    os.remove(name)
                os.rmdir(d)
        return [state], store, False
    if op == 'sumup':
        ms = [psi] + prod(k)
        w = list(r.randn(len(ms))) if flag else None
        return [ms, w], lambda: mp.sumup(ms, w), False
    if op == 'chain':
        ms = [state, psi, state]
        return [ms], lambda: mp.chain(ms), False
    if op == 'compress_var':
        start = prod(1)[0]
        return [psi, start], lambda: psi.compression(
            'var', num_sweeps=1, startmpa=start)[0], False
    if op == 'partialdot':
        H = oper()
        return [H, psi], lambda: [mp.partialdot(H, psi, 0), mp.dot(H, psi),
                                  mp.sandwich(H, psi)], False
    if op == 'inject':
        tens = [r.randn(2), r.randn(3)]
        pos = [0, n]
        num = [1, 2]
        return [psi, pos, num, tens], lambda: mp.inject(psi, pos, num, tens), \
            False
    if op == 'localpovm':
        els = [np.array([[1., 0], [0, 0]]), np.array([[0., 0], [0, 1]])]
        return [els], lambda: [np.asarray(mpp.POVM(els).probability_map),
                               np.asarray(
                                   mpp.POVM(els).linear_inversion_map)], False
    if op == 'group_split':
        return [state], lambda: [state.group_sites(n) if n > 1 else state * 2,
                                 state.ravel(), state.T], False
    if op == 'louter':
        ms = [psi, psi, prod(1)[0]]
        return [ms], lambda: [mp.localouter(psi, state), mp.outer(ms)
                              if hasattr(mp, 'outer') else psi * 1], False
    raise ValueError(op)


def run_funcs(spec, ctx):
    ctx.label(spec['op'])
    c = case(spec)
    if c is None:
        return
    args, fun, gauge = c
    ctx.nt(True)
    vals = [freeze(a) for a in args]
    first = fun()
    for i, (a, v) in enumerate(zip(args, vals)):
        compare(a, v, '%s: argument %d' % (spec['op'], i), gauge)
    second = fun()
    def val(x):
        if spec['op'].startswith('eig'):
            return x[0]                 # the vector has a phase
        if gauge and spec['op'].startswith(('red', 'pmps_red')):
            return [mpsmpo.pmps_to_mpo(m) for m in mpas_in(x)]
        return x
    equal(val(second), val(first), spec['op'] + ': result of a second call')
    keep = [freeze(x) for x in (mpas_in(second))]
    vals = [freeze(a) for a in args]
    ids = set(id(x) for x in mpas_in(list(args)))
    for m in mpas_in(first):
        ensure(id(m) not in ids, '%s: returned its argument', spec['op'])
        m *= 1.5
        m.canonicalize(left=len(m) - 1)
        m.lt[0] = np.array(m.lt[0]) + 1
    for i, (a, v) in enumerate(zip(args, vals)):
        compare(a, v, '%s: argument %d after modifying the result'
                % (spec['op'], i))
    for m, v in zip(mpas_in(second), keep):
        compare(m, v, spec['op'] + ': modifying one result changed another')


SUBS = [Sub('pool', gen, run, 5000), Sub('funcs', gen_funcs, run_funcs, 2500)]
