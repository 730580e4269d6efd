# encoding: utf-8
"""C08: canonical_form always tells the truth, for every history"""
from __future__ import division

import numpy as np

import mpnum as mp

from ..engine import Sub
from ..gen import (build_mpa, g_mpa, g_nsites, g_scalar, g_shape,
                   own_canonicalize, rand_array, rs, scalar)
from ..oracle import (check_mpa, check_struct, close, dense, ensure, fscale,
                      left_err, local_legs, right_err, same)

RULE = """Random histories of 1-14 operations on one MPArray: canonicalize
(all argument forms), direct local tensor updates (item assignment, update()
with integer, negative and slice positions, with left-/right-normalized tensors
and the matching claim), in-place scaling, compression, singular values, norm,
copies, leg operations, products, chain splits, groupings and all other
operations which derive one MPArray from another.  After every step the represented
tensor is compared with a dense model, every claimed normalization is verified
from the local tensors, and norm() of a copy is compared with the norm of the
model.  Non-trivial: at least two sites and at least two steps, one of which
follows a canonicalization or changes a local tensor."""

OPS = (('canon', 5), ('set', 4), ('setslice', 2.5), ('setnorm', 4), ('imul', 2),
       ('idiv', 1), ('mul', 1), ('compress', 1.2), ('sv', .7), ('norm', 1.5),
       ('copy', .7), ('conj', .7), ('T', .7), ('ravel', .5), ('vleg', 1),
       ('add', .7), ('unit', .7), ('reverse', 1), ('splitkeep', .7),
       ('group', 1.2), ('splitsites', .6), ('reshape', .8), ('pad', .7),
       ('adj', .5), ('transpose', .5), ('prune', .5), ('get', .4), ('sumleg', .4),
       ('chain', .4), ('neg', .3), ('compression', .4), ('var', .4),
       ('dot', .4), ('ptrace', .3), ('rebuild', .4))


def gen_hist(src):
    n = g_nsites(src, 1, 6, 10)
    a = g_mpa(src, nsites=n, legs=(0, 2), cap=300, maxrank=4,
              dts=('c16', 'f8'), scale=False)
    ops = []
    for _ in range(src.int(1, 14)):
        ops.append([src.weighted(OPS), src.int(0, 11), src.int(0, 11),
                    src.int(0, 11), src.seed(), g_scalar(src)])
    return {'a': a, 'ops': ops}


def rand_like(seed, shape, how):
    """Random local tensor, normalized as requested, or None if impossible"""
    shape = tuple(shape)
    a = rand_array(rs(seed), shape, 'gauss', 'c16' if seed % 2 else 'f8')
    if how == 'left':
        if int(np.prod(shape[:-1])) < shape[-1]:
            return None
        q, _ = np.linalg.qr(a.reshape((-1, shape[-1])))
        return q.reshape(shape)
    if how == 'right':
        if int(np.prod(shape[1:])) < shape[0]:
            return None
        q, _ = np.linalg.qr(a.reshape((shape[0], -1)).T)
        return q.T.reshape(shape)
    return a


def run_hist(spec, ctx):
    m, l = build_mpa(spec['a'])
    A = dense(l)
    shape = [list(s) for s in spec['a']['shape']]
    cur = [np.array(t) for t in m.lt]
    check_mpa(m, A, max(fscale(l), fscale(cur)), 1e-9, shape, 'start: ')
    A = dense(cur)
    changed = 0
    for num, (op, x, y, z, seed, sca) in enumerate(spec['ops']):
        n = len(m)
        cur = [np.array(t) for t in m.lt]
        sc = max(fscale(cur), np.linalg.norm(A.ravel()))
        what = 'step %d (%s): ' % (num, op)
        if op == 'canon':
            mode = z % 5
            if mode == 0:
                lo = x % n
                m.canonicalize(left=lo, right=lo + 1 + y % (n - lo))
            elif mode == 1:
                m.canonicalize(left=x % n)
            elif mode == 2:
                m.canonicalize(right=1 + x % n)
            elif mode == 3:
                m.canonicalize(**({'left': 'afull'} if x % 2 else {'right': 'afull'}))
            else:
                m.canonicalize()
            changed += 1
        elif op == 'set':
            pos = x % n
            new = rand_like(seed, cur[pos].shape, None)
            idx = pos - n if y % 3 == 0 else pos
            if z % 2:
                m.lt[idx] = new
            else:
                m.lt.update(idx, new)
            cur[pos] = new
            A = dense(cur)
            changed += 1
        elif op == 'setslice':
            start = x % n
            stop = start + 1 + y % (n - start)
            # inner ranks may change
            new = [rand_like(seed + i, s.shape, None)
                   for i, s in enumerate(cur[start:stop])]
            if z % 2 and len(new) > 1:
                r = 1 + z // 2 % 3
                new[0] = rand_like(seed, new[0].shape[:-1] + (r,), None)
                new[1] = rand_like(seed + 1, (r,) + new[1].shape[1:], None)
            sl = slice(start, stop) if y % 2 else slice(
                start if start else None, stop if stop < n else None)
            if z % 3:
                m.lt[sl] = new
            else:
                m.lt.update(sl, iter(new))
            cur[start:stop] = new
            A = dense(cur)
            changed += 1
        elif op == 'setnorm':
            # replace by a normalized tensor and say so; the outermost sites
            # must not be claimed (documented: not supported)
            how = 'left' if y % 2 else 'right'
            if n == 1:
                continue
            pos = x % (n - 1) if how == 'left' else 1 + x % (n - 1)
            cl, cr = m.canonical_form
            if z % 4 == 1 and (how == 'left' and cl < n - 1 or
                               how == 'right' and cr > 1):
                # an outermost site which is not next to normalized ones
                pos = n - 1 if how == 'left' else 0
            if z % 4 == 2 and n > 2:
                # several sites with one claim for all of them
                p, q = sorted((x % n, y % n))
                p, q = (p, min(q + 1, n - 1)) if how == 'left' else \
                    (max(p, 1), q + 1)
                new = [rand_like(seed + i, cur[i].shape, how)
                       for i in range(p, q)]
                if p >= q or any(t is None for t in new):
                    continue
                m.lt.update(slice(p, q), new, canonicalization=how)
                cur[p:q] = new
            elif z % 4 == 3 and n > 2:
                # a pair of sites with separate claims
                p = x % (n - 1)
                t0 = rand_like(seed, cur[p].shape, 'left')
                t1 = rand_like(seed + 1, cur[p + 1].shape, 'right')
                if t0 is None or t1 is None:
                    continue
                m.lt.update(slice(p, p + 2), (t0, t1),
                            canonicalization=('left', 'right'))
                cur[p], cur[p + 1] = t0, t1
            else:
                t = rand_like(seed, cur[pos].shape, how)
                if t is None:
                    continue
                m.lt.update(pos, t, canonicalization=how)
                cur[pos] = t
            A = dense(cur)
            changed += 1
        elif op == 'unit':
            # tensor which is normalized in both ways
            if n == 1 or cur[x % n].shape[0] != 1 or cur[x % n].shape[-1] != 1:
                continue
            pos = x % n
            t = rand_like(seed, cur[pos].shape, None)
            t = t / np.linalg.norm(t)
            how = 'left' if pos < n - 1 and (y % 2 or pos == 0) else 'right'
            m.lt.update(pos, t, canonicalization=how)
            cur[pos] = t
            A = dense(cur)
            changed += 1
        elif op in ('imul', 'idiv', 'mul'):
            s = scalar(sca)
            if s == 0 or not 1e-3 < abs(s) < 1e3:
                s = -1.5
            if op == 'imul':
                m *= s
                A = A * s
            elif op == 'idiv':
                m /= s
                A = A / s
            else:
                m = m * s
                A = A * s
            changed += 1
        elif op == 'add':
            if max(tuple(m.ranks) + (1,)) > 12:
                continue
            m, A = m + m, 2 * A
        elif op == 'compress':
            if n == 1:
                continue
            m.compress(rank=max(m.ranks), direction=[None, 'left', 'right'][x % 3])
            # (truncates nothing)
            changed += 1
        elif op == 'sv':
            list(m.singularvals())
        elif op == 'norm':
            close(mp.norm(m), np.linalg.norm(A.ravel()), sc, 1e-9, what + 'norm')
        elif op == 'copy':
            m = m.copy()
        elif op == 'conj':
            m, A = m.conj(), A.conj()
        elif op == 'T':
            legs = local_legs(shape)
            m, A = m.T, A.transpose(sum((g[::-1] for g in legs), []))
            shape = [s[::-1] for s in shape]
        elif op == 'ravel':
            m = m.ravel()
            shape = [[int(np.prod(s, dtype=object))] for s in shape]
            A = A.reshape(sum((tuple(s) for s in shape), ()))
        elif op == 'reverse':
            m = m.reverse()
            A = A.transpose(sum(local_legs(shape)[::-1], []))
            shape = shape[::-1]
        elif op == 'vleg':
            if n == 1:
                continue
            pos = x % (n - 1)
            m = m.vleg2leg(pos)
            lts = check_struct(m, 'vleg2leg: ')
            close(mp.norm(m), np.linalg.norm(dense(lts).ravel()), fscale(lts),
                  1e-9, 'norm after vleg2leg')
            if y % 2:
                lo = z % n
                m.canonicalize(left=lo, right=lo + 1 + seed % (n - lo))
            m = m.leg2vleg(pos)
        elif op == 'group':
            ks = [k for k in range(2, n + 1) if n % k == 0]
            if not ks:
                continue
            k = ks[y % len(ks)]
            m = m.group_sites(k)
            shape = [sum(shape[i:i + k], []) for i in range(0, n, k)]
        elif op == 'splitsites':
            ks = [k for k in (2, 3) if all(len(s) and len(s) % k == 0
                                           for s in shape)]
            if not ks or n > 6:
                continue
            k = ks[y % len(ks)]
            m = m.split_sites(k)
            shape = [s[i:i + len(s) // k] for s in shape
                     for i in range(0, len(s), len(s) // k)]
        elif op == 'reshape':
            new = [[[int(np.prod(s, dtype=object))], [1] + s, s + [1],
                    [t for t in s if t > 1]][(y >> i) % 4]
                   for i, s in enumerate(shape)]
            if z % 4 == 0:
                new = [[t for t in s if t > 1] for s in shape]
                m = m.reshape('prune')
            else:
                m = m.reshape([tuple(s) for s in new])
            shape = new
            A = A.reshape(sum((tuple(s) for s in shape), ()))
        elif op == 'pad':
            if n == 1 or max(m.ranks) > 10:
                continue
            m = m.pad_ranks(1 + y % 6, force_rank=bool(z % 2))
        elif op == 'adj':
            legs = local_legs(shape)
            m, A = m.adj(), A.conj().transpose(sum((g[::-1] for g in legs), []))
            shape = [s[::-1] for s in shape]
        elif op == 'transpose':
            if len(set(len(s) for s in shape)) > 1:
                continue
            k = len(shape[0])
            perm = [int(t) for t in rs(seed).permutation(k)]
            legs = local_legs(shape)
            m = m.transpose(tuple(perm))
            A = A.transpose(sum(([g[t] for t in perm] for g in legs), []))
            shape = [[s[t] for t in perm] for s in shape]
        elif op == 'prune':
            if not any(len(s) for s in shape):
                continue
            m = mp.prune(m)
            shape = [s for s in shape if len(s)]
        elif op == 'get':
            if not all(len(s) for s in shape) or A.ndim > 8:
                continue
            idx = [(y + i * z) % s[0] for i, s in enumerate(shape)]
            sel = []
            for i, s in zip(idx, shape):
                sel += [i] + [slice(None)] * (len(s) - 1)
            m, A = m.get(idx), A[tuple(sel)]
            shape = [s[1:] for s in shape]
        elif op == 'sumleg':
            if sum(len(s) for s in shape) < 2:
                continue
            axes = [(0,) if len(s) and (y >> i) % 2 else ()
                    for i, s in enumerate(shape)]
            if sum(len(s) - len(a) for s, a in zip(shape, axes)) == 0:
                continue
            legs = local_legs(shape)
            A = A.sum(tuple(g[0] for g, a in zip(legs, axes) if a))
            m = m.sum(axes)
            shape = [s[1:] if a else s for s, a in zip(shape, axes)]
        elif op == 'chain':
            other = rand_like(seed, (1, 2, 1), 'left')
            if A.size > 400 or n > 6:
                continue
            o = mp.MPArray([other])
            vec = other.reshape((2,))
            if y % 2:
                m = mp.chain([m, o])
                A = np.multiply.outer(A, vec)
                shape = shape + [[2]]
            else:
                m = mp.chain([o, m])
                A = np.multiply.outer(vec, A)
                shape = [[2]] + shape
        elif op == 'neg':
            m, A = -m, -A
        elif op == 'compression':
            if n == 1:
                continue
            m = m.compression(rank=max(m.ranks), direction=[None, 'left', 'right'][x % 3])[0]
        elif op == 'var':
            # any result: the model follows
            if n < 2 or np.linalg.norm(A.ravel()) < 1e-8 * sc:
                continue
            m = m.compression('var', num_sweeps=1, rank=1 + y % 3,
                              var_sites=1 + z % 2, randstate=rs(seed))[0]
            A = dense([np.array(t) for t in m.lt])
        elif op == 'dot':
            if not all(len(s) for s in shape):
                continue
            o = [rand_like(seed + i, (1, s[-1], s[-1], 1), None)
                 for i, s in enumerate(shape)]
            o = [t / np.linalg.norm(t) for t in o]
            legs = local_legs(shape)
            for g, t in zip(legs, o):
                A = np.moveaxis(np.tensordot(A, t[0, ..., 0], (g[-1], 0)), -1,
                                g[-1])
            m = mp.dot(m, mp.MPArray(o))
        elif op == 'ptrace':
            if A.ndim == 2 or not any(len(s) == 2 and s[0] == s[1] for s in shape):
                continue
            axes, keep = [], []
            for i, s in enumerate(shape):
                tr = len(s) == 2 and s[0] == s[1] and (y >> i) % 2
                axes.append((0, 1) if tr else None)
                keep.append(not tr and len(s) > 0)
            if not any(keep) or not any(axes):
                continue
            legs = local_legs(shape)
            for g, ax in list(zip(legs, axes))[::-1]:
                if ax:
                    A = np.trace(A, axis1=g[0], axis2=g[1])
            m = mp.partialtrace(m, axes)
            shape = [s for s, k in zip(shape, keep) if k]
        elif op == 'rebuild':
            m = mp.MPArray(m.lt) if y % 2 else mp.MPArray(list(m.lt))
        elif op == 'splitkeep':
            if n < 2:
                continue
            left, right = m.split(x % (n - 1))
            check_struct(left, what + 'left: ')
            check_struct(right, what + 'right: ')
            continue
        ctx.label(op)
        cur = [np.array(t) for t in m.lt]
        sc = max(sc, fscale(cur), np.linalg.norm(A.ravel()))
        check_mpa(m, A, sc, 1e-9, shape, what, toarray=False)
        c = m.copy()
        close(mp.norm(c), np.linalg.norm(A.ravel()), sc, 1e-9,
              what + 'norm of a copy')
        # rounding errors do not accumulate in the model (they would be large
        # compared with a tensor which vanishes after cancellation)
        A = dense(cur)
    ctx.nt(len(l) > 1 and len(spec['ops']) > 1 and changed > 0)


SUBS = [Sub('history', gen_hist, run_hist, 2600)]
