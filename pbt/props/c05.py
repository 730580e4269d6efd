# encoding: utf-8
"""C05: composition of chains"""
from __future__ import division

import numpy as np

import mpnum as mp

from ..engine import Sub
from ..gen import OtherArray, build_mpa, g_mpa, g_nsites, g_shape, rand_array, rs
from ..oracle import (same_class, check_mpa, dense, ensure, fscale, local_legs, same,
                      snapshot, unchanged)

RULE = """Random lists of MPArrays (dtypes mixed, inhomogeneous, different
canonical forms) are chained, interleaved with injected tensors at one or
several positions, embedded into longer chains, summed as local terms (default
slices, regular slices given explicitly, irregular slices, default identity and
explicit embedding tensors, widths 1-4) and multiplied locally.  Oracle: outer
products and sums of dense arrays.  Non-trivial: result has at least two sites
and at least one operand with rank larger than one or two operands."""


def outer(arrs):
    out = np.ones(())
    for a in arrs:
        out = np.multiply.outer(out, a)
    return out


def gen_chain(src):
    k = src.int(1, 4)
    return {'mpas': [g_mpa(src, nsites=src.int(1, 3), legs=(0, 2), cap=24,
                           maxrank=3) for _ in range(k)],
            'as': src.pick(['list', 'iter', 'gen']), 'astype': src.bool(.15)}


def run_chain(spec, ctx):
    ms, ls = zip(*[build_mpa(s) for s in spec['mpas']])
    snaps = [snapshot(m) for m in ms]
    kw = {'astype': OtherArray} if spec.get('astype') else {}
    res = mp.chain({'list': list, 'iter': iter,
                    'gen': lambda x: (y for y in x)}[spec['as']](ms), **kw)
    same_class(res, OtherArray if kw else type(ms[0]))
    sc = 1.
    for l in ls:
        sc *= fscale(l)
    ctx.nt(len(ms) > 1)
    check_mpa(res, outer([dense(l) for l in ls]), sc, 1e-10,
              sum((s['shape'] for s in spec['mpas']), []))
    same(tuple(res.ranks), sum((tuple(m.ranks) + (1,) for m in ms), ())[:-1],
         'ranks')
    for m, s in zip(ms, snaps):
        unchanged(m, s, 'part: ')


def gen_inject(src):
    n = g_nsites(src, 1, 4, 11)
    single = src.bool()
    shape = g_shape(src, n, (1, 2) if n <= 4 else (1, 1), cap=64)
    a = g_mpa(src, shape=shape, maxrank=3)
    if single:
        pos = [src.int(0, n)]
    else:
        pos = [p for p in range(0, n + 1) if src.bool(.5)] or [src.int(0, n)]
        if n > 4 and len(pos) > 2:    # (numpy has a limit for dense arrays)
            pos = sorted([pos[0], pos[src.int(1, len(pos) - 1)]])
    inj = []
    size = int(np.prod(sum(shape, [])))
    for p in pos:
        how = src.pick(['eye', 'num', 'seq'])
        # (what the others can contribute is limited)
        if how == 'eye':
            num = src.int(1, 2)
            d = shape[min(p, n - 1)][0]
            if size * d**(2 * num) > 4000:
                how = 'num'
            else:
                size *= d**(2 * num)
                inj.append({'how': 'eye', 'num': num})
                continue
        def tshape(k):
            t = [src.int(1, 2) for _ in range(src.int(0, 3))]
            if size * int(np.prod(t, dtype=int))**k > 40000:
                t = t[:1] and [1]
            return t

        if how == 'num':
            num = src.int(0, 2)
            t = tshape(num)
            size *= int(np.prod(t, dtype=int))**num
            inj.append({'how': 'num', 'num': num, 'shape': t,
                        'seed': src.seed(), 'dt': src.pick(['f8', 'c16', 'i8'])})
        else:
            tens = []
            for _ in range(src.int(1, 2)):
                t = tshape(1)
                size *= int(np.prod(t, dtype=int))
                tens.append({'shape': t, 'seed': src.seed(),
                             'dt': src.pick(['f8', 'c16', 'i8'])})
            inj.append({'how': 'seq', 'tens': tens})
    return {'a': a, 'pos': pos, 'inj': inj, 'single': single}


def run_inject(spec, ctx):
    a, l = build_mpa(spec['a'])
    snap = snapshot(a)
    A, sc = dense(l), fscale(l)
    shape = spec['a']['shape']
    n = len(l)
    nums, tens, used = [], [], []
    for p, i in zip(spec['pos'], spec['inj']):
        if i['how'] == 'eye':
            dim = shape[p][0] if p < n else shape[n - 1][0]
            nums.append(i['num'])
            tens.append(None)
            used.append([np.eye(dim)] * i['num'])
        elif i['how'] == 'num':
            t = rand_array(rs(i['seed']), i['shape'], 'gauss', i['dt'])
            nums.append(i['num'])
            tens.append(t)
            used.append([t] * i['num'])
        else:
            ts = [rand_array(rs(x['seed']), x['shape'], 'gauss', x['dt'])
                  for x in i['tens']]
            nums.append(None)
            tens.append(ts)
            used.append(ts)
    if spec['single']:
        ctx.label('single')
        res = mp.inject(a, spec['pos'][0], nums[0], tens[0])
    else:
        ctx.label('many')
        pos, arg = spec['pos'], nums
        how = sum(pos) % 4
        pos = [pos, tuple(pos), iter(pos), np.array(pos, dtype=int)][how]
        if all(k is None for k in nums):
            # documented: None stands for as many Nones as positions
            arg = None
            ctx.label('many, num=None')
        elif how == 1:
            arg = iter(nums)
        if all(t is None for t in tens):
            res = mp.inject(a, pos, arg)
        else:
            res = mp.inject(a, pos, arg, tens if how < 2 else iter(tens))
    # dense: outer product with all the injected tensors, legs moved
    legs = local_legs(shape)
    newshape, order = [], []
    nxt = A.ndim
    inj_at = dict(zip(spec['pos'], used))
    exp = A
    for i in range(n + 1):
        for t in inj_at.get(i, ()):
            exp = np.multiply.outer(exp, t)
            order += list(range(nxt, nxt + t.ndim))
            nxt += t.ndim
            newshape.append(list(t.shape))
            sc = sc * max(1, np.linalg.norm(t.ravel()))
        if i < n:
            order += legs[i]
            newshape.append(shape[i])
    ctx.nt(len(newshape) > n and n > 1)
    for i in spec['inj']:
        ctx.label(i['how'])
    check_mpa(res, exp.transpose(order), sc, 1e-10, newshape)
    unchanged(a, snap)


def g_terms(src, k, widths, legs, dims_square, d, dts=('c16', 'f8', 'i8')):
    """k local terms; all sites have the same physical shape"""
    sh = [d, d] if dims_square else legs
    return [g_mpa(src, shape=[list(sh) for _ in range(w)], maxrank=3, dts=dts,
                  layouts=False, scale=False) for w in widths]


def gen_local_sum(src):
    how = src.pick(['default', 'regular', 'slices'])
    square = src.bool(.6)
    d = src.int(1, 3)
    legs = [d, d] if square else [src.int(1, 3) for _ in range(src.int(1, 2))]
    per = int(np.prod(legs))
    maxn = 8 if per <= 2 else (5 if per <= 4 else (4 if per <= 6 else 3))
    explicit = (not square) or src.bool(.4)
    spec = {'how': how, 'legs': legs, 'explicit': explicit,
            'seed': src.seed(), 'edt': src.pick(['f8', 'c16', 'i8'])}
    if how in ('default', 'regular'):
        n = src.int(1, maxn)
        w = src.int(1, min(4, n))
        k = n - w + 1
        spec['length'] = n
        spec['slices'] = [[i, i + w] for i in range(k)]
    else:
        n = src.int(1, maxn)
        k = src.int(1, 4)
        sl = []
        for _ in range(k):
            s = src.int(0, n - 1)
            sl.append([s, src.int(s + 1, n)])
        spec['length'], spec['slices'] = n, sl
    spec['terms'] = g_terms(src, k, [b - a for a, b in spec['slices']], legs,
                            False, d)
    spec['as'] = src.pick(['list', 'iter'])
    spec['neg'] = [src.weighted([(False, 3), (True, 2), ('open', 1),
                                 ('step', .5)]) for _ in range(k)]
    if src.bool(.5):
        spec['neg'] = [spec['neg'][0]] * k
    return spec


def slice_of(a, b, n, neg):
    """a:b, possibly with positions counted from the end or left out"""
    if neg == 'open':
        return slice(a or None, None if b == n else b)
    if neg == 'step':
        return slice(a, b, 1)
    return slice(a - n, b - n) if neg and b < n else slice(a, b)


def run_local_sum(spec, ctx):
    ms, ls = zip(*[build_mpa(s) for s in spec['terms']])
    snaps = [snapshot(m) for m in ms]
    legs, n = spec['legs'], spec['length']
    emb = rand_array(rs(spec['seed']), legs, 'gauss', spec['edt']) \
        if spec['explicit'] else np.eye(legs[0])
    kw = {'embed_tensor': emb.copy()} if spec['explicit'] else {}
    exp, sc = 0, 0.
    en = np.linalg.norm(emb.ravel())
    for l, (a, b) in zip(ls, spec['slices']):
        exp = exp + outer([emb] * a + [dense(l)] + [emb] * (n - b))
        sc += fscale(l) * en**(n - b + a)
    conv = list if spec['as'] == 'list' else iter
    ctx.label(spec['how'])
    ctx.label('explicit' if spec['explicit'] else 'identity')
    ctx.label('mixed-dtype' if len(set(d for s in spec['terms']
                                       for d in s['dt'])) > 1 else 'one-dtype')
    ctx.nt(n > 1 and len(ms) > 1)
    shape = [legs] * n
    if spec['how'] == 'default':
        res = mp.local_sum(conv(ms), **kw)
        same(len(res), n, 'length')
    else:
        sl = [slice_of(a, b, n, f)
              for (a, b), f in zip(spec['slices'], spec['neg'])]
        res = mp.local_sum(conv(ms), length=n, slices=conv(sl), **kw)
    check_mpa(res, exp, sc, 1e-10, shape)
    # bond dimensions: never more than those of the embedded terms together;
    # for the regular slices, finished terms share one leg and so do the terms
    # which have not started
    reg = spec['how'] == 'default' or (spec['how'] == 'regular' and
                                       not any(spec['neg']))
    for p in range(n - 1):
        cross = sum(l[p - a].shape[-1] for l, (a, b) in zip(ls, spec['slices'])
                    if a <= p and b > p + 1)
        done = sum(b <= p + 1 for _, b in spec['slices'])
        todo = sum(a > p for a, _ in spec['slices'])
        if reg:
            done, todo = min(done, 1), min(todo, 1)
        ensure(res.ranks[p] <= cross + done + todo,
               'bond dimension %d at bond %d exceeds %d', res.ranks[p], p,
               cross + done + todo)
    # each term separately
    for m, l, (a, b), f in zip(ms[:2], ls, spec['slices'], spec['neg']):
        e = mp.embed_slice(n, slice_of(a, b, n, f), m, **kw)
        check_mpa(e, outer([emb] * a + [dense(l)] + [emb] * (n - b)),
                  fscale(l) * en**(n - b + a), 1e-10, shape, 'embed_slice: ')
    for m, s in zip(ms, snaps):
        unchanged(m, s, 'term: ')


def gen_regular(src):
    width = src.int(1, 9)
    offset = src.int(1, 7)
    num = src.int(1, 12)
    return {'w': width, 'o': offset, 'n': num}


def run_regular(spec, ctx):
    w, o, k = spec['w'], spec['o'], spec['n']
    length = (k - 1) * o + w
    got = list(mp.regular_slices(length, w, o))
    ctx.nt(k > 1)
    same([(s.start, s.stop) for s in got],
         [(o * i, o * i + w) for i in range(k)], 'slices')
    ensure(all(s.step in (None, 1) for s in got), 'step')


def gen_outer(src):
    n = g_nsites(src, 1, 4, 12)
    legs = (0, 2) if n <= 4 else (0, 1)
    return {'a': g_mpa(src, nsites=n, legs=legs, cap=50, maxrank=3),
            'b': g_mpa(src, nsites=n, legs=legs, cap=50, maxrank=3)}


def run_outer(spec, ctx):
    a, la = build_mpa(spec['a'])
    b, lb = build_mpa(spec['b'])
    sa, sb = snapshot(a), snapshot(b)
    res = mp.localouter(a, b)
    A, B = dense(la), dense(lb)
    full = np.multiply.outer(A, B)
    ga = local_legs(spec['a']['shape'])
    gb = [[x + A.ndim for x in g] for g in local_legs(spec['b']['shape'])]
    exp = full.transpose(sum((x + y for x, y in zip(ga, gb)), []))
    ctx.nt(len(la) > 1)
    check_mpa(res, exp, fscale(la) * fscale(lb), 1e-10,
              [x + y for x, y in zip(spec['a']['shape'], spec['b']['shape'])])
    same(tuple(res.ranks), tuple(x * y for x, y in zip(a.ranks, b.ranks)),
         'ranks')
    unchanged(a, sa)
    unchanged(b, sb)


SUBS = [
    Sub('chain', gen_chain, run_chain, 900),
    Sub('inject', gen_inject, run_inject, 1400),
    Sub('local_sum', gen_local_sum, run_local_sum, 1600),
    Sub('regular_slices', gen_regular, run_regular, 300),
    Sub('localouter', gen_outer, run_outer, 800),
]
