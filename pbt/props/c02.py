# encoding: utf-8
"""C02: linear arithmetic agrees with the arithmetic of dense arrays"""
from __future__ import division

import numpy as np

import mpnum as mp

from ..engine import Sub
from ..gen import build_mpa, g_mpa, g_scalar, g_shape, g_nsites, scalar
from ..oracle import (check_mpa, dense, ensure, eps_of, fscale, same, snapshot,
                      unchanged)

RULE = """Random pairs / lists / programs (up to 8 steps on a pool of
MPArrays) of additions, subtractions, multiplications and divisions by int,
float, complex and numpy scalars, negation, in-place scaling and weighted sums;
operands have different ranks, dtypes (int, real, complex, single precision,
mixed per site), canonical forms, memory layouts and scales.  Oracle: the same
operations on independently contracted dense arrays; operands must stay
unchanged.  Non-trivial: at least two sites, operands not identically zero."""

ALLDT = ('c16', 'f8', 'i8', 'f4', 'c8')


def gen_pair(src):
    a = g_mpa(src, dts=ALLDT)
    b = g_mpa(src, shape=a['shape'], dts=ALLDT)
    return {'a': a, 'b': b, 's': g_scalar(src), 'op': src.pick(
        ['add', 'sub', 'mul', 'rmul', 'div', 'neg', 'pos', 'imul', 'idiv',
         'iadd', 'isub', 'self'])}


def run_pair(spec, ctx):
    a, la = build_mpa(spec['a'])
    b, lb = build_mpa(spec['b'])
    s = scalar(spec['s'])
    A, B = dense(la), dense(lb)
    sa, sb = fscale(la), fscale(lb)
    snap_a, snap_b = snapshot(a), snapshot(b)
    op = spec['op']
    if op in ('div', 'idiv') and s == 0:
        s = 2
    ctx.label(op)
    ctx.nt(len(la) > 1 and np.abs(A).max() > 0)
    tol = eps_of(la, lb)
    shape = spec['a']['shape']
    mod_a = False
    if op == 'add':
        res, exp, sc = a + b, A + B, sa + sb
    elif op == 'sub':
        res, exp, sc = a - b, A - B, sa + sb
    elif op == 'self':
        res, exp, sc = a - a, A - A, sa
    elif op == 'mul':
        res, exp, sc = a * s, A * s, sa * abs(s)
    elif op == 'rmul':
        res, exp, sc = s * a, A * s, sa * abs(s)
    elif op == 'div':
        res, exp, sc = a / s, A / s, sa / abs(s)
    elif op == 'neg':
        res, exp, sc = -a, -A, sa
    elif op == 'pos':
        res, exp, sc = +a, A, sa
    elif op == 'imul':
        keep = a
        a *= s
        ensure(a is keep, '*= must modify in place')
        res, exp, sc, mod_a = a, A * s, sa * abs(s), True
    elif op == 'idiv':
        keep = a
        a /= s
        ensure(a is keep, '/= must modify in place')
        res, exp, sc, mod_a = a, A / s, sa / abs(s), True
    elif op == 'iadd':
        alias = a
        a += b
        res, exp, sc = a, A + B, sa + sb
        a = alias
        mod_a = res is alias
    else:
        alias = a
        a -= b
        res, exp, sc = a, A - B, sa + sb
        a = alias
        mod_a = res is alias
    check_mpa(res, exp, sc, tol, shape)
    if not mod_a:
        unchanged(a, snap_a, 'first operand: ')
    unchanged(b, snap_b, 'second operand: ')


def gen_sumup(src):
    n = g_nsites(src, 1, 5, 12)
    shape = g_shape(src, n, (0, 2), cap=600)
    k = src.int(1, 6)
    # single precision would make the tolerance meaningless here
    return {'mpas': [g_mpa(src, shape=shape, maxrank=3) for _ in range(k)],
            'w': [g_scalar(src) for _ in range(k)],
            'how': src.pick(['none', 'list', 'array', 'tuple']),
            'arg': src.pick(['list', 'iter', 'gen'])}


def run_sumup(spec, ctx):
    mpas, ltss = zip(*[build_mpa(s) for s in spec['mpas']])
    snaps = [snapshot(m) for m in mpas]
    ws = [scalar(w) for w in spec['w']]
    arg = {'list': list, 'iter': iter,
           'gen': lambda x: (m for m in x)}[spec['arg']](mpas)
    if spec['how'] == 'none':
        ws = [1] * len(mpas)
        res = mp.sumup(arg)
    else:
        conv = {'list': list, 'tuple': tuple, 'array': np.array}[spec['how']]
        res = mp.sumup(arg, weights=conv(ws))
    exp = sum(w * dense(l) for w, l in zip(ws, ltss))
    sc = sum(abs(w) * fscale(l) for w, l in zip(ws, ltss))
    ctx.nt(len(mpas) > 1 and len(ltss[0]) > 1 and sc > 0)
    ctx.label('weights:' + spec['how'])
    ctx.label('n:%d' % len(mpas))
    check_mpa(res, exp, sc, 1e-10, spec['mpas'][0]['shape'])
    for m, s in zip(mpas, snaps):
        unchanged(m, s, 'summand: ')


def gen_prog(src):
    n = g_nsites(src, 1, 5, 10)
    shape = g_shape(src, n, (0, 2), cap=400)
    pool = src.int(1, 3)
    steps = []
    for _ in range(src.int(1, 8)):
        steps.append([src.pick(['add', 'sub', 'mul', 'div', 'neg', 'imul',
                                'idiv', 'sum', 'canon', 'norm', 'copy']),
                      src.int(0, 9), src.int(0, 9), g_scalar(src),
                      src.int(0, 5), src.int(0, 5)])
    return {'pool': [g_mpa(src, shape=shape, maxrank=3, scale=False)
                     for _ in range(pool)], 'steps': steps}


def run_prog(spec, ctx):
    """Histories of arithmetic interleaved with operations that change the
    gauge"""
    shape = spec['pool'][0]['shape']
    pool = []
    for s in spec['pool']:
        m, l = build_mpa(s)
        pool.append([m, dense(l), fscale(l)])
    n = len(shape)
    for op, i, j, sc, l, r in spec['steps']:
        a, b = pool[i % len(pool)], pool[j % len(pool)]
        s = scalar(sc)
        if op == 'div' or op == 'idiv':
            s = s if s else 2
            s = s if 1e-3 < abs(s) < 1e3 else 3
        if abs(s) > 1e3 or (s and abs(s) < 1e-3):
            s = 2.5
        big = max(a[0].ranks + b[0].ranks + (1,)) > 60
        new = None
        if op in ('add', 'sub', 'sum') and big:
            continue
        if op == 'add':
            new = [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
        elif op == 'sub':
            new = [a[0] - b[0], a[1] - b[1], a[2] + b[2]]
        elif op == 'mul':
            new = [a[0] * s, a[1] * s, a[2] * abs(s)]
        elif op == 'div':
            new = [a[0] / s, a[1] / s, a[2] / abs(s)]
        elif op == 'neg':
            new = [-a[0], -a[1], a[2]]
        elif op == 'sum':
            new = [mp.sumup([a[0], b[0], a[0]], weights=[s, 1, -2]),
                   s * a[1] + b[1] - 2 * a[1], abs(s) * a[2] + b[2] + 2 * a[2]]
        elif op == 'copy':
            new = [a[0].copy(), a[1], a[2]]
        elif op == 'imul':
            x = a[0]
            x *= s
            a[1], a[2] = a[1] * s, a[2] * abs(s)
        elif op == 'idiv':
            x = a[0]
            x /= s
            a[1], a[2] = a[1] / s, a[2] / abs(s)
        elif op == 'canon' and n > 1:
            lo = l % n
            a[0].canonicalize(left=lo, right=lo + 1 + r % (n - lo))
        elif op == 'norm':
            mp.norm(a[0])
        if new is not None:
            pool.append(new)
        ctx.label(op)
    ctx.nt(n > 1 and len(spec['steps']) > 2)
    for k, (m, d, sc) in enumerate(pool):
        check_mpa(m, d, sc * 10, 1e-10, shape, 'pool[%d]: ' % k)


SUBS = [
    Sub('binary', gen_pair, run_pair, 3000),
    Sub('sumup', gen_sumup, run_sumup, 1300),
    Sub('program', gen_prog, run_prog, 1100),
]
