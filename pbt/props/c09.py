# encoding: utf-8
"""C09: canonicalize() reaches the requested form and keeps the tensor"""
from __future__ import division

import numpy as np

import mpnum as mp

from ..engine import Sub, Violation
from ..gen import build_mpa, g_mpa, g_nsites
from ..oracle import (check_mpa, dense, ensure, eps_of, fscale, left_err,
                      right_err, same, snapshot, unchanged)

RULE = """Random MPArrays (1-8 sites, ranks 1-6 including larger than the
maximal sensible rank, rank-deficient, zero and badly scaled tensors, sites
without legs) in random initial canonical forms receive 1-4 canonicalize() calls
with every kind of argument (None, 'afull', integers, negative integers, out of
range and contradictory values).  Oracle: normalization of the local tensors
computed by the harness, dense array, documented exceptions.  Non-trivial: at
least two sites and a call which changes the canonical form or is rejected."""


def gen(src):
    n = g_nsites(src, 1, 8, 14)
    a = g_mpa(src, nsites=n, legs=(0, 3), cap=2000, maxrank=6,
              dts=('c16', 'f8', 'i8', 'f4', 'c8'))
    calls = []
    for _ in range(src.int(1, 4)):
        c = []
        for side in 'lr':
            c.append(src.weighted([('none', 2), ('afull', 2), ('int', 6),
                                   ('neg', 1), ('bad', .7)]))
            c.append(src.int(0, 12))
        calls.append(c)
    return {'a': a, 'calls': calls}


def arg(kind, x, n, side):
    """(value passed, resolved target or 'IndexError')"""
    if kind == 'none':
        return None, (0 if side == 'l' else n)
    if kind == 'afull':
        return 'afull', (n - 1 if side == 'l' else 1)
    if kind == 'int':
        v = x % n if side == 'l' else 1 + x % n
        return v, v
    if kind == 'neg':
        v = -1 - x % n
        return v, v + n
    v = [n + 1, n + 5, -n - 1, -n - 3][x % 4]
    return v, 'IndexError'


def run(spec, ctx):
    m, l = build_mpa(spec['a'])
    A, sc, tol = dense(l), fscale(l), eps_of(l)
    shape = spec['a']['shape']
    n = len(l)
    same_ = False
    for lk, lx, rk, rx in spec['calls']:
        left, tl = arg(lk, lx, n, 'l')
        right, tr = arg(rk, rx, n, 'r')
        before = tuple(m.canonical_form)
        snap = snapshot(m)
        ranks = tuple(m.ranks)
        if left is None and right is None:
            # any normal form which has a single free site
            m.canonicalize()
            a, b = m.canonical_form
            ensure(a == n - 1 or b == 1, 'canonicalize(): %r', (a, b))
        elif 'IndexError' in (tl, tr) or not tl < tr:
            want = IndexError if 'IndexError' in (tl, tr) else ValueError
            ctx.nt(n > 1, want.__name__)
            try:
                m.canonicalize(left=left, right=right)
            except want:
                unchanged(m, snap, 'after rejected call: ')
                continue
            except (IndexError, ValueError) as e:
                # both are wrong at the same time
                ensure(tl == 'IndexError' or tr == 'IndexError',
                       'expected %s: %r', want.__name__, e)
                unchanged(m, snap, 'after rejected call: ')
                continue
            raise Violation('canonicalize(left=%r, right=%r) on %d sites must '
                            'raise %s' % (left, right, n, want.__name__))
        else:
            kw = {}
            if left is not None:
                kw['left'] = left
            if right is not None:
                kw['right'] = right
            m.canonicalize(**kw)
            a, b = m.canonical_form
            lts = list(m.lt)
            t = 1e-3 if tol > 1e-8 else 1e-8
            for i in range(tl):
                ensure(left_err(lts[i]) < t, 'site %d not left-normalized', i)
            for i in range(tr, n):
                ensure(right_err(lts[i]) < t, 'site %d not right-normalized', i)
            ensure(a >= tl and b <= tr, 'canonical form %r, requested %r',
                   (a, b), (tl, tr))
            ctx.label('both' if left is not None and right is not None
                      else ('left' if left is not None else 'right'))
        ctx.nt(n > 1 and tuple(m.canonical_form) != before)
        check_mpa(m, A, sc, tol, shape, 'canonicalized: ', toarray=False)
        ensure(all(x <= y for x, y in zip(m.ranks, ranks)),
               'canonicalize increased the ranks')
    check_mpa(m, A, sc, tol, shape, 'canonicalized: ')


SUBS = [Sub('canonicalize', gen, run, 5000)]
