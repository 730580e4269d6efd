# encoding: utf-8
"""C06: contractions of MPArrays agree with dense tensor contractions"""
from __future__ import division

import numpy as np

import mpnum as mp

from ..engine import Sub
from ..gen import OtherArray, build_mpa, g_mpa, g_nsites, g_shape
from ..oracle import (same_class, check_mpa, close, dense, ensure, fscale, local_legs, same,
                      snapshot, unchanged)
from .c05 import gen_outer, run_outer

RULE = """Random pairs of MPArrays of equal and unequal length, contracted over
one or several legs per site (positive and negative leg numbers, in any order),
partial dot products at every offset with either operand being the shorter one,
traces and partial traces with per-site choices including untouched sites, local
outer products (no leg contracted).
Oracle: tensordot/trace of the dense arrays with explicit leg bookkeeping.
Non-trivial: at least two sites and both operands with at least 2 entries."""


def neg(src, ax, n):
    """Leg number, possibly written as negative number"""
    return ax - n if src.bool(.4) else ax


def dense_dot(A, sa, B, sb, axes_a, axes_b, start=0):
    """Contract site by site: A has sites 0..., B starts at site `start`
    (in the numbering of the longer one).  Legs of a site: remaining legs of
    A's site followed by remaining legs of B's site."""
    la, lb = local_legs(sa), local_legs(sb)
    ca, cb = [], []
    for i in range(len(sb)) if len(sb) <= len(sa) else range(len(sa)):
        ia, ib = (i + start, i) if len(sb) <= len(sa) else (i, i + start)
        ca += [la[ia][x] for x in axes_a]
        cb += [lb[ib][x] for x in axes_b]
    T = np.tensordot(A, B, axes=(ca, cb)) if ca else np.multiply.outer(A, B)
    # positions of the remaining legs
    ra = [x for x in range(A.ndim) if x not in ca]
    rb = [x for x in range(B.ndim) if x not in cb]
    pa = {x: i for i, x in enumerate(ra)}
    pb = {x: len(ra) + i for i, x in enumerate(rb)}
    order, shape = [], []
    n = max(len(sa), len(sb))
    for i in range(n):
        ia = i if len(sa) >= len(sb) else i - start
        ib = i if len(sb) > len(sa) else i - start
        site, sh = [], []
        if 0 <= ia < len(sa):
            site += [pa[x] for x in la[ia] if x in pa]
            sh += [A.shape[x] for x in la[ia] if x in pa]
        if 0 <= ib < len(sb):
            site += [pb[x] for x in lb[ib] if x in pb]
            sh += [B.shape[x] for x in lb[ib] if x in pb]
        order += site
        shape.append(sh)
    return T.transpose(order), shape


def nlegs_for(src, written, hi):
    """Number of legs for which the written leg numbers mean distinct legs"""
    lo = max([x + 1 if x >= 0 else -x for x in written])
    ok = [n for n in range(lo, max(hi, lo) + len(written) + 1)
          if len({x % n for x in written}) == len(written)]
    few = [n for n in ok if n <= hi]
    return src.pick(few or ok[:1])


def gen_dot(src):
    n = g_nsites(src, 1, 5, 9)
    hi = 3 if n < 6 else 2
    diff = src.bool(.5)
    m = src.int(1, n) if diff else n
    start = src.int(0, n - m)
    single = src.bool(.6)
    k = 1 if single else src.int(1, 2)
    na, nb = src.int(k, hi), src.int(k, hi)
    if single and na == 1 and nb == 1 and src.bool(.5):
        na = 2
    ax_a = sorted(src.perm(na)[:k]) if src.bool(.3) else src.perm(na)[:k]
    ax_b = src.perm(nb)[:k]
    wa = [neg(src, x, na) for x in ax_a]
    wb = [neg(src, x, nb) for x in ax_b]
    if single and src.bool(.25):
        wa, wb = [-1], [0]
    a_longer = src.bool(.5)
    mixed = src.bool(.4)
    size = 1
    sa, sb = [], []
    for i in range(n):
        # (outside of the shorter one, no leg is contracted)
        overlap = start <= i < start + m
        if mixed:
            if overlap:
                na_i, nb_i = nlegs_for(src, wa, hi), nlegs_for(src, wb, hi)
            else:
                na_i, nb_i = src.int(0, hi), src.int(0, hi)
        else:
            na_i, nb_i = max(na, k), max(nb, k)
        ca = [x % na_i for x in wa] if overlap else []
        cb = [x % nb_i for x in wb] if overlap else []
        da = [src.weighted([(2, 4), (1, 1), (3, 2)]) for _ in range(na_i)]
        db = [src.weighted([(2, 4), (1, 1), (3, 2)]) for _ in range(nb_i)]
        if size > 250:
            da = [1 if j not in ca else d for j, d in enumerate(da)]
            db = [1 if j not in cb else d for j, d in enumerate(db)]
        for x, y in zip(ca, cb):
            db[y] = da[x]
        size *= int(np.prod(da)) * int(np.prod(db))
        for x in ca:
            size //= da[x]**2
        size = max(size, 1)
        sa.append(da)
        sb.append(db)
    if a_longer:
        sb = sb[start:start + m]
    else:
        sa = sa[start:start + m]
    # default axes are (-1, 0)
    return {'a': g_mpa(src, shape=sa, maxrank=3), 'b': g_mpa(src, shape=sb, maxrank=3),
            'axes': [wa, wb], 'single': single, 'start': start,
            'default': src.bool(.5), 'astuple': src.bool(),
            'astype': src.bool(.15)}


def run_dot(spec, ctx):
    a, la = build_mpa(spec['a'])
    b, lb = build_mpa(spec['b'])
    if dense_size(spec['a']) > 200000 or dense_size(spec['b']) > 200000:
        return
    sna, snb = snapshot(a), snapshot(b)
    sa, sb = spec['a']['shape'], spec['b']['shape']
    wa, wb = spec['axes']
    exp, shape = dense_dot(dense(la), sa, dense(lb), sb, wa, wb, spec['start'])
    if spec['single']:
        axes = (wa[0], wb[0])
    else:
        conv = tuple if spec['astuple'] else list
        axes = (conv(wa), conv(wb))
    default = spec['single'] and wa == [-1] and wb == [0] and spec['default']
    if len(set(map(len, sa))) > 1 or len(set(map(len, sb))) > 1:
        ctx.label('different numbers of legs')
    sc = fscale(la) * fscale(lb)
    ctx.nt(len(sa) > 1 and len(sb) > 1)
    if len(sa) == len(sb):
        kw = {'astype': OtherArray} if spec.get('astype') else {}
        res = mp.dot(a, b, **kw) if default else mp.dot(a, b, axes=axes, **kw)
        same_class(res, OtherArray if kw else type(a))
        ctx.label('dot-default' if default else 'dot')
        check_mpa(res, exp, sc, 1e-10, shape)
        same(tuple(res.ranks), tuple(x * y for x, y in zip(a.ranks, b.ranks)),
             'ranks')
    ctx.label('longer:' + ('a' if len(sa) > len(sb) else
                           'b' if len(sb) > len(sa) else 'same'))
    res = mp.partialdot(a, b, spec['start']) if default else \
        mp.partialdot(a, b, spec['start'], axes=axes)
    check_mpa(res, exp, sc, 1e-10, shape, 'partialdot: ')
    unchanged(a, sna, 'first operand: ')
    unchanged(b, snb, 'second operand: ')


def dense_size(spec):
    return int(np.prod(sum(spec['shape'], []), dtype=object))


def gen_trace(src):
    n = g_nsites(src, 1, 5, 10)
    how = src.pick(['default', 'pair', 'per'])
    shape, axes = [], []
    size = 1
    k = src.int(2, 3)
    pair = src.perm(k)[:2]
    pwritten = [neg(src, x, k) for x in pair]
    # the same leg numbers at sites with different numbers of legs
    mixed = how == 'pair' and n < 7 and src.bool(.4)
    for _ in range(n):
        if how == 'default':
            d = src.int(1, 3)
            s, ax = [d, d], [0, 1]
        elif how == 'pair':
            m = nlegs_for(src, pwritten, 4) if mixed else k
            s = [src.int(1, 2) for _ in range(m)]
            ax = [x % m for x in pwritten]
            s[ax[1]] = s[ax[0]]
        else:
            m = src.int(0, 3)
            s = [src.int(1, 3) for _ in range(m)]
            ax = None
            if m >= 2 and src.bool(.6):
                ax = src.perm(m)[:2]
                s[ax[1]] = s[ax[0]]
        if size * int(np.prod(s)) > 4000:
            s = [1] * len(s)
        size *= int(np.prod(s))
        shape.append(s)
        axes.append(ax)
    if how == 'per':
        written = [None if ax is None else [neg(src, x, len(s)) for x in ax]
                   for ax, s in zip(axes, shape)]
    else:
        written = pwritten if how == 'pair' else None
    return {'a': g_mpa(src, shape=shape, maxrank=4), 'how': how, 'axes': axes,
            'written': written, 'mptype': src.bool(.15)}


def run_trace(spec, ctx):
    a, l = build_mpa(spec['a'])
    snap = snapshot(a)
    A = dense(l)
    shape = spec['a']['shape']
    legs = local_legs(shape)
    pos = list(range(A.ndim))
    for ax, lg in zip(spec['axes'], legs):
        if ax is None:
            continue
        x, y = lg[ax[0]], lg[ax[1]]
        A = np.trace(A, axis1=pos.index(x), axis2=pos.index(y))
        pos = [p for p in pos if p not in (x, y)]
    rest = [[d for i, d in enumerate(s) if ax is None or i not in ax]
            for s, ax in zip(shape, spec['axes'])]
    kept = [s for s in rest if s] or [[]]
    sc = fscale(l) * float(np.prod([max([1] + s) for s in shape], dtype=float))
    ctx.label(spec['how'])
    ctx.nt(len(shape) > 1 and any(ax is not None for ax in spec['axes']))
    if spec['how'] == 'default':
        args = ()
    elif spec['how'] == 'pair':
        args = (tuple(spec['written']),)
    else:
        args = ([None if w is None else tuple(w) for w in spec['written']],)
    kw = {'mptype': OtherArray} if spec.get('mptype') else {}
    res = mp.partialtrace(a, *args, **kw)
    same_class(res, OtherArray if kw else type(a))
    check_mpa(res, A, sc, 1e-10, kept, 'partialtrace: ')
    same(len(res), len(kept), 'number of sites')
    if kept == [[]]:
        ctx.label('scalar')
        val = mp.trace(a, *args)
        ensure(np.ndim(val) == 0 and not isinstance(val, mp.MPArray),
               'trace must be a scalar: %r', val)
        close(val, A, sc, 1e-10, 'trace')
    unchanged(a, snap)


SUBS = [
    Sub('dot', gen_dot, run_dot, 2600),
    Sub('trace', gen_trace, run_trace, 1800),
    Sub('localouter', gen_outer, run_outer, 400),
]
