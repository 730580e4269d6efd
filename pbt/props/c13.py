# encoding: utf-8
"""C13: singular values of all bipartitions"""
from __future__ import division

import numpy as np

import mpnum as mp

from ..engine import Sub
from ..gen import build_mpa, g_mpa, g_nsites
from ..oracle import (check_mpa, check_struct, close, dense, ensure, fscale,
                      same, snapshot, unchanged_tensor)
from .c11 import tails

RULE = """Random MPArrays (1-7 sites, ranks up to 8, inhomogeneous legs, all
dtypes, scales and initial canonical forms) whose singular values are iterated
completely, partially, twice, and interleaved with reading the tensor; oracle:
numpy SVD of every matricization of the dense tensor (padded with zeros), tensor
and shape unchanged after every step, canonical form truthful after every step.
Non-trivial: at least two sites and a bipartition with two nonzero singular
values."""


def gen(src):
    n = g_nsites(src, 1, 7, 12)
    return {'a': g_mpa(src, nsites=n, legs=(0, 3), cap=800, maxrank=8),
            'stop': src.weighted([(None, 3), ('some', 1)]), 'k': src.int(1, 6),
            'again': src.bool(.4)}


def run(spec, ctx):
    m, l = build_mpa(spec['a'])
    A = dense(l)
    sc = fscale(l)
    shape = spec['a']['shape']
    exp = tails(A, shape)
    n = len(m)
    ranks0 = tuple(m.ranks)
    for rep in range(2 if spec['again'] else 1):
        it = m.singularvals()
        got = []
        for num, s in enumerate(it):
            s = np.asarray(s)
            got.append(s.copy())
            # the iteration may be abandoned at any point
            check_mpa(m, A, sc, 1e-9, shape, 'during iteration: ', toarray=False)
            if spec['stop'] and num + 1 >= spec['k']:
                break
        if not spec['stop']:
            same(len(got), n - 1, 'number of bipartitions')
        for i, (s, e) in enumerate(zip(got, exp)):
            ensure(s.ndim == 1 and s.dtype.kind == 'f' and len(s) > 0,
                   'bipartition %d: %r', i, s)
            ensure((s >= 0).all() and (np.diff(s) <= 1e-12 * sc).all(),
                   'bipartition %d: not sorted %r', i, s)
            ensure(len(s) <= ranks0[i], 'bipartition %d: %d singular values '
                   'for rank %d', i, len(s), ranks0[i])
            k = max(len(s), len(e))
            s = np.concatenate((s, np.zeros(k - len(s))))
            e = np.concatenate((e, np.zeros(k - len(e))))
            close(s, e, sc, 1e-9, 'singular values, bipartition %d' % i)
            ctx.nt(e[1:].sum() > 1e-3 * e.sum() > 0)
        check_mpa(m, A, sc, 1e-9, shape, 'afterwards: ')
        ensure(all(r <= s for r, s in zip(m.ranks, ranks0)), 'ranks grew')
        same(len(m), n, 'number of sites')
    ctx.label('partial' if spec['stop'] else 'complete')
    close(mp.norm(m), np.linalg.norm(A.ravel()), sc, 1e-9, 'norm')


SUBS = [Sub('singularvals', gen, run, 3500)]
