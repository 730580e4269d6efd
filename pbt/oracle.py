# encoding: utf-8
"""Independent oracles: dense contraction, validity of MPArrays, comparisons"""
from __future__ import division

import numpy as np

import mpnum as mp

from .engine import Violation

TINY = 1e-290


def ensure(cond, msg='', *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def contract(lts):
    """Dense array (with both boundary legs) of a list of local tensors.

    Written with plain matrix products on purpose.
    """
    lts = [np.asarray(a) for a in lts]
    phys = ()
    res = np.ones((1, 1)) if lts[0].shape[0] == 1 else np.eye(lts[0].shape[0])
    left = lts[0].shape[0]
    for a in lts:
        phys += a.shape[1:-1]
        if a.dtype.kind not in 'fc':
            a = a.astype(float)
        mat = a.reshape((a.shape[0], -1))
        res = res.reshape((-1, a.shape[0])).dot(mat)
        res = res.reshape((-1, a.shape[-1]))
    return res.reshape((left,) + phys + (lts[-1].shape[-1],))


def dense(lts):
    """Dense array of an MPA given as list of local tensors"""
    out = contract(lts)
    return out.reshape(out.shape[1:-1])


def fscale(lts):
    """Scale of rounding errors: product of the norms of the local tensors"""
    out = 1.
    for a in lts:
        out *= float(np.linalg.norm(np.asarray(a).astype(
            complex if a.dtype.kind == 'c' else float).ravel()))
    return out


def lowprec(*ltss):
    return any(np.asarray(a).dtype in (np.float32, np.complex64)
               for lts in ltss for a in lts)


def eps_of(*ltss):
    """Relative tolerance appropriate for the dtypes"""
    return 2e-4 if lowprec(*ltss) else 1e-10


def close(a, b, scale, rtol=1e-10, what='value'):
    """Entry-wise |a - b| <= rtol * scale, same shape, all finite"""
    a, b = np.asarray(a), np.asarray(b)
    ensure(a.shape == b.shape, '%s: shape %r, expected %r', what, a.shape,
           b.shape)
    if a.size == 0:
        return
    diff = np.abs(a - b)
    worst = diff.max()
    if not worst <= rtol * scale + TINY:       # also catches nan
        raise Violation('%s: differs by %g (scale %g, tolerance %g)' % (
            what, worst, scale, rtol * scale))


def same(a, b, what):
    ensure(a == b, '%s: %r, expected %r', what, a, b)


def left_err(a):
    m = np.asarray(a)
    m = m.reshape((-1, m.shape[-1]))
    g = m.conj().T.dot(m)
    return np.abs(g - np.eye(g.shape[0])).max()


def right_err(a):
    m = np.asarray(a)
    m = m.reshape((m.shape[0], -1))
    g = m.dot(m.conj().T)
    return np.abs(g - np.eye(g.shape[0])).max()


def check_cform(mpa, tol=1e-8, what=''):
    """The claimed canonical form must be true"""
    lts = list(mpa.lt)
    if lowprec(lts):
        tol = 1e-3
    l, r = mpa.canonical_form
    n = len(lts)
    ensure(0 <= l < max(n, 1) and 0 < r <= n,
           '%scanonical form %r is not valid for %d sites', what, (l, r), n)
    same(tuple(mpa.lt.canonical_form), (l, r), what + 'lt.canonical_form')
    for i in range(l):
        e = left_err(lts[i])
        ensure(e < tol, '%scanonical form %r, but site %d is not '
               'left-normalized (%g)', what, (l, r), i, e)
    for i in range(r, n):
        e = right_err(lts[i])
        ensure(e < tol, '%scanonical form %r, but site %d is not '
               'right-normalized (%g)', what, (l, r), i, e)


def check_struct(mpa, what=''):
    """Structural consistency, independent of the represented tensor"""
    ensure(isinstance(mpa, mp.MPArray), '%snot an MPArray: %r', what, type(mpa))
    lts = list(mpa.lt)
    n = len(lts)
    ensure(n > 0, what + 'no sites')
    same(len(mpa), n, what + 'len')
    for a in lts:
        ensure(isinstance(a, np.ndarray) and a.ndim >= 2,
               what + 'bad local tensor')
        ensure(a.dtype.kind in 'fciub', '%sdtype %r', what, a.dtype)
    same(lts[0].shape[0], 1, what + 'left boundary')
    same(lts[-1].shape[-1], 1, what + 'right boundary')
    for a, b in zip(lts[:-1], lts[1:]):
        same(a.shape[-1], b.shape[0], what + 'virtual legs')
    same(tuple(mpa.shape), tuple(a.shape[1:-1] for a in lts), what + 'shape')
    same(tuple(mpa.ndims), tuple(a.ndim - 2 for a in lts), what + 'ndims')
    same(tuple(mpa.ranks), tuple(a.shape[-1] for a in lts[:-1]), what + 'ranks')
    same(tuple(mpa.lt.shape), tuple(a.shape for a in lts), what + 'lt.shape')
    same(len(mpa.lt), n, what + 'len(lt)')
    # sequences, not something which is used up by reading it once
    same((len(mpa.shape), len(mpa.ndims), len(mpa.ranks)), (n, n, n - 1),
         what + 'len() of shape, ndims, ranks')
    if all(a.dtype.kind in 'fc' for a in lts):
        same(np.dtype(mpa.dtype), np.result_type(*lts), what + 'dtype')
    same(mpa.size, sum(a.size for a in lts), what + 'size')
    check_cform(mpa, what=what)
    return lts


def check_mpa(mpa, expected, scale, rtol=1e-10, shape=None, what='result: ',
              toarray=True):
    """`mpa` is a consistent MPA which represents `expected`.

    :param shape: Physical shape per site (default: do not check)
    """
    lts = check_struct(mpa, what)
    if shape is not None:
        same(tuple(tuple(s) for s in mpa.shape),
             tuple(tuple(s) for s in shape), what + 'physical shape')
    own = dense(lts)
    expected = np.asarray(expected)
    close(own, expected, scale, rtol, what + 'dense array')
    if toarray:
        arr = mpa.to_array()
        ensure(isinstance(arr, np.ndarray), what + 'to_array() type')
        close(arr, own, scale, rtol, what + 'to_array()')
        ensure(arr.dtype.kind != 'c' or own.dtype.kind == 'c',
               what + 'to_array() is complex')
    return lts


def snapshot(mpa):
    """What in-place modifications of `mpa` would change"""
    return ([np.array(a) for a in mpa.lt], tuple(mpa.canonical_form))


def unchanged(mpa, snap, what='operand: ', exact=True):
    """Bit-wise the same local tensors and the same canonical form"""
    lts, cf = snap
    now = list(mpa.lt)
    same(len(now), len(lts), what + 'number of sites')
    for i, (a, b) in enumerate(zip(now, lts)):
        ensure(a.shape == b.shape and a.dtype == b.dtype
               and np.array_equal(a, b),
               '%slocal tensor %d was modified', what, i)
    same(tuple(mpa.canonical_form), cf, what + 'canonical form')


def unchanged_tensor(mpa, snap, what='operand: '):
    """The represented tensor is the same (gauge may differ)"""
    lts, _ = snap
    d = dense(lts)
    check_mpa(mpa, d, fscale(lts), eps_of(lts), what=what, toarray=False,
              shape=[a.shape[1:-1] for a in lts])


def same_class(res, cls, what=''):
    """The result is an instance of the class it should belong to"""
    ensure(type(res) is cls, what + 'result is a %s, expected %s',
           type(res).__name__, cls.__name__)


def local_legs(shape):
    """Positions of the legs of each site in the dense (local form) array"""
    out, pos = [], 0
    for s in shape:
        out.append(list(range(pos, pos + len(s))))
        pos += len(s)
    return out


def global_perm(sites, nlegs):
    """Axes permutation local form -> global form for uniform nlegs"""
    return [s * nlegs + k for k in range(nlegs) for s in range(sites)]
