# encoding: utf-8
"""Generators of specs (JSON-able descriptions) and the builders which turn
specs into arrays and MPArrays.  Generators never call the code under test."""
from __future__ import division

import numpy as np

import mpnum as mp
from mpnum.mpstruct import LocalTensors

DT = {'f8': np.float64, 'c16': np.complex128, 'i8': np.int64,
      'f4': np.float32, 'c8': np.complex64}

#: kinds of array contents
KINDS = (('gauss', 10), ('int', 3), ('sparse', 2), ('dup', 2), ('zero', .35),
         ('unit', 1), ('ones', .5), ('spread', 1), ('nearreal', .7))


def rs(seed):
    return np.random.RandomState(seed % (2**32))


def rand_array(r, shape, kind='gauss', dt='f8'):
    """Array content; `r` is a RandomState private to the array"""
    shape = tuple(shape)
    cplx = dt in ('c16', 'c8')
    n = int(np.prod(shape, dtype=object))
    if kind == 'gauss' or kind == 'dup':
        a = r.randn(n) + (1j * r.randn(n) if cplx else 0)
        if dt == 'i8':
            a = np.round(3 * a)
    elif kind == 'int':
        a = r.randint(-2, 3, n) + (1j * r.randint(-2, 3, n) if cplx else 0)
    elif kind == 'sparse':
        a = (r.randn(n) + (1j * r.randn(n) if cplx else 0)) * (r.rand(n) < .4)
        if dt == 'i8':
            a = np.round(3 * a)
    elif kind == 'zero':
        a = np.zeros(n)
    elif kind == 'ones':
        a = np.ones(n)
    elif kind == 'spread':    # entries of very different size
        a = r.randn(n) + (1j * r.randn(n) if cplx else 0)
        top = 12 if dt in ('f8', 'c16') else 5
        if dt == 'i8':
            # (products of many sites must not exceed the integer range)
            a = np.round(a)
        elif r.rand() < .5 or not shape:
            a = a * 10.**-r.randint(0, top, n)
        else:
            ax = r.randint(len(shape))
            fac = 10.**-r.randint(0, top, shape[ax])
            a = np.moveaxis(np.moveaxis(a.reshape(shape), ax, -1) * fac, -1, ax)
    elif kind == 'nearreal':  # tiny imaginary parts
        a = r.randn(n)
        if cplx:
            a = a + 1j * r.randn(n) * 10.**-r.randint(
                *((7, 12) if dt == 'c16' else (3, 5)))
        if dt == 'i8':
            a = np.round(3 * a)
    elif kind == 'unit':      # a single one
        a = np.zeros(n)
        a[r.randint(n)] = 1
    else:
        raise ValueError(kind)
    a = np.asarray(a).astype(DT[dt]).reshape(shape)
    if kind == 'dup' and len(shape) >= 2 and shape[-1] > 1:
        # linearly dependent slices along the last (bond) leg
        a = a.copy()
        a[..., -1] = a[..., 0]
    return a


def layout(a, how, r):
    """Same content, different memory layout / flags"""
    if a.ndim == 0:
        return a.copy()
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'strided':
        # (not all axes: the size grows exponentially)
        k = min(a.ndim, 5)
        big = np.zeros(tuple(2 * s for s in a.shape[:k]) + a.shape[k:], a.dtype)
        view = big[(slice(None, None, 2),) * k]
        view[...] = a
        return view
    if how == 'neg':
        return np.ascontiguousarray(a[::-1])[::-1]
    if how == 'ro':
        a = a.copy()
        a.flags.writeable = False
        return a
    return a.copy()


def g_shape(src, nsites, legs=(0, 3), maxdim=4, cap=3000, same_legs=False,
            uniform=None, mindim=1, maxlegs=28):
    """Physical shape; the dense array has at most `cap` entries (and legs:
    numpy supports 32)"""
    lo, hi = legs
    hi = max(lo, min(hi, maxlegs // nsites))
    uniform = src.bool(.3) if uniform is None else uniform
    size = 1
    out = []
    nlegs = src.int(lo, hi) if (same_legs or uniform) else None
    first = None
    for _ in range(nsites):
        n = nlegs if nlegs is not None else src.weighted(
            [(k, 1. if k == 0 else 3.) for k in range(lo, hi + 1)])
        if uniform and first is not None:
            dims = list(first)
            if size * int(np.prod(dims, dtype=object)) > cap:
                dims = [mindim] * n
        else:
            dims = []
            for _ in range(n):
                d = src.weighted([(2, 5), (1, 2), (3, 3), (4, 1), (5, .3)])
                d = max(mindim, min(d, maxdim))
                if size * d > cap:
                    d = mindim
                dims.append(d)
                size *= d
            if uniform:
                first = dims
                size //= int(np.prod(dims, dtype=object))
        if uniform:
            size *= int(np.prod(dims, dtype=object))
        out.append(dims)
    if not uniform and maxdim > 3 and src.bool(.05):
        # one leg with unusually large dimension
        i = src.int(0, nsites - 1)
        if out[i]:
            j = src.int(0, len(out[i]) - 1)
            d = src.int(5, 12)
            if size // out[i][j] * d <= cap:
                out[i][j] = d
    if (not uniform and not same_legs and legs[1] >= max(3, legs[0] + 1)
            and src.bool(.06)):
        # one site with unusually many legs
        i = src.int(0, nsites - 1)
        size = int(np.prod(sum(out, []), dtype=object))
        for _ in range(src.int(1, 3)):
            d = src.int(mindim, 2) if mindim < 2 else mindim
            if size * d <= cap and sum(len(x) for x in out) < maxlegs:
                out[i].insert(src.int(0, len(out[i])), d)
                size *= d
    return out


def g_nsites(src, lo=1, hi=6, big=0):
    """Number of sites; rarely (few sites suffice for most things) up to big"""
    if big > hi and src.bool(.06):
        return src.int(hi + 1, big)
    w = {1: 1.5, 2: 2.5, 3: 3, 4: 3, 5: 2, 6: 1.5, 7: 1, 8: .7}
    return src.weighted([(n, w.get(n, .5)) for n in range(lo, hi + 1)])


def g_ranks(src, nsites, maxrank=5):
    how = src.weighted([('each', 3), ('same', 2), ('one', 1)])
    if how == 'one':
        return [1] * (nsites - 1)
    if how == 'same':
        return [src.int(1, maxrank)] * (nsites - 1)
    if nsites > 1 and maxrank > 3 and src.bool(.04):
        # one bond with unusually large rank
        out = [src.int(1, 3) for _ in range(nsites - 1)]
        out[src.int(0, nsites - 2)] = src.int(maxrank + 1, 16)
        return out
    return [src.weighted([(2, 3), (1, 2), (3, 3)] +
                         [(k, 1) for k in range(4, maxrank + 1)])
            for _ in range(nsites - 1)]


def g_dtypes(src, nsites, allow=('f8', 'c16', 'i8'), single=False):
    w = {'c16': 5, 'f8': 4, 'i8': 1.2, 'f4': .6, 'c8': .6}
    opts = [(d, w[d]) for d in allow]
    if single or src.bool(.8):
        return [src.weighted(opts)] * nsites
    return [src.weighted(opts) for _ in range(nsites)]


def g_mpa(src, nsites=None, shape=None, legs=(0, 3), maxdim=4, maxrank=5,
          cap=3000, lo=1, hi=6, dts=('c16', 'f8', 'i8'), same_legs=False,
          kinds=KINDS, scale=True, cforms=True, layouts=True, mindim=1):
    """Spec of an MPA: local tensors, canonicalization, memory layout"""
    if shape is not None:
        nsites = len(shape)
    if nsites is None:
        nsites = g_nsites(src, lo, hi, 10 if hi >= 6 else 0)
    if shape is None:
        shape = g_shape(src, nsites, legs, maxdim, cap, same_legs,
                        mindim=mindim)
    ranks = g_ranks(src, nsites, maxrank)
    spec = {'shape': shape, 'ranks': ranks,
            'dt': g_dtypes(src, nsites, dts),
            'kind': src.weighted(kinds), 'seed': src.seed()}
    if src.bool(.12):
        spec['kinds'] = [src.weighted(kinds) for _ in range(nsites)]
    if scale and src.bool(.3):
        # global or local rescaling of float tensors
        if src.bool(.5):
            k = src.weighted([(-8, 1), (-20, 1), (-60, .5), (6, 1), (20, 1),
                              (60, .5)])
            pos = src.int(0, nsites - 1)
            spec['scale'] = [k if i == pos else 0 for i in range(nsites)]
        else:
            spec['scale'] = [src.weighted([(0, 2), (-3, 1), (3, 1), (-7, .5),
                                           (7, .5)]) for _ in range(nsites)]
    if cforms and nsites > 1 and src.bool(.55):
        l = src.int(0, nsites - 1)
        r = src.int(l + 1, nsites)
        if src.bool(.3):
            l, r = src.pick([(nsites - 1, nsites), (0, 1)])
        spec['cform'] = [l, r]
        # who canonicalizes: the library or the harness (plus claim)
        spec['by'] = src.pick(['lib', 'own'])
    if layouts and src.bool(.25):
        spec['layout'] = [src.pick(['C', 'F', 'strided', 'neg', 'ro'])
                          for _ in range(nsites)]
    if src.bool(.06):
        spec['cls'] = 'sub'
    return spec


class SubArray(mp.MPArray):
    """A user-defined kind of MPArray"""


class OtherArray(mp.MPArray):
    """Another user-defined kind of MPArray"""


def ltens_of(spec):
    """The local tensors described by the spec (before canonicalization)"""
    r = rs(spec['seed'])
    n = len(spec['shape'])
    ranks = [1] + list(spec['ranks']) + [1]
    out = []
    for i in range(n):
        kind = spec['kinds'][i] if 'kinds' in spec else spec['kind']
        a = rand_array(r, [ranks[i]] + list(spec['shape'][i]) + [ranks[i + 1]],
                       kind, spec['dt'][i])
        k = spec.get('scale', [0] * n)[i]
        if k and a.dtype.kind in 'fc':
            if a.dtype in (np.float32, np.complex64):
                k = max(-1, min(1, k))    # avoid overflow
            a = (a * 10.**k).astype(a.dtype)
        out.append(a)
    return out


def own_canonicalize(lts, l, r):
    """Left-normalize sites < l and right-normalize sites >= r (harness)"""
    lts = [np.array(a) for a in lts]
    for i in range(l):
        a = lts[i]
        q, x = np.linalg.qr(a.reshape((-1, a.shape[-1])))
        lts[i] = q.reshape(a.shape[:-1] + (q.shape[1],))
        lts[i + 1] = np.tensordot(x, lts[i + 1], axes=(1, 0))
    for i in range(len(lts) - 1, r - 1, -1):
        a = lts[i]
        q, x = np.linalg.qr(a.reshape((a.shape[0], -1)).T)
        lts[i] = q.T.reshape((q.shape[1],) + a.shape[1:])
        lts[i - 1] = np.tensordot(lts[i - 1], x.T, axes=(-1, 0))
    return lts


def build_mpa(spec, cls=None):
    """(MPArray, original local tensors) for a spec"""
    cls = cls or (SubArray if spec.get('cls') else mp.MPArray)
    lts = ltens_of(spec)
    orig = [a.copy() for a in lts]
    cf = spec.get('cform')
    if cf and spec['by'] == 'own':
        lts = own_canonicalize(lts, *cf)
    lays = spec.get('layout')
    if lays:
        lts = [layout(a, how, None) for a, how in zip(lts, lays)]
    if cf and spec['by'] == 'own':
        return cls(LocalTensors(lts, cform=tuple(cf))), orig
    mpa = cls(lts)
    if cf:
        mpa.canonicalize(left=cf[0], right=cf[1])
    return mpa, orig


def g_scalar(src):
    kind = src.weighted([('int', 2), ('float', 4), ('complex', 3), ('zero', .4),
                         ('one', .5), ('mone', .5)])
    if kind == 'int':
        v = src.int(-3, 3)
        return {'t': 'int', 'v': v}
    if kind == 'float':
        return {'t': src.pick(['float', 'np64']),
                'v': src.int(-40, 40) / 8.0 * 10.**src.pick([0, 0, -5, 5])}
    if kind == 'complex':
        return {'t': src.pick(['complex', 'npc']),
                'v': [src.int(-16, 16) / 8.0, src.int(-16, 16) / 8.0]}
    return {'t': 'float', 'v': {'zero': 0., 'one': 1., 'mone': -1.}[kind]}


def scalar(s):
    if s['t'] == 'int':
        return int(s['v'])
    if s['t'] == 'float':
        return float(s['v'])
    if s['t'] == 'np64':
        return np.float64(s['v'])
    if s['t'] == 'complex':
        return complex(*s['v'])
    return np.complex128(complex(*s['v']))
