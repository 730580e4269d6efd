# encoding: utf-8
"""C14: dump() / load() round trip"""
from __future__ import division

import os
import shutil
import tempfile

import numpy as np

import mpnum as mp

from ..engine import Sub, Violation
from ..gen import OtherArray, SubArray, build_mpa, g_mpa, g_nsites
from ..oracle import (check_struct, dense, ensure, fscale, same, snapshot,
                      unchanged, check_mpa)

RULE = """Random MPArrays (1-24 sites, sites without legs, all dtypes including
single precision and integers, any memory layout and canonical form, values over
120 decades), written to a file or to (nested) groups of one file in random
order, files overwritten by other MPArrays, loaded (possibly repeatedly, and
after the file is gone).  Oracle: bit-wise equal local tensors, dtypes and
canonical form; the original unchanged; the loaded object fully usable; an
incomplete record is refused.  Non-trivial: at least two sites."""


def gen(src):
    num = src.int(1, 3)
    mpas = []
    for _ in range(num):
        n = src.weighted([(k, 1.) for k in (2, 1, 3, 4, 5, 6)] +
                         [(11, 1.), (13, .5), (24, .3)])
        mpas.append(g_mpa(src, nsites=n, legs=(0, 3), maxdim=3, maxrank=4,
                          cap=4000, dts=('c16', 'f8', 'i8', 'f4', 'c8')))
    return {'mpas': mpas, 'how': src.pick(['path', 'group', 'file', 'nested']),
            'names': [src.pick(['a', 'x y', '0', '10', 'len', 'deep/er'])
                      + str(i) for i in range(num)],
            'order': src.perm(num), 'twice': src.bool(.3),
            'same_path': src.bool(.4), 'post': src.bool(.5),
            'remove': src.weighted([(None, 3), ('site', 1)]),
            'k': src.int(0, 30),
            'cls': src.weighted([('base', 4), ('sub', 1), ('other', 1)])}


def equal(m, snap, what):
    lts, cf = snap
    check_struct(m, what)
    now = list(m.lt)
    same(len(now), len(lts), what + 'number of sites')
    for i, (x, y) in enumerate(zip(now, lts)):
        same(x.dtype, y.dtype, '%sdtype of site %d' % (what, i))
        same(x.shape, y.shape, '%sshape of site %d' % (what, i))
        ensure(np.array_equal(x, y), '%scontent of site %d differs', what, i)
    same(tuple(int(c) for c in m.canonical_form), tuple(cf),
         what + 'canonical form')


def run(spec, ctx):
    tmp = tempfile.mkdtemp(prefix='c14-', dir=os.environ.get('VERIF_SCRATCH'))
    try:
        inner(spec, ctx, tmp)
    except OSError as exc:
        if exc.errno == 28:
            raise
        raise Violation('dump/load failed: %s' % exc)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def inner(spec, ctx, tmp):
    import h5py
    objs = [build_mpa(s)[0] for s in spec['mpas']]
    snaps = [snapshot(m) for m in objs]
    ctx.nt(any(len(m) > 1 for m in objs), spec['how'])
    if any(len(m) > 10 for m in objs):
        ctx.label('more than 10 sites')
    # load() is a class method: it makes objects of the class it is called on,
    # whatever kind of MPArray was written
    cls = {'base': mp.MPArray, 'sub': SubArray,
           'other': OtherArray}[spec.get('cls', 'base')]
    ctx.label('class ' + cls.__name__)
    loaded = []
    if spec['how'] == 'path':
        if spec['same_path']:
            # a later dump replaces the earlier one completely
            path = os.path.join(tmp, 'f.h5')
            for m, sn in zip(objs, snaps):
                m.dump(path)
                loaded.append(cls.load(path))
        else:
            for i, m in enumerate(objs):
                m.dump(os.path.join(tmp, 'f%d.h5' % i))
            for i in spec['order']:
                cls.load(os.path.join(tmp, 'f%d.h5' % i))
            loaded = [cls.load(os.path.join(tmp, 'f%d.h5' % i))
                      for i in range(len(objs))]
    else:
        path = os.path.join(tmp, 'g.h5')
        if spec['how'] == 'file':
            objs, snaps = objs[:1], snaps[:1]
        with h5py.File(path, 'w') as f:
            for i in spec['order']:
                if i >= len(objs):
                    continue
                if spec['how'] == 'file':
                    objs[i].dump(f)
                elif spec['how'] == 'group':
                    objs[i].dump(f.create_group(spec['names'][i]))
                else:
                    g = f.require_group('top')
                    objs[i].dump(g.create_group(spec['names'][i]))
            if spec['twice']:
                for i in range(len(objs)):
                    g = f if spec['how'] == 'file' else (
                        f if spec['how'] == 'group' else f['top'])[spec['names'][i]]
                    equal(cls.load(g), snaps[i], 'while writing: ')
        with h5py.File(path, 'r') as f:
            for i in range(len(objs)):
                g = f if spec['how'] == 'file' else (
                    f if spec['how'] == 'group' else f['top'])[spec['names'][i]]
                loaded.append(cls.load(g))
        if spec['remove']:
            with h5py.File(path, 'a') as f:
                g = f if spec['how'] == 'file' else (
                    f if spec['how'] == 'group' else f['top'])[spec['names'][0]]
                del g[str(spec['k'] % len(objs[0]))]
                try:
                    cls.load(g)
                except Exception:
                    ctx.label('incomplete refused')
                else:
                    raise Violation('incomplete record was loaded')
    shutil.rmtree(tmp, ignore_errors=True)
    for i, (m, sn) in enumerate(zip(loaded, snaps)):
        equal(m, sn, 'loaded object %d: ' % i)
        ensure(type(m) is cls, 'loaded object %d: %r.load() returned a %r', i,
               cls.__name__, type(m).__name__)
        unchanged(objs[i], sn, 'dumped object: ')
        if spec['post'] and all(t.dtype in (np.float64, np.complex128)
                                for t in sn[0]) and len(m) < 8:
            # the object works like any other
            A, sc = dense(sn[0]), fscale(sn[0])
            m.canonicalize(left=len(m) - 1)
            check_mpa(m, A, sc, 1e-9, what='canonicalized: ')
            m *= 2
            m.lt[0] = np.array(m.lt[0])
            check_mpa(m, 2 * A, sc, 1e-9, what='scaled: ')
            unchanged(objs[i], sn, 'dumped object: ')


SUBS = [Sub('roundtrip', gen, run, 480)]
