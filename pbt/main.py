# encoding: utf-8
"""Command line: python -m pbt.main PROPERTY [--replay FILE] [--cases N]"""
from __future__ import division, print_function

import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import warnings

from . import engine

HERE = engine.HERE

#: how many times more cases than stated in the sub-checks the quick tier runs
#: (those which take longer: once)
FACTOR = {'C10': 1, 'C14': 1.5, 'C16': 2, 'C21': 1, 'C22': 1, 'C25': 1, 'C20': 1.5}


def known_keys(prop):
    """Keys of the findings listed for `prop`: 'known: property=ID key=K text'"""
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith('known: property=%s ' % prop):
                    rest = line.split('key=', 1)[1].strip()
                    key, _, text = rest.partition(' ')
                    out[key] = text
    return out


def write_replay(prop, fail, seed, tier):
    d = os.path.join(HERE, 'replays')
    if not os.path.isdir(d):
        os.makedirs(d)
    path = os.path.join(d, '%s-%s-%s.json' % (
        prop, fail['sub'], engine.spec_hash(fail['spec'])))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, sub=fail['sub'], spec=fail['spec'],
                       history=fail.get('history'), seed=seed, tier=tier,
                       index=fail.get('index'), message=fail['message'],
                       original=fail.get('original')), f, indent=1)
    return path


def do_replay(mod, prop, path):
    with open(path) as f:
        data = json.load(f)
    subs = {s.name: s for s in mod.SUBS}
    for name, spec in data.get('history') or ():
        engine.execute(subs[name], spec, data['tier'])
    _, msg = engine.execute(subs[data['sub']], data['spec'], data['tier'])
    if msg is None:
        print('replay passes: %s' % path)
        return 0
    print(msg)
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def regressions(mod, prop, tier, stats):
    """Committed minimal reproductions of defects found earlier"""
    path = os.path.join(HERE, 'regressions', prop + '.json')
    if not os.path.exists(path):
        return None
    with open(path) as f:
        cases = json.load(f)
    subs = {s.name: s for s in mod.SUBS}
    for case in cases:
        ctx, msg = engine.execute(subs[case['sub']], case['spec'], tier)
        ctx.label('regression')
        stats.add(case['sub'], case['spec'], ctx)
        if msg is not None:
            return dict(sub=case['sub'], spec=case['spec'], message=msg)
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=float, help='scale factor for case counts')
    ap.add_argument('--only', help='comma separated sub-checks')
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--show', type=int, help='print this many specs per sub')
    ap.add_argument('--no-evidence', action='store_true')
    args = ap.parse_args()
    t0 = time.time()
    warnings.simplefilter('ignore')
    prop = args.prop
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))

    repo = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
    try:
        # h5py first and before forking: its late import is flaky on PyPy
        import h5py    # noqa: F401
        import mpnum
        importlib.import_module('mpnum.povm')
    except Exception:
        import traceback
        traceback.print_exc()
        print('ERROR: mpnum cannot be imported')
        return 2
    if not os.path.realpath(mpnum.__file__).startswith(repo + os.sep):
        print('ERROR: mpnum was imported from %s' % mpnum.__file__)
        return 2
    mod = importlib.import_module('pbt.props.' + prop.lower())

    if args.replay:
        return do_replay(mod, prop, args.replay)

    counts = {s.name: (int(s.quick * FACTOR.get(prop, 3)) if tier == 'quick' else
                       s.thorough)
              for s in mod.SUBS}
    if args.only:
        counts = {k: v for k, v in counts.items() if k in args.only.split(',')}
    if args.cases:
        counts = {k: max(1, int(v * args.cases)) for k, v in counts.items()}
    if args.show:
        for s in mod.SUBS:
            if s.name in counts:
                for i in range(args.show):
                    print(s.name, json.dumps(
                        engine.make_case(s, seed, prop, i, tier)[1]))
        return 0

    nworkers = args.workers or min(8, max(2, os.cpu_count() or 2))
    max_time = 420. if tier == 'quick' else 3 * 3600.
    stats = engine.Stats()
    scratch = tempfile.mkdtemp(prefix='vp-%s-' % prop)
    os.environ['VERIF_SCRATCH'] = scratch
    failures, errors, timeout = [], [], False
    try:
        fail = regressions(mod, prop, tier, stats) if not args.only else None
        if fail is not None:
            failures = [fail]
        else:
            stats2, failures, errors, timeout = engine.run_parallel(
                mod, prop, seed, tier, counts, nworkers, max_time, scratch)
            stats.merge(stats2.dump())
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    listed = known_keys(prop)
    for key in sorted(stats.known):
        if key in listed:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, listed[key]))
        elif not failures:
            failures.append(dict(sub=key, spec=key, message=stats.known[key]))
    failures.sort(key=lambda f: (f['sub'], f.get('index') or 0))
    wall = time.time() - t0
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'wall_s': round(wall, 2), 'violations': len(failures),
        'coverage': {
            'evaluations': stats.evals,
            'distinct_nontrivial': len(stats.hashes),
            'rule': ' '.join(mod.RULE.split()),
            'samples': sorted(stats.samples, key=lambda s: s['sub'])[:40],
            'trivial_cases': stats.trivial,
            'per_subcheck': stats.per_sub,
            'classes': stats.labels,
            'known_findings_seen': sorted(stats.known),
            'planned': sum(counts.values()),
            'time_cap_reached': timeout,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + [
            'IEEE double precision numpy/scipy/LAPACK used by the oracle '
            'is correct', 'sampled inputs, bounded sizes: see rule'],
    }
    if not args.no_evidence:
        d = os.path.join(HERE, 'evidence')
        if not os.path.isdir(d):
            os.makedirs(d)
        with open(os.path.join(d, prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True)

    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s%s' % (
        prop, tier, seed, stats.evals, len(stats.hashes), wall,
        ' (time cap reached)' if timeout else ''))
    for fail in failures[:3]:
        path = write_replay(prop, fail, seed, tier)
        print('--- sub-check %s, minimal case:' % fail['sub'])
        print(json.dumps(fail['spec'])[:2000])
        print(fail['message'][:3000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if failures:
        return 1
    if errors:
        print('ERROR in the check (no statement about the property):')
        print('\n'.join(errors)[:5000])
        return 2
    return 0


if __name__ == '__main__':
    sys.stdout.flush()
    sys.exit(main())
