#!/usr/bin/env python3
"""Development tool: try planted bugs in scratch copies of /repo.

usage: seedtool.py BUGS.py [ids...] [--keep] [-j N] [--no-tests]

BUGS.py defines BUGS, a list of dicts with keys
  id, prop, file, edits [(old, new), ...], demo (python source), needs, breaks
For every bug: copy /repo to a scratch directory, apply the edits, run the
repository's tests, the demo (with and without the change) and the check of
the property against the copy.  With --keep, bugs which count are written to
/verif/seeded/<id>.  Not used by any check.
"""
import argparse, concurrent.futures as cf, importlib.util, json, os, shutil
import subprocess, sys, tempfile
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('SEED_REPO', '/repo')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO_SH = '''#!/bin/bash
# exit 0: the behaviour is intact; nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, timeout=1500, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1')
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           universal_newlines=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        return 124, 'timeout'


def run_tests(cwd, out):
    sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
        '--tb=no', '--continue-on-collection-errors', '--benchmark-disable',
        '-m', 'not verylong', '--junitxml=' + out], cwd)
    try:
        root = ET.parse(out).getroot()
    except Exception:
        return None
    sys.path.insert(0, '/opt/vp')
    bad = []
    n = 0
    for tc in root.iter('testcase'):
        n += 1
        if any(c.tag in ('failure', 'error') for c in tc):
            bad.append(tc.get('classname', '') + '::' + tc.get('name', ''))
    return n, [b for b in bad if 'random_mpa' not in b]


def one(bug, args):
    d = tempfile.mkdtemp(prefix='seed_', dir='/tmp/w')
    res = dict(id=bug['id'], prop=bug['prop'])
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree(REPO, repo, symlinks=True,
                        ignore=shutil.ignore_patterns('__pycache__'))
        edits = bug['edits']
        for ed in edits:
            if len(ed) == 3:
                f, old, new = ed
            else:
                f, (old, new) = bug['file'], ed
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                res['error'] = 'edit matches %d times: %r' % (s.count(old), old[:50])
                return res
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], repo)[1]
        ddir = os.path.join(d, 'demo')
        os.mkdir(ddir)
        open(os.path.join(ddir, 'demo.py'), 'w').write(bug['demo'])
        open(os.path.join(ddir, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(ddir, 'demo.sh'), 0o755)
        rc0, o0 = sh(['bash', os.path.join(ddir, 'demo.sh')], REPO, 300)
        rc1, o1 = sh(['bash', os.path.join(ddir, 'demo.sh')], repo, 300)
        res['demo'] = (rc0, rc1)
        if rc0 != 0 or rc1 == 0:
            res['demo_out'] = (o0[-400:], o1[-400:])
        if not args.no_tests:
            t = run_tests(repo, os.path.join(d, 'r.xml'))
            res['tests'] = (None if t is None else (t[0], t[1][:4], len(t[1])))
            ok_tests = t is not None and not t[1]
        else:
            ok_tests = True
        props = [bug['prop']] + list(args.props or [])
        res['check'] = {}
        for p in props:
            rc, o = sh(['bash', os.path.join(VERIF, 'run.sh'), p, 'quick',
                        '--no-evidence', '--workers', str(args.workers)], VERIF,
                       1200, {'VERIF_REPO': repo, 'VERIF_SEED': str(args.seed)})
            res['check'][p] = rc
            res['check_out'] = [l for l in o.splitlines() if 'VIOLATION' in l or 'what' in l][:2] or o.splitlines()[-2:]
        res['counts'] = bool(ok_tests and rc0 == 0 and rc1 != 0)
        if args.keep and res['counts'] and not args.no_tests:
            s = os.path.join(VERIF, 'seeded', bug['id'])
            shutil.rmtree(s, ignore_errors=True)
            shutil.copytree(ddir, s)
            open(os.path.join(s, 'patch.diff'), 'w').write(diff)
            json.dump({'property': bug['prop'], 'needs': bug['needs'],
                       'what_it_breaks': bug['breaks']},
                      open(os.path.join(s, 'meta.json'), 'w'), indent=1)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('bugs')
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--no-tests', action='store_true')
    ap.add_argument('-j', type=int, default=4)
    ap.add_argument('--workers', type=int, default=2)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--props', nargs='*')
    args = ap.parse_args()
    spec = importlib.util.spec_from_file_location('bugs', args.bugs)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    bugs = [b for b in m.BUGS if not args.ids or b['id'] in args.ids]
    with cf.ThreadPoolExecutor(args.j) as ex:
        for f in cf.as_completed([ex.submit(one, b, args) for b in bugs]):
            print(json.dumps(f.result()), flush=True)


main()
