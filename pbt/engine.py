# encoding: utf-8
"""A small property-based testing engine (Hypothesis does not exist for the
interpreter the code under test needs).

* `Src` hands out choices.  Every choice is an integer in ``range(n)``, the
  whole case is a pure function of the sequence of choices.
* A `Sub` (sub-check) is a generator ``gen(src) -> spec`` (JSON-able) together
  with ``run(spec, ctx)`` which executes the case against the real code and
  raises on a violation.
* On failure, the choice sequence is shrunk (shorter, then smaller), the spec
  of the smallest failing case becomes the replay file.
"""
from __future__ import division

import errno
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(AssertionError):
    """The property does not hold for the case."""


class KnownFinding(Exception):
    """The case shows a defect that is listed in known_findings.txt"""

    def __init__(self, key, text=''):
        Exception.__init__(self, key, text)
        self.key = key
        self.text = text


class HarnessError(Exception):
    """Something is wrong with the check itself."""


class Src(object):
    """Source of choices; replays `prefix`, then random (or zeros)."""

    LIMIT = 3000

    def __init__(self, rng=None, prefix=()):
        self.rng = rng
        self.prefix = prefix
        self.taken = []

    def _draw(self, n, rnd):
        """Choice in range(n); `rnd` makes the random one"""
        pos = len(self.taken)
        if pos >= self.LIMIT:
            raise HarnessError('generator uses too many choices')
        if pos < len(self.prefix):
            val = min(self.prefix[pos], n - 1)
        elif self.rng is not None:
            val = rnd(self.rng)
        else:
            val = 0
        self.taken.append(val)
        return val

    def int(self, lo, hi):
        """Uniform integer lo <= i <= hi, shrinks to `lo`"""
        assert hi >= lo
        n = hi - lo + 1
        return lo + self._draw(n, lambda r: r.randrange(n))

    def pick(self, seq):
        """Uniform choice, shrinks to the first item"""
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, pairs):
        """Choice from ((value, weight), ...), shrinks to the first one"""
        total = sum(w for _, w in pairs)

        def rnd(r):
            x = r.random() * total
            for i, (_, w) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1
        return pairs[self._draw(len(pairs), rnd)][0]

    def bool(self, p=0.5):
        return self._draw(2, lambda r: int(r.random() < p)) == 1

    def seed(self):
        """Seed for the content of arrays"""
        return self._draw(2**31, lambda r: r.randrange(2**31))

    def perm(self, n):
        out, left = [], list(range(n))
        while left:
            out.append(left.pop(self.int(0, len(left) - 1)))
        return out

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.bool(p)]

    def list(self, lo, hi, fun):
        return [fun() for _ in range(self.int(lo, hi))]


class Ctx(object):
    """What a case tells about itself"""

    def __init__(self, tier='quick'):
        self.labels = []
        self.nontrivial = False
        self.tier = tier

    def label(self, name):
        self.labels.append(name)

    def nt(self, cond=True, label=None):
        """Mark the case non-trivial"""
        if cond:
            self.nontrivial = True
            if label:
                self.labels.append(label)


class Sub(object):
    def __init__(self, name, gen, run, quick, thorough=None, group=None,
                 npint=True):
        self.name, self.gen, self.run = name, gen, run
        # the integers of a case may be passed as numpy integers
        self.npint = npint
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12


def spec_hash(spec):
    return hashlib.sha1(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:16]


def seed_numpy(spec):
    import numpy as np
    np.random.seed(int(spec_hash(spec)[:8], 16) % (2**32))


#: raised by the environment, never by the property
ENV_ERRORS = (MemoryError, OSError, KeyboardInterrupt, HarnessError)


def numpy_ints(obj):
    """The same case with numpy integers in place of Python integers"""
    import numpy as np
    if isinstance(obj, int) and not isinstance(obj, bool) \
            and abs(obj) < 2**31:
        return np.int64(obj)
    if isinstance(obj, list):
        return [numpy_ints(x) for x in obj]
    if isinstance(obj, dict):
        return {k: numpy_ints(v) for k, v in obj.items()}
    return obj


def add_flags(sub, spec, src):
    """Choices common to all sub-checks, made last"""
    if sub.npint and isinstance(spec, dict) and src.bool(.06):
        spec['npint'] = True
    return spec


def execute(sub, spec, tier):
    """Run one case: (ctx, None) or (ctx, description of the violation)"""
    ctx = Ctx(tier)
    # the case must not be able to modify what is reported as the case
    spec = json.loads(json.dumps(spec))
    seed_numpy(spec)
    if isinstance(spec, dict) and (spec.get('npint') or (
            sub.npint and os.environ.get('VERIF_NPINT'))):
        ctx.label('numpy integers')
        spec = numpy_ints(spec)
    try:
        sub.run(spec, ctx)
    except (MemoryError, OSError) as exc:
        # raised by mpnum while there is enough memory and disk space?
        import mpnum
        root = os.path.dirname(os.path.abspath(mpnum.__file__)) + os.sep
        if getattr(exc, 'errno', None) in (
                errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EIO,
                errno.ENOMEM, errno.EDQUOT, errno.EROFS) or not any(
                os.path.abspath(f[0]).startswith(root)
                for f in traceback.extract_tb(sys.exc_info()[2])):
            raise
        return ctx, '%s: %s\n%s' % (type(exc).__name__, exc,
                                    traceback.format_exc()[-3000:])
    except ENV_ERRORS:
        raise
    except KnownFinding as exc:
        ctx.labels.append('known-finding')
        ctx.known = (exc.key, exc.text)
    except Violation as exc:
        return ctx, 'Violation: %s' % exc
    except Exception as exc:
        tb = traceback.format_exc()
        return ctx, '%s: %s\n%s' % (type(exc).__name__, exc, tb[-3000:])
    return ctx, None


def make_case(sub, seed, prop, i, tier):
    src = Src(random.Random('%s:%s:%s:%s' % (seed, prop, sub.name, i)))
    src.tier = tier
    try:
        spec = add_flags(sub, sub.gen(src), src)
    except Exception:
        raise HarnessError('generator %s failed:\n%s'
                           % (sub.name, traceback.format_exc()))
    return src.taken, spec


def replay_choices(sub, choices, tier):
    src = Src(None, choices)
    src.tier = tier
    return src, add_flags(sub, sub.gen(src), src)


def shrink(sub, choices, spec, msg, tier, max_evals=250, max_time=25.):
    """Shrink the choice sequence of a failing case"""
    t0 = time.time()
    best, best_spec, best_msg = list(choices), spec, msg
    seen = set()
    evals = [0]

    def attempt(cand):
        key = tuple(cand)
        if key in seen or evals[0] >= max_evals or time.time() - t0 > max_time:
            return None
        seen.add(key)
        try:
            src, spec = replay_choices(sub, cand, tier)
        except Exception:
            return None
        taken = src.taken
        if (len(taken), taken) >= (len(best), best):
            return None
        evals[0] += 1
        try:
            _, m = execute(sub, spec, tier)
        except Exception:
            return None
        return None if m is None else (taken, spec, m)

    improved = True
    while improved and evals[0] < max_evals and time.time() - t0 < max_time:
        improved = False
        for size in (16, 8, 4, 2, 1):            # delete blocks
            pos = len(best) - size
            while pos >= 0:
                res = attempt(best[:pos] + best[pos + size:])
                if res:
                    best, best_spec, best_msg = res
                    improved = True
                pos = min(pos - 1, len(best) - size)
        for pos in range(len(best)):             # make values smaller
            if pos >= len(best):
                break
            for new in (0, best[pos] // 2, best[pos] - 1):
                if pos < len(best) and 0 <= new < best[pos]:
                    res = attempt(best[:pos] + [new] + best[pos + 1:])
                    if res:
                        best, best_spec, best_msg = res
                        improved = True
                        break
    return best_spec, best_msg, evals[0]


class Stats(object):
    def __init__(self):
        self.evals = 0
        self.hashes = set()
        self.labels = {}
        self.per_sub = {}
        self.samples = []
        self.known = {}
        self.trivial = 0

    def add(self, sub, spec, ctx):
        self.evals += 1
        self.per_sub[sub] = self.per_sub.get(sub, 0) + 1
        for lab in set(ctx.labels):
            lab = sub + '/' + lab
            self.labels[lab] = self.labels.get(lab, 0) + 1
        if ctx.nontrivial:
            self.hashes.add(spec_hash([sub, spec]))
        else:
            self.trivial += 1
        if getattr(ctx, 'known', None):
            self.known[ctx.known[0]] = ctx.known[1]

    def dump(self):
        return dict(evals=self.evals, hashes=sorted(self.hashes),
                    labels=self.labels, per_sub=self.per_sub,
                    samples=self.samples, known=self.known,
                    trivial=self.trivial)

    def merge(self, d):
        self.evals += d['evals']
        self.hashes.update(d['hashes'])
        for k, v in d['labels'].items():
            self.labels[k] = self.labels.get(k, 0) + v
        for k, v in d['per_sub'].items():
            self.per_sub[k] = self.per_sub.get(k, 0) + v
        self.samples.extend(d['samples'])
        self.known.update(d['known'])
        self.trivial += d['trivial']


#: seconds after which a single case (normally below one second) is reported
HANG = 300.


def todo_list(counts):
    todo = []
    for name in sorted(counts):
        n = counts[name]
        todo.extend(((i + 0.5) / n, name, i) for i in range(n))
    todo.sort()
    return todo


def worker(mod, prop, seed, tier, widx, nworkers, counts, outpath, deadline,
           skip=()):
    """Run the share of worker `widx`; writes a JSON result

    The case which is being executed is noted in `outpath` + '.at', so that
    the parent knows where to go on if the interpreter itself crashes; `skip`:
    numbers of such cases.  The statistics up to the last checkpoint are kept
    in `outpath` + '.part'.
    """
    subs = {s.name: s for s in mod.SUBS}
    stats = Stats()
    first = -1
    if os.path.exists(outpath + '.part'):
        with open(outpath + '.part') as f:
            part = json.load(f)
        stats.merge(part['stats'])
        first = part['num']
    at = os.open(outpath + '.at', os.O_WRONLY | os.O_CREAT, 0o600)
    since = 0
    result = {'failure': None, 'error': None, 'timeout': False}
    # interleave the sub-checks so that all of them get their share even if
    # the safety deadline is reached
    todo = todo_list(counts)
    history = []
    try:
        for num, (_, name, i) in enumerate(todo):
            if num % nworkers != widx or num <= first or num in skip:
                continue
            os.pwrite(at, ('%12d' % num).encode(), 0)
            since += 1
            if since % 100 == 0:
                with open(outpath + '.tmp', 'w') as f:
                    json.dump({'stats': stats.dump(), 'num': last}, f)
                os.rename(outpath + '.tmp', outpath + '.part')
            last = num
            if time.time() > deadline:
                result['timeout'] = True
                break
            sub = subs[name]
            choices, spec = make_case(sub, seed, prop, i, tier)
            ctx, msg = execute(sub, spec, tier)
            stats.add(name, spec, ctx)
            if i == 1 or (i == 0 and counts[name] == 1):
                stats.samples.append({'sub': name, 'case': spec,
                                      'labels': sorted(set(ctx.labels))})
            if msg is None:
                history.append([name, spec])
                continue
            # does it fail on its own?
            _, msg2 = execute(sub, spec, tier)
            if msg2 is not None:
                small, small_msg, n = shrink(sub, choices, spec, msg2, tier)
                result['failure'] = dict(sub=name, index=i, spec=small,
                                         message=small_msg, original=spec,
                                         shrink_evals=n)
            else:
                # depends on what ran before: keep the whole history
                result['failure'] = dict(
                    sub=name, index=i, spec=spec, original=spec,
                    message=msg + '\n(only after the cases in `history`)',
                    history=history, shrink_evals=0, num=num)
            break
    except ENV_ERRORS as exc:
        result['error'] = '%s: %s\n%s' % (type(exc).__name__, exc,
                                          traceback.format_exc()[-3000:])
    except Exception:
        result['error'] = traceback.format_exc()[-3000:]
    result['stats'] = stats.dump()
    tmp = outpath + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(result, f)
    os.rename(tmp, outpath)


def run_parallel(mod, prop, seed, tier, counts, nworkers, max_time, scratch):
    """Fork workers, merge what they report"""
    t0 = time.time()
    deadline = t0 + max_time
    skips = {w: [] for w in range(nworkers)}

    def start(w):
        out = os.path.join(scratch, 'w%d.json' % w)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                worker(mod, prop, seed, tier, w, nworkers, counts, out,
                       deadline, skips[w])
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        left[pid] = (w, out)

    left = {}
    for w in range(nworkers):
        start(w)
    stats = Stats()
    failures, errors, timeout = [], [], False
    failed_at = None
    stuck = {}
    seen = time.time()
    while left:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.time()
            # A case which does not come to an end.  Only time in which this
            # process was running is counted.
            step, seen = min(max(now - seen, 0), .5), now
            for p, (w, out) in left.items():
                try:
                    with open(out + '.at') as f:
                        num = f.read()
                except IOError:
                    continue
                if stuck.get(w, (None,))[0] != num:
                    stuck[w] = (num, 0.)
                stuck[w] = (num, stuck[w][1] + step)
                if stuck[w][1] > HANG and not failed_at and num.strip():
                    name, i = todo_list(counts)[int(num)][1:]
                    sub = [x for x in mod.SUBS if x.name == name][0]
                    failures.append(dict(
                        sub=name, index=i,
                        spec=make_case(sub, seed, prop, i, tier)[1],
                        message='does not terminate within %d s' % HANG))
                    failed_at = now - 40
            if now > deadline + 60 or (failed_at and now > failed_at + 40):
                for p in left:      # stuck in a single case / not needed
                    os.kill(p, signal.SIGKILL)
                if not failed_at:
                    timeout = True
                for p in left:
                    os.waitpid(p, 0)
                break
            time.sleep(0.05)
            continue
        w, out = left.pop(pid)
        if not os.path.exists(out):
            # A crash of the interpreter is no statement about mpnum: the
            # case is left out (and counted), the worker goes on after it.
            if os.WIFSIGNALED(status) and os.path.exists(out + '.at') \
                    and len(skips[w]) < 20:
                with open(out + '.at') as f:
                    skips[w].append(int(f.read()))
                stats.labels['interpreter crashed'] = \
                    stats.labels.get('interpreter crashed', 0) + 1
                start(w)
                continue
            errors.append('worker %d died (status %r)' % (w, status))
            continue
        with open(out) as f:
            res = json.load(f)
        fail = res['failure']
        if fail and fail.get('history') is not None and len(skips[w]) < 20 \
                and not confirm(mod, fail, tier):
            # Passes on its own, and in a new process after the same history:
            # nothing that could be replayed.
            stats.labels['not reproducible'] = \
                stats.labels.get('not reproducible', 0) + 1
            skips[w].append(fail['num'])
            os.remove(out)
            start(w)
            continue
        stats.merge(res['stats'])
        timeout = timeout or res['timeout']
        if res['error']:
            errors.append(res['error'])
        if fail:
            failures.append(fail)
            failed_at = failed_at or time.time()
    return stats, failures, errors, timeout


def confirm(mod, fail, tier):
    """Does the failure occur again after the same history (in a new process)?
    """
    subs = {s.name: s for s in mod.SUBS}
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            for name, spec in fail['history']:
                execute(subs[name], spec, tier)
            if execute(subs[fail['sub']], fail['spec'], tier)[1] is not None:
                code = 0
        finally:
            os._exit(code)
    return os.waitpid(pid, 0)[1] == 0
