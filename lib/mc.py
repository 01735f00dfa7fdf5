"""Shared machinery of the model-checking checks.

Every check module defines  run(ctx).  It enumerates its bounded space with the helpers below and
reports through ctx.  Nothing here looks at how /repo's code is written: only at what it does.
"""
import contextlib
import hashlib
import io
import itertools
import json
import math
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('IKBT_REPO', '/repo')
NPROC = max(1, min(8, os.cpu_count() or 1))


class CaseTimeout(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed, only=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.quick = (tier != 'thorough')
        self.t0 = time.time()
        self.viol = []          # (key, text, data)
        self._vkeys = set()
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.level = 'model_checking'
        self.known = load_known(prop)

    # -- counting -------------------------------------------------------------------------------
    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, s, limit=8):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, text, data=None):
        if key in self._vkeys:
            return
        self._vkeys.add(key)
        self.viol.append((key, text, data))

    # -- the end --------------------------------------------------------------------------------
    def finish(self):
        new, old = [], []
        for key, text, data in self.viol:
            (old if key in self.known else new).append((key, text, data))
        cov = dict(self.cov)
        cov['samples'] = self.samples or ['(none)']
        for k in ('states', 'transitions', 'traces_validated_against_impl'):
            if self.level == 'model_checking':
                cov.setdefault(k, 0)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
        for key, text, data in old:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, key, self.known[key]))
        if not new:
            print('OK property=%s %s (%.1fs)' % (self.prop, {k: v for k, v in cov.items() if k != 'samples'},
                                                 time.time() - self.t0))
            return 0
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for key, text, data in new[:10]:
            h = hashlib.sha1(key.encode()).hexdigest()[:10]
            path = os.path.join(rdir, '%s-%s.json' % (self.prop, h))
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'case': key, 'what': text, 'data': data,
                           'replay': 'cd %s && ./run %s %s --only %r' % (VERIF, self.prop, self.tier, key)},
                          f, indent=1, default=str)
                f.write('\n')
            print('  case %s: %s' % (key, str(text)[:600]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        if len(new) > 10:
            print('  (%d more violating cases)' % (len(new) - 10))
        return 1


def load_known(prop):
    """known_findings.txt:  'finding: property=<id> case=<json string> <what fails>'  suppresses exactly that case;
    'fixed: property=<id> <commit> <what failed>'  suppresses nothing."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            head = 'finding: property=%s case=' % prop
            if line.startswith(head):
                case, end = json.JSONDecoder().raw_decode(line[len(head):])
                out[case] = line[len(head) + end:].strip()
    return out


# ------------------------------------------------------------------------------------------------
@contextlib.contextmanager
def quiet():
    """The code under test prints a lot.  Swallow Python level output."""
    o, e = sys.stdout, sys.stderr
    buf = io.StringIO()
    sys.stdout = buf
    try:
        yield buf
    finally:
        sys.stdout, sys.stderr = o, e


@contextlib.contextmanager
def deadline(seconds):
    def on(sig, frm):
        raise CaseTimeout()
    # counted in processor time, so that a busy machine does not look like a hang; the wall clock is only a backstop
    old = signal.signal(signal.SIGPROF, on), signal.signal(signal.SIGALRM, on)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    signal.setitimer(signal.ITIMER_REAL, 6 * seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGPROF, old[0])
        signal.signal(signal.SIGALRM, old[1])


@contextlib.contextmanager
def scratch(files=()):
    """A scratch working directory like the one IKBT expects (it writes relative to the cwd)."""
    d = tempfile.mkdtemp(prefix='ikbtmc.')
    old = os.getcwd()
    for s in ('fk_eqns', 'logs', 'CodeGen/Python', 'CodeGen/Cpp', 'LaTex'):
        os.makedirs(os.path.join(d, s))
    lt = os.path.join(REPO, 'LaTex')
    for f in os.listdir(lt):
        if f.endswith('.tex') and (f.startswith('IK_preamble') or f.startswith('IK_close')):
            shutil.copy(os.path.join(lt, f), os.path.join(d, 'LaTex', f))
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def guarded(fn, *a, seconds=120, **k):
    """('ok', result) or ('exc', 'Type: msg @ where')."""
    try:
        with quiet(), deadline(seconds):
            return ('ok', fn(*a, **k))
    except CaseTimeout:
        return ('exc', 'no answer within %ds' % seconds)
    except SystemExit as e:
        return ('exc', 'SystemExit(%s): the process was told to quit' % (e.code,))
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        w = tb[-1]
        return ('exc', '%s: %s @ %s:%s' % (type(e).__name__, str(e)[:200], os.path.basename(w.filename), w.name))


# ------------------------------------------------------------------------------------------------
def _worker(args):
    fn, item = args
    try:
        return (item, fn(item), None)
    except BaseException as e:  # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        return (item, None, traceback.format_exc())


def pmap(fn, items, chunk=None):
    """Run fn over items on all cores (fork).  A failure inside fn itself is a harness error: re-raised."""
    items = list(items)
    if not items:
        return
    if NPROC == 1 or len(items) == 1:
        for it in items:
            r = _worker((fn, it))
            if r[2]:
                raise RuntimeError('harness error on %r\n%s' % (it, r[2]))
            yield r[0], r[1]
        return
    import multiprocessing as mp
    mpc = mp.get_context('fork')
    if chunk is None:
        chunk = max(1, min(50, len(items) // (NPROC * 6)))
    with mpc.Pool(NPROC) as pool:
        for it, res, err in pool.imap(_worker, [(fn, i) for i in items], chunk):
            if err:
                raise RuntimeError('harness error on %r\n%s' % (it, err))
            yield it, res


class Chooser:
    """Stateless exploration: depth-first over every sequence of answers to choose()."""
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []          # (taken, n)

    def choose(self, n):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if not 0 <= c < n:
            raise RuntimeError('replay diverged: choice %d of %d at point %d' % (c, n, i))
        self.trace.append((c, n))
        return c


def explore(run):
    """run(chooser) once per complete choice sequence; yields what run returned."""
    prefix = []
    while True:
        ch = Chooser(prefix)
        out = run(ch)
        yield out
        tr = ch.trace
        i = len(tr) - 1
        while i >= 0 and tr[i][0] + 1 >= tr[i][1]:
            i -= 1
        if i < 0:
            return
        prefix = [c for c, _ in tr[:i]] + [tr[i][0] + 1]


def close(a, b, tol=1e-7):
    return abs(complex(a) - complex(b)) <= tol * (1 + abs(complex(b)))


def wrap(a):
    return math.atan2(math.sin(a), math.cos(a))
