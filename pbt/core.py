"""Small layer over Hypothesis shared by all checks.

A *facet* is one executable statement: a strategy that generates a JSON-able
case and a function that runs the real code on that case and compares it with
an oracle.  A facet is generated, shrunk and replayed by the same function, so
the replay file (the shrunk case) needs no Hypothesis.
"""
import contextlib
import json
import math
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy as np

from pbt import bootstrap


class Violation(Exception):
    """The property does not hold on this case."""


class TooSlow(Violation):
    """The case did not finish in time."""


class HarnessError(Exception):
    """The check itself went wrong; never reported as a violation."""


class Facet(object):

    def __init__(self, name, strategy, run, quick, thorough, shards, max_shrink,
                 limit):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.max_shrink = max_shrink
        self.limit = limit      # seconds a single case may take


class Suite(object):
    """Facets of one property."""

    def __init__(self, pid, rule, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.facets = []
        self.probes = {}

    def facet(self, strategy, quick=200, thorough=None, shards=1,
              max_shrink=40, limit=None):
        """Register a facet; `quick` is the number of cases of a quick run."""
        def deco(f):
            self.facets.append(Facet(
                f.__name__, strategy, f, quick,
                thorough if thorough is not None else quick * 40,
                shards, max_shrink, limit or CASE_SECONDS))
            return f
        return deco

    def probe(self, f):
        """Register what shows a known finding: raises while it is there."""
        self.probes[f.__name__] = f
        return f

    def add(self, name, strategy, run, **kw):
        """Register a facet under another name than its function's."""
        def f(case, note):
            return run(case, note)
        f.__name__ = name
        return self.facet(strategy, **kw)(f)


class Note(object):
    """What a case reports about itself."""

    def __init__(self):
        self.is_nontrivial = False
        self.labels = []
        self.info = None

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, *names):
        self.labels.extend(names)


# ---------------------------------------------------------------- oracles

def check(cond, msg='', *args):
    if not cond:
        raise Violation(msg.format(*args) if args else str(msg))


def arr(x):
    """Variable, ndarray, list or scalar -> ndarray."""
    import chainer
    if isinstance(x, chainer.Variable):
        x = x.array
    return np.asarray(x)


def close(got, want, msg='', rtol=1e-4, atol=1e-5):
    try:
        g = arr(got).astype(np.float64)
        w = arr(want).astype(np.float64)
    except (TypeError, ValueError) as e:
        raise Violation('{}: not numeric: {!r} vs {!r} ({})'.format(
            msg, got, want, e))
    if g.shape != w.shape:
        raise Violation('{}: shape {} != {}: {!r} vs {!r}'.format(
            msg, g.shape, w.shape, g.tolist(), w.tolist()))
    if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
        raise Violation('{}: got {} want {}'.format(
            msg, _short(g.tolist()), _short(w.tolist())))


def same(a, b):
    """Exact equality of nested Python / ndarray values."""
    import chainer
    if isinstance(a, chainer.Variable):
        a = a.array
    if isinstance(b, chainer.Variable):
        b = b.array
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            a_, b_ = np.asarray(a), np.asarray(b)
        except ValueError:
            return False
        if a_.shape != b_.shape:
            return False
        if a_.dtype == object or b_.dtype == object:
            return all(same(x, y) for x, y in zip(a_.ravel(), b_.ravel()))
        return bool(np.array_equal(a_, b_))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    try:
        r = a == b
    except Exception:
        return False
    if isinstance(r, np.ndarray):
        return bool(r.all())
    if isinstance(a, float) and isinstance(b, float) and \
            math.isnan(a) and math.isnan(b):
        return True
    return bool(r)


def eq(got, want, msg=''):
    if not same(got, want):
        raise Violation('{}: got {} want {}'.format(
            msg, _short(got), _short(want)))


def _short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


@contextlib.contextmanager
def must_raise(*types):
    try:
        yield
    except types:
        return
    raise Violation('expected one of {} to be raised'.format(
        [t.__name__ for t in types]))


@contextlib.contextmanager
def scratch_dir():
    d = tempfile.mkdtemp(prefix='pbt_')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet_stdout():
    """Drop what the code prints (it must not look like a verdict)."""
    with open(os.devnull, 'w') as f, contextlib.redirect_stdout(f):
        yield


# ---------------------------------------------------------------- running

def seed_all(n):
    random.seed(n)
    np.random.seed(n % (2 ** 32))


def case_key(case):
    return zlib.crc32(json.dumps(case, sort_keys=True).encode())


def classify(exc):
    """'violation' or 'error' for an exception that left a facet.

    A crash inside the code under test on a generated, valid input breaks the
    property, and so does an output that an oracle cannot even process (the
    same oracle processes every output of the unchanged tree).  What says
    that the harness and the code do not fit together, such as a name that is
    gone, is an error of the check.
    """
    if isinstance(exc, Violation):
        return 'violation'
    if isinstance(exc, (HarnessError, MemoryError, ImportError)):
        return 'error'
    own = os.path.join(bootstrap.HERE, 'pbt')
    code = os.path.join(os.path.realpath(bootstrap.REPO), 'chainerrl')
    last = None
    seen_code = False
    tb = exc.__traceback__
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(own + os.sep):
            last = 'harness'
        elif f.startswith(code + os.sep):
            last = 'code'
            seen_code = True
        tb = tb.tb_next
    if last == 'code':
        return 'violation'
    if isinstance(exc, NameError):
        return 'error'
    if isinstance(exc, AttributeError):
        name = getattr(exc, 'name', None) or ''
        obj = getattr(exc, 'obj', None)
        gone = name.startswith('_') or isinstance(obj, type(os)) or \
            (type(obj).__module__ or '').startswith('chainerrl') or \
            isinstance(obj, type)
        return 'error' if gone and not seen_code else 'violation'
    return 'violation'


WORKER_BYTES = 6 << 30
CASE_SECONDS = 100      # cases take well under a second




def run_case(facet, case):
    note = Note()
    seed_all(case_key(case))

    def _too_slow(signum, frame):
        raise TooSlow('the case did not finish within {} s'.format(
            facet.limit))
    signal.signal(signal.SIGALRM, _too_slow)
    signal.alarm(facet.limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            facet.run(case, note)
    except MemoryError:
        too_large = True
    else:
        too_large = False
    finally:
        signal.alarm(0)
    if too_large:
        raise TooSlow('the case ran out of memory')
    return note


class Result(object):

    def __init__(self, facet, shard):
        self.facet = facet
        self.shard = shard
        self.evaluations = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self.failure = None   # (case, message, traceback)
        self.error = None
        self.wall = 0.0
        self.exhausted = False


class Hangs(BaseException):
    """A case did not finish in time: it is not shrunk."""


class OutOfTime(BaseException):
    """The time this worker was given is over; what it explored counts."""


def run_facet(facet, shard, seed, n, seconds=None):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = facet.max_shrink

    res = Result(facet.name, shard)
    t0 = time.time()
    last_fail = []

    @hypothesis.seed(zlib.crc32(
        '{}:{}:{}'.format(seed, facet.name, shard).encode()))
    @settings(max_examples=n, database=None, deadline=None,
              print_blob=False, report_multiple_bugs=False,
              phases=(Phase.generate, Phase.shrink),
              suppress_health_check=[
                  HealthCheck.too_slow, HealthCheck.data_too_large,
                  HealthCheck.large_base_example])
    @given(facet.strategy)
    def t(case):
        if seconds and not last_fail and time.time() - t0 > seconds:
            raise OutOfTime()
        try:
            note = run_case(facet, case)
        except Exception as e:
            if type(e).__module__.startswith('hypothesis'):
                raise
            last_fail[:] = [(case, e, traceback.format_exc(limit=-30),
                             classify(e))]
            if isinstance(e, TooSlow):
                raise Hangs()
            raise
        if not last_fail:
            res.evaluations += 1
            for l in note.labels:
                res.labels[l] = res.labels.get(l, 0) + 1
            if note.is_nontrivial:
                k = case_key(case)
                if k not in res.keys:
                    res.keys.add(k)
                    if len(res.samples) < 2 and \
                            len(res.keys) in (1, 25):
                        res.samples.append(case)

    try:
        t()
    except OutOfTime:
        res.exhausted = True
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        if last_fail:
            case, exc, tb, kind = last_fail[0]
            if kind == 'error':
                res.error = 'error in harness: ' + tb
            else:
                # run it again outside Hypothesis
                for _ in range(1 if isinstance(exc, TooSlow) else 10):
                    try:
                        run_case(facet, case)
                    except Exception as e2:
                        if classify(e2) == 'violation':
                            res.failure = (case, '{}: {}'.format(
                                type(e2).__name__, e2),
                                traceback.format_exc(limit=-30))
                            break
                else:
                    if isinstance(exc, (TooSlow, OSError)):
                        res.error = 'failure did not repeat: ' + tb
                    else:
                        # it depends on timing or on what ran before
                        res.failure = (
                            case, '{}: {} (seen once, not in {} further '
                            'runs of the case)'.format(
                                type(exc).__name__, exc, 10), tb)
        else:
            res.error = traceback.format_exc(limit=-30)
    res.wall = time.time() - t0
    return res


def _worker(facet, shard, seed, n, seconds, conn):
    import logging
    logging.disable(logging.CRITICAL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.stdout = open(os.devnull, 'w')
    sys.stderr = open(os.devnull, 'w')
    resource.setrlimit(resource.RLIMIT_AS, (WORKER_BYTES, WORKER_BYTES))
    try:
        res = run_facet(facet, shard, seed, n, seconds)
    except BaseException:
        res = Result(facet.name, shard)
        res.error = traceback.format_exc(limit=-30)
    conn.send(res)
    conn.close()
    os._exit(0)


def run_suite(suite, tier, seed, jobs=8, soft=600, hard=840, only=None,
              scale=1.0):
    """Run all facets of a suite, several at a time, in forked workers.

    Workers share `soft` seconds fairly and stop exploring when theirs are
    over; after `hard` seconds the check gives up.
    """
    import multiprocessing as mp
    from multiprocessing import connection
    ctx = mp.get_context('fork')
    todo = []
    chosen = [f for f in suite.facets if not only or f.name in only]
    for f in chosen:
        n = max(1, int((f.quick if tier == 'quick' else f.thorough) * scale))
        shards = f.shards
        if tier != 'quick':
            shards = max(shards, 4, -(-2 * jobs // max(1, len(chosen))))
        shards = min(shards, n)
        for s in range(shards):
            k = n // shards + (1 if s < n % shards else 0)
            if k:
                todo.append((f, s, k))
    # the most expensive ones first is not known; keep the declared order
    running = {}
    results = []
    start = time.time()
    deadline = start + hard
    while todo or running:
        while todo and len(running) < jobs:
            f, s, k = todo.pop(0)
            r, w = ctx.Pipe(duplex=False)
            seconds = max(5.0, (start + soft - time.time()) * min(
                1.0, jobs / (len(todo) + len(running) + 1)))
            p = ctx.Process(target=_worker, args=(f, s, seed, k, seconds, w))
            p.start()
            w.close()
            running[r] = (p, f, s)
        ready = connection.wait(list(running), timeout=1.0)
        for r in ready:
            p, f, s = running.pop(r)
            try:
                res = r.recv()
            except EOFError:
                res = Result(f.name, s)
                res.error = 'worker died'
            r.close()
            p.join(10)
            results.append(res)
        if time.time() > deadline:
            for r, (p, f, s) in running.items():
                p.kill()
                res = Result(f.name, s)
                res.error = 'time budget of the check ran out (inconclusive)'
                results.append(res)
            for f, s, k in todo:
                res = Result(f.name, s)
                res.error = 'not started: time budget ran out'
                results.append(res)
            break
    return results
