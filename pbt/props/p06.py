"""P06: random-access queue and sampling without replacement."""
import itertools

import numpy as np
from hypothesis import strategies as st

from chainerrl.misc.collections import RandomAccessQueue
from chainerrl.misc.random import sample_n_k

from pbt.core import Suite, check, eq, must_raise
from pbt.gen import SEED, chi2_sf, sized

suite = Suite(
    'P06',
    'a history that pops or drops items and then reads or writes by index; '
    'for sampling 0 < k < n', [])

OP = st.tuples(
    st.sampled_from(['append', 'append', 'append', 'extend', 'pop', 'pop',
                     'get', 'set', 'iter', 'sample', 'bad', 'badset']),
    st.integers(-12, 12), st.integers(0, 5)).map(list)


@suite.facet(st.fixed_dictionaries({
    'init': st.lists(st.integers(), max_size=8),
    'maxlen': st.one_of(st.none(), st.integers(0, 10)),
    'ops': sized(OP, 1, 60)}), quick=2500, shards=4)
def queue(case, note):
    maxlen = case['maxlen']
    q = RandomAccessQueue(case['init'], maxlen=maxlen)
    m = list(case['init'])
    removed = False

    def trim():
        nonlocal m, removed
        if maxlen is not None and len(m) > maxlen:
            m = m[len(m) - maxlen:]
            removed = True
    trim()
    fresh = itertools.count(1000)
    for i, (op, x, y) in enumerate(case['ops']):
        if op == 'append':
            v = next(fresh)
            q.append(v)
            m.append(v)
            trim()
        elif op == 'extend':
            vs = [next(fresh) for _ in range(y)]
            q.extend(iter(vs) if x % 2 else vs)
            m.extend(vs)
            trim()
        elif op == 'pop':
            if m:
                eq(q.popleft(), m.pop(0), 'popleft, op {}'.format(i))
                removed = True
            else:
                with must_raise(IndexError):
                    q.popleft()
        elif op == 'get' and m:
            j = x % len(m) if x >= 0 else -1 - (-x % len(m))
            eq(q[j], m[j], 'index {} of {}'.format(j, len(m)))
            note.nontrivial(removed)
        elif op == 'set' and m:
            j = x % len(m) if x >= 0 else -1 - (-x % len(m))
            v = next(fresh)
            q[j] = v
            m[j] = v
            note.nontrivial(removed)
        elif op == 'bad':
            with must_raise(IndexError):
                q[len(m) + y]
            with must_raise(IndexError):
                q[-len(m) - 1 - y]
        elif op == 'badset':
            with must_raise(IndexError):
                q[len(m) + y] = 0
            with must_raise(IndexError):
                q[-len(m) - 1 - y] = 0
        elif op == 'iter':
            eq(list(q), m, 'iteration, op {}'.format(i))
            eq(list(reversed([q[j] for j in range(len(q))])), m[::-1],
               'all indices')
        elif op == 'sample':
            k = (x + 12) % (len(m) + 1)
            got = q.sample(k)
            eq(len(got), k, 'sample size')
            check(len(set(got)) == k or len(set(m)) < len(m),
                  'repeated item in sample {}', got)
            check(all(v in m for v in got), 'sample {} of {}', got, m)
        eq(len(q), len(m), 'length after op {}'.format(i))
        check(bool(q) == bool(m), 'truth value')
    eq(list(q), m, 'final contents')
    eq([q[j] for j in range(-len(m), 0)], m, 'negative indices')


@suite.facet(st.fixed_dictionaries({
    'n': st.integers(0, 400), 'frac': st.integers(0, 20), 'seed': SEED}),
    quick=1500, shards=2)
def sample_valid(case, note):
    """k distinct positions in range, invalid k rejected."""
    n = case['n']
    k = n * case['frac'] // 20
    np.random.seed(case['seed'])
    for kk in (k, min(n, case['frac'])):
        got = list(sample_n_k(n, kk))
        eq(len(got), kk, 'count')
        check(len(set(int(x) for x in got)) == kk, 'repeated: {}', got)
        check(all(0 <= int(x) < n for x in got), 'out of range: {}', got)
        check(all(int(x) == x for x in got), 'not integers: {}', got)
    note.nontrivial(0 < k < n)
    note.label('dense' if 3 * k >= n else 'sparse')
    for bad in (n + 1 + case['frac'], -1 - case['frac']):
        with must_raise(ValueError):
            sample_n_k(n, bad)


@suite.facet(st.fixed_dictionaries({
    'n': st.integers(2, 40), 'k': st.integers(1, 13), 'seed': SEED}),
    quick=60, shards=6)
def sample_uniform(case, note):
    """Every position and every pair of positions is equally likely."""
    n = case['n']
    k = min(case['k'], n)
    np.random.seed(case['seed'])
    reps = 3000
    single = np.zeros(n)
    first = np.zeros(n)
    near = np.zeros(n)
    for _ in range(reps):
        got = [int(x) for x in sample_n_k(n, k)]
        single[got] += 1
        first[got[0]] += 1
        if k > 1:
            a, b = got[0], got[-1]
            near[(b - a) % n] += 1
    note.nontrivial(k < n)
    # inclusion: z-score of every count
    p = k / n
    sd = np.sqrt(reps * p * (1 - p)) if p < 1 else 0
    dev = np.abs(single - reps * p)
    check((dev <= 8.5 * sd + 1e-6).all(), 'inclusion counts {} of {} draws',
          single.tolist(), reps)
    check(chi2_sf(single, np.full(n, 1 / n)) > 1e-10, 'inclusion counts {}',
          single.tolist())
    if k > 1:
        # distance between the first and the last drawn is uniform too
        check(near[0] == 0, 'position repeated')
        check(chi2_sf(near[1:], np.full(n - 1, 1 / (n - 1))) > 1e-10,
              'pair distances {}', near.tolist())
    check(chi2_sf(first, np.full(n, 1 / n)) > 1e-10, 'first draws {}',
          first.tolist())


@suite.facet(st.fixed_dictionaries({
    'bits': st.integers(7, 21), 'off': st.one_of(
        st.integers(-2, 2), st.integers(-1000000, 1000000)),
    'k': st.one_of(st.integers(1, 3000), st.sampled_from([0.3, 0.34, 0.9])),
    'seed': SEED}), quick=120, shards=2)
def sample_large(case, note):
    """Large populations, in particular around the sizes of integer types."""
    n = max(10, 2 ** case['bits'] + case['off'])
    k = min(n, int(case['k'] if case['k'] >= 1 else case['k'] * n))
    np.random.seed(case['seed'])
    total = np.zeros(16)
    low = np.zeros(4)
    drawn = 0
    while drawn < 3000:
        got = np.asarray(sample_n_k(n, k)).astype('i8')
        eq(got.shape, (k,), 'shape')
        check(got.min() >= 0 and got.max() < n, 'positions from {} to {} of '
              '{}', got.min(), got.max(), n)
        check(len(np.unique(got)) == k, 'repeated positions')
        total += np.bincount(got * 16 // n, minlength=16)
        low += np.bincount(got % 4, minlength=4)
        drawn += k
    size = np.bincount(np.arange(n) * 16 // n, minlength=16) / n
    check(chi2_sf(total, size) > 1e-10, 'positions by sixteenths {}',
          total.tolist())
    check(chi2_sf(low, np.bincount(np.arange(n) % 4, minlength=4) / n) >
          1e-10, 'positions modulo 4 {}', low.tolist())
    note.nontrivial(k < n)
    note.label('n > 32767' if n > 32767 else 'n < 32768')


@suite.facet(st.fixed_dictionaries({
    'maxlen': st.one_of(st.none(), st.integers(1, 3000)),
    'blocks': st.lists(st.tuples(st.sampled_from(['push', 'extend', 'pop']),
                                 st.integers(1, 2000)).map(list),
                       min_size=2, max_size=12), 'seed': SEED}), quick=60)
def queue_large(case, note):
    """Thousands of items, pushed and popped in blocks."""
    r = np.random.RandomState(case['seed'])
    q, m, new = RandomAccessQueue(maxlen=case['maxlen']), [], 0
    popped = False
    for op, k in case['blocks']:
        if op == 'pop':
            for _ in range(min(k, len(m))):
                eq(q.popleft(), m.pop(0), 'popleft')
                popped = True
        else:
            xs = list(range(new, new + k))
            new += k
            if op == 'push':
                for x in xs:
                    q.append(x)
            else:
                q.extend(xs)
            m += xs
            if case['maxlen'] is not None:
                m = m[-case['maxlen']:]
        eq(len(q), len(m), 'length')
        for _ in range(20):
            if m:
                i = r.randint(-len(m), len(m))
                eq(q[i], m[i], 'item {} of {}'.format(i, len(m)))
                q[i] = m[i] = -1 - new
    eq(list(q), m, 'items')
    note.nontrivial(popped and len(m) > 1)
