"""P20: explorers."""
import chainer
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from chainerrl import action_value, explorers

from pbt.core import Suite, check, close
from pbt.gen import SEED, chi2_sf, floats, rng

suite = Suite(
    'P20',
    'the explorer both explored and acted greedily, or added noise',
    ['Frequencies and noise distributions are tested with a false-alarm '
     'probability below 1e-10 per case'])

STEP = st.one_of(st.integers(0, 30), st.integers(0, 3000),
                 st.sampled_from([0, 1, 10 ** 6, 10 ** 9]))


class Counter(object):
    """Action sources that log their calls."""

    def __init__(self):
        self.greedy = np.array([1.0, 2.0], 'f')
        self.calls = []

    def random(self):
        self.calls.append('random')
        return len(self.calls)

    def best(self):
        self.calls.append('greedy')
        return self.greedy


def one_step(ex, t, c, **kw):
    """A step; returns whether it was greedy."""
    del c.calls[:]
    a = ex.select_action(t, c.best, **kw)
    check(c.calls in (['random'], ['greedy']), 'action sources called: {}',
          c.calls)
    if c.calls == ['greedy']:
        check(a is c.greedy and (a == np.array([1.0, 2.0])).all(),
              'the greedy action was changed')
        return True
    check(a == 1 and isinstance(a, int), 'the random action was changed')
    return False


def frequency(ex, t, c, eps, n, what):
    k = sum(not one_step(ex, t, c) for _ in range(n))
    if eps in (0, 1):
        check(k == n * eps, '{}: explored {} of {} times', what, k, n)
    else:
        pv = stats.binomtest(k, n, eps).pvalue
        check(pv > 1e-11, '{}: explored {} of {} times with epsilon {}',
              what, k, n, eps)
    return 0 < k < n


@suite.facet(st.fixed_dictionaries({
    'start': floats(0, 1), 'end': floats(0, 1),
    'steps': st.one_of(st.integers(0, 30), st.integers(0, 10 ** 6)),
    'ts': st.lists(STEP, min_size=1, max_size=12),
    'seed': SEED}), quick=250, shards=3)
def linear_decay(case, note):
    np.random.seed(case['seed'])
    c = Counter()
    s, e, n = case['start'], case['end'], case['steps']
    ex = explorers.LinearDecayEpsilonGreedy(s, e, n, c.random)
    edge = [0, n - 1, n, n + 1, n // 2]
    ts = case['ts'] + [t for t in edge if t >= 0]
    got = {}
    for i, t in enumerate(ts):
        one_step(ex, t, c)
        got[t] = ex.epsilon
        want = e if t >= n else s + (e - s) * t / n
        close(ex.epsilon, want, 'epsilon at step {}'.format(t), rtol=1e-6,
              atol=1e-9)
        check(0 <= ex.epsilon <= 1, 'epsilon {}', ex.epsilon)
        repr(ex)
    order = [got[t] for t in sorted(got)]
    d = np.diff(order) * (1 if e >= s else -1)
    check((d >= -1e-12).all(), 'schedule is not monotone: {}', order)
    if n > 0:
        check(got[0] == s, 'starts at {}', got[0])
    check(got[n] == e and got[n + 1] == e, 'ends at {}', got[n])
    t = ts[0]
    both = frequency(ex, t, c, float(got[t]), 400, 'step {}'.format(t))
    # steps are independent of what came before (resuming, evaluation)
    ex2 = explorers.LinearDecayEpsilonGreedy(s, e, n, c.random)
    t = ts[-1]
    one_step(ex2, t, c)
    check(ex2.epsilon == got[t], 'the schedule depends on earlier calls')
    note.nontrivial(both or n > 0 and s != e)


@suite.facet(st.fixed_dictionaries({
    'eps': st.one_of(st.sampled_from([0.0, 1.0]), floats(0, 1)),
    'ts': st.lists(STEP, min_size=1, max_size=3), 'seed': SEED}),
    quick=80, shards=2)
def constant(case, note):
    np.random.seed(case['seed'])
    c = Counter()
    ex = explorers.ConstantEpsilonGreedy(case['eps'], c.random)
    for t in case['ts']:
        both = frequency(ex, t, c, float(case['eps']), 1000, 'constant')
        check(ex.epsilon == case['eps'], 'epsilon changed')
    g = explorers.Greedy()
    for t in case['ts']:
        check(one_step(g, t, c), 'greedy explorer explored')
    repr(ex), repr(g)
    note.nontrivial(both)


@suite.facet(st.fixed_dictionaries({
    'n': st.integers(1, 7), 'T': st.sampled_from([None, 0.05, 0.5, 1.0, 3.0]),
    'scale': st.sampled_from([0.0, 0.3, 1.0, 50.0]),
    'shift': st.sampled_from([0.0, 1000.0, -30.0]), 'flat': st.booleans(),
    'quantile': st.booleans(), 'seed': SEED}), quick=60, shards=2)
def boltzmann(case, note):
    r = rng(case['seed'])
    np.random.seed(case['seed'])
    q = (case['scale'] * r.normal(size=(1, case['n']))
         + case['shift']).astype('f')
    if case['quantile']:
        x = np.stack([q - 1, q + 1], axis=1)
        q = x.mean(axis=1)
        av = action_value.QuantileDiscreteActionValue(chainer.Variable(x))
    else:
        av = action_value.DiscreteActionValue(chainer.Variable(q))
    T = 1.0 if case['T'] is None else case['T']
    ex = explorers.Boltzmann() if case['T'] is None \
        else explorers.Boltzmann(T=T)
    c = Counter()
    N = 1500
    cnt = np.zeros(case['n'])
    for i in range(N):
        a = ex.select_action(i, c.best, action_value=av)
        check(np.ndim(a) == 0 and 0 <= int(a) < case['n'], 'action {!r}', a)
        cnt[int(a)] += 1
    z = q[0].astype('d') / T
    p = np.exp(z - z.max())
    p /= p.sum()
    # an event too rare to be seen is not a zero of the distribution
    rare = (cnt > 0) & (p < 1e-14)
    check(not rare.any(), 'action of probability {} taken', p[rare])
    pv = chi2_sf(cnt, p)
    check(pv > 1e-11, 'frequencies {} for probabilities {}', cnt, p.tolist())
    repr(ex)
    note.nontrivial(case['n'] > 1 and case['scale'] > 0)


BOUND = st.sampled_from(['none', 'low', 'high', 'both', 'scalar'])


@suite.facet(st.fixed_dictionaries({
    'dim': st.integers(1, 4), 'scale': st.sampled_from([0.0, 0.1, 1.0, 5.0]),
    'vector': st.booleans(), 'bound': BOUND, 'seed': SEED}), quick=120,
    shards=2)
def gaussian(case, note):
    r = rng(case['seed'])
    d = case['dim']
    scale = case['scale']
    if case['vector']:
        scale = scale * r.uniform(0.5, 2, size=d)
    lo = -r.uniform(0.2, 1, size=d).astype('f')
    hi = r.uniform(0.2, 1, size=d).astype('f')
    if case['bound'] == 'scalar':
        lo, hi = float(lo[0]), float(hi[0])
    kw = {}
    if case['bound'] in ('low', 'both', 'scalar'):
        kw['low'] = lo
    if case['bound'] in ('high', 'both', 'scalar'):
        kw['high'] = hi
    ex = explorers.AdditiveGaussian(scale, **kw)
    free = explorers.AdditiveGaussian(scale)
    N = 800
    a = r.uniform(-1.5, 1.5, size=(N, d)).astype('f')
    if case['bound'] != 'none':
        a = np.clip(a, -1, 1)
    keep = a.copy()

    def run(ex):
        np.random.seed(case['seed'])
        out = []
        for t in range(N):
            n = []

            def greedy():
                n.append(t)
                return a[t]
            b = ex.select_action(t, greedy)
            check(n == [t], 'greedy action asked {} times', len(n))
            check(isinstance(b, np.ndarray) and b.shape == (d,),
                  'action {!r}', b)
            check(not np.shares_memory(b, a), 'greedy action returned')
            out.append(b)
        check((a == keep).all(), 'greedy action changed')
        return np.array(out)
    b, f = run(ex), run(free)
    # noise: centred, with the given scale, independent over steps and dims
    sc = np.broadcast_to(scale, (d,))
    z = f.astype('d') - a
    if case['scale'] == 0:
        close(z, np.zeros_like(z), 'noise of scale 0')
    else:
        z = z / sc
        for j in range(d):
            pv = stats.kstest(z[:, j], 'norm').pvalue
            check(pv > 1e-11, 'noise of dimension {}: mean {}, deviation {} '
                  '(in units of the scale)', j, z[:, j].mean(),
                  z[:, j].std())
            rho = np.corrcoef(z[1:, j], z[:-1, j])[0, 1]
            check(abs(rho) < 0.28, 'noise is correlated over time: {}', rho)
            for i in range(j):
                rho = np.corrcoef(z[:, i], z[:, j])[0, 1]
                check(abs(rho) < 0.28, 'noise is correlated: {}', rho)
    want = f
    if 'low' in kw:
        check((b >= lo).all(), 'below the lower bound')
        want = np.maximum(want, lo)
    if 'high' in kw:
        check((b <= hi).all(), 'above the upper bound')
        want = np.minimum(want, hi)
    close(b, want, 'clipped action', rtol=1e-6)
    repr(ex)
    note.nontrivial(case['scale'] > 0)


@suite.facet(st.fixed_dictionaries({
    'dim': st.integers(1, 3), 'mu': st.sampled_from([None, 0.0, 1.0, -2.0]),
    'theta': st.sampled_from([None, 0.05, 0.15, 0.7, 1.0]),
    'sigma': st.sampled_from([None, 0.0, 0.1, 0.3, 2.0]),
    'vector': st.booleans(), 'with_mu': st.booleans(), 'seed': SEED}),
    quick=100, shards=2)
def ornstein_uhlenbeck(case, note):
    r = rng(case['seed'])
    np.random.seed(case['seed'])
    d = case['dim']
    kw = {k: case[k] for k in ('mu', 'theta', 'sigma')
          if case[k] is not None}
    mu, th = kw.get('mu', 0.0), kw.get('theta', 0.15)
    sg = kw.get('sigma', 0.3)
    if case['vector'] and 'sigma' in kw:
        kw['sigma'] = sg = sg * r.uniform(0.5, 2, size=d)
    kw['start_with_mu'] = case['with_mu']

    def step(ex, t):
        a = r.uniform(-1, 1, size=d).astype('f')
        keep = a.copy()
        n = []

        def greedy():
            n.append(t)
            return a
        b = ex.select_action(t, greedy)
        check(n == [t], 'greedy action asked {} times', len(n))
        check(b.shape == (d,) and not np.shares_memory(b, a), 'action {!r}',
              b)
        check((a == keep).all(), 'greedy action changed')
        return b.astype('d') - a
    N = 800
    ex = explorers.AdditiveOU(**kw)
    s = np.array([step(ex, t) for t in range(N)])
    sgs = np.broadcast_to(sg, (d,)).astype('d')
    tol = 1e-5 * (1 + abs(mu) + sgs.max())
    if case['with_mu']:
        close(s[0], np.full(d, mu), 'initial noise', atol=tol)
    inno = s[1:] - s[:-1] - th * (mu - s[:-1])
    if sgs.max() == 0:
        close(inno, np.zeros_like(inno), 'noise of scale 0', atol=tol)
        close(s, np.full_like(s, mu), 'noise of scale 0', atol=tol)
    else:
        z = inno / sgs
        for j in range(d):
            pv = stats.kstest(z[:, j], 'norm').pvalue
            check(pv > 1e-11, 'innovations of dimension {}: mean {}, '
                  'deviation {} (in units of sigma)', j, z[:, j].mean(),
                  z[:, j].std())
            for what, u in (('the state', s[:-1, j]),
                            ('the step before', np.r_[0, z[:-1, j]])):
                rho = np.corrcoef(z[:, j], u)[0, 1]
                check(abs(rho) < 0.28, 'innovations depend on {}: {}', what,
                      rho)
            for i in range(j):
                rho = np.corrcoef(z[:, i], z[:, j])[0, 1]
                check(abs(rho) < 0.28, 'noise is correlated: {}', rho)
        if not case['with_mu']:
            first = np.array([step(explorers.AdditiveOU(**kw), 0)
                              for _ in range(300)])
            stable = sgs / np.sqrt(2 * th - th ** 2)
            for j in range(d):
                pv = stats.kstest((first[:, j] - mu) / stable[j],
                                  'norm').pvalue
                check(pv > 1e-11, 'initial noise does not follow the '
                      'stationary distribution: mean {}, deviation {}',
                      first[:, j].mean(), first[:, j].std())
            # closer: many independent components at once
            n = 20000
            big = explorers.AdditiveOU(**dict(kw, sigma=sg))
            s = [big.select_action(
                t, lambda: np.zeros((n, d), 'f')) - mu for t in range(3)]
            for t, x in enumerate(s):
                rel = (x.astype('d') ** 2).mean(axis=0) / stable ** 2
                check((np.abs(rel - 1) < 0.08).all(), 'variance of the noise '
                      'at step {}: {} of the stationary one', t, rel)
                off = x.mean(axis=0) / stable
                check((np.abs(off) < 0.06).all(), 'mean of the noise at step '
                      '{} is off by {} deviations', t, off)
    repr(ex)
    note.nontrivial(sgs.max() > 0)
