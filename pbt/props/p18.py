"""P18: action distributions."""
import chainer
import numpy as np
from chainer import functions as F
from hypothesis import strategies as st
from scipy import special
from scipy import stats

from chainerrl import distribution as D
from chainerrl.functions import mellowmax

from pbt.core import Suite, check, close
from pbt.gen import SEED, chi2_sf, floats, rng, wide
from pbt.props.p17 import SLICE, selector, val

suite = Suite(
    'P18',
    'more than one row and (categorical) two actions with different '
    'probabilities or (continuous) two dimensions',
    ['Squashed Gaussians: log_prob of a given action is asserted up to '
     '|atanh(action)| <= 3 (float32 cannot represent the tail), sample and '
     'log-probability drawn together everywhere',
     'Maximum entropy mellowmax: |omega| <= 10, so that the temperature lies '
     'in the searched interval'])

DTYPE = st.sampled_from(['f', 'd'])


def numgrad(f, arrays, eps=1e-5):
    """Central differences of a scalar function of float64 arrays."""
    out = []
    for a in arrays:
        g = np.zeros_like(a)
        for i in np.ndindex(a.shape):
            keep = a[i]
            a[i] = keep + eps
            hi = f()
            a[i] = keep - eps
            lo = f()
            a[i] = keep
            g[i] = (hi - lo) / (2 * eps)
        out.append(g)
    return out


def make_cat(case, r, n=None):
    n = n or case['rows']
    k = case['acts']
    x = r.normal(scale=case['scale'], size=(n, k)) + case['shift']
    if case['ties']:
        x = np.round(x)
    if case['outlier']:
        x[:, 0] -= case['outlier']
    x = x.astype(case['dtype'])
    p = chainer.Parameter(x)
    if case['kind'] == 'softmax':
        mp = case['floor'] / k
        d = D.SoftmaxDistribution(p, beta=case['beta'], min_prob=mp)
        z = case['beta'] * x.astype('d')
        lp = special.log_softmax(z, axis=1)
        if mp:
            lp = np.log(np.exp(lp) * (1 - mp * k) + mp)
        if case['defaults']:
            d = D.SoftmaxDistribution(p)
            lp = special.log_softmax(x.astype('d'), axis=1)
    else:
        om = 8.0 if case['defaults'] else case['omega']
        d = D.MellowmaxDistribution(p) if case['defaults'] \
            else D.MellowmaxDistribution(p, omega=om)
        lp = None
    return d, p, lp


CAT = {
    'kind': st.sampled_from(['softmax', 'softmax', 'mellowmax']),
    'rows': wide(1, 5), 'acts': wide(1, 6, 18),
    'scale': st.sampled_from([0.0, 0.1, 1.0, 1.0, 5.0, 100.0]),
    'shift': st.sampled_from([0.0, 0.0, -20.0, 300.0]),
    'outlier': st.sampled_from([0.0, 0.0, 3.0, 100.0]),
    'ties': st.booleans(), 'dtype': DTYPE,
    'beta': st.sampled_from([0.0, 0.1, 1.0, 3.0]),
    'floor': st.sampled_from([0.0, 0.0, 1e-3, 0.3, 0.9]),
    'omega': st.sampled_from([-8.0, -1.0, 0.5, 1.0, 8.0, 10.0]),
    'defaults': st.booleans(), 'sel': SLICE, 'seed': SEED,
    'nobackprop': st.booleans()}


def cat_params(d):
    return d.logits if isinstance(d, D.SoftmaxDistribution) else d.values


@suite.facet(st.fixed_dictionaries(CAT), quick=900, shards=4)
def categorical(case, note):
    r = rng(case['seed'])
    d, p, lp = make_cat(case, r)
    n, k = case['rows'], case['acts']
    # (rounding of the parameters themselves)
    eps = 1e-6 if case['dtype'] == 'f' else 1e-12
    amp = eps * (abs(case['shift']) + case['outlier']
                 + 5 * case['scale']) * max(
        case['beta'], 10)
    tol = dict(rtol=1e-4 + amp, atol=1e-6 + 10 * amp)
    if case['nobackprop']:
        with chainer.no_backprop_mode():
            d.entropy
            d.all_prob
            d.all_log_prob
    P, LP = val(d.all_prob), val(d.all_log_prob)
    check(P.shape == (n, k) and LP.shape == (n, k), 'shape {}', P.shape)
    check((P >= 0).all() and np.isfinite(P).all(), 'probabilities {}', P)
    close(P.astype('d').sum(1), np.ones(n), 'probabilities sum to one')
    check(np.isfinite(LP).all() and (LP <= 1e-6).all(),
          'log probabilities {}', LP.tolist())
    big = P > 1e-20
    close(np.exp(LP.astype('d')), P, 'log of the probabilities', **tol)
    close(LP[big], np.log(P.astype('d')[big]), 'log of the probabilities',
          rtol=1e-3, atol=1e-5 + 10 * amp)
    if lp is not None:
        close(LP, lp, 'log probabilities', **tol)
        if not case['defaults'] and case['floor']:
            check((P >= case['floor'] / k * (1 - 1e-5)).all(),
                  'below the probability floor: {}', P.tolist())
    else:
        om = 8.0 if case['defaults'] else case['omega']
        x = p.array.astype('d')
        mm = (special.logsumexp(om * x, axis=1) - np.log(k)) / om
        spread = x.max(1) - x.min(1)
        close((P * x).sum(1), mm, 'mean under the policy',
              rtol=1e-5 + amp, atol=1e-5 + 1e-4 * spread.max() + amp)
        order = np.argsort(x, axis=1)
        sp = np.take_along_axis(P.astype('d'), order, 1)
        gap = np.diff(sp, axis=1) * (1 if om > 0 else -1)
        check((gap >= -1e-5).all(), 'not monotone in the values')
    # what is derived from them
    ref = LP.astype('d')
    pr = np.exp(ref)
    close(d.entropy, -(pr * ref).sum(1), 'entropy', rtol=1e-4,
          atol=1e-5 + 10 * amp)
    mode = val(d.most_probable)
    check(mode.shape == (n,) and mode.dtype.kind == 'i', 'mode {}', mode)
    check((P[np.arange(n), mode] == P.max(1)).all(), 'mode')
    for var in (False, True):
        a = r.randint(k, size=n).astype('i')
        aa = chainer.Variable(a) if var else a
        close(d.prob(aa), P[np.arange(n), a], 'prob', rtol=1e-6)
        close(d.log_prob(aa), LP[np.arange(n), a], 'log_prob', rtol=1e-6)
    for y, l in ((d.sample(), None), d.sample_with_log_prob()):
        y = val(y)
        check(y.shape == (n,) and y.dtype.kind == 'i'
              and ((y >= 0) & (y < k)).all(), 'sample {}', y)
        check((P[np.arange(n), y] > 0).all(), 'impossible sample')
        if l is not None:
            close(l, LP[np.arange(n), y], 'log_prob of sample', rtol=1e-6)
    # KL divergence
    d2, p2, _ = make_cat(dict(case, scale=min(case['scale'], 5.0)), r)
    LQ = val(d2.all_log_prob).astype('d')
    kl = val(d.kl(d2))
    close(kl, (pr * (ref - LQ)).sum(1), 'KL divergence', rtol=1e-3,
          atol=1e-5 + 20 * amp)
    check((kl >= -1e-5 - 20 * amp).all(), 'negative KL divergence {}', kl)
    close(d.kl(d), np.zeros(n), 'KL divergence with itself')
    # copies
    c = d.copy()
    check(type(c) is type(d), 'copy has type {}', type(c))
    close(d.kl(c), np.zeros(n), 'KL divergence with a copy')
    close(c.all_log_prob, LP, 'copy', rtol=1e-6, atol=1e-6)
    repr(d), repr(c)
    check(len(d.params) == 1 and d.params[0] is p, 'params')
    check(not np.shares_memory(val(cat_params(c)), p.array),
          'a copy shares memory')
    p3 = d.copy()
    p.array[...] += 1 + r.uniform(size=p.shape).astype(p.dtype)
    close(p3.all_log_prob, LP, 'copy after changing the original',
          rtol=1e-6, atol=1e-6)
    d, p, lp = make_cat(case, rng(case['seed']))
    # slices
    s = selector(case['sel'], n)
    sub = d[s]
    check(type(sub) is type(d), 'slice has type {}', type(sub))
    close(sub.all_log_prob, LP[s], 'slice', rtol=1e-4, atol=1e-5 + 10 * amp)
    close(sub.entropy, val(d.entropy)[s], 'slice', rtol=1e-4,
          atol=1e-5 + 10 * amp)
    # gradients of log_prob and entropy, of the true distribution
    if case['kind'] == 'softmax' and case['dtype'] == 'd' \
            and case['scale'] <= 5:
        d, p, _ = make_cat(case, rng(case['seed']))
        if case['nobackprop']:
            with chainer.no_backprop_mode():
                d.entropy, d.all_log_prob, d.all_prob
        a = r.randint(k, size=n).astype('i')
        w = r.normal(size=(3, n))
        mk = dict(beta=d.beta, min_prob=d.min_prob)
        q = D.SoftmaxDistribution(r.normal(size=(n, k)))

        def obj(d):
            return F.sum(w[0] * d.log_prob(a) + w[1] * d.entropy
                         + w[2] * d.kl(q))
        p.cleargrad()
        obj(d).backward()
        x = p.array.copy()
        g, = numgrad(lambda: float(obj(D.SoftmaxDistribution(
            x, **mk)).array), [x])
        close(p.grad, g, 'gradient', rtol=1e-4, atol=1e-6)
    note.label(case['kind'])
    note.nontrivial(n > 1 and k > 1 and np.ptp(P) > 1e-3)


@suite.facet(st.fixed_dictionaries(dict(
    CAT, n=st.just(4000), scale=st.sampled_from([0.5, 1.0, 3.0]),
    shift=st.just(0.0), outlier=st.sampled_from([0.0, 2.0]),
    rows=st.integers(1, 3))), quick=60, shards=3)
def categorical_frequencies(case, note):
    r = rng(case['seed'])
    d, p, _ = make_cat(case, r)
    n, k = case['rows'], case['acts']
    P = val(d.all_prob).astype('d')
    N = case['n'] if case['kind'] == 'softmax' else 600
    rep = d[np.repeat(np.arange(n), N)]
    for y in (rep.sample(), rep.sample_with_log_prob()[0]):
        y = val(y).reshape(n, -1)
        for i in range(n):
            c = np.bincount(y[i], minlength=k)
            pv = chi2_sf(c, P[i] / P[i].sum())
            check(pv > 1e-11, 'frequencies {} for probabilities {}', c,
                  P[i].tolist())
    y = val(D.sample_discrete_actions(np.repeat(P[:1].astype('f'), 4000, 0)))
    pv = chi2_sf(np.bincount(y, minlength=k), P[0] / P[0].sum())
    check(pv > 1e-11, 'sample_discrete_actions')
    note.nontrivial(k > 1)


# -------------------------------------------------------------- continuous

CONT = {
    'kind': st.sampled_from(['gauss', 'gauss', 'squashed']),
    'rows': wide(1, 5), 'dim': st.integers(1, 4),
    'loc': st.sampled_from([0.0, 1.0, 1.0, 30.0]),
    'var': st.sampled_from([1e-4, 0.1, 1.0, 10.0]),
    'uneven': st.booleans(), 'dtype': DTYPE, 'raw': st.booleans(),
    'sel': SLICE, 'seed': SEED, 'nobackprop': st.booleans()}


def make_cont(case, r, loc=None):
    n, d = case['rows'], case['dim']
    loc = case['loc'] if loc is None else loc
    m = r.normal(scale=loc or 1, size=(n, d)) if loc else np.zeros((n, d))
    v = np.full((n, d), case['var'])
    if case['uneven']:
        v = v * np.exp(r.uniform(-1, 1, size=(n, d)))
    m, v = m.astype(case['dtype']), v.astype(case['dtype'])
    cls = D.GaussianDistribution if case['kind'] == 'gauss' \
        else D.SquashedGaussianDistribution
    if case['raw']:
        return cls(m, v), m, v
    pm, pv = chainer.Parameter(m), chainer.Parameter(v)
    return cls(pm, pv), m, v


def ref_logp(case, x, m, v):
    m, v, x = m.astype('d'), v.astype('d'), x.astype('d')
    if case['kind'] == 'gauss':
        return stats.norm.logpdf(x, m, np.sqrt(v)).sum(1)
    u = np.arctanh(x)
    return (stats.norm.logpdf(u, m, np.sqrt(v))
            - 2 * (np.log(2) - np.abs(u)
                   - np.log1p(np.exp(-2 * np.abs(u))))).sum(1)


@suite.facet(st.fixed_dictionaries(CONT), quick=900, shards=4)
def continuous(case, note):
    r = rng(case['seed'])
    if case['kind'] == 'squashed':
        case = dict(case, loc=min(case['loc'], 1.0),
                    var=max(case['var'], 0.1))
    d, m, v = make_cont(case, r)
    n, k = m.shape
    sd = np.sqrt(v)
    squash = np.tanh if case['kind'] == 'squashed' else (lambda z: z)
    f32 = case['dtype'] == 'f'
    # relative rounding of x - mean
    amp = (1e-6 * (np.abs(m).max() + 1) / sd.min() if f32 else 1e-9)
    tol = dict(rtol=1e-4, atol=1e-4 + 30 * amp)
    close(d.most_probable, squash(m), 'most probable action', rtol=1e-5)
    for i in range(4):
        u = m + sd * r.normal(scale=1 + i % 2, size=(n, k))
        if case['kind'] == 'squashed':
            u = np.clip(u, -3, 3)
        x = squash(u).astype(case['dtype'])
        xx = chainer.Variable(x) if i % 2 else x
        want = ref_logp(case, x, m, v)
        t = tol if case['kind'] == 'gauss' else dict(
            rtol=1e-3, atol=5e-3 if f32 else 1e-6)
        got = val(d.log_prob(xx))
        check(got.shape == (n,), 'log_prob of shape {}', got.shape)
        close(got, want, 'log_prob', **t)
        ok = np.abs(got) < 80
        close(val(d.prob(xx))[ok], np.exp(got.astype('d'))[ok], 'prob',
              rtol=1e-3)
    for j in range(3):
        y, l = d.sample_with_log_prob()
        y, l = val(y), val(l)
        check(y.shape == (n, k) and l.shape == (n,), 'shape of sample')
        check(np.isfinite(y).all() and np.isfinite(l).all(),
              'sample {} with log-probability {}', y, l)
        y2 = val(d.sample())
        check(y2.shape == (n, k) and np.isfinite(y2).all(), 'sample {}', y2)
        if case['kind'] == 'squashed':
            check((np.abs(y) <= 1).all() and (np.abs(y2) <= 1).all(),
                  'sample outside of (-1, 1)')
        else:
            z = np.abs(y2 - m) / sd
            check((z < 8).all(), 'sample {} standard deviations off', z)
        inside = (np.abs(y) < (0.99 if f32 else 0.9999)).all(1) \
            | (case['kind'] == 'gauss')
        close(l[inside], ref_logp(case, y, m, v)[inside],
              'log-probability of sample', rtol=1e-3,
              atol=(1e-2 if f32 and case['kind'] == 'squashed' else 1e-4)
              + 30 * amp)
    P = d.params
    check(len(P) == 2, 'params')
    close(P[0], m, 'params', rtol=1e-7)
    close(P[1], v, 'params', rtol=1e-7)
    if case['kind'] == 'gauss':
        ent = 0.5 * np.log(2 * np.pi * np.e * v.astype('d')).sum(1)
        if case['nobackprop']:
            with chainer.no_backprop_mode():
                d.entropy
        close(d.entropy, ent, 'entropy', rtol=1e-4, atol=1e-4)
        d2, m2, v2 = make_cont(dict(case, var=r.choice([0.1, 1.0])), r)
        kl = val(d.kl(d2))
        M, V, M2, V2 = [z.astype('d') for z in (m, v, m2, v2)]
        close(kl, 0.5 * (np.log(V2) - np.log(V)
                         + (V + (M - M2) ** 2) / V2 - 1).sum(1),
              'KL divergence', rtol=1e-3, atol=1e-4)
        check((kl > -1e-4).all(), 'negative KL divergence')
        close(d.kl(d), np.zeros(n), 'KL divergence with itself', atol=1e-4)
        close(d.kl(d.copy()), np.zeros(n), 'KL divergence with a copy',
              atol=1e-4)
    # copies
    c = d.copy()
    check(type(c) is type(d), 'copy has type {}', type(c))
    x = squash(m + 0.5 * sd).astype(case['dtype'])
    before = val(d.log_prob(x))
    check((val(c.log_prob(x)) == before).all(), 'copy differs')
    check(not any(np.shares_memory(val(a), val(b))
                  for a, b in zip(c.params, d.params)),
          'a copy shares memory')
    for a in c.params:
        check(a.creator is None, 'copy is part of the graph')
    repr(d), repr(c)
    s = selector(case['sel'], n)
    close(d[s].log_prob(x[s]), before[s], 'slice', rtol=1e-5, atol=1e-5)
    close(d[s].most_probable, val(d.most_probable)[s], 'slice')
    # gradients
    if not case['raw'] and case['dtype'] == 'd' and case['var'] >= 0.1 \
            and case['loc'] <= 1:
        w = r.normal(size=(3, n))
        x = squash(np.clip(m + sd * r.normal(size=(n, k)), -3, 3))
        cls = type(d)
        q = cls(r.normal(size=(n, k)), r.uniform(0.5, 2, size=(n, k)))

        def obj(d):
            o = w[0] * d.log_prob(x)
            if case['kind'] == 'gauss':
                o = o + w[1] * d.entropy + w[2] * d.kl(q) + w[2] * q.kl(d)
            return F.sum(o)
        for a in d.params:
            a.cleargrad()
        obj(d).backward()
        mm, vv = m.copy(), v.copy()
        g = numgrad(lambda: float(obj(cls(mm, vv)).array), [mm, vv])
        for a, b in zip(d.params, g):
            close(a.grad, b, 'gradient', rtol=1e-4, atol=1e-4)
        # samples are reparameterised: y = mean + noise * sd
        d, m, v = make_cont(case, rng(case['seed']))
        y, l = d.sample_with_log_prob()
        for a in d.params:
            a.cleargrad()
        F.sum(y * w[0][:, None]).backward()
        Y = val(y)
        u = np.arctanh(Y) if case['kind'] == 'squashed' else Y
        jac = 1 - Y ** 2 if case['kind'] == 'squashed' \
            else np.ones_like(Y)
        if np.abs(u).max() < 8 or case['kind'] == 'gauss':
            close(d.params[0].grad, w[0][:, None] * jac,
                  'gradient of sample', rtol=1e-4, atol=1e-6)
            close(d.params[1].grad,
                  w[0][:, None] * jac * (u - m) / (2 * v),
                  'gradient of sample', rtol=1e-4, atol=1e-6)
    note.label(case['kind'])
    note.nontrivial(n > 1 and k > 1)


@suite.facet(st.fixed_dictionaries(dict(
    CONT, dtype=st.just('d'), loc=st.sampled_from([0.0, 1.0]),
    var=st.sampled_from([0.1, 1.0, 4.0]), rows=st.integers(1, 2))), quick=80)
def continuous_frequencies(case, note):
    r = rng(case['seed'])
    d, m, v = make_cont(case, r)
    n, k = m.shape
    N = 3000
    rep = d[np.repeat(np.arange(n), N)]
    for y in (rep.sample(), rep.sample_with_log_prob()[0]):
        y = val(y)
        if case['kind'] == 'squashed':
            check((np.abs(y) <= 1).all(), 'sample outside of [-1, 1]')
            y = np.arctanh(np.clip(y, -1 + 1e-15, 1 - 1e-15))
            y = np.clip(y, -17, 17)
        z = (y.reshape(n, N, k) - m[:, None]) / np.sqrt(v)[:, None]
        for i in range(n):
            for j in range(k):
                pv = stats.kstest(z[i, :, j], 'norm').pvalue
                check(pv > 1e-11, 'samples do not follow N({}, {}), mean '
                      '{}, variance {}', m[i, j], v[i, j],
                      z[i, :, j].mean(), z[i, :, j].var())
            if k > 1:
                c = np.corrcoef(z[i].T)
                off = np.abs(c - np.eye(k)).max()
                check(off < 7.5 / np.sqrt(N), 'dimensions are dependent {}',
                      c.tolist())
    note.nontrivial(k > 1)


@suite.facet(st.fixed_dictionaries({
    'rows': wide(1, 4), 'dim': st.integers(1, 4), 'seed': SEED,
    'raw': st.booleans()}), quick=80)
def deterministic(case, note):
    r = rng(case['seed'])
    x = r.normal(size=(case['rows'], case['dim'])).astype('f')
    p = x if case['raw'] else chainer.Parameter(x)
    d = D.ContinuousDeterministicDistribution(p)
    for y in (d.sample(), d.most_probable, d.params[0],
              d.copy().most_probable):
        check((val(y) == x).all(), 'action {}', y)
    check(not np.shares_memory(val(d.copy().x), x), 'a copy shares memory')
    if not case['raw']:
        p.cleargrad()
        F.sum(d.sample()).backward()
        close(p.grad, np.ones_like(x), 'gradient of sample')
    note.nontrivial(case['rows'] > 1)


@suite.facet(st.fixed_dictionaries({
    'rows': wide(1, 4), 'dim': st.integers(1, 3), 'seed': SEED}),
    quick=80)
def clip(case, note):
    r = rng(case['seed'])
    lo, hi = np.sort(r.normal(size=(2, case['dim'])), axis=0).astype('f')
    a = r.normal(scale=2, size=(case['rows'], case['dim'])).astype('f')
    close(D.clip_actions(chainer.Variable(a), lo, hi), np.clip(a, lo, hi),
          'clip_actions', rtol=0, atol=0)
    note.nontrivial((a < lo).any() or (a > hi).any())
