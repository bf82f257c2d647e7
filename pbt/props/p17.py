"""P17: action-value objects."""
import warnings

import chainer
import numpy as np
from chainer import functions as F
from hypothesis import strategies as st

from chainerrl import action_value as av_

from pbt.core import Suite, check, close
from pbt.gen import SEED, floats, rng, wide

suite = Suite(
    'P17',
    'at least two actions (or a bound) and two rows',
    ['Bounded quadratic values: optimality is asserted only for diagonal '
     'curvature or an interior optimum'])

SCALES = st.sampled_from([1e-3, 1.0, 1.0, 1e3, 1e6])
SLICE = st.one_of(
    st.tuples(st.just('slice'), st.integers(-6, 6), st.integers(-6, 6)),
    st.tuples(st.just('index'), st.lists(st.integers(0, 5), min_size=1,
                                         max_size=4))).map(list)


def selector(s, n):
    """A non-empty selection of rows."""
    if s[0] == 'slice':
        sl = slice(s[1], s[2])
        if len(range(n)[sl]):
            return sl
        return slice(0, 1)
    return np.array([i % n for i in s[1]], dtype=np.int64)


def ints(r, n, size, var):
    a = r.randint(n, size=size).astype(np.int32)
    return chainer.Variable(a) if var else a


def val(x):
    return x.array if isinstance(x, chainer.Variable) else np.asarray(x)


def build(kind, case, r):
    n, k = case['rows'], case['acts']

    def grid(*shape):
        x = r.normal(size=shape)
        if case['ties']:
            x = np.round(x)
        return (case['scale'] * x + case['shift']).astype('f')
    if kind == 'discrete':
        q = grid(n, k)
        p = chainer.Parameter(q)
        return av_.DiscreteActionValue(p), p, q.astype('d'), None
    if kind == 'distributional':
        m = case['atoms']
        d = r.dirichlet(np.full(m, 0.5), size=(n, k)).astype('f')
        z = np.sort(grid(m)).astype('f')
        p = chainer.Parameter(d)
        return (av_.DistributionalDiscreteActionValue(p, z), p,
                (d.astype('d') * z).sum(2), (d, z))
    m = case['atoms']
    d = grid(n, m, k)
    p = chainer.Parameter(d)
    return (av_.QuantileDiscreteActionValue(p), p, d.astype('d').mean(1),
            (d,))


def check_discrete(v, q, r, case, what):
    n, k = q.shape
    tol = dict(rtol=1e-4, atol=1e-5 * (np.abs(q).max() + 1e-3))
    close(v.q_values, q, what + ' q_values', **tol)
    check(v.n_actions == k, '{} n_actions {}', what, v.n_actions)
    greedy = val(v.greedy_actions)
    check(greedy.shape == (n,) and greedy.dtype.kind == 'i',
          '{} greedy actions {} {}', what, greedy.shape, greedy.dtype)
    check(((greedy >= 0) & (greedy < k)).all(), 'inadmissible greedy action')
    # the greedy action attains the maximum, which bounds every value
    mx = val(v.max)
    check(mx.shape == (n,), '{} max of shape {}', what, mx.shape)
    close(mx, q.max(1), what + ' max', **tol)
    close(q[np.arange(n), greedy], q.max(1), what + ' value of greedy action',
          **tol)
    check((val(v.evaluate_actions(v.greedy_actions)) == mx).all(),
          '{}: greedy value differs from max', what)
    for var in (False, True):
        a, b = ints(r, k, n, var), ints(r, k, n, var)
        ra, rb = q[np.arange(n), val(a)], q[np.arange(n), val(b)]
        ea = v.evaluate_actions(a)
        close(ea, ra, what + ' evaluate_actions', **tol)
        check((val(ea) <= mx).all(), '{}: an action beats the maximum', what)
        close(v.compute_advantage(a), ra - q.max(1), what + ' advantage',
              **tol)
        close(v.compute_double_advantage(a, b), ra - rb,
              what + ' double advantage', **tol)
    beta = case['beta'] / (np.abs(q).max() + 1e-3)
    w = np.exp(beta * (q - q.max(1, keepdims=True)))
    w /= w.sum(1, keepdims=True)
    close(v.compute_expectation(beta), (w * q).sum(1),
          what + ' expectation', **tol)


@suite.facet(st.fixed_dictionaries({
    'kind': st.sampled_from(['discrete', 'distributional', 'quantile']),
    'rows': wide(1, 6), 'acts': wide(1, 6, 18),
    'atoms': st.integers(1, 7), 'scale': SCALES,
    'shift': st.sampled_from([0.0, 0.0, -3.0, 100.0]),
    'ties': st.booleans(), 'beta': floats(0, 5), 'sel': SLICE,
    'order': st.sampled_from(['max', 'greedy', 'slice']),
    'nobackprop': st.booleans(), 'seed': SEED}), quick=1200, shards=4)
def discrete(case, note):
    r = rng(case['seed'])
    kind = case['kind']
    v, p, q, extra = build(kind, case, r)
    sel = selector(case['sel'], case['rows'])
    if case['order'] == 'max':
        v.max
    elif case['order'] == 'greedy':
        v.greedy_actions
    sub = v[sel]
    check(type(sub) is type(v), 'slice has type {}', type(sub))
    check_discrete(v, q, r, case, kind)
    check_discrete(sub, q[sel], r, case, kind + ' slice')
    check((val(sub.max) == val(v.max)[sel]).all()
          and (val(sub.greedy_actions) == val(v.greedy_actions)[sel]).all(),
          'slicing does not commute with max or the greedy action')
    check(len(v.params) == 1 and v.params[0] is p, 'params {}', v.params)
    for x, y in ((v, slice(None)), (sub, sel)):
        if kind == 'distributional':
            d = extra[0][y].astype('d')
            n = len(d)
            a = ints(r, case['acts'], n, False)
            g = val(x.greedy_actions)
            close(x.max_as_distribution, d[np.arange(n), g],
                  'max_as_distribution', rtol=1e-6)
            close(x.evaluate_actions_as_distribution(a), d[np.arange(n), a],
                  'evaluate_actions_as_distribution', rtol=1e-6)
            close((val(x.max_as_distribution) * extra[1]).sum(1), val(x.max),
                  'mean of max_as_distribution', rtol=1e-4,
                  atol=1e-4 * (np.abs(q).max() + 1e-3))
        elif kind == 'quantile':
            d = extra[0][y]
            n = len(d)
            for var in (False, True):
                a = ints(r, case['acts'], n, var)
                close(x.evaluate_actions_as_quantiles(a),
                      d[np.arange(n), :, val(a)],
                      'evaluate_actions_as_quantiles', rtol=1e-6,
                      atol=1e-6 * (1 + np.abs(d).max()))
    # the maximum is differentiable, also when first read without backprop
    v2 = build(kind, case, rng(case['seed']))[0]
    p2 = v2.params[0]
    if case['nobackprop']:
        with chainer.no_backprop_mode():
            m = v2.max
    else:
        m = v2.max
    w = r.normal(size=m.shape).astype('f')
    p2.cleargrad()
    F.sum(m * w).backward()
    check(p2.grad is not None, 'max is not differentiable')
    n = case['rows']
    g = val(v2.greedy_actions)
    want = np.zeros(p2.shape)
    for i in range(n):
        if kind == 'discrete':
            want[i, g[i]] = w[i]
        elif kind == 'distributional':
            want[i, g[i]] = w[i] * extra[1]
        else:
            want[i, :, g[i]] = w[i] / case['atoms']
    close(p2.grad, want, 'gradient of max', rtol=1e-4,
          atol=1e-5 * (1 + np.abs(want).max()))
    repr(v)
    note.label(kind)
    note.nontrivial(n > 1 and case['acts'] > 1)


BOUND = st.sampled_from(['none', 'min', 'max', 'both', 'both'])


@suite.facet(st.fixed_dictionaries({
    'rows': wide(1, 5), 'dim': st.integers(1, 4),
    'bound': BOUND, 'diag': st.booleans(), 'flat': st.booleans(),
    'spread': st.sampled_from([0.5, 1.0, 5.0]), 'sel': SLICE,
    'nobackprop': st.booleans(), 'seed': SEED}), quick=800, shards=3)
def quadratic(case, note):
    r = rng(case['seed'])
    n, d = case['rows'], case['dim']
    mu = (case['spread'] * r.normal(size=(n, d))).astype('f')
    if case['diag']:
        mat = np.stack([np.diag(r.uniform(0.1, 3, d)) for _ in range(n)])
    else:
        a = r.normal(size=(n, d, d))
        mat = np.einsum('nij,nkj->nik', a, a) + 0.1 * np.eye(d)
    mat = mat.astype('f')
    v = (10 * r.normal(size=(n,) if case['flat'] else (n, 1))).astype('f')
    lo, hi = [np.sort(r.uniform(-1.5, 1.5, size=(2, d)), axis=0)[i]
              for i in (0, 1)]
    lo, hi = lo.astype('f'), hi.astype('f')
    lo = lo if case['bound'] in ('min', 'both') else None
    hi = hi if case['bound'] in ('max', 'both') else None
    P = [chainer.Parameter(x) for x in (mu, mat, v)]
    kw = {}
    if lo is not None:
        kw['min_action'] = lo
    if hi is not None:
        kw['max_action'] = hi
    q = av_.QuadraticActionValue(P[0], P[1], P[2], **kw)
    check(tuple(q.params) == tuple(P), 'params {}', q.params)
    sel = selector(case['sel'], n)
    tol = dict(rtol=1e-4, atol=1e-3)

    def f(a, mu, mat, v):
        e = a.astype('d') - mu.astype('d')
        return v.reshape(-1).astype('d') - 0.5 * np.einsum(
            'ni,nij,nj->n', e, mat.astype('d'), e)

    def clip(a):
        if lo is not None:
            a = np.maximum(a, lo)
        if hi is not None:
            a = np.minimum(a, hi)
        return a
    for x, s in ((q, slice(None)), (q[sel], sel)):
        args = (mu[s], mat[s], v[s])
        k = len(args[0])
        if case['nobackprop']:
            with chainer.no_backprop_mode():
                x.greedy_actions, x.max
        g = val(x.greedy_actions)
        check((clip(g) == g).all(), 'greedy action out of bounds')
        mx = val(x.max)
        check(mx.shape == (k,), 'max of shape {}', mx.shape)
        close(mx, f(g, *args), 'max is not the value of the greedy action',
              **tol)
        inside = (clip(args[0]) == args[0]).all(1)
        close(g[inside], args[0][inside], 'greedy action of interior optimum',
              rtol=1e-6)
        sure = inside | case['diag'] | (d == 1)
        for i in range(4):
            a = r.normal(scale=2, size=(k, d)).astype('f')
            if i == 1:   # near the greedy action
                a = (g + 0.05 * a).astype('f')
            if i >= 2:   # admissible
                a = clip(a)
            want = f(a, *args)
            aa = chainer.Variable(a) if i % 2 else a
            close(x.evaluate_actions(aa), want, 'evaluate_actions', **tol)
            close(x.compute_advantage(aa), want - mx, 'advantage', **tol)
            b = r.normal(size=(k, d)).astype('f')
            close(x.compute_double_advantage(aa, b), want - f(b, *args),
                  'double advantage', **tol)
            ok = sure & (clip(a) == a).all(1)
            check((want[ok] <= mx[ok] + 1e-3 + 1e-4 * np.abs(mx[ok])).all(),
                  'action {} has value {}, maximum {}', a.tolist(),
                  want.tolist(), mx.tolist())
    # gradients of the maximum
    for p in P:
        p.cleargrad()
    w = r.normal(size=n).astype('f')
    F.sum(q.max * w).backward()
    close(P[2].grad.reshape(-1), w, 'gradient of max with respect to V')
    g = val(q.greedy_actions)
    e = g.astype('d') - mu
    dm = -0.5 * np.einsum('n,ni,nj->nij', w, e, e)
    if P[1].grad is not None:
        close(P[1].grad, dm, 'gradient of max with respect to P', **tol)
    else:
        close(np.zeros_like(dm), dm, 'missing gradient with respect to P')
    free = (g == mu)
    # moving a clipped coordinate of mu changes the value, not the action
    full = np.einsum('n,nij,nj->ni', w, mat.astype('d'), e)
    want = full - np.where(free, full, 0)
    # (interior coordinates: action and optimum move together)
    got = P[0].grad if P[0].grad is not None else np.zeros_like(mu)
    if case['bound'] != 'none' and d == 1 or case['diag']:
        close(got, np.where(free, 0, want), 'gradient of max with respect '
              'to mu', **tol)
    repr(q)
    note.label(case['bound'])
    note.nontrivial(n > 1 and (d > 1 or case['bound'] != 'none'))


@suite.facet(st.fixed_dictionaries({
    'rows': wide(1, 5), 'dim': st.integers(1, 3), 'seed': SEED,
    'maximizer': st.booleans(), 'nobackprop': st.booleans()}), quick=200)
def single(case, note):
    r = rng(case['seed'])
    n, d = case['rows'], case['dim']
    c = r.normal(size=(n, d)).astype('f')
    p = chainer.Parameter(r.normal(size=(n,)).astype('f'))
    calls = []

    def evaluator(a):
        calls.append(a)
        return p - F.sum((a - chainer.Variable(c)) ** 2, axis=1)
    kw = {'maximizer': lambda: chainer.Variable(c)} if case['maximizer'] \
        else {}
    v = av_.SingleActionValue(evaluator, **kw)
    a = r.normal(size=(n, d)).astype('f')
    b = r.normal(size=(n, d)).astype('f')

    def f(x):
        return p.array - ((x - c) ** 2).sum(1)
    close(v.evaluate_actions(a), f(a), 'evaluate_actions')
    close(v.compute_double_advantage(a, b), f(a) - f(b), 'double advantage')
    if case['maximizer']:
        if case['nobackprop']:
            with chainer.no_backprop_mode():
                v.max
        close(v.greedy_actions, c, 'greedy action')
        close(v.max, p.array, 'max')
        close(v.compute_advantage(a), f(a) - p.array, 'advantage')
        p.cleargrad()
        F.sum(v.max).backward()
        close(p.grad, np.ones(n), 'gradient of max')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        check(tuple(v.params) == (), 'params')
    note.nontrivial(n > 1 and case['maximizer'])
