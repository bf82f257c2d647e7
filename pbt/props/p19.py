"""P19: custom differentiable functions."""
import chainer
import numpy as np
from chainer import functions as F
from hypothesis import strategies as st
from scipy import special

from chainerrl import functions as CF
from chainerrl.functions.bound_by_tanh import bound_by_tanh as bound_by_tanh_
from chainerrl.functions.invert_gradients import (
    invert_gradients as invert_gradients_)
from chainerrl.functions.lower_triangular_matrix import (
    lower_triangular_matrix)
from chainerrl.functions.mellowmax import (
    maximum_entropy_mellowmax, mellowmax as mellowmax_)
from chainerrl.functions import mul_add, scale_grad


from pbt.core import Suite, check, close, must_raise
from pbt.gen import SEED, floats, rng, wide
from pbt.props.p18 import numgrad

suite = Suite(
    'P19',
    'at least two elements whose outputs differ',
    ['Maximum entropy mellowmax: its temperature lies in the searched '
     'interval (|omega| <= 10)'])

SHAPE = st.lists(st.integers(1, 4), min_size=1, max_size=3)


def grads(y, w, xs):
    for x in xs:
        x.cleargrad()
    F.sum(y * w).backward()
    return [x.grad for x in xs]


@suite.facet(st.fixed_dictionaries({
    'shape': st.lists(st.integers(1, 4), min_size=2, max_size=4),
    'omega': st.sampled_from([-30.0, -5.0, -1.0, -0.1, 0.1, 1.0, 5.0, 30.0,
                              None]),
    'scale': st.sampled_from([0.0, 0.1, 1.0, 10.0, 1000.0]),
    'axis': st.integers(-4, 3), 'dtype': st.sampled_from(['f', 'd']),
    'seed': SEED}), quick=700, shards=2)
def mellowmax(case, note):
    r = rng(case['seed'])
    shape = case['shape']
    nd = len(shape)
    ax = case['axis'] % nd if case['axis'] >= 0 else -1 - (
        -case['axis'] % nd)
    om = 1.0 if case['omega'] is None else case['omega']
    x = (case['scale'] * r.normal(size=shape)).astype(case['dtype'])
    kw = {} if case['omega'] is None else {'omega': om}
    y = mellowmax_(x, axis=ax, **kw)
    X = x.astype('d')
    n = x.shape[ax]
    want = (special.logsumexp(om * X, axis=ax) - np.log(n)) / om
    tol = 1e-5 if case['dtype'] == 'f' else 1e-10
    close(y, want, 'mellowmax', rtol=10 * tol,
          atol=tol * (1 + 1 / abs(om)) * (1 + case['scale']))
    eps = 2e-5 * (1 + np.abs(X).max() + 1 / abs(om))
    Y = y.array
    check((Y <= X.max(ax) + eps).all() and (Y >= X.min(ax) - eps).all(),
          'mellowmax outside of the range of the values')
    if om > 0:
        check((Y >= X.mean(ax) - eps).all(), 'mellowmax below the mean')
    else:
        check((Y <= X.mean(ax) + eps).all(), 'mellowmax above the mean')
    if ax == 1:
        close(mellowmax_(x, **kw), Y, 'default axis', rtol=0, atol=0)
    # gradient: a softmax
    p = chainer.Parameter(x.copy())
    w = r.normal(size=Y.shape).astype(case['dtype'])
    g, = grads(mellowmax_(p, axis=ax, **kw), w, [p])
    close(g, special.softmax(om * X, axis=ax) * np.expand_dims(w, ax),
          'gradient of mellowmax', rtol=1e-3, atol=1e-4)
    note.nontrivial(n > 1 and case['scale'] > 0)


@suite.facet(st.fixed_dictionaries({
    'shape': st.lists(st.integers(1, 4), min_size=2, max_size=4),
    'omega': st.sampled_from([-10.0, -5.0, -1.0, -0.1, 0.1, 1.0, 5.0, 8.0,
                              10.0, None]),
    'scale': st.sampled_from([0.0, 0.1, 1.0, 5.0, 50.0, 500.0]),
    'shift': st.sampled_from([0.0, 0.0, 10.0, -200.0]),
    'outlier': st.sampled_from([0.0, 0.0, 100.0]),
    'raw': st.booleans(), 'narrow': st.booleans(), 'seed': SEED}),
    quick=500, shards=2)
def max_entropy_mellowmax(case, note):
    """The softmax policy with mean mm(x)."""
    r = rng(case['seed'])
    om = 1.0 if case['omega'] is None else case['omega']
    x = case['scale'] * r.normal(size=case['shape']) + case['shift']
    x[:, 0] -= case['outlier']
    x = x.astype('f')
    kw = {} if case['omega'] is None else {'omega': om}
    if case['narrow']:
        kw.update(beta_min=-11.0, beta_max=10.5)
    xx = x if case['raw'] else chainer.Variable(x)
    p = maximum_entropy_mellowmax(xx, **kw).array
    check(p.shape == x.shape, 'shape {}', p.shape)
    check((p >= 0).all(), 'negative probability')
    close(p.sum(1), np.ones_like(p.sum(1)), 'sum to one')
    X = x.astype('d')
    n = x.shape[1]
    mm = (special.logsumexp(om * X, axis=1) - np.log(n)) / om
    spread = np.ptp(X, axis=1).max()
    # (the solver sees rounded advantages)
    noise = 1e-6 * (np.abs(X).max() + 1 / abs(om))
    close((p * X).sum(1), mm, 'mean under the policy', rtol=1e-5,
          atol=1e-4 * spread + 10 * noise + 1e-6)
    # a softmax: log-probabilities are affine in the values
    L = np.log(np.maximum(p.astype('d'), 1e-300))
    L = np.moveaxis(L, 1, -1).reshape(-1, n)
    V = np.moveaxis(X, 1, -1).reshape(-1, n)
    for l, v in zip(L, V):
        ok = l > -60
        if ok.sum() > 2 and np.ptp(v[ok]) > 1e-2 + noise:
            i, j = v[ok].argmax(), v[ok].argmin()
            b = (l[ok][i] - l[ok][j]) / (v[ok][i] - v[ok][j])
            err = np.abs(l[ok] - l[ok][j] - b * (v[ok] - v[ok][j]))
            check(err.max() < 1e-3 + 40 * noise,
                  'not a softmax of the values: {} for {}', l, v)
    note.nontrivial(n > 1 and case['scale'] > 0)


@suite.facet(st.fixed_dictionaries({
    'shape': SHAPE, 'dtype': st.sampled_from(['f', 'd']),
    'u': floats(0.0625, 4), 'seed': SEED}), quick=300)
def arctanh(case, note):
    r = rng(case['seed'])
    u = r.uniform(-case['u'], case['u'], size=case['shape'])
    x = np.tanh(u).astype(case['dtype'])
    want = np.arctanh(x.astype('d'))
    y = CF.arctanh(x)
    check(y.dtype == x.dtype, 'dtype {}', y.dtype)
    close(y, want, 'arctanh', rtol=1e-3 if case['dtype'] == 'f' else 1e-9)
    p = chainer.Parameter(x)
    w = r.normal(size=x.shape).astype(case['dtype'])
    y = CF.arctanh(p)
    t = dict(rtol=1e-3 if case['dtype'] == 'f' else 1e-9)
    close(grads(y, w, [p])[0], w / (1 - x.astype('d') ** 2),
          'gradient of arctanh', **t)
    # second derivative
    p = chainer.Parameter(x)
    g, = chainer.grad([CF.arctanh(p)], [p], enable_double_backprop=True)
    X = x.astype('d')
    close(grads(g, w, [p])[0], w * 2 * X / (1 - X ** 2) ** 2,
          'second derivative of arctanh',
          rtol=5e-3 if case['dtype'] == 'f' else 1e-8)
    note.nontrivial(x.size > 1)


@suite.facet(st.fixed_dictionaries({
    'rows': wide(1, 4), 'dim': st.integers(1, 4),
    'scale': st.sampled_from([0.1, 1.0, 20.0]),
    'width': st.sampled_from([1e-3, 1.0, 100.0]), 'seed': SEED}), quick=300)
def bound_by_tanh(case, note):
    r = rng(case['seed'])
    d = case['dim']
    lo = r.normal(scale=case['width'], size=d).astype('f')
    hi = (lo + case['width'] * r.uniform(0.1, 2, size=d)).astype('f')
    x = (case['scale'] * r.normal(size=(case['rows'], d))).astype('f')
    p = chainer.Parameter(x)
    y = bound_by_tanh_(p, lo, hi)
    X, L, H = x.astype('d'), lo.astype('d'), hi.astype('d')
    tol = 1e-6 * (np.abs(L) + np.abs(H)).max()
    close(y, L + (H - L) * (np.tanh(X) + 1) / 2, 'bound_by_tanh',
          rtol=1e-5, atol=tol + 1e-7)
    check((y.array >= lo - tol).all() and (y.array <= hi + tol).all(),
          'out of bounds')
    w = r.normal(size=x.shape).astype('f')
    close(grads(y, w, [p])[0], w * (H - L) / 2 * (1 - np.tanh(X) ** 2),
          'gradient', rtol=1e-3, atol=1e-5 * (H - L).max())
    note.nontrivial(d > 1)


@suite.facet(st.fixed_dictionaries({
    'rows': wide(1, 4), 'dim': st.integers(1, 4), 'seed': SEED,
    'where': st.sampled_from(['inside', 'edge', 'outside']),
    'scalar': st.booleans(), 'zero': st.booleans()}), quick=400)
def invert_gradients(case, note):
    r = rng(case['seed'])
    n, d = case['rows'], case['dim']
    lo = r.normal(size=d).astype('f')
    hi = (lo + r.uniform(0.1, 2, size=d)).astype('f')
    if case['scalar']:
        lo, hi = lo[0], hi[0]
    u = {'inside': r.uniform(0, 1, (n, d)), 'edge': r.randint(2, size=(n, d)),
         'outside': r.uniform(-3, 4, (n, d))}[case['where']]
    x = (lo + (hi - lo) * u).astype('f')
    p = chainer.Parameter(x)
    y = invert_gradients_(p, range_min=lo, range_max=hi)
    check((y.array == x).all(), 'forward changes the value')
    w = r.normal(size=(n, d)).astype('f')
    if case['zero']:
        w[0, 0] = 0
    g, = grads(y, w, [p])
    X = x.astype('d')
    width = (hi - lo).astype('d')
    # descent increases the value where the gradient is negative
    want = np.where(w < 0, w * (hi - X) / width, w * (X - lo) / width)
    close(g, want, 'gradient', rtol=1e-4, atol=1e-5)
    lim = 1e-5 * (1 + np.abs(w))
    inside = (x >= lo) & (x <= hi)
    check((np.abs(g) <= np.abs(w) + lim)[inside].all(),
          'a step inside of the bounds grows')
    # steps that would leave the bounds are reversed
    over = (x > hi) & (w < 0)
    under = (x < lo) & (w > 0)
    check((g[over] >= -1e-5).all() and (g[under] <= 1e-5).all(),
          'a step away from the bounds is not inverted')
    if case['where'] == 'inside':
        # repeated small steps along a constant direction stay inside
        v = X.copy()
        for _ in range(30):
            q = chainer.Parameter(v.astype('f'))
            z, = grads(invert_gradients_(q, lo, hi), w, [q])
            v = v - 0.9 * width * z / (np.abs(w).max() + 1e-9)
        eps = 1e-4 * (1 + np.abs(v))
        check((v >= lo - eps).all() and (v <= hi + eps).all(),
              'steps leave the bounds')
    note.label(case['where'])
    note.nontrivial(n * d > 1)


@suite.facet(st.fixed_dictionaries({
    'rows': wide(1, 4), 'dim': st.integers(1, 5), 'seed': SEED}),
    quick=200)
def lower_triangular(case, note):
    r = rng(case['seed'])
    b, n = case['rows'], case['dim']
    diag = r.normal(size=(b, n)).astype('f')
    off = r.normal(size=(b, n * (n - 1) // 2)).astype('f')
    want = np.zeros((b, n, n))
    grad_pos = np.zeros((n, n), dtype=int)
    k = 0
    for i in range(n):
        want[:, i, i] = diag[:, i]
        for j in range(i):
            want[:, i, j] = off[:, k]
            grad_pos[i, j] = k
            k += 1
    P = [chainer.Parameter(diag)] + (
        [chainer.Parameter(off)] if n > 1 else [])
    y = lower_triangular_matrix(P[0], P[1] if n > 1 else off)
    close(y, want, 'lower triangular matrix', rtol=0, atol=0)
    w = r.normal(size=want.shape).astype('f')
    g = grads(y, w, P)
    close(g[0], np.einsum('bii->bi', w), 'gradient of diagonal', rtol=0)
    if n > 1:
        go = np.zeros_like(off)
        for i in range(n):
            for j in range(i):
                go[:, grad_pos[i, j]] = w[:, i, j]
        close(g[1], go, 'gradient of off-diagonal', rtol=0)
    note.nontrivial(n > 2)


@suite.facet(st.fixed_dictionaries({
    'shape': SHAPE, 'n': st.integers(1, 5), 'seed': SEED,
    'repeat': st.booleans(), 'as_list': st.booleans(),
    'weighted': st.booleans(), 'dtype': st.sampled_from(['f', 'd'])}),
    quick=300)
def sums(case, note):
    r = rng(case['seed'])
    n = case['n']
    xs = [chainer.Parameter(r.normal(size=case['shape']).astype(
        case['dtype'])) for _ in range(n)]
    idx = [r.randint(n) for _ in range(n)] if case['repeat'] \
        else list(range(n))
    args = [xs[i] for i in idx]
    if not case['as_list']:
        args = tuple(args)
    ws = [float(np.float32(z)) for z in r.normal(size=n)] \
        if case['weighted'] else [1.0] * n
    if case['weighted']:
        y = CF.weighted_sum_arrays(args, ws)
    else:
        y = CF.sum_arrays(args)
    check(y.dtype == np.dtype(case['dtype']), 'dtype {}', y.dtype)
    want = sum(w * xs[i].array.astype('d') for w, i in zip(ws, idx))
    close(y, want, 'sum', rtol=1e-5)
    w = r.normal(size=y.shape).astype(case['dtype'])
    before = [x.array.copy() for x in xs]
    gs = grads(y, w, xs)
    for i in range(n):
        want = sum(ws[j] for j in range(n) if idx[j] == i) * w
        got = gs[i] if gs[i] is not None else np.zeros_like(w)
        close(got, want * np.ones(y.shape), 'gradient {}'.format(i),
              rtol=1e-4)
        check((xs[i].array == before[i]).all(), 'input changed')
    # gradients do not alias
    seen = [g for g in gs if g is not None]
    if len(seen) > 1:
        keep = seen[1].copy()
        seen[0][...] += 1
        if not (seen[1] == keep).all():
            note.label('aliased gradients')
    note.nontrivial(n > 1)


@suite.facet(st.fixed_dictionaries({
    'shape': SHAPE, 'seed': SEED, 'scale': floats(-3, 3),
    'dtype': st.sampled_from(['f', 'd'])}), quick=200)
def muladd_and_scale(case, note):
    r = rng(case['seed'])
    x, y, z = [chainer.Parameter(r.normal(size=case['shape']).astype(
        case['dtype'])) for _ in range(3)]
    out = mul_add.muladd(x, y, z)
    close(out, x.array * y.array + z.array, 'muladd')
    w = r.normal(size=out.shape).astype(case['dtype'])
    gx, gy, gz = grads(out, w, [x, y, z])
    close(gx, y.array * w, 'gradient of x')
    close(gy, x.array * w, 'gradient of y')
    close(gz, w, 'gradient of z')
    p = chainer.Parameter(x.array.astype('f'))
    out = scale_grad.scale_grad(p, case['scale'])
    check((out.array == p.array).all(), 'scale_grad changes the value')
    w = w.astype('f')
    close(grads(out * out, w, [p])[0], case['scale'] * 2 * p.array * w,
          'scaled gradient')
    with must_raise(chainer.utils.type_check.InvalidType):
        scale_grad.scale_grad(chainer.Parameter(x.array.astype('d')), 1.0)
    note.nontrivial(x.array.size > 1 and case['scale'] not in (0, 1))
