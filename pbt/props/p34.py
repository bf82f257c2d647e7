"""P34: policy and value heads."""
import chainer
import gym.spaces
import numpy as np
from chainer import functions as F
from chainer import links as L
from hypothesis import strategies as st

from chainerrl import links, policies, q_functions, v_functions

from pbt import agents as A
from pbt.core import Suite, check, close, eq
from pbt.gen import SEED, floats, rng, wide

suite = Suite(
    'P34',
    'more than one row and more than one action or hidden layer',
    ['float32 tolerance', 'CPU code paths',
     'Weights are read under their serialised names',
     'The layer blocks (MLP, MLPBN) are decided by P33; here they are the '
     'reference for batch-normalised heads'])

ACTS = {'relu': (F.relu, lambda x: np.maximum(x, 0)),
        'tanh': (F.tanh, np.tanh),
        'sigmoid': (F.sigmoid, lambda x: 1 / (1 + np.exp(-x))),
        'elu': (F.elu, lambda x: np.where(x > 0, x, np.expm1(x)))}

NET = {'n_in': st.integers(1, 4), 'hidden': st.integers(1, 5),
       'layers': st.integers(0, 3), 'n': st.integers(1, 4),
       'act': st.sampled_from(sorted(ACTS)), 'seed': SEED,
       'batch': wide(1, 5),
       'scale': st.sampled_from([0.5, 0.5, 2.0]),
       'mag': st.sampled_from([1e-3, 1.0, 1.0, 10.0, 1e4])}
BOUNDS = {'bounds': st.lists(st.tuples(
    floats(-9, 9), floats(0, 9)).map(list), min_size=4, max_size=4),
    'bound_dtype': st.sampled_from(['f', 'd'])}


def net(**kw):
    return st.fixed_dictionaries(dict(NET, **kw))


def weights(m):
    return {n: p.array.astype(np.float64) for n, p in m.namedparams()}


def inputs(c, n=None, offset=1):
    return (c['mag'] * rng(c['seed'] + offset).uniform(
        -1, 1, (c['batch'], n or c['n_in']))).astype('f')


def box(c, n=None):
    n = n or c['n']
    low = np.array([b[0] for b in c['bounds'][:n]], c['bound_dtype'])
    width = np.array([b[1] for b in c['bounds'][:n]], c['bound_dtype'])
    return low, low + width


def linear(w, name, x):
    y = x.dot(w[name + '/W'].T)
    return y + w[name + '/b'] if name + '/b' in w else y


def mlp(w, prefix, x, layers, act):
    h = np.asarray(x, dtype=np.float64)
    for i in range(layers):
        h = ACTS[act][1](linear(w, '{}/hidden_layers/{}'.format(prefix, i),
                                h))
    return linear(w, prefix + '/output', h)


def chain(w, names, x, act):
    """Linear layers with the activation between them."""
    h = np.asarray(x, dtype=np.float64)
    for i, n in enumerate(names):
        h = linear(w, n, h)
        if i + 1 < len(names):
            h = ACTS[act][1](h)
    return h


def softplus(x):
    return np.logaddexp(0, x)


def tanh_bound(y, low, high):
    low, high = low.astype(np.float64), high.astype(np.float64)
    return (low + high) / 2 + np.tanh(y) * (high - low) / 2


def in_bounds(a, low, high, what):
    a = np.asarray(a, dtype=np.float64)
    slack = 1e-5 * (1 + np.maximum(np.abs(low), np.abs(high)))
    check(((a >= low - slack) & (a <= high + slack)).all(),
          '{} {} outside [{}, {}]', what, a.tolist(), low.tolist(),
          high.tolist())


def near(got, want, what):
    want = np.asarray(want, dtype=np.float64)
    close(got, want, what, rtol=2e-3,
          atol=1e-4 * max(1.0, np.abs(want).max() if want.size else 1))


def by_rows(f, xs, what):
    """f(batch) row by row equals f on the rows."""
    whole = f(*xs)
    for i in range(len(xs[0])):
        part = f(*[x[i:i + 1] for x in xs])
        for a, b in zip(whole, part):
            near(b, a[i:i + 1], what + ', row by row')


def busy(c):
    return c['batch'] > 1 and (c['n'] > 1 or c['layers'] > 0)


# -------------------------------------------------- deterministic policies

@suite.facet(net(bound=st.booleans(), lstm=st.just(False), **BOUNDS),
             quick=1500)
def deterministic(case, note):
    c = case
    low, high = box(c)
    m = policies.FCDeterministicPolicy(
        c['n_in'], c['layers'], c['hidden'], c['n'],
        min_action=low if c['bound'] else None,
        max_action=high if c['bound'] else None, bound_action=c['bound'],
        nonlinearity=ACTS[c['act']][0])
    A.randomize(m, c['seed'], c['scale'])
    x = inputs(c)
    y = mlp(weights(m), '/model', x, c['layers'], c['act'])
    if c['bound']:
        y = tanh_bound(y, low, high)

    def f(x):
        d = m(x)
        check(d.sample().shape == (len(x), c['n']), 'shape')
        return d.sample().array, d.most_probable.array
    a, b = f(x)
    near(a, y, 'action')
    near(b, y, 'most probable action')
    check(a.dtype == np.float32, 'type {}', a.dtype)
    if c['bound']:
        in_bounds(a, low, high, 'action')
    by_rows(f, [x], 'action')
    note.nontrivial(busy(c))


@suite.facet(net(bound=st.booleans(), norm=st.booleans(), train=st.booleans(),
                 **BOUNDS), quick=1000)
def deterministic_bn(case, note):
    c = case
    low, high = box(c)
    f = ACTS[c['act']][0]
    m = policies.FCBNDeterministicPolicy(
        c['n_in'], c['layers'], c['hidden'], c['n'],
        min_action=low if c['bound'] else None,
        max_action=high if c['bound'] else None, bound_action=c['bound'],
        normalize_input=c['norm'], nonlinearity=f)
    ref = links.MLPBN(c['n_in'], c['n'], [c['hidden']] * c['layers'],
                      normalize_input=c['norm'], nonlinearity=f)
    A.randomize(m, c['seed'], c['scale'])
    copy_by_name(m, ref, '/model')
    if c['batch'] == 1 and c['train']:
        c = dict(c, batch=2)
    x = inputs(c)
    with chainer.using_config('train', c['train']):
        y = ref(x).array.astype(np.float64)
        if c['bound']:
            y = tanh_bound(y, low, high)
        a = m(x).sample().array
    near(a, y, 'action')
    if c['bound']:
        in_bounds(a, low, high, 'action')
    with chainer.using_config('train', False):
        near(m(x).sample(), tanh_bound(ref(x).array, low, high)
             if c['bound'] else ref(x).array, 'action afterwards')
        by_rows(lambda x: (m(x).sample().array,), [x], 'action')
    note.nontrivial(busy(c))


def copy_by_name(src, dst, prefix):
    """Copy parameters; every one of dst has its source, and vice versa."""
    a = {n[len(prefix):]: p for n, p in src.namedparams()
         if n.startswith(prefix)}
    b = dict(dst.namedparams())
    eq(sorted((n, p.shape) for n, p in a.items()),
       sorted((n, p.shape) for n, p in b.items()), 'parameters')
    for n in a:
        b[n].array[...] = a[n].array


class RefLSTM(object):
    """The layer of Chainer's L.LSTM with weights of the model under test."""

    def __init__(self, m, prefix, n):
        self.l = L.LSTM(n, n)
        copy_by_name(m, self.l, prefix)

    def __call__(self, h):
        return self.l(h.astype('f')).array.astype(np.float64)


STEPS = st.lists(st.sampled_from(['step'] * 5 + ['reset']), min_size=1,
                 max_size=6)


@suite.facet(net(which=st.sampled_from(['policy', 'q', 'saq']),
                 bound=st.booleans(), steps=STEPS, **BOUNDS), quick=1200)
def lstm(case, note):
    """Recurrent heads over several steps and resets."""
    c = dict(case, mag=min(case['mag'], 10.0))
    low, high = box(c)
    f = ACTS[c['act']][0]
    if c['which'] == 'policy':
        m = policies.FCLSTMDeterministicPolicy(
            c['n_in'], c['layers'], c['hidden'], c['n'],
            min_action=low if c['bound'] else None,
            max_action=high if c['bound'] else None,
            bound_action=c['bound'], nonlinearity=f)
        prefix, act = '/model', c['act']
    elif c['which'] == 'q':
        m = q_functions.FCLSTMStateQFunction(c['n_in'], c['n'], c['hidden'],
                                             c['layers'])
        prefix, act = '', 'relu'
    else:
        m = q_functions.FCLSTMSAQFunction(c['n_in'], c['n'], c['hidden'],
                                          c['layers'], nonlinearity=f)
        prefix, act = '', c['act']
    A.randomize(m, c['seed'], c['scale'])
    w = weights(m)
    mem = RefLSTM(m, prefix + '/lstm', c['hidden'])
    for t, s in enumerate(c['steps']):
        if s == 'reset':
            m.reset_state()
            mem.l.reset_state()
            continue
        x = inputs(c, offset=2 * t)
        a = inputs(c, c['n'], offset=2 * t + 1)
        h = np.concatenate([x, a], axis=1) if c['which'] == 'saq' else x
        h = ACTS[act][1](mlp(w, prefix + '/fc', h, c['layers'], act))
        y = linear(w, prefix + '/out', mem(h))
        if c['which'] == 'policy':
            if c['bound']:
                y = tanh_bound(y, low, high)
            got = m(x).sample().array
            if c['bound']:
                in_bounds(got, low, high, 'action')
        elif c['which'] == 'q':
            got = m(x).q_values.array
        else:
            got = m(x, a).array
        near(got, y, 'output of step {}'.format(t))
    note.nontrivial(busy(c) and c['steps'].count('step') > 1)


# ------------------------------------------------------- gaussian policies

def gaussian(d):
    mean, var = d.params
    return mean.array, var.array


def is_gaussian(d, mean, var, what):
    """The distribution is a gaussian with that mean and variance."""
    got_mean, got_var = gaussian(d)
    near(got_mean, mean, what + ': mean')
    near(d.most_probable, mean, what + ': most probable')
    close(got_var, var, what + ': variance', rtol=2e-3, atol=1e-6)
    check(got_var.dtype == np.float32 and got_mean.dtype == np.float32,
          'types {} {}', got_mean.dtype, got_var.dtype)
    # the density one deviation away from the reported mean
    if (var > 1e-4).all() and np.abs(mean).max() < 100:
        z = (got_mean + np.sqrt(got_var)).astype('f')
        want = -0.5 * mean.shape[1] - 0.5 * np.log(
            2 * np.pi * var).sum(axis=1)
        close(d.log_prob(z), want, what + ': log density', rtol=1e-2,
              atol=1e-2)
        want = 0.5 * np.log(2 * np.pi * np.e * var).sum(axis=1)
        close(d.entropy, want, what + ': entropy', rtol=1e-3, atol=1e-3)
    check(np.isfinite(d.sample().array).all() and
          d.sample().shape == mean.shape, 'samples')


@suite.facet(net(bound=st.booleans(), diagonal=st.booleans(),
                 min_var=st.sampled_from([0, 1e-3, 0.5, 1.0]), **BOUNDS),
             quick=2000)
def gaussian_fc(case, note):
    c = case
    low, high = box(c)
    kw = dict(min_action=low, max_action=high) if c['bound'] else {}
    m = policies.FCGaussianPolicy(
        c['n_in'], c['n'], c['layers'], c['hidden'], bound_mean=c['bound'],
        var_type='diagonal' if c['diagonal'] else 'spherical',
        nonlinearity=ACTS[c['act']][0], min_var=c['min_var'], **kw)
    A.randomize(m, c['seed'], c['scale'])
    w = weights(m)
    x = inputs(c)
    # layers 0 and 1 are the heads, then the hidden layers
    body = ['/{}'.format(i + 2) for i in range(c['layers'])]
    mean = chain(w, body + ['/0'], x, c['act'])
    var = softplus(chain(w, body + ['/1'], x, c['act'])) + c['min_var']
    check(var.shape[1] == (c['n'] if c['diagonal'] else 1), 'variance head')
    var = np.broadcast_to(var, mean.shape)
    if c['bound']:
        mean = tanh_bound(mean, low, high)
        in_bounds(gaussian(m(x))[0], low, high, 'mean')
    is_gaussian(m(x), mean, var, 'policy')
    check((gaussian(m(x))[1] >= np.float32(c['min_var'])).all(),
          'variance below its floor')
    by_rows(lambda x: gaussian(m(x)), [x], 'policy')
    note.nontrivial(busy(c))


VAR_FUNCS = {'softplus': (F.softplus, softplus), 'exp': (F.exp, np.exp),
             'exp2': (lambda x: F.exp(2 * x), lambda x: np.exp(2 * x))}


@suite.facet(net(bound=st.booleans(), diagonal=st.booleans(),
                 var_func=st.sampled_from(sorted(VAR_FUNCS)),
                 init=floats(-2, 2), head=st.booleans(), **BOUNDS),
             quick=1500)
def gaussian_independent(case, note):
    """Variance that is a parameter of its own."""
    c = case
    low, high = box(c)
    f, ref = VAR_FUNCS[c['var_func']]
    vt = 'diagonal' if c['diagonal'] else 'spherical'
    x = inputs(c)
    layers = max(1, c['layers'])
    if c['head']:
        m = policies.GaussianHeadWithStateIndependentCovariance(
            action_size=c['n'], var_type=vt, var_func=f,
            var_param_init=c['init'])
        x = inputs(c, c['n'])
    else:
        kw = dict(min_action=low, max_action=high) if c['bound'] else {}
        m = policies.FCGaussianPolicyWithStateIndependentCovariance(
            c['n_in'], c['n'], layers, c['hidden'], bound_mean=c['bound'],
            var_type=vt, nonlinearity=ACTS[c['act']][0], var_func=f,
            var_param_init=c['init'], **kw)
    d = m(x)
    close(gaussian(d)[1], np.full((c['batch'], c['n']),
                                  ref(np.float64(c['init']))),
          'initial variance', rtol=1e-3)
    A.randomize(m, c['seed'], c['scale'])
    w = weights(m)
    if c['head']:
        mean = x.astype(np.float64)
        eq([n for n in w], ['/var_param'], 'parameters')
    else:
        mean = chain(w, ['/hidden_layers/{}'.format(i)
                         for i in range(layers + 1)], x, c['act'])
        if c['bound']:
            mean = tanh_bound(mean, low, high)
            in_bounds(gaussian(m(x))[0], low, high, 'mean')
    check(w['/var_param'].shape == (c['n'] if c['diagonal'] else 1,),
          'variance parameter')
    var = np.broadcast_to(ref(w['/var_param']), mean.shape)
    is_gaussian(m(x), mean, var, 'policy')
    by_rows(lambda x: gaussian(m(x)), [x], 'policy')
    note.nontrivial(busy(c))


@suite.facet(net(bound=st.booleans(),
                 var=st.lists(floats(0.0009765625, 9), min_size=4,
                              max_size=4),
                 var_kind=st.sampled_from(['scalar', 'f', 'd', '0d']),
                 **BOUNDS), quick=1500)
def gaussian_fixed(case, note):
    c = case
    low, high = box(c)
    kind = c['var_kind']
    v = np.array(c['var'][:c['n']])
    if kind in ('scalar', '0d'):
        v = np.full(c['n'], c['var'][0])
    arg = {'scalar': c['var'][0], 'f': v.astype('f'), 'd': v,
           '0d': np.array(c['var'][0], 'f')}[kind]
    kw = dict(min_action=low, max_action=high) if c['bound'] else {}
    m = policies.FCGaussianPolicyWithFixedCovariance(
        c['n_in'], c['n'], arg, c['layers'], c['hidden'],
        bound_mean=c['bound'], nonlinearity=ACTS[c['act']][0], **kw)
    A.randomize(m, c['seed'], c['scale'])
    w = weights(m)
    check(len(w) == 2 * (c['layers'] + 1), 'parameters {}', sorted(w))
    x = inputs(c)
    names = sorted({n[:-2] for n in w}, key=lambda n: int(n.strip('/')))
    mean = chain(w, names, x, c['act'])
    if c['bound']:
        mean = tanh_bound(mean, low, high)
        in_bounds(gaussian(m(x))[0], low, high, 'mean')
    is_gaussian(m(x), mean, np.broadcast_to(v, mean.shape), 'policy')
    by_rows(lambda x: gaussian(m(x)), [x], 'policy')
    note.nontrivial(busy(c))


# --------------------------------------------------------- discrete policies

def softmax(x, axis=-1):
    x = x - x.max(axis=axis, keepdims=True)
    e = np.exp(x)
    return e / e.sum(axis=axis, keepdims=True)


@suite.facet(net(fc=st.booleans(), beta=floats(0.0625, 8),
                 min_prob=floats(0, 1)), quick=1500)
def softmax_policy(case, note):
    c = case
    floor = c['min_prob'] / c['n']
    if c['fc']:
        m = policies.FCSoftmaxPolicy(
            c['n_in'], c['n'], c['layers'], c['hidden'], beta=c['beta'],
            nonlinearity=ACTS[c['act']][0], min_prob=floor)
    else:
        m = policies.SoftmaxPolicy(
            links.MLP(c['n_in'], c['n'], [c['hidden']] * c['layers'],
                      nonlinearity=ACTS[c['act']][0]),
            beta=c['beta'], min_prob=floor)
    A.randomize(m, c['seed'], c['scale'])
    c = dict(c, mag=min(c['mag'], 10.0))
    x = inputs(c)
    y = mlp(weights(m), '/model', x, c['layers'], c['act'])
    p = softmax(c['beta'] * y) * (1 - floor * c['n']) + floor
    d = m(x)
    close(d.all_prob, p, 'probabilities', rtol=1e-2, atol=1e-4)
    close(d.all_prob.array.sum(axis=1), np.ones(c['batch']), 'total',
          atol=1e-4)
    check((d.all_prob.array >= floor * (1 - 1e-5)).all(),
          'probability below {}', floor)
    check(d.sample().shape == (c['batch'],) and
          ((0 <= d.sample().array) & (d.sample().array < c['n'])).all(),
          'samples')
    by_rows(lambda x: (m(x).all_prob.array,), [x], 'probabilities')
    note.nontrivial(busy(c))


@suite.facet(net(omega=floats(0.25, 8)), quick=300)
def mellowmax_policy(case, note):
    """Expected value under the policy equals the mellowmax of the values."""
    c = dict(case, mag=min(case['mag'], 1.0), scale=0.5, n=case['n'] + 1)
    model = links.MLP(c['n_in'], c['n'], [c['hidden']] * c['layers'],
                      nonlinearity=ACTS[c['act']][0])
    m = policies.MellowmaxPolicy(model, omega=c['omega'])
    A.randomize(m, c['seed'], c['scale'])
    x = inputs(c)
    y = mlp(weights(m), '/model', x, c['layers'], c['act'])
    mm = np.log(np.exp(c['omega'] * y).mean(axis=1)) / c['omega']
    p = m(x).all_prob.array.astype(np.float64)
    close(p.sum(axis=1), np.ones(c['batch']), 'total', atol=1e-4)
    check((p >= 0).all(), 'negative probability')
    if (np.ptp(y, axis=1) > 0.05).all():
        close((p * y).sum(axis=1), mm, 'expected value', rtol=1e-2, atol=2e-3)
        # the order of the values is kept
        for pi, yi in zip(p, y):
            check((np.diff(pi[np.argsort(yi)]) >= -1e-3).all(),
                  'order of {} and {}', pi, yi)
    by_rows(lambda x: (m(x).all_prob.array,), [x], 'probabilities')
    note.nontrivial(busy(c))


# ----------------------------------------------------- state value functions

@suite.facet(net(kind=st.sampled_from(['fc', 'single', 'v', 'single_v'])),
             quick=1500)
def state_values(case, note):
    c = case
    f = ACTS[c['act']][0]
    out = 1 if c['kind'].endswith('v') else c['n']
    body = links.MLP(c['n_in'], out, [c['hidden']] * c['layers'],
                     nonlinearity=f)
    m = {'fc': lambda: q_functions.FCStateQFunctionWithDiscreteAction(
             c['n_in'], c['n'], c['hidden'], c['layers'], nonlinearity=f),
         'single': lambda: (
             q_functions.SingleModelStateQFunctionWithDiscreteAction(body)),
         'v': lambda: v_functions.FCVFunction(
             c['n_in'], c['layers'], c['hidden'], nonlinearity=f),
         'single_v': lambda: v_functions.SingleModelVFunction(body)}[
             c['kind']]()
    A.randomize(m, c['seed'], c['scale'])
    x = inputs(c)
    y = mlp(weights(m), '/model', x, c['layers'], c['act'])
    if out == 1 and c['kind'].endswith('v'):
        near(m(x), y, 'value')
        by_rows(lambda x: (m(x).array,), [x], 'value')
    else:
        av = m(x)
        near(av.q_values, y, 'values')
        near(av.max, y.max(axis=1), 'largest value')
        a = rng(c['seed'] + 5).randint(0, c['n'], c['batch']).astype('i')
        near(av.evaluate_actions(a), y[np.arange(c['batch']), a],
             'value of an action')
        by_rows(lambda x: (m(x).q_values.array,), [x], 'values')
    note.nontrivial(busy(c))


@suite.facet(net(n_atoms=st.integers(2, 7), v_min=floats(-9, 9),
                 width=floats(0.125, 18), single=st.booleans()), quick=1200)
def distributional(case, note):
    c = dict(case, mag=min(case['mag'], 10.0))
    f = ACTS[c['act']][0]
    lo, hi = c['v_min'], c['v_min'] + c['width']
    z = np.linspace(lo, hi, c['n_atoms'])
    if c['single']:
        model = chainer.Sequential(
            links.MLP(c['n_in'], c['n'] * c['n_atoms'],
                      [c['hidden']] * c['layers'], nonlinearity=f),
            lambda h: F.softmax(F.reshape(
                h, (-1, c['n'], c['n_atoms'])), axis=2))
        cls = (q_functions.
               DistributionalSingleModelStateQFunctionWithDiscreteAction)
        m = cls(model, z.astype('f'))
    else:
        m = q_functions.DistributionalFCStateQFunctionWithDiscreteAction(
            c['n_in'], c['n'], c['n_atoms'], lo, hi, c['hidden'],
            c['layers'], nonlinearity=f)
    A.randomize(m, c['seed'], c['scale'])
    x = inputs(c)
    y = mlp(weights(m), '/model/0', x, c['layers'], c['act'])
    p = softmax(y.reshape((c['batch'], c['n'], c['n_atoms'])), axis=2)
    av = m(x)
    close(av.q_dist, p, 'distribution', rtol=1e-2, atol=1e-4)
    close(av.q_dist.array.sum(axis=2), np.ones((c['batch'], c['n'])),
          'total', atol=1e-4)
    close(av.z_values, z, 'atoms')
    check(av.z_values.dtype == np.float32, 'type of atoms')
    close(av.q_values, (p * z).sum(axis=2), 'values', rtol=1e-2, atol=1e-2)
    in_bounds(av.q_values.array, np.float64(lo), np.float64(hi), 'value')
    by_rows(lambda x: (m(x).q_dist.array,), [x], 'distribution')
    note.nontrivial(busy(c))


@suite.facet(net(bn=st.booleans(), norm=st.booleans(), scaled=st.booleans(),
                 train=st.booleans(), **BOUNDS), quick=1500)
def quadratic(case, note):
    c = dict(case, mag=min(case['mag'], 1.0), scale=0.5,
             layers=max(1, case['layers']))
    n = c['n']
    low, high = box(dict(c, bound_dtype='f'))
    space = gym.spaces.Box(low, high, dtype=np.float32)
    if c['bn']:
        m = q_functions.FCBNQuadraticStateQFunction(
            c['n_in'], n, c['hidden'], c['layers'], space,
            scale_mu=c['scaled'], normalize_input=c['norm'])
    else:
        m = q_functions.FCQuadraticStateQFunction(
            c['n_in'], n, c['hidden'], c['layers'], space,
            scale_mu=c['scaled'])
    A.randomize(m, c['seed'], c['scale'])
    w = weights(m)
    train = c['bn'] and c['train']
    if train and c['batch'] == 1:
        c = dict(c, batch=2)
    x = inputs(c)
    with chainer.using_config('train', train):
        av = m(x)
    if c['bn']:
        body = links.MLPBN(c['n_in'], c['hidden'],
                           [c['hidden']] * (c['layers'] - 1),
                           normalize_input=c['norm'])
        copy_by_name(m, body, '/hidden_layers')
        with chainer.using_config('train', train):
            h = body(x).array.astype(np.float64)
    else:
        h = np.maximum(chain(w, ['/hidden_layers/{}'.format(i) for i in
                                 range(c['layers'])], x, 'relu'), 0)
    v, mu = linear(w, '/v', h), linear(w, '/mu', h)
    diag = np.exp(linear(w, '/mat_diag', h))
    if c['scaled']:
        mu = tanh_bound(mu, low, high)
        in_bounds(av.params[0].array, low, high, 'mean action')
    mat = np.zeros((c['batch'], n, n))
    off = linear(w, '/mat_non_diag', h) if n > 1 else None
    for i in range(c['batch']):
        t = np.diag(diag[i])
        if n > 1:
            t[np.tril_indices(n, -1)] = off[i]
        mat[i] = t.dot(t.T)
    a = rng(c['seed'] + 3).uniform(-3, 3, (c['batch'], n)).astype('f')

    def q(a):
        d = a.astype(np.float64) - mu
        return v[:, 0] - 0.5 * np.einsum('bi,bij,bj->b', d, mat, d)
    want = q(a)
    tol = 1e-3 * max(1.0, np.abs(want).max())
    close(av.evaluate_actions(a), want, 'value of an action', rtol=1e-2,
          atol=tol)
    g = av.greedy_actions.array
    in_bounds(g, low, high, 'greedy action')
    if c['scaled']:
        near(g, mu, 'greedy action')
        near(av.max, v[:, 0], 'largest value')
        check((av.evaluate_actions(a).array <=
               av.max.array + tol).all(), 'the greedy action is not best')
    if not train:
        with chainer.using_config('train', False):
            by_rows(lambda x, a: (m(x).evaluate_actions(a).array /
                                  np.float32(tol * 1e3),),
                    [x, a], 'value')
    note.nontrivial(busy(c))


# ---------------------------------------------- state-action value functions

@suite.facet(net(kind=st.sampled_from(['fc', 'bn', 'late', 'bn_late',
                                       'single']),
                 norm=st.booleans(), train=st.booleans()), quick=2500)
def state_action(case, note):
    c = case
    k = c['kind']
    late = k.endswith('late')
    layers = max(1, c['layers']) if late else c['layers']
    f, ref = ACTS[c['act']]
    cls = {'fc': q_functions.FCSAQFunction,
           'bn': q_functions.FCBNSAQFunction,
           'late': q_functions.FCLateActionSAQFunction,
           'bn_late': q_functions.FCBNLateActionSAQFunction,
           'single': q_functions.FCSAQFunction}[k]
    kw = dict(normalize_input=c['norm']) if k.startswith('bn') else {}
    m = cls(c['n_in'], c['n'], c['hidden'], layers, nonlinearity=f, **kw)
    if k == 'single':
        m = q_functions.SingleModelStateActionQFunction(m)
    A.randomize(m, c['seed'], c['scale'])
    w = weights(m)
    train = c['train'] and k.startswith('bn')
    if train and c['batch'] == 1:
        c = dict(c, batch=2)
    x, a = inputs(c), inputs(c, c['n'], 2)
    xa = np.concatenate([x, a], axis=1)
    if k in ('fc', 'single'):
        y = mlp(w, '/model' if k == 'single' else '', xa, layers, c['act'])
    elif k == 'bn':
        body = links.MLPBN(c['n_in'] + c['n'], 1, [c['hidden']] * layers,
                           normalize_input=c['norm'], nonlinearity=f)
        copy_by_name(m, body, '')
        with chainer.using_config('train', train):
            y = body(xa).array
    else:
        if k == 'late':
            h = mlp(w, '/obs_mlp', x, 0, c['act'])
        else:
            body = links.MLPBN(c['n_in'], c['hidden'], [],
                               normalize_input=c['norm'],
                               normalize_output=True)
            copy_by_name(m, body, '/obs_mlp')
            with chainer.using_config('train', train):
                h = body(x).array.astype(np.float64)
        h = np.concatenate([ref(h), a], axis=1)
        y = mlp(w, '/mlp', h, layers - 1, c['act'])
    with chainer.using_config('train', train):
        got = m(x, a)
    check(got.shape == (c['batch'], 1), 'shape {}', got.shape)
    near(got, y, 'value')
    with chainer.using_config('train', False):
        by_rows(lambda x, a: (m(x, a).array,), [x, a], 'value')
    note.nontrivial(busy(c))


# -------------------------------------------------------------- dueling heads

@suite.facet(st.fixed_dictionaries({
    'n': st.integers(1, 5), 'channels': st.integers(1, 4),
    'atoms': st.one_of(st.none(), st.integers(2, 6)),
    'v_min': floats(-9, 9), 'width': floats(0.125, 18),
    'act': st.sampled_from(['relu', 'tanh', 'elu']),
    'bias': floats(-0.5, 0.5), 'seed': SEED, 'scale': floats(0.03125, 0.25),
    'batch': st.integers(1, 3)}), quick=48, thorough=600, shards=4,
    max_shrink=5)
def dueling(case, note):
    c = case
    f = ACTS[c['act']][0]
    n, b = c['n'], c['batch']
    lo, hi = c['v_min'], c['v_min'] + c['width']
    np.random.seed(c['seed'] % 2 ** 32)
    if c['atoms']:
        m = q_functions.DistributionalDuelingDQN(
            n, c['atoms'], lo, hi, n_input_channels=c['channels'],
            activation=f, bias=c['bias'])
    else:
        m = q_functions.DuelingDQN(n, n_input_channels=c['channels'],
                                   activation=f, bias=c['bias'])
    ps = dict(m.namedparams())
    for i in range(3):
        p = ps['/conv_layers/{}/b'.format(i)]
        close(p.array, np.full(p.shape, c['bias']), 'initial bias')
    r = rng(c['seed'])
    for name, p in sorted(ps.items()):
        if 'stream' in name:
            p.array[...] = r.uniform(-c['scale'], c['scale'], p.shape)
    x = r.uniform(0, 1, (b, c['channels'], 84, 84)).astype('f')
    h = chainer.Variable(x)
    for i, stride in enumerate([4, 2, 1]):
        h = f(F.convolution_2d(h, ps['/conv_layers/{}/W'.format(i)],
                               ps['/conv_layers/{}/b'.format(i)],
                               stride=stride))
    h = h.array.reshape((b, -1)).astype(np.float64)
    w = weights(m)
    av = m(x)
    if c['atoms']:
        z = np.linspace(lo, hi, c['atoms'])
        h = ACTS[c['act']][1](linear(w, '/main_stream', h))
        ha, hv = np.split(h, 2, axis=1)
        ya = linear(w, '/a_stream', ha).reshape((b, n, c['atoms']))
        yv = linear(w, '/v_stream', hv).reshape((b, 1, c['atoms']))
        p = softmax(yv + ya - ya.mean(axis=1, keepdims=True), axis=2)
        close(av.q_dist, p, 'distribution', rtol=2e-2, atol=1e-3)
        close(av.q_dist.array.sum(axis=2), np.ones((b, n)), 'total')
        close(av.z_values, z, 'atoms')
        close(av.q_values, (p * z).sum(axis=2), 'values', rtol=2e-2,
              atol=2e-3 * max(abs(lo), abs(hi), 1))

        def out(x):
            return m(x).q_dist.array,
    else:
        ya = mlp(w, '/a_stream', h, 1, 'relu')
        yv = mlp(w, '/v_stream', h, 1, 'relu')
        near(av.q_values, yv + ya - ya.mean(axis=1, keepdims=True), 'values')
        near(av.q_values.array.mean(axis=1), yv[:, 0],
             'mean of the values is the state value')

        def out(x):
            return m(x).q_values.array,
    by_rows(out, [x], 'output')
    note.nontrivial(b > 1 and n > 1)


# ------------------------------------------------ initial scales, gradients

def heads(c):
    """name -> (model, function from inputs to a list of outputs)."""
    f = ACTS[c['act']][0]
    n_in, n, hid = c['n_in'], c['n'], c['hidden']
    lo, hi = c['layers'], max(1, c['layers'])
    s = c['last']
    low, high = -np.ones(n, 'f'), np.ones(n, 'f')
    Pn, Q, V = policies, q_functions, v_functions  # NOQA
    x_only = {
        'det': lambda: (Pn.FCDeterministicPolicy(
            n_in, lo, hid, n, bound_action=False, nonlinearity=f,
            last_wscale=s), lambda d: [d.sample()]),
        'det_bounded': lambda: (Pn.FCDeterministicPolicy(
            n_in, lo, hid, n, low, high, nonlinearity=f, last_wscale=s),
            lambda d: [d.sample()]),
        'det_bn': lambda: (Pn.FCBNDeterministicPolicy(
            n_in, lo, hid, n, bound_action=False, nonlinearity=f,
            last_wscale=s), lambda d: [d.sample()]),
        'det_lstm': lambda: (Pn.FCLSTMDeterministicPolicy(
            n_in, lo, hid, n, bound_action=False, nonlinearity=f,
            last_wscale=s), lambda d: [d.sample()]),
        'gauss': lambda: (Pn.FCGaussianPolicy(
            n_in, n, lo, hid, nonlinearity=f, mean_wscale=s,
            var_type='diagonal'), lambda d: list(d.params)),
        'gauss_var': lambda: (Pn.FCGaussianPolicy(
            n_in, n, lo, hid, nonlinearity=f, mean_wscale=s, var_wscale=s,
            var_bias=0.75), lambda d: list(d.params)),
        'gauss_ind': lambda: (
            Pn.FCGaussianPolicyWithStateIndependentCovariance(
                n_in, n, hi, hid, nonlinearity=f, mean_wscale=s),
            lambda d: list(d.params)),
        'gauss_fix': lambda: (Pn.FCGaussianPolicyWithFixedCovariance(
            n_in, n, 0.5, lo, hid, nonlinearity=f, mean_wscale=s),
            lambda d: [d.params[0]]),
        'softmax': lambda: (Pn.FCSoftmaxPolicy(
            n_in, n, lo, hid, nonlinearity=f, last_wscale=s),
            lambda d: [d.params[0]]),
        'q': lambda: (Q.FCStateQFunctionWithDiscreteAction(
            n_in, n, hid, lo, nonlinearity=f, last_wscale=s),
            lambda d: [d.q_values]),
        'qdist': lambda: (
            Q.DistributionalFCStateQFunctionWithDiscreteAction(
                n_in, n, 3, -1, 1, hid, lo, nonlinearity=f, last_wscale=s),
            lambda d: [F.log(d.q_dist)]),
        'v': lambda: (V.FCVFunction(
            n_in, lo, hid, nonlinearity=f, last_wscale=s), lambda v: [v])}
    two = {
        'sa': lambda: Q.FCSAQFunction(n_in, n, hid, lo, nonlinearity=f,
                                      last_wscale=s),
        'sa_bn': lambda: Q.FCBNSAQFunction(n_in, n, hid, lo, nonlinearity=f,
                                           last_wscale=s),
        'sa_lstm': lambda: Q.FCLSTMSAQFunction(
            n_in, n, hid, lo, nonlinearity=f, last_wscale=s),
        'sa_late': lambda: Q.FCLateActionSAQFunction(
            n_in, n, hid, hi, nonlinearity=f, last_wscale=s),
        'sa_late_bn': lambda: Q.FCBNLateActionSAQFunction(
            n_in, n, hid, hi, nonlinearity=f, last_wscale=s)}
    return x_only, two


KINDS = ['det', 'det_bounded', 'det_bn', 'det_lstm', 'gauss', 'gauss_var',
         'gauss_ind', 'gauss_fix', 'softmax', 'q', 'qdist', 'v', 'sa',
         'sa_bn', 'sa_lstm', 'sa_late', 'sa_late_bn']


def head(c):
    x_only, two = heads(c)
    if c['kind'] in two:
        m = two[c['kind']]()
        return m, lambda x, a: [m(x, a)]
    m, post = x_only[c['kind']]()
    return m, lambda x, a: post(m(x))


def forward(f, m, x, a):
    with chainer.using_config('train', False):
        if any(n.endswith('/lstm') for n, _ in m.namedlinks()):
            m.reset_state()
            f(a_bit_less(x), a_bit_less(a))
        return f(x, a)


def a_bit_less(x):
    return (0.7 * x).astype('f')


@suite.facet(net(kind=st.sampled_from(KINDS)), quick=800)
def initial_scale(case, note):
    """The last layer's weights are scaled by the configured factor."""
    c = dict(case, mag=1.0)
    x, a = inputs(c), inputs(c, c['n'], 2)

    def outputs(s):
        np.random.seed(c['seed'] % 2 ** 32)
        m, f = head(dict(c, last=s))
        return [y.array.astype(np.float64) for y in forward(f, m, x, a)]
    tiny, one, four = outputs(1e-6), outputs(1.0), outputs(4.0)
    y0 = np.log(1 / 3) if c['kind'] == 'qdist' else 0.0
    close(tiny[0], np.full(tiny[0].shape, y0), 'output of a tiny last layer',
          atol=1e-4)
    if c['kind'] == 'gauss_var':
        close(tiny[1], np.full(tiny[1].shape, softplus(0.75)),
              'variance from its bias', atol=1e-4)
        # softplus is monotone: invert it
        close(np.log(np.expm1(four[1])) - 0.75,
              4 * (np.log(np.expm1(one[1])) - 0.75), 'variance head',
              rtol=1e-2, atol=1e-2)
    elif c['kind'].startswith('gauss_ind'):
        close(one[1], np.full(one[1].shape, np.log(2)), 'initial variance')
    if c['kind'] == 'det_bounded':
        ok = np.abs(four[0]) < 0.99
        close(np.arctanh(four[0][ok]), 4 * np.arctanh(one[0][ok]),
              'scaled output', rtol=1e-2, atol=1e-2)
    elif c['kind'] != 'qdist':
        close(four[0], 4 * one[0], 'scaled output', rtol=1e-3, atol=1e-4)
    note.nontrivial(busy(c))


@suite.facet(net(kind=st.sampled_from(KINDS)), quick=1000)
def gradients(case, note):
    """Back-propagation reaches every parameter of the head, correctly."""
    c = dict(case, mag=1.0, last=1.0, scale=0.5,
             act='tanh' if case['act'] == 'relu' else case['act'])
    m, f = head(c)
    A.randomize(m, c['seed'], c['scale'])
    r = rng(c['seed'] + 9)
    x, a = inputs(c), inputs(c, c['n'], 2)
    ys = forward(f, m, x, a)
    proj = [r.uniform(-1, 1, y.shape).astype('f') for y in ys]
    loss = sum(F.sum(y * p) for y, p in zip(ys, proj))
    m.cleargrads()
    loss.backward()

    def value():
        return sum(float((y.array.astype(np.float64) * p).sum())
                   for y, p in zip(forward(f, m, x, a), proj))
    eps = 1e-2
    for name, p in sorted(m.namedparams()):
        if p.array.size == 0:
            continue
        check(p.grad is not None, 'no gradient for {}', name)
        d = r.choice([-1.0, 1.0], p.shape).astype('f')
        keep = p.array.copy()
        p.array[...] = keep + eps * d
        up = value()
        p.array[...] = keep - eps * d
        down = value()
        p.array[...] = keep
        num = (up - down) / (2 * eps)
        got = float((p.grad.astype(np.float64) * d).sum())
        size = float(np.abs(p.grad).sum())
        check(abs(num - got) <= 2e-2 * max(size, abs(num)) + 5e-3,
              'gradient of {}: {} instead of {}', name, got, num)
    note.nontrivial(busy(c))
