"""P33: optimizers, initialisers, layers."""
import chainer
import numpy as np
from chainer import functions as F
from chainer import links as L
from hypothesis import strategies as st

from chainerrl import initializers, links
from chainerrl.links.mlp_bn import LinearBN
from chainerrl.links.noisy_chain import to_factorized_noisy
from chainerrl.misc.init_like_torch import init_like_torch
from chainerrl.optimizers.nonbias_weight_decay import NonbiasWeightDecay
from chainerrl.optimizers.rmsprop_async import RMSpropAsync, RMSpropAsyncRule

from pbt import agents as A
from pbt.core import Suite, check, close, eq
from pbt.gen import SEED, floats, rng, sized, wide

suite = Suite(
    'P33',
    'two layers, parameters or updates or more, or a shape that is not '
    'square',
    ['float32 tolerance', 'CPU code paths',
     'Distributions of noise and of random initial values are compared at a '
     'false-alarm rate below 1e-9'])


def pvalue_ok(stat, msg):
    check(stat > 1e-10, '{}: p = {}', msg, stat)


# --------------------------------------------------------------- optimizers

class Params(chainer.Chain):
    """Parameters called W, b and something else, on two levels."""

    def __init__(self, shapes, seed):
        super().__init__()
        r = rng(seed)
        names = ['W', 'b', 'beta', 'bb', 'x']
        with self.init_scope():
            for i, s in enumerate(shapes):
                p = chainer.Parameter(np.asarray(
                    r.uniform(-2, 2, s), 'f'))
                if i % 2:
                    child = chainer.Link()
                    with child.init_scope():
                        setattr(child, names[i % 5], p)
                    setattr(self, 'c{}'.format(i), child)
                else:
                    setattr(self, names[i % 5], p)


SHAPES = st.lists(st.lists(st.integers(1, 3), max_size=3), min_size=1,
                  max_size=5)
HYPER = st.fixed_dictionaries({
    'lr': floats(0.0009765625, 1), 'alpha': floats(0, 0.9990234375),
    'eps': st.sampled_from([1e-8, 1e-3, 0.1, 1.0])})


RMSPROP = {
    'shapes': SHAPES, 'hyper': HYPER, 'seed': SEED,
    'decay': st.one_of(st.none(), floats(0, 0.5)), 'default': st.booleans()}
GRAD = st.tuples(
    st.integers(0, 31), SEED, st.sampled_from([1.0, 1.0, 1e-3, 100.0]),
    st.one_of(st.none(), floats(0.0009765625, 1))).map(list)


@suite.facet(st.fixed_dictionaries(dict(RMSPROP, grads=sized(GRAD, 1, 8))),
             quick=2500, shards=2)
def rmsprop(case, note):
    m = Params(case['shapes'], case['seed'])
    h = dict(case['hyper'])
    if case['default']:
        opt = RMSpropAsync()
        h = {'lr': 0.01, 'alpha': 0.99, 'eps': 1e-8}
    else:
        opt = RMSpropAsync(**h)
    opt.setup(m)
    if case['decay'] is not None:
        opt.add_hook(NonbiasWeightDecay(case['decay']))
    p = {n: x.array.astype(np.float64) for n, x in m.namedparams()}
    ms = {n: np.zeros_like(v) for n, v in p.items()}
    local = {n: x.name for n, x in m.namedparams()}
    for mask, seed, scale, lr in case['grads']:
        if lr is not None:
            opt.lr = lr               # as hooks do
            h['lr'] = lr
        check(opt.lr == h['lr'] and opt.alpha == h['alpha'] and
              opt.eps == h['eps'], 'hyper-parameters')
        r = rng(seed)
        for i, (n, x) in enumerate(sorted(m.namedparams())):
            g = np.asarray(scale * r.uniform(-1, 1, x.shape), 'f')
            x.grad = g
            if mask >> i & 1:
                # Chainer takes a missing gradient for zero
                x.grad = None
                g = np.zeros_like(g)
            g = g.astype(np.float64)
            if case['decay'] is not None and local[n] != 'b':
                g = g + case['decay'] * p[n]
            ms[n] = h['alpha'] * ms[n] + (1 - h['alpha']) * g * g
            p[n] = p[n] - h['lr'] * g / np.sqrt(ms[n] + h['eps'])
        opt.update()
        for n, x in m.namedparams():
            close(x.array, p[n], n, rtol=1e-3, atol=1e-3 * max(
                1, np.abs(p[n]).max() if p[n].size else 1))
            check(x.array.dtype == np.float32 and
                  x.array.shape == p[n].shape, 'shape or type of {}', n)
            if x.update_rule.state:
                close(x.update_rule.state['ms'], ms[n], 'statistics of ' + n,
                      rtol=1e-3, atol=1e-6)
            # go on from what the code has, so that errors do not build up
            p[n] = x.array.astype(np.float64)
    note.nontrivial(len(case['grads']) > 1)


suite.add('rmsprop_long', st.fixed_dictionaries(dict(
    RMSPROP, grads=st.lists(GRAD, min_size=20, max_size=80))), rmsprop,
    quick=60)


@suite.facet(st.fixed_dictionaries({
    'own': HYPER, 'parent': HYPER, 'keys': st.lists(
        st.sampled_from(['lr', 'alpha', 'eps']), unique=True),
    'seed': SEED}), quick=500)
def own_hyperparameters(case, note):
    """A rule with hyper-parameters of its own."""
    opt = RMSpropAsync(**case['parent'])
    m = Params([[2]], case['seed'])
    opt.setup(m)
    own = {k: case['own'][k] for k in case['keys']}
    m.W.update_rule = RMSpropAsyncRule(opt.hyperparam, **own)
    h = dict(case['parent'], **own)
    p = m.W.array.astype(np.float64)
    g = rng(case['seed'] + 1).uniform(-1, 1, 2).astype('f')
    m.W.grad = g
    opt.update()
    ms = (1 - h['alpha']) * g.astype(np.float64) ** 2
    close(m.W.array, p - h['lr'] * g / np.sqrt(ms + h['eps']), 'parameter',
          rtol=1e-3, atol=1e-4)
    note.nontrivial(0 < len(own) < 3)


# -------------------------------------------------------------- initialisers

SHAPE = st.lists(st.integers(1, 5), min_size=1, max_size=4)


@suite.facet(st.fixed_dictionaries({
    'shape': st.one_of(SHAPE, st.lists(st.integers(0, 3), max_size=3)),
    'scale': floats(0.0625, 4), 'double': st.booleans(),
    'mode': st.sampled_from(['auto', 'auto', 'projection', 'embedding',
                             'basis'])}), quick=3000)
def orthogonal(case, note):
    shape = tuple(case['shape'])
    scale = case['scale']
    x = np.full(shape, 7, np.float64 if case['double'] else np.float32)
    init = initializers.Orthogonal(scale, mode=case['mode'])
    n_out = shape[0] if shape else 1
    n_in = int(np.prod(shape[1:])) if shape else 1
    bad = shape and (not x.size or {
        'auto': False, 'projection': n_in < n_out,
        'embedding': n_in > n_out, 'basis': n_in != n_out}[case['mode']])
    try:
        init(x)
    except ValueError:
        check(bad, 'shape {} refused in mode {}', shape, case['mode'])
        check(not x.size or (x == 7).all(), 'written in spite of the error')
        return
    check(not bad, 'shape {} accepted in mode {}', shape, case['mode'])
    w = x.reshape(n_out, n_in).astype(np.float64)
    gram = w.dot(w.T) if n_out <= n_in else w.T.dot(w)
    close(gram, scale ** 2 * np.eye(min(n_out, n_in)), 'Gram matrix',
          rtol=1e-4, atol=1e-4 * scale ** 2)
    note.nontrivial(n_in != n_out and min(n_in, n_out) > 1)


@suite.facet(st.text(max_size=8), quick=100)
def orthogonal_modes(case, note):
    try:
        initializers.Orthogonal(mode=case)
    except ValueError:
        check(case not in ('auto', 'projection', 'embedding', 'basis'),
              '{!r} refused', case)
    else:
        check(case in ('auto', 'projection', 'embedding', 'basis'),
              '{!r} accepted', case)
    note.nontrivial(bool(case))


@suite.facet(st.fixed_dictionaries({
    'n': st.integers(1, 4), 'm': st.integers(1, 4), 'seed': SEED}), quick=40,
    shards=2)
def orthogonal_is_uniform(case, note):
    """Every entry has mean zero, as of the uniform distribution."""
    np.random.seed(case['seed'] % 2 ** 32)
    n, m = case['n'], case['m']
    k = 600
    init = initializers.Orthogonal(1.0)
    xs = np.zeros((k, n, m))
    for i in range(k):
        init(xs[i])
    # entries have variance 1 / max(n, m)
    z = xs.mean(0) * np.sqrt(k * max(n, m))
    check(np.abs(z).max() < 7, 'means of entries {}', xs.mean(0))
    if max(n, m) > 1:
        # squares have mean 1/d and variance < 2/d^2
        z2 = ((xs ** 2).mean(0) * max(n, m) - 1) * np.sqrt(k / 2)
        check(np.abs(z2).max() < 8, 'mean squares {}', (xs ** 2).mean(0))
    note.nontrivial(n > 1 and m > 1)


@suite.facet(st.fixed_dictionaries({
    'shape': SHAPE, 'scale': floats(0.0625, 4), 'double': st.booleans()}),
    quick=1000)
def variance_scaling(case, note):
    shape = tuple(case['shape'])
    x = np.zeros(shape, np.float64 if case['double'] else np.float32)
    initializers.VarianceScalingConstant(case['scale'])(x)
    fan_in = shape[0] if len(shape) == 1 else int(np.prod(shape[1:]))
    close(x, np.full(shape, case['scale'] / np.sqrt(fan_in)), 'values',
          rtol=1e-5)
    note.nontrivial(len(shape) != 1 and fan_in > 1)


@suite.facet(st.fixed_dictionaries({
    'n_in': st.integers(1, 6), 'n_out': st.integers(1, 6),
    'k': st.integers(1, 3), 'nobias': st.booleans(), 'seed': SEED}),
    quick=150)
def torch_like(case, note):
    np.random.seed(case['seed'] % 2 ** 32)
    c = case
    m = chainer.Chain(
        l=L.Linear(c['n_in'], c['n_out'], nobias=c['nobias']),
        inner=chainer.ChainList(L.Convolution2D(
            c['n_in'], c['n_out'], c['k'], nobias=c['nobias'])),
        bn=L.BatchNormalization(2))
    bn = A.params(m.bn)
    draws = {}
    for _ in range(60):
        for p in m.params():
            p.array[...] = 9
        for p in m.bn.params():
            p.array[...] = bn['/' + p.name]
        init_like_torch(m)
        for n, p in m.namedparams():
            draws.setdefault(n, []).append(p.array.copy())
    check(A.same_params(A.params(m.bn), bn), 'other links were changed')
    from scipy import stats
    for n, xs in draws.items():
        if n.startswith('/bn'):
            continue
        fan = c['n_in'] * (c['k'] ** 2 if 'inner' in n else 1)
        xs = np.array(xs, dtype=np.float64) * np.sqrt(fan)
        check(np.abs(xs).max() <= 1 + 1e-5, '{}: {} of the limit', n,
              np.abs(xs).max())
        pvalue_ok(stats.kstest(xs.ravel(), 'uniform', (-1, 2)).pvalue, n)
    note.nontrivial(c['n_in'] != c['n_out'])


# -------------------------------------------------------------------- layers

ACTS = {'relu': (F.relu, lambda x: np.maximum(x, 0)),
        'tanh': (F.tanh, np.tanh),
        'sigmoid': (F.sigmoid, lambda x: 1 / (1 + np.exp(-x))),
        'elu': (F.elu, lambda x: np.where(x > 0, x, np.expm1(x)))}
MLP = {'n_in': st.integers(1, 4), 'n_out': st.integers(1, 4),
       'hidden': st.lists(st.integers(1, 4), max_size=3),
       'act': st.sampled_from(sorted(ACTS)), 'seed': SEED,
       'batch': wide(1, 5)}


def lin(l, x):
    y = x.dot(l.W.array.astype(np.float64).T)
    return y if l.b is None else y + l.b.array


@suite.facet(st.fixed_dictionaries(MLP), quick=2000)
def mlp(case, note):
    c = case
    f, ref = ACTS[c['act']]
    m = links.MLP(c['n_in'], c['n_out'], c['hidden'], nonlinearity=f)
    sizes = [c['n_in']] + list(c['hidden']) + [c['n_out']]
    # sizes of the layers, from the parameters alone
    shapes = sorted(p.shape for p in m.params())
    eq(shapes, sorted([(b, a) for a, b in zip(sizes, sizes[1:])] +
                      [(b,) for b in sizes[1:]]), 'parameters')
    for p in m.params():
        if p.ndim == 1:
            check((p.array == 0).all(), 'initial bias')
    A.randomize(m, c['seed'])
    x = rng(c['seed'] + 1).uniform(-2, 2, (c['batch'], c['n_in'])).astype('f')
    h = x.astype(np.float64)
    if c['hidden']:
        for l in m.hidden_layers:
            h = ref(lin(l, h))
    close(m(x), lin(m.output, h), 'output')
    check(type(m(x)) is chainer.Variable, 'not a variable')
    note.nontrivial(len(c['hidden']) > 1)


@suite.facet(st.fixed_dictionaries({
    'n_in': st.integers(20, 60), 'n_out': st.integers(20, 60),
    'hidden': st.booleans(), 'scale': floats(0.0078125, 4), 'seed': SEED,
    'bn': st.booleans()}), quick=150)
def last_scale(case, note):
    """The scale of the initial weights of the last layer."""
    c = case
    np.random.seed(c['seed'] % 2 ** 32)
    cls = links.MLPBN if c['bn'] else links.MLP
    m = cls(c['n_in'], c['n_out'], [c['n_in'] + 3] if c['hidden'] else [],
            last_wscale=c['scale'])
    w = m.output.W.array.astype(np.float64)
    fan = w.shape[1]
    z = w * np.sqrt(fan) / c['scale']
    n = z.size
    check(abs((z ** 2).mean() - 1) < 8 * np.sqrt(2 / n), 'variance {}',
          (z ** 2).mean())
    check(abs(z.mean()) < 7 / np.sqrt(n), 'mean {}', z.mean())
    if c['hidden']:
        l = m.hidden_layers[0]
        w = (l.linear if c['bn'] else l).W.array.astype(np.float64)
        z = w * np.sqrt(w.shape[1])
        check(abs((z ** 2).mean() - 1) < 8 * np.sqrt(2 / z.size),
              'variance of hidden weights {}', (z ** 2).mean())
    note.nontrivial(c['hidden'])


class RefBN(object):
    """Batch normalisation as documented by Chainer."""

    def __init__(self, bn):
        self.g = bn.gamma.array.astype(np.float64)
        self.b = bn.beta.array.astype(np.float64)
        self.mean = bn.avg_mean.astype(np.float64)
        self.var = bn.avg_var.astype(np.float64)
        self.bn = bn

    def __call__(self, x, train):
        if train:
            m, v = x.mean(0), x.var(0)
            n = len(x)
            self.mean = 0.9 * self.mean + 0.1 * m
            self.var = 0.9 * self.var + 0.1 * v * n / max(n - 1, 1)
        else:
            m, v = self.mean, self.var
        return self.g * (x - m) / np.sqrt(v + 2e-5) + self.b

    def compare(self):
        close(self.bn.avg_mean, self.mean, 'running mean', rtol=1e-3,
              atol=1e-4)
        close(self.bn.avg_var, self.var, 'running variance', rtol=1e-3,
              atol=1e-4)


@suite.facet(st.fixed_dictionaries(dict(
    MLP, norm_in=st.booleans(), norm_out=st.booleans(),
    modes=sized(st.tuples(st.booleans(), st.integers(1, 6)).map(list), 1,
                4))), quick=1500)
def mlp_bn(case, note):
    c = case
    f, ref = ACTS[c['act']]
    m = links.MLPBN(c['n_in'], c['n_out'], c['hidden'],
                    normalize_input=c['norm_in'],
                    normalize_output=c['norm_out'], nonlinearity=f)
    n_bn = sum(isinstance(l, L.BatchNormalization) for l in m.links())
    eq(n_bn, len(c['hidden']) + c['norm_in'] + c['norm_out'],
       'number of normalisations')
    r = rng(c['seed'])
    for _, p in sorted(m.namedparams()):
        p.array[...] = r.uniform(-1, 1, p.shape)
    for l in m.links():
        if isinstance(l, L.BatchNormalization):
            check((l.avg_mean == 0).all() and (l.avg_var == 1).all(),
                  'initial statistics')
    refs = {}

    def bn(l, x, train):
        return refs.setdefault(id(l), RefBN(l))(x, train)

    for train, batch in c['modes']:
        if train:
            batch += 1
        x = r.uniform(-2, 2, (batch, c['n_in'])).astype('f')
        h = x.astype(np.float64)
        if c['norm_in']:
            h = bn(m.input_bn, h, train)
        if c['hidden']:
            for l in m.hidden_layers:
                h = ref(bn(l.bn, lin(l.linear, h), train))
        h = lin(m.output, h)
        if c['norm_out']:
            h = bn(m.output_bn, h, train)
        with chainer.using_config('train', train):
            y = m(x)
        # small variances in a batch amplify rounding
        close(y, h, 'output', rtol=2e-2 if train else 1e-3,
              atol=2e-2 if train else 1e-3)
        for b in refs.values():
            b.compare()
    if not c['norm_in'] and not c['norm_out'] and not c['hidden']:
        return
    note.nontrivial(len(c['hidden']) > 0)


@suite.facet(st.fixed_dictionaries({
    'n': st.integers(1, 4), 'm': st.integers(1, 4), 'batch': st.integers(2, 6),
    'seed': SEED, 'train': st.booleans()}), quick=500)
def linear_bn(case, note):
    c = case
    l = LinearBN(c['n'], c['m'])
    r = rng(c['seed'])
    for _, p in sorted(l.namedparams()):
        p.array[...] = r.uniform(-1, 1, p.shape)
    b = RefBN(l.bn)
    x = r.uniform(-2, 2, (c['batch'], c['n'])).astype('f')
    want = b(lin(l.linear, x.astype(np.float64)), c['train'])
    with chainer.using_config('train', c['train']):
        close(l(x), want, 'output', rtol=2e-2, atol=2e-2)
    b.compare()
    note.nontrivial(c['n'] != c['m'])


# ------------------------------------------------- branches and sequences

class Scaled(chainer.Link):
    """x -> x * k + extra, with extra arguments of some form."""

    def __init__(self, k, form):
        super().__init__()
        self.calls = []
        with self.init_scope():
            self.k = chainer.Parameter(np.float32(k).reshape(1))
        if form == 'none':
            self.f = lambda x: self.run(x)
        elif form == 'a':
            self.f = lambda x, a=0: self.run(x, a=a)
        elif form == 'ab':
            self.f = lambda x, a=0, b=0: self.run(x, a=a, b=b)
        else:
            self.f = lambda x, **kw: self.run(x, **kw)

    def run(self, x, **kw):
        self.calls.append(sorted(kw.items()))
        return x * F.broadcast_to(self.k, x.shape) + sum(
            (1 + i) * v for i, (_, v) in enumerate(sorted(kw.items())))


def scaled(k, form):
    """A link whose signature is that of the form."""
    base = Scaled(k, form)
    if form == 'none':
        def call(self, x):
            return self.run(x)
    elif form == 'a':
        def call(self, x, a=0):
            return self.run(x, a=a)
    elif form == 'ab':
        def call(self, x, a=0, b=0):
            return self.run(x, a=a, b=b)
    else:
        def call(self, x, **kw):
            return self.run(x, **kw)
    base.__class__ = type('Scaled_' + form, (Scaled,), {'__call__': call})
    return base


KW = st.dictionaries(st.sampled_from(['a', 'b', 'c']), st.integers(1, 9))
FORMS = ['none', 'a', 'ab', 'any', 'function', 'function a']


@suite.facet(st.fixed_dictionaries({
    'layers': st.lists(st.tuples(
        st.sampled_from(FORMS), st.integers(-3, 3)).map(list), min_size=1,
        max_size=5), 'kw': KW, 'seed': SEED}), quick=1500)
def sequence(case, note):
    """Every layer gets the arguments it accepts, in order."""
    x = rng(case['seed']).uniform(-1, 1, (2, 2)).astype('f')
    layers = []
    h = x.astype(np.float64)
    kw = case['kw']
    for form, k in case['layers']:
        if form == 'function':
            layers.append(lambda x, k=k: x + k)
            # 'k' is an argument of the function, but is not given
            h = h + k
            continue
        if form == 'function a':
            def fun(x, a=0):
                return x - a
            layers.append(fun)
            h = h - kw.get('a', 0)
            continue
        layers.append(scaled(k, form))
        got = {'none': {}, 'a': {'a': kw.get('a', 0)},
               'ab': {'a': kw.get('a', 0), 'b': kw.get('b', 0)},
               'any': kw}[form]
        h = h * k + sum((1 + i) * v for i, (_, v) in enumerate(
            sorted(got.items())))
    m = links.Sequence(*layers)
    close(m(chainer.Variable(x), **kw), h, 'output', rtol=1e-4, atol=1e-3)
    eq([id(c) for c in m.children()],
       [id(l) for l in layers if isinstance(l, chainer.Link)], 'children')
    note.nontrivial(len(layers) > 1 and bool(kw))


@suite.facet(st.fixed_dictionaries({
    'ks': st.lists(st.integers(-3, 3), min_size=1, max_size=4), 'kw': KW,
    'seed': SEED}), quick=500)
def branched(case, note):
    x = rng(case['seed']).uniform(-1, 1, (2, 2)).astype('f')
    ls = [scaled(k, 'any') for k in case['ks']]
    m = links.Branched(*ls)
    out = m(chainer.Variable(x), **case['kw'])
    check(type(out) is tuple and len(out) == len(ls), 'output {!r}', out)
    add = sum((1 + i) * v for i, (_, v) in enumerate(
        sorted(case['kw'].items())))
    for y, k in zip(out, case['ks']):
        close(y, x * k + add, 'branch')
    for l in ls:
        eq(l.calls, [sorted(case['kw'].items())], 'arguments')
    note.nontrivial(len(ls) > 1)


# -------------------------------------------------------------------- noise

def effective(link, n_in, seed):
    """(W, b) of the layer under the noise of a seed."""
    x = np.concatenate([np.zeros((1, n_in)), np.eye(n_in)]).astype('f')
    np.random.seed(seed)
    y = link(x).array.astype(np.float64)
    return (y[1:] - y[0]).T, y[0]


def factors(link, n_in, seed):
    """Noise of inputs and outputs, up to sign for layers without a bias."""
    W, b = effective(link, n_in, seed)
    mu, sig = link.mu, link.sigma
    e = (W - mu.W.array) / sig.W.array
    if not link.nobias:
        ey = (b - mu.b.array) / sig.b.array
        return e, ey
    check(np.abs(b).max() < 1e-6, 'bias {} of a layer without one', b)
    return e, None


@suite.facet(st.fixed_dictionaries({
    'n_in': st.integers(1, 5), 'n_out': st.integers(1, 5),
    'nobias': st.booleans(), 'lazy': st.booleans(),
    'scale': floats(0.125, 2), 'seed': st.integers(0, 2 ** 31 - 1)}),
    quick=600, shards=2)
def noisy_linear(case, note):
    c = case
    base = L.Linear(None if c['lazy'] else c['n_in'], c['n_out'],
                    nobias=c['nobias'])
    l = links.FactorizedNoisyLinear(base, sigma_scale=c['scale'])
    if c['lazy']:
        l(np.zeros((1, c['n_in']), 'f'))
    n_in, n_out = c['n_in'], c['n_out']
    eq(sorted(p.shape for p in l.params()), sorted(
        [(n_out, n_in)] * 2 + ([] if c['nobias'] else [(n_out,)] * 2)),
        'parameters')
    close(l.sigma.W.array, np.full((n_out, n_in), c['scale']
                                   / np.sqrt(n_in)), 'initial sigma')
    check(np.abs(l.mu.W.array).max() <= 1 / np.sqrt(n_in) + 1e-6,
          'initial mu {}', l.mu.W.array)
    check(all(p.array.std() > 0 for p in [l.mu.W] if p.size > 3),
          'initial mu {}', l.mu.W.array)
    r = rng(c['seed'])
    for p in l.params():
        p.array[...] = r.uniform(0.5, 2, p.shape)
    # rank one, with the factor of the outputs in the bias
    e, ey = factors(l, n_in, c['seed'])
    tol = 2e-4 * (1 + np.abs(e).max())
    for i in range(n_out):
        for j in range(n_in):
            check(abs(e[i, j] * e[0, 0] - e[i, 0] * e[0, j]) < tol *
                  (1 + np.abs(e).max()), 'noise is not factorised: {}', e)
    if ey is not None:
        k = int(np.argmax(np.abs(ey)))
        for i in range(n_out):
            check(np.allclose(e[i] * ey[k], e[k] * ey[i], atol=tol * 10,
                              rtol=1e-3), 'noise of weights and bias: {} {}',
                  e, ey)
    # the same seed gives the same, another call does not
    e2, _ = factors(l, n_in, c['seed'])
    close(e2, e, 'same seed')
    x = r.uniform(0.5, 1, (1, n_in)).astype('f')
    a, b = l(x).array, l(x).array
    check(not np.array_equal(a, b), 'the noise of two calls is the same')
    # gradients: d out / d mu = x, d out / d sigma = noise * x
    l.cleargrads()
    np.random.seed(c['seed'])
    F.sum(l(x)).backward()
    close(l.mu.W.grad, np.tile(x, (n_out, 1)), 'gradient of mu', rtol=1e-3)
    close(l.sigma.W.grad, e * x, 'gradient of sigma', rtol=1e-2,
          atol=tol * 10)
    if ey is not None:
        close(l.mu.b.grad, np.ones(n_out), 'gradient of the bias')
        close(l.sigma.b.grad, ey, 'gradient of sigma of the bias', rtol=1e-2,
              atol=tol * 10)
    note.nontrivial(n_in != n_out and min(n_in, n_out) > 1)


@suite.facet(st.fixed_dictionaries({
    'n_in': st.integers(1, 4), 'n_out': st.integers(1, 4), 'seed': SEED}),
    quick=24, shards=2)
def noise_distribution(case, note):
    """f(r) = sign(r) sqrt(|r|) with standard normal r, independent."""
    from scipy import stats
    c = case
    l = links.FactorizedNoisyLinear(L.Linear(c['n_in'], c['n_out']))
    for p in l.params():
        p.array[...] = 1.0
    ex, ey = [], []
    for i in range(400):
        e, y = factors(l, c['n_in'], (c['seed'] + i) % 2 ** 32)
        k = int(np.argmax(np.abs(y)))
        if abs(y[k]) < 0.1:
            continue
        ey.append(y)
        ex.append(e[k] / y[k])
    ex, ey = np.array(ex), np.array(ey)

    def back(v):
        return np.sign(v) * v ** 2

    cols = [back(ex[:, j]) for j in range(c['n_in'])]
    for v in cols:
        pvalue_ok(stats.kstest(v, 'norm').pvalue, 'noise of inputs')
    if c['n_out'] > 1:      # otherwise small values were left out
        ys = [back(ey[:, j]) for j in range(c['n_out'])]
        z = np.concatenate(ys)
        check(abs((z ** 2).mean() - 1) < 0.6, 'variance of noise of '
              'outputs {}', (z ** 2).mean())
        cols += ys
    for i in range(len(cols)):
        for j in range(i):
            r = np.corrcoef(np.sign(cols[i]), np.sign(cols[j]))[0, 1]
            check(abs(r) < 7 / np.sqrt(len(ex)), 'correlated noise: {}', r)
    note.nontrivial(c['n_in'] > 1)


class Holder(chainer.Chain):
    pass


TREE = st.recursive(
    st.sampled_from(['linear', 'nobias', 'bn', 'conv']),
    lambda ch: st.tuples(st.sampled_from(['chain', 'list', 'seq', 'rlseq']),
                         st.lists(st.one_of(ch, st.just('fn')), min_size=1,
                                  max_size=4)).map(list), max_leaves=8)


def make_tree(t):
    """A link and what it should become."""
    if isinstance(t, str):
        link = {'linear': lambda: L.Linear(2, 2),
                'nobias': lambda: L.Linear(2, 2, nobias=True),
                'bn': lambda: L.BatchNormalization(2),
                'conv': lambda: L.Convolution2D(1, 1, 1)}[t]()
        return link
    kids = [F.tanh if k == 'fn' else make_tree(k) for k in t[1]]
    real = [k for k in kids if isinstance(k, chainer.Link)]
    if t[0] == 'chain':
        h = Holder()
        with h.init_scope():
            for i, k in enumerate(real):
                setattr(h, 'k{}'.format(i), k)
        return h
    if t[0] == 'list':
        return chainer.ChainList(*real)
    if t[0] == 'seq':
        return chainer.Sequential(*kids)
    return links.Sequence(*kids)


def check_noisy(t, old, new):
    """`new` is the tree `t` with its linear layers replaced."""
    if isinstance(t, str):
        if t in ('linear', 'nobias'):
            check(isinstance(new, links.FactorizedNoisyLinear),
                  'not replaced: {!r}', new)
            check(new.nobias == (t == 'nobias'), 'bias of {}', t)
            return 1
        check(new is old, 'replaced: {!r}', old)
        return 0
    n = 0
    real = [k for k in t[1] if k != 'fn']
    if t[0] == 'chain':
        pairs = [(k, getattr(new, 'k{}'.format(i)))
                 for i, k in enumerate(real)]
    elif t[0] == 'list':
        pairs = list(zip(real, new))
    elif t[0] == 'seq':
        check(len(new) == len(t[1]), 'layers')
        pairs = [(k, l) for k, l in zip(t[1], list(new)) if k != 'fn']
        for k, l in zip(t[1], list(new)):
            check(k != 'fn' or l is F.tanh, 'function replaced')
    else:
        pairs = [(k, l) for k, l in zip(t[1], new.layers) if k != 'fn']
    if t[0] != 'chain':
        kids = {id(x) for x in new.children()}
        check(kids == {id(l) for _, l in pairs}, 'children and layers '
              'disagree')
    for k, l in pairs:
        n += check_noisy(k, None if isinstance(k, str) and k in (
            'linear', 'nobias') else l, l)
    return n


@suite.facet(st.fixed_dictionaries({'tree': TREE, 'seed': SEED}), quick=600)
def noisy_conversion(case, note):
    t = case['tree']
    if isinstance(t, str):
        return
    m = make_tree(t)
    others = {id(l): l for l in m.links()
              if isinstance(l, (L.BatchNormalization, L.Convolution2D))}
    to_factorized_noisy(m, sigma_scale=0.7)
    n = check_noisy(t, m, m)
    eq({id(l) for l in m.links()
        if isinstance(l, (L.BatchNormalization, L.Convolution2D))},
       set(others), 'links of other kinds')
    noisy = [l for l in m.links()
             if isinstance(l, links.FactorizedNoisyLinear)]
    eq(len(noisy), n, 'number of noisy layers')
    eq(sum(isinstance(l, L.Linear) for l in m.links()), 2 * n,
       'linear layers left')
    for l in noisy:
        close(l.sigma.W.array, np.full((2, 2), 0.7 / np.sqrt(2)),
              'initial sigma')
    note.nontrivial(n > 1)


# -------------------------------------------------------------------- heads

@suite.facet(st.fixed_dictionaries({
    'kind': st.sampled_from(['nature', 'nips']), 'channels':
    st.integers(1, 4), 'out': st.integers(1, 6), 'batch': st.integers(1, 2),
    'bias': floats(-0.5, 0.5), 'act': st.sampled_from(['relu', 'tanh']),
    'seed': SEED}), quick=40, shards=2)
def dqn_heads(case, note):
    c = case
    f = ACTS[c['act']][0]
    cls = links.NatureDQNHead if c['kind'] == 'nature' else links.NIPSDQNHead
    m = cls(c['channels'], c['out'], activation=f, bias=c['bias'])
    for p in m.params():
        if p.ndim == 1:
            close(p.array, np.full(p.shape, c['bias']), 'initial bias')
    spec = {'nature': [(32, 8, 4), (64, 4, 2), (64, 3, 1)],
            'nips': [(16, 8, 4), (32, 4, 2)]}[c['kind']]
    ls = list(m)
    eq(len(ls), len(spec) + 1, 'layers')
    check(all(l.b is not None for l in ls), 'a layer has no bias')
    r = rng(c['seed'])
    x = r.uniform(0, 1, (c['batch'], c['channels'], 84, 84)).astype('f')
    h = chainer.Variable(x)
    n = c['channels']
    for l, (k, size, stride) in zip(ls, spec):
        check(l.W.shape == (k, n, size, size), 'weights {}', l.W.shape)
        h = f(F.convolution_2d(h, l.W, l.b, stride=stride))
        n = k
    h = f(F.linear(F.reshape(h, (c['batch'], -1)), ls[-1].W, ls[-1].b))
    y = m(x)
    check(y.shape == (c['batch'], c['out']), 'shape {}', y.shape)
    close(y, h, 'output', rtol=1e-3, atol=1e-4)
    close(m(x[:1]), y.array[:1], 'one row', rtol=1e-3, atol=1e-4)
    note.nontrivial(c['batch'] > 1)
