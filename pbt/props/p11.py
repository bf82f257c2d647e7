"""P11: distributional targets and losses."""
import copy

import chainer
import numpy as np
from chainer import functions as F
from chainer import links as L
from hypothesis import strategies as st

from chainerrl import action_value, agents, explorers
from chainerrl import links as rl_links
from chainerrl.agents import categorical_dqn, iqn
from chainerrl.replay_buffers import ReplayBuffer

from pbt import agents as A
from pbt import zoo
from pbt.core import Suite, check, close, eq
from pbt.gen import SEED, floats
from pbt.props.p10 import StubBuffer, case_strategy, make_exps, phi2

suite = Suite(
    'P11',
    'losses: at least two experiences, one not terminal, and a gradient that '
    'is not zero; projection: some atom falls strictly between two others',
    ['Chainer autodiff of the predicted distribution is trusted; projection, '
     'quantile loss, weighting and accumulation are recomputed in NumPy',
     'quantile fractions may be read as F or 1 - F (they are symmetric), but '
     'consistently'])

FIELD = getattr(categorical_dqn, '_apply_categorical_projection', None)


def project(y, p, z):
    """Triangular-kernel projection in double precision."""
    y, p, z = (np.asarray(v, dtype='d') for v in (y, p, z))
    dz = (z[-1] - z[0]) / (len(z) - 1)
    y = np.clip(y, z[0], z[-1])
    k = np.clip(1 - np.abs(y[:, :, None] - z[None, None]) / dz, 0, 1)
    return (p[:, :, None] * k).sum(1)


@suite.facet(st.fixed_dictionaries({
    'n': st.integers(2, 60), 'vmin': floats(-3, 3),
    'width': st.sampled_from([0.01, 0.3, 1.0, 7.0, 20.0, 1000.0, 33.3]),
    'rows': st.lists(st.fixed_dictionaries({
        'r': st.sampled_from([0.0, 0.0, 0.1, -0.37, 2.0, -5.0, 100.0]),
        'disc': st.sampled_from([0.0, 0.25, 0.9, 0.99, 1.0]),
        'term': st.booleans(),
        'onehot': st.booleans(), 'seed': SEED}), min_size=1, max_size=5)}),
    quick=1200, shards=3)
def projection(case, note):
    if FIELD is None:
        note.label('no projection function')
        return
    n = case['n']
    vmin = case['vmin'] * case['width']
    z = np.linspace(vmin, vmin + case['width'], n).astype('f')
    p, y = [], []
    for row in case['rows']:
        r = np.random.RandomState(row['seed'] % (2 ** 32))
        if row['onehot']:
            q = np.zeros(n)
            q[r.randint(n)] = 1
        else:
            q = r.dirichlet(np.full(n, 0.3))
        p.append(q)
        d = 0.0 if row['term'] else row['disc']
        y.append(row['r'] * case['width'] / 10 + d * z.astype('f')
                 + (1 - d) * (z[0] if row['term'] else 0))
    p = np.array(p, dtype='f')
    y = np.array(y, dtype='f')
    got = FIELD(y.copy(), p.copy(), z.copy())
    check(got.shape == p.shape, 'shape {}', got.shape)
    check((got >= -1e-6).all(), 'negative probability {}', got.min())
    close(got.sum(1), p.sum(1), 'mass', rtol=1e-4, atol=1e-5)
    tol = 1e-5 * n + 4 * n * n * np.finfo('f').eps * np.abs(z).max() / \
        case['width']
    close(got, project(y, p, z), 'projection', rtol=1e-3, atol=max(1e-4, tol))
    inside = ((y >= z[0]) & (y <= z[-1])).all(1)
    for i in np.where(inside)[0]:
        note.label('inside')
        close(float((got[i].astype('d') * z).sum()),
              float((p[i].astype('d') * y[i]).sum()), 'mean', rtol=1e-3,
              atol=max(1e-4, tol) * np.abs(z).max())
    dz = (z[-1] - z[0]) / (n - 1)
    off = np.abs((y - z[0]) / dz - np.round((y - z[0]) / dz))
    note.nontrivial(((off > 0.05) & (y > z[0]) & (y < z[-1])).any())


# ------------------------------------------------------------- agents

class Head(object):

    def __init__(self, z):
        self.z = z

    def __call__(self, x):
        h = F.softmax(F.reshape(x, (x.shape[0], -1, self.z.size)), axis=2)
        return action_value.DistributionalDiscreteActionValue(h, self.z)


def categorical_model(z, recurrent):
    head = [L.Linear(4, A.N_ACTIONS * z.size), Head(z)]
    if recurrent:
        return rl_links.StatelessRecurrentSequential(
            L.NStepLSTM(1, A.OBS, 4, 0), *head)
    return chainer.Sequential(L.Linear(A.OBS, 4), F.tanh, *head)


TAUS = []


def logged(owner, f):
    def g(taus):
        if TAUS is not None:
            TAUS.append((owner, np.array(taus, copy=True)))
        return f(taus)
    return g


class LoggedIQ(iqn.ImplicitQuantileQFunction):

    def __call__(self, x):
        return logged(self, super().__call__(x))


class LoggedRecIQ(iqn.StatelessRecurrentImplicitQuantileQFunction):

    def n_step_forward(self, x, recurrent_state, output_mode):
        f, s = super().n_step_forward(x, recurrent_state, output_mode)
        return logged(self, f), s


def iq_model(recurrent):
    if recurrent:
        return LoggedRecIQ(
            psi=rl_links.StatelessRecurrentSequential(
                L.NStepLSTM(1, A.OBS, 4, 0)),
            phi=iqn.CosineBasisLinear(3, 4), f=L.Linear(4, A.N_ACTIONS))
    return LoggedIQ(psi=chainer.Sequential(L.Linear(A.OBS, 4), F.tanh),
                    phi=iqn.CosineBasisLinear(3, 4),
                    f=L.Linear(4, A.N_ACTIONS))


def make(kind, case, recurrent):
    buf = StubBuffer()
    n = case.get('n_atoms', 5)
    z = np.linspace(case.get('vmin', -2),
                    case.get('vmin', -2) + case.get('width', 4),
                    n).astype('f')
    model = categorical_model(z, recurrent) if kind.startswith('Cat') \
        else iq_model(recurrent)
    A.randomize(model, case['seed'] + 11, case['scale'])
    kw = {}
    if kind.endswith('IQN'):
        kw = dict(quantile_thresholds_N=3, quantile_thresholds_N_prime=4,
                  quantile_thresholds_K=2,
                  act_deterministically=case.get('det', False))
    opt = A.LoggedSGD(lr=1.0).attach('q', model, [])
    agent = getattr(agents, kind)(
        model, opt, buf, case['gamma'],
        A.LoggedExplorer([]), replay_start_size=10, minibatch_size=1,
        batch_accumulator=case['acc'], recurrent=recurrent,
        phi=phi2 if case['phi'] else (lambda x: x), **kw)
    A.randomize(agent.target_model, case['seed'] + 12, case['scale'])
    return agent, buf, z


def batch_parts(case, exps, recurrent):
    g = case['gamma']
    f = phi2 if case['phi'] else (lambda x: x)
    if recurrent:
        flat = [[t] for e in exps for t in e]
        S = [[f(t['state']) for t in e] for e in exps]
        NS = [[f(t['next_state']) for t in e] for e in exps]
    else:
        flat = exps
        S = [f(e[0]['state']) for e in exps]
        NS = [f(e[-1]['next_state']) for e in exps]
    r = np.array([sum(g ** i * t['reward'] for i, t in enumerate(e))
                  for e in flat])
    disc = np.array([g ** len(e) for e in flat])
    term = np.array([float(e[-1]['is_state_terminal']) for e in flat])
    acts = np.array([e[0]['action'] for e in flat]).astype('i')
    h = [e[0].get('recurrent_state') for e in exps]
    nh = [e[0].get('next_recurrent_state') for e in exps]
    return S, NS, h, nh, r, disc, term, acts


def outputs(model, S, h, recurrent, read):
    """read(model output) for every row, unrolling each episode alone."""
    if not recurrent:
        return read(model(np.stack(S)), 0, len(S))
    out, k = [], 0
    for ep, s in zip(S, h):
        if s is not None:
            s = model.concatenate_recurrent_states([s])
        for x in ep:
            v, s = model(x[None], s)
            out.append(read(v, k, k + 1))
            k += 1
    return F.concat(out, axis=0)


def finish(agent, buf, case, before, tbefore, online_grads, errors, got_errs,
           what):
    after = A.params(agent.model)
    ok, msg = False, ''
    for grads in online_grads:
        bad = [(k, (before[k] - after[k]).tolist(), grads[k].tolist())
               for k in before
               if not np.allclose(before[k] - after[k], grads[k], rtol=2e-3,
                                  atol=3e-5)]
        if not bad:
            ok = True
        msg = bad
    check(ok, '{}: gradient differs: {}', what, msg)
    check(A.same_params(tbefore, A.params(agent.target_model)),
          'the update changed the target network')
    if case['weighted']:
        check(len(buf.errors) == 1, 'errors fed back {} times',
              len(buf.errors))
        got = buf.errors[0]
        check(any(np.allclose(got, e, rtol=1e-3, atol=1e-5)
                  for e in errors), 'errors fed back: {} vs {}', got,
              [e.tolist() for e in errors])
    if got_errs is not None:
        got = [float(np.asarray(e).ravel()[0]) for e in got_errs]
        check(any(np.shape(got) == np.shape(e) and np.allclose(
            got, e, rtol=1e-3, atol=1e-5) for e in errors),
            'errors_out: {} vs {}', got, [e.tolist() for e in errors])


def coefficients(case, n):
    c = np.ones(n)
    if case['weighted']:
        c = c * np.array([e['weight'] for e in case['exps']])
    return c / n if case['acc'] == 'mean' else c


def call_update(agent, case, exps, recurrent):
    errs = [3.0] if case['want_errors'] and not recurrent else None
    if recurrent:
        agent.update_from_episodes(exps)
    else:
        agent.update(exps, errors_out=errs)
    return errs


def grads_of(model):
    return {k: (np.zeros_like(p.array) if p.grad is None else p.grad.copy())
            for k, p in model.namedparams()}


def run_categorical(kind, case, note, recurrent):
    agent, buf, z = make(kind, case, recurrent)
    with chainer.using_config('train', False), chainer.no_backprop_mode():
        exps = make_exps(case, agent.model if recurrent else None)
    S, NS, h, nh, r, disc, term, acts = batch_parts(case, exps, recurrent)
    n = len(r)
    i = np.arange(n)
    online = copy.deepcopy(agent.model)
    online.cleargrads()

    def dist(v, a, b):
        return v.q_dist
    p = outputs(online, S, h, recurrent, dist)
    with chainer.no_backprop_mode():
        tn = outputs(agent.target_model, NS, nh, recurrent,
                     dist).array.astype('d')
        on = outputs(online, NS, nh, recurrent, dist).array.astype('d')
    chooser = on if kind == 'CategoricalDoubleDQN' else tn
    greedy = (chooser * z).sum(2).argmax(1)
    tz = r[:, None] + (disc * (1 - term))[:, None] * z[None]
    m = project(tz, tn[i, greedy], z)
    pa = p[i, acts]
    ce = -F.sum(F.log(pa) * m.astype('f'), axis=1)
    errors = ce.array.astype('d')
    F.sum(ce * coefficients(case, n).astype('f')).backward()
    before, tbefore = A.params(agent.model), A.params(agent.target_model)
    errs = call_update(agent, case, exps, recurrent)
    finish(agent, buf, case, before, tbefore, [grads_of(online)], [errors],
           errs, kind)
    g = sum(float(np.abs(v).sum()) for v in grads_of(online).values())
    note.nontrivial(n >= 2 and term.min() == 0 and g > 1e-6)


def run_iqn(kind, case, note, recurrent):
    agent, buf, _ = make(kind, case, recurrent)
    with chainer.using_config('train', False), chainer.no_backprop_mode():
        base = iq_state_model(agent.model) if recurrent else None
        exps = make_exps(case, base)
    S, NS, h, nh, r, disc, term, acts = batch_parts(case, exps, recurrent)
    n = len(r)
    i = np.arange(n)
    before, tbefore = A.params(agent.model), A.params(agent.target_model)
    online = copy.deepcopy(agent.model)
    target = copy.deepcopy(agent.target_model)
    del TAUS[:]
    errs = call_update(agent, case, exps, recurrent)
    log = list(TAUS)
    chooser = agent.model if kind == 'DoubleIQN' else agent.target_model
    taus = [t for o, t in log if o is agent.model and t.shape == (n, 3)]
    ktaus = [t for o, t in log if o is chooser and t.shape == (n, 2)]
    ntaus = [t for o, t in log if o is agent.target_model
             and t.shape == (n, 4)]
    for x, name in ((taus, 'N'), (ktaus, 'K'), (ntaus, "N'")):
        check(len(x) == 1, 'expected one evaluation with {} thresholds', name)
        check(((x[0] >= 0) & (x[0] <= 1)).all(), 'thresholds out of [0, 1]')
    taus, ktaus, ntaus = taus[0], ktaus[0], ntaus[0]

    def at(t):
        return lambda f, a, b: f(t[a:b]).quantiles
    online.cleargrads()
    y = outputs(online, S, h, recurrent, at(taus))[i, :, acts]
    with chainer.no_backprop_mode():
        m = online if kind == 'DoubleIQN' else target
        g = outputs(m, NS, nh, recurrent, at(ktaus)).array.mean(1).argmax(1)
        zn = outputs(target, NS, nh, recurrent, at(ntaus)).array[i, :, g]
    t = r[:, None] + (disc * (1 - term))[:, None] * zn.astype('d')
    d = y.array.astype('d')[:, :, None] - t[:, None, :]
    hub = np.where(np.abs(d) <= 1, 0.5 * d * d, np.abs(d) - 0.5)
    c = coefficients(case, n)
    grads, errors = [], []
    for lower in (True, False):
        ind = (d < 0) if lower else (d > 0)
        w = np.abs(taus[:, :, None] - ind)
        gy = (w * np.clip(d, -1, 1)).mean(2) * c[:, None]
        online.cleargrads()
        F.sum(y * gy.astype('f')).backward(retain_grad=False)
        grads.append(grads_of(online))
        errors.append((w * hub).mean((1, 2)))
    finish(agent, buf, case, before, tbefore, grads, errors, errs, kind)
    total = sum(float(np.abs(v).sum()) for v in grads[0].values())
    note.nontrivial(n >= 2 and term.min() == 0 and total > 1e-6)


class iq_state_model(object):
    """Lets make_exps advance the recurrent state of a recurrent IQN."""

    def __init__(self, model):
        self.model = model

    def __call__(self, x, s):
        return self.model(x, s)

    def get_recurrent_state_at(self, *a, **k):
        return self.model.get_recurrent_state_at(*a, **k)


def dist_case(recurrent):
    return st.tuples(case_strategy(recurrent), st.fixed_dictionaries({
        'n_atoms': st.integers(2, 9), 'vmin': st.sampled_from(
            [-2.0, -0.7, -10.0, 0.0]),
        'width': st.sampled_from([4.0, 1.3, 20.0])})).map(
            lambda x: dict(x[0], **x[1]))


for _k in ('CategoricalDQN', 'CategoricalDoubleDQN'):
    suite.add('flat_' + _k, dist_case(False),
              lambda c, n, _k=_k: run_categorical(_k, c, n, False),
              quick=260, shards=2)
    suite.add('recurrent_' + _k, dist_case(True),
              lambda c, n, _k=_k: run_categorical(_k, c, n, True), quick=60)
for _k in ('IQN', 'DoubleIQN'):
    suite.add('flat_' + _k, dist_case(False),
              lambda c, n, _k=_k: run_iqn(_k, c, n, False),
              quick=260, shards=2)
    suite.add('recurrent_' + _k, dist_case(True),
              lambda c, n, _k=_k: run_iqn(_k, c, n, True), quick=60)


# ------------------------------------------------------------- acting

@suite.facet(st.tuples(case_strategy(False), st.booleans(),
                       st.sampled_from(['IQN', 'DoubleIQN']),
                       st.integers(1, 4)).map(list), quick=150)
def iqn_acts_on_sampled_quantiles(case, note):
    c, det, kind, k = case
    agent, _, _ = make(kind, dict(c, det=det), False)
    r = np.random.RandomState(c['seed'] % (2 ** 32))
    model = copy.deepcopy(agent.model)
    for mode in ('act', 'batch_act', 'train'):
        xs = r.uniform(-1, 1, (1 if mode == 'act' else k, A.OBS)).astype('f')
        del TAUS[:]
        if mode == 'act':
            got = [agent.act(xs[0])]
        elif mode == 'batch_act':
            got = agent.batch_act(list(xs))
        else:
            got = agent.batch_act_and_train(list(xs))
        taus = TAUS[-1][1]
        eq(taus.shape, (len(xs), 2), 'thresholds used to act')
        if det and mode != 'train':
            close(taus, np.tile(np.linspace(0, 1, 2), (len(xs), 1)),
                  'deterministic thresholds')
        f = phi2 if c['phi'] else (lambda x: x)
        q = model(f(xs))(taus).quantiles.array.mean(1)
        s = np.sort(q, axis=1)
        clear = s[:, -1] - s[:, -2] > 1e-5
        eq(np.asarray(got)[clear], q.argmax(1)[clear], 'greedy action')
    note.nontrivial(k > 1)


@suite.facet(st.fixed_dictionaries({
    'b': st.integers(1, 4), 'a': st.integers(1, 4), 'n': st.integers(1, 7),
    'seed': SEED, 'vmin': floats(-10, 10)}), quick=400)
def values_are_expectations(case, note):
    r = np.random.RandomState(case['seed'] % (2 ** 32))
    b, a, n = case['b'], case['a'], case['n']
    z = (case['vmin'] + np.cumsum(r.uniform(0.1, 2, n))).astype('f')
    p = r.dirichlet(np.full(n, 0.5), (b, a)).astype('f')
    v = action_value.DistributionalDiscreteActionValue(
        chainer.Variable(p), z)
    want = (p.astype('d') * z).sum(2)
    close(v.q_values, want, 'q_values', rtol=1e-4, atol=1e-4)
    best = np.asarray(v.greedy_actions.array)
    close(v.max_as_distribution, p[np.arange(b), best], 'greedy distribution')
    acts = r.randint(0, a, b).astype('i')
    close(v.evaluate_actions_as_distribution(acts), p[np.arange(b), acts],
          'distribution of actions')
    close(v.evaluate_actions(acts), want[np.arange(b), acts], 'values',
          rtol=1e-4, atol=1e-4)
    close(v.max, want.max(1), 'max', rtol=1e-4, atol=1e-4)
    qs = r.normal(0, 3, (b, n, a)).astype('f')
    u = action_value.QuantileDiscreteActionValue(chainer.Variable(qs))
    close(u.q_values, qs.mean(1), 'quantile means', rtol=1e-4, atol=1e-4)
    close(u.evaluate_actions_as_quantiles(acts),
          qs[np.arange(b), :, acts], 'quantiles of actions')
    close(u.max, qs.mean(1).max(1), 'max', rtol=1e-4, atol=1e-4)
    note.nontrivial(b > 1 and a > 1 and n > 1)


suite.add('modes', zoo.modes_strategy(
    ['CategoricalDQN', 'CategoricalDoubleDQN', 'IQN', 'DoubleIQN']),
    zoo.run_modes, quick=60)


@suite.facet(st.fixed_dictionaries({
    'shape': st.lists(st.integers(1, 3), min_size=1, max_size=2),
    'n': st.integers(1, 9), 'out': st.integers(1, 3), 'seed': SEED}),
    quick=60)
def cosine_basis(case, note):
    """Embedding of fractions: cos(pi i tau), i = 1..n, then a linear map."""
    r = np.random.RandomState(case['seed'] % 2 ** 32)
    tau = r.uniform(0, 1, case['shape']).astype('f')
    n = case['n']
    want = np.cos(np.pi * np.arange(1, n + 1) * tau[..., None].astype('d'))
    got = iqn.cosine_basis_functions(tau, n)
    close(got, want, 'embedding', rtol=1e-4, atol=1e-4)
    lin = iqn.CosineBasisLinear(n, case['out'])
    A.randomize(lin, case['seed'])
    out = lin(tau)
    check(out.shape == tau.shape + (case['out'],), 'shape {}', out.shape)
    ps = [p.array for _, p in sorted(lin.namedparams())]
    W = [p for p in ps if p.ndim == 2][0]
    b = [p for p in ps if p.ndim == 1][0]
    close(out.array, want @ W.T.astype('d') + b, 'linear map', rtol=1e-3,
          atol=1e-3)
    note.nontrivial(tau.size > 1 and n > 1)


class TauLog(chainer.Chain):
    """Quantile function that remembers the fractions it was asked for."""

    def __init__(self, log):
        super().__init__()
        self.log = log
        with self.init_scope():
            self.a = L.Linear(A.OBS, A.N_ACTIONS)

    def __call__(self, x):
        h = self.a(x)

        def f(taus):
            taus = np.asarray(taus)
            self.log.append(taus.copy())
            # actions react differently to the fractions
            k = np.linspace(-3, 3, A.N_ACTIONS).astype('f')
            return action_value.QuantileDiscreteActionValue(
                h[:, None] + (taus[..., None] - .5).astype('f') * k)
        return f

    def __deepcopy__(self, memo):
        new = TauLog([])
        new.copyparams(self)
        return new


@suite.facet(st.fixed_dictionaries({
    'kind': st.sampled_from(['IQN', 'DoubleIQN']), 'det': st.booleans(),
    'k': st.integers(1, 6), 'envs': st.integers(1, 4),
    'batch': st.booleans(), 'seed': SEED}), quick=80)
def iqn_acting(case, note):
    """Fractions used for acting: random, or equally spaced on request."""
    log = []
    q = TauLog(log)
    A.randomize(q, case['seed'])
    opt = chainer.optimizers.SGD(0.1)
    opt.setup(q)
    ag = getattr(agents, case['kind'])(
        q, opt, ReplayBuffer(50), 0.9, explorers.Greedy(),
        replay_start_size=40, minibatch_size=2,
        quantile_thresholds_K=case['k'],
        act_deterministically=case['det'])
    r = np.random.RandomState(case['seed'] % 2 ** 32)
    n = case['envs'] if case['batch'] else 1
    del log[:]

    def asked(fixed, what, obs, acts):
        check(len(log) == 1, '{} evaluations for {}', len(log), what)
        t = log.pop()
        check(t.shape == (n, case['k']), 'fractions {} for {}', t.shape, what)
        check((0 <= t).all() and (t <= 1).all(), 'fractions {}', t.tolist())
        if fixed:
            close(t, np.tile(np.linspace(0, 1, case['k']), (n, 1)),
                  'fractions for ' + what)
        with chainer.no_backprop_mode():
            h = q.a(np.stack(obs)).array.astype('d')
        m = h + (t - .5).mean(1)[:, None] * np.linspace(-3, 3, A.N_ACTIONS)
        for i, a in enumerate(acts):
            check(m[i, int(a)] >= m[i].max() - 1e-5,
                  '{}: action {} of values {}', what, a, m[i].tolist())
        return t
    train, test = [], []
    for j in range(3):
        obs = [r.uniform(-1, 1, A.OBS).astype('f') for _ in range(n)]
        if case['batch']:
            test.append(asked(case['det'], 'evaluation', obs,
                              ag.batch_act(obs)))
            train.append(asked(False, 'training', obs,
                               ag.batch_act_and_train(obs)))
            ag.batch_observe_and_train(obs, [0.] * n, [False] * n,
                                       [False] * n)
        else:
            test.append(asked(case['det'], 'evaluation', obs,
                              [ag.act(obs[0])]))
            train.append(asked(False, 'training', obs,
                               [ag.act_and_train(obs[0], 0.)]))
    for what, ts in [('training', train)] + (
            [] if case['det'] else [('evaluation', test)]):
        if ts[0].size < 4:
            continue
        check(not any((a == b).all() for i, a in enumerate(ts)
                      for b in ts[:i]),
              'the same random fractions twice in {}', what)
        check(len(np.unique(ts[0])) * 2 > ts[0].size,
              'equal random fractions in {}', what)
    note.nontrivial(case['k'] > 1)
