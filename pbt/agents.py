"""Small agents of every off-policy kind, with everything observable logged."""
import chainer
import numpy as np
from chainer import functions as F
from chainer import links as L

from chainerrl import action_value, agents, distribution, explorer
from chainerrl import links as rl_links
from chainerrl import policies, q_functions
from chainerrl.agents import iqn
from chainerrl.agents.ddpg import DDPGModel
from chainerrl.policy import Policy

N_ACTIONS = 3
OBS = 2
ACT = 2

Q_KINDS = ['DQN', 'DoubleDQN', 'SARSA', 'AL', 'PAL', 'DoublePAL', 'DPP',
           'DPPL', 'DPPGreedy', 'ResidualDQN', 'CategoricalDQN',
           'CategoricalDoubleDQN', 'IQN', 'DoubleIQN']
REC_KINDS = ['DQN', 'DoubleDQN', 'SARSA', 'AL', 'PAL', 'DoublePAL', 'DPP',
             'ResidualDQN', 'CategoricalDQN', 'CategoricalDoubleDQN', 'IQN',
             'DoubleIQN']
AC_KINDS = ['DDPG', 'TD3', 'SAC', 'PGT']
BATCH_AC_KINDS = ['DDPG', 'TD3', 'SAC']


def q_class(kind):
    if kind in ('DPPL', 'DPPGreedy'):
        return getattr(agents.dpp, kind)
    return getattr(agents, kind)


def params(link):
    """Copies of all parameters and persistent arrays."""
    out = {}
    for name, p in sorted(link.namedparams()):
        out[name] = None if p.array is None else p.array.copy()
    for lname, l in sorted(link.namedlinks()):
        for n in sorted(getattr(l, '_persistent', ())):
            v = getattr(l, n)
            out[lname + '/' + n] = np.array(v, copy=True)
    return out


def same_params(a, b, tol=0.0):
    if sorted(a) != sorted(b):
        return False
    for k in a:
        if a[k] is None or b[k] is None:
            if a[k] is not b[k]:
                return False
        elif tol:
            if not np.allclose(a[k], b[k], rtol=tol, atol=tol):
                return False
        elif not np.array_equal(a[k], b[k], equal_nan=True):
            return False
    return True


def max_diff(a, b):
    return max([float(np.max(np.abs(np.asarray(a[k], dtype=np.float64)
                                    - b[k]))) if a[k].size else 0.0
                for k in a] or [0.0])


class LoggedSGD(chainer.optimizers.SGD):
    """SGD that logs every update with the parameters after it."""

    def attach(self, name, link, log):
        self.log_name = name
        self.log_link = link
        self.log = log
        self.setup(link)
        return self

    def update(self, lossfun=None, *args, **kwds):
        super().update(lossfun, *args, **kwds)
        self.log.append(('update', self.log_name, params(self.log_link)))


class LoggedExplorer(explorer.Explorer):
    """Random action for some steps, greedy for others; logs the step."""

    def __init__(self, log, random_action=None, period=3):
        self.log = log
        self.random_action = random_action
        self.period = period

    def select_action(self, t, greedy_action_func, action_value=None):
        if self.random_action is not None and t % self.period == 0:
            a = self.random_action()
        else:
            a = greedy_action_func()
        self.log.append(('explore', t, a))
        return a


def logged_buffer(cls, log, *args, **kwargs):
    """A replay buffer of class `cls` that logs what is done to it."""

    class Logged(cls):
        def append(self, *a, **k):
            log.append(('append', a, dict(k)))
            return super().append(*a, **k)

        def stop_current_episode(self, *a, **k):
            log.append(('stop', a, dict(k)))
            return super().stop_current_episode(*a, **k)

        def sample(self, n):
            out = super().sample(n)
            log.append(('sample', n, len(out)))
            return out

        def sample_episodes(self, n, max_len=None):
            out = super().sample_episodes(n, max_len)
            log.append(('sample_episodes', n, max_len, len(out)))
            return out

        def update_errors(self, errors):
            log.append(('errors', [float(np.asarray(e).ravel()[0])
                                   for e in errors]))
            return super().update_errors(errors)

    return Logged(*args, **kwargs)


def randomize(link, seed, scale=0.5):
    r = np.random.RandomState(seed % (2 ** 32))
    for name, p in sorted(link.namedparams()):
        p.array[...] = r.uniform(-scale, scale, p.array.shape)


Z = np.linspace(-2, 2, 5).astype(np.float32)


def categorical_head(x):
    h = F.softmax(F.reshape(x, (x.shape[0], -1, Z.size)), axis=2)
    return action_value.DistributionalDiscreteActionValue(h, Z)


def q_model(kind, recurrent=False, obs=OBS, n_actions=N_ACTIONS, hidden=4):
    if kind.endswith('IQN'):
        if recurrent:
            return iqn.StatelessRecurrentImplicitQuantileQFunction(
                psi=rl_links.StatelessRecurrentSequential(
                    L.NStepLSTM(1, obs, hidden, 0)),
                phi=iqn.CosineBasisLinear(3, hidden),
                f=L.Linear(hidden, n_actions))
        return iqn.ImplicitQuantileQFunction(
            psi=chainer.Sequential(L.Linear(obs, hidden), F.tanh),
            phi=iqn.CosineBasisLinear(3, hidden),
            f=L.Linear(hidden, n_actions))
    if kind.startswith('Categorical'):
        head = [L.Linear(hidden, n_actions * Z.size), categorical_head]
    else:
        head = [L.Linear(hidden, n_actions), action_value.DiscreteActionValue]
    if recurrent:
        return rl_links.StatelessRecurrentSequential(
            L.NStepLSTM(1, obs, hidden, 0), *head)
    return chainer.Sequential(L.Linear(obs, hidden), F.tanh, *head)


class GaussianPolicy(chainer.Chain, Policy):

    def __init__(self, squash=False, obs=OBS, act=ACT):
        super().__init__()
        self.squash = squash
        self.act = act
        with self.init_scope():
            self.l = L.Linear(obs, act * 2)

    def __call__(self, x):
        h = self.l(x)
        mean, ln_var = F.split_axis(h, 2, axis=1)
        ln_var = F.clip(ln_var, -4., 1.)
        if self.squash:
            return distribution.SquashedGaussianDistribution(
                mean, F.exp(ln_var))
        return distribution.GaussianDistribution(mean, F.exp(ln_var))


class Built(object):
    """An agent and how to look at it."""

    def __init__(self, kind, agent, pairs, opts, log):
        self.kind = kind
        self.agent = agent
        self.pairs = pairs    # name -> (source getter, target getter)
        self.opts = opts
        self.log = log


def build_q(kind, buf, log, recurrent=False, seed=0, lr=0.05, explorer_=None,
            opt=None, **kw):
    model = q_model(kind, recurrent)
    if seed is not None:
        randomize(model, seed)
    o = opt(model) if opt else LoggedSGD(lr=lr).attach('q', model, log)
    kw.setdefault('gamma', 0.9)
    if kind.endswith('IQN'):
        kw.setdefault('quantile_thresholds_N', 3)
        kw.setdefault('quantile_thresholds_N_prime', 4)
        kw.setdefault('quantile_thresholds_K', 2)
    agent = q_class(kind)(
        model, o, buf, kw.pop('gamma'),
        explorer_ or LoggedExplorer(
            log, lambda: np.int32(np.random.randint(N_ACTIONS))),
        recurrent=recurrent, **kw)
    pairs = {} if kind == 'ResidualDQN' else {
        'q': (lambda: agent.model, lambda: agent.target_model)}
    return Built(kind, agent, pairs, {'q': o}, log)


def build_ac(kind, buf, log, seed=0, lr=0.05, explorer_=None, opt=None,
             **kw):
    kw.setdefault('gamma', 0.9)
    gamma = kw.pop('gamma')

    def mk(name, link, i):
        if seed is not None:
            randomize(link, seed + i)
        if opt:
            return opt(link)
        return LoggedSGD(lr=lr).attach(name, link, log)

    if explorer_ is None:
        explorer_ = LoggedExplorer(
            log, lambda: np.random.uniform(-1, 1, ACT).astype(np.float32))

    def qf():
        return q_functions.FCSAQFunction(OBS, ACT, 4, 1, nonlinearity=F.tanh)

    if kind == 'DDPG':
        model = DDPGModel(policies.FCDeterministicPolicy(
            OBS, 1, 4, ACT, np.full(ACT, -1., np.float32),
            np.full(ACT, 1., np.float32), True, nonlinearity=F.tanh), qf())
        a = mk('policy', model['policy'], 0)
        c = mk('q', model['q_function'], 1)
        agent = agents.DDPG(model, a, c, buf, gamma, explorer_, **kw)
        return Built(kind, agent, {
            'policy': (lambda: agent.policy, lambda: agent.target_policy),
            'q': (lambda: agent.q_function, lambda: agent.target_q_function),
        }, {'policy': a, 'q': c}, log)
    if kind == 'PGT':
        model = chainer.Chain(policy=GaussianPolicy(), q_function=qf())
        a = mk('policy', model['policy'], 0)
        c = mk('q', model['q_function'], 1)
        agent = agents.PGT(model, a, c, buf, gamma, explorer_, **kw)
        return Built(kind, agent, {
            'policy': (lambda: agent.policy, lambda: agent.target_policy),
            'q': (lambda: agent.q_function, lambda: agent.target_q_function),
        }, {'policy': a, 'q': c}, log)
    q1, q2 = qf(), qf()
    o1, o2 = mk('q1', q1, 1), mk('q2', q2, 2)
    pairs = {
        'q1': (lambda: agent.q_func1, lambda: agent.target_q_func1),
        'q2': (lambda: agent.q_func2, lambda: agent.target_q_func2)}
    if kind == 'TD3':
        pol = policies.FCDeterministicPolicy(
            OBS, 1, 4, ACT, np.full(ACT, -1., np.float32),
            np.full(ACT, 1., np.float32), True, nonlinearity=F.tanh)
        p = mk('policy', pol, 0)
        agent = agents.TD3(pol, q1, q2, p, o1, o2, buf, gamma, explorer_,
                           **kw)
        pairs['policy'] = (lambda: agent.policy, lambda: agent.target_policy)
    else:
        pol = GaussianPolicy(squash=True)
        p = mk('policy', pol, 0)
        agent = agents.SoftActorCritic(pol, q1, q2, p, o1, o2, buf, gamma,
                                       **kw)
    return Built(kind, agent, pairs, {'policy': p, 'q1': o1, 'q2': o2}, log)


def build(kind, buf, log, **kw):
    if kind in AC_KINDS:
        kw.pop('recurrent', None)
        return build_ac(kind, buf, log, **kw)
    return build_q(kind, buf, log, **kw)


def observation(i, env=0):
    """Unique, bounded observation number `i` of environment `env`."""
    return np.array([np.sin(i * 0.7 + env * 3.1), i * 1e-3 + env],
                    dtype=np.float32)
