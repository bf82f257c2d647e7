"""Every agent type with real optimizers, driven in one uniform way."""
import chainer
import numpy as np
from chainer import functions as F
from chainer import links as L
from hypothesis import strategies as st

from chainerrl import (action_value, agents, distribution, explorers, links,
                       policies, q_functions, replay_buffer)
from chainerrl.agents import a2c, a3c, acer, pcl
from chainerrl.agents.ddpg import DDPGModel
from chainerrl.misc.batch_states import batch_states
from chainerrl.optimizers.nonbias_weight_decay import NonbiasWeightDecay
from chainerrl.optimizers.rmsprop_async import RMSpropAsync
from chainerrl.recurrent import RecurrentChainMixin

from pbt import agents as A
from pbt.core import HarnessError, check
from pbt.gen import SEED, sized

OBS, ACT, NACT = A.OBS, A.ACT, A.N_ACTIONS

ACTOR_ONLY = ['A2C', 'A3C', 'NSQ', 'ACER', 'ACERc', 'PCL', 'PPO', 'TRPO',
              'REINFORCE']
KINDS = A.Q_KINDS + A.AC_KINDS + ACTOR_ONLY
RECURRENT = A.REC_KINDS + ['PPO', 'TRPO', 'A3C', 'NSQ', 'ACER', 'PCL',
                           'REINFORCE', 'DDPG']
STATEFUL = ['A3C', 'NSQ', 'ACER', 'PCL', 'REINFORCE', 'DDPG']
BATCH = [k for k in A.Q_KINDS if k != 'SARSA'] + [
    'DDPG', 'TD3', 'SAC', 'A2C', 'PPO', 'TRPO']
BATCH_ONLY = ['A2C']
CONTINUOUS = ['DDPG', 'TD3', 'SAC', 'PGT', 'ACERc']

OPTS = ['sgd', 'momentum', 'adam', 'rmsprop', 'rmsprop_async', 'smorms3']


def optimizer(kind, decay):
    def make(link):
        o = {
            'sgd': lambda: chainer.optimizers.SGD(0.05),
            'momentum': lambda: chainer.optimizers.MomentumSGD(0.02, 0.8),
            'adam': lambda: chainer.optimizers.Adam(0.02, eps=1e-2),
            'rmsprop': lambda: chainer.optimizers.RMSprop(0.01),
            'rmsprop_async': lambda: RMSpropAsync(
                lr=0.01, eps=1e-2, alpha=0.9),
            'smorms3': lambda: chainer.optimizers.SMORMS3(0.02),
        }[kind]()
        o.setup(link)
        o.add_hook(chainer.optimizer.GradientClipping(5.0))
        if decay:
            o.add_hook(NonbiasWeightDecay(1e-3))
        return o
    return make


class Body(chainer.Chain, RecurrentChainMixin):

    def __init__(self, n_out, rec, wrap=None, n_in=OBS):
        super().__init__()
        self.rec, self.wrap = rec, wrap
        with self.init_scope():
            self.a = L.LSTM(n_in, 3) if rec else L.Linear(n_in, 3)
            self.b = L.Linear(3, n_out)

    def __call__(self, x):
        h = self.a(x)
        y = self.b(h if self.rec else F.tanh(h))
        return self.wrap(y) if self.wrap else y


def gauss(y):
    m, lv = F.split_axis(y, 2, axis=1)
    return distribution.GaussianDistribution(m, F.exp(F.clip(lv, -3., 1.)))


class AdvNet(chainer.Chain, RecurrentChainMixin):

    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.q = q_functions.FCSAQFunction(OBS, ACT, 3, 1,
                                               nonlinearity=F.tanh)

    def __call__(self, x, a):
        return self.q(x, a)


class Zoo(object):
    """An agent, its parts, and how to talk to it."""

    extra = {}       # more arguments for the agent

    def __init__(self, case, seed, buffer=None):
        c = self.c = case
        kind = self.kind = c['kind']
        self.rec = c['recurrent'] and kind in RECURRENT
        self.stateful = self.rec and kind in STATEFUL
        self.seed = seed
        self.batch = (c['batch'] and kind in BATCH and not self.stateful
                      or kind in BATCH_ONLY)
        self.n_envs = c['envs']
        self.parts = {}          # what has to be saved
        opt = optimizer(c['opt'], c['decay'])
        self.buffer = None
        self.off_policy = kind in A.Q_KINDS + A.AC_KINDS
        if self.off_policy or kind in ('ACER', 'ACERc', 'PCL'):
            self.buffer = buffer if buffer is not None else self.make_buffer()
        getattr(self, 'build_' + (
            'q' if kind in A.Q_KINDS else 'ac' if kind in A.AC_KINDS
            else kind.lower()))(opt)

    def randomize(self, link, more=0):
        if self.seed is not None:       # else: as it was initialised
            A.randomize(link, self.seed + more)

    def make_buffer(self):
        if self.rec or self.kind in ('ACER', 'ACERc', 'PCL'):
            if self.kind == 'PCL' and self.c['prio']:
                return replay_buffer.PrioritizedEpisodicReplayBuffer(
                    60, uniform_ratio=0.3, betasteps=20,
                    wait_priority_after_sampling=False)
            return replay_buffer.EpisodicReplayBuffer(60)
        if self.c['prio'] and self.kind in A.Q_KINDS:
            return replay_buffer.PrioritizedReplayBuffer(
                40, betasteps=20, num_steps=self.c['n_step'])
        return replay_buffer.ReplayBuffer(40, num_steps=self.c['n_step'])

    def explorer(self):
        if self.kind in CONTINUOUS:
            if self.c['prio']:
                return explorers.AdditiveOU(sigma=0.2)
            return explorers.AdditiveGaussian(0.2, low=-1, high=1)
        f = lambda: np.int32(np.random.randint(NACT))   # noqa
        if self.kind not in ('CategoricalDQN', 'CategoricalDoubleDQN') \
                and self.c['seed'] % 3 == 0:
            return explorers.Boltzmann(T=0.5)
        return explorers.LinearDecayEpsilonGreedy(0.9, 0.1, 20, f)

    def off_kw(self):
        c = self.c
        kw = dict(replay_start_size=4, minibatch_size=3,
                  update_interval=c['interval'], soft_update_tau=0.3)
        if self.kind not in ('TD3', 'SAC'):
            kw.update(target_update_interval=c['interval'] + 1,
                      target_update_method=c['method'])
        if self.rec:
            kw['episodic_update_len'] = 3
            kw['minibatch_size'] = 1
        return dict(kw, **self.extra)

    def build_q(self, opt):
        b = A.build_q(self.kind, self.buffer, [], recurrent=self.rec,
                      seed=self.seed, opt=opt, explorer_=self.explorer(),
                      **self.off_kw())
        ag = self.agent = b.agent
        self.parts = {'model': ag.model, 'optimizer': ag.optimizer}
        if self.kind != 'ResidualDQN':
            self.parts['target'] = ag.target_model

    def build_ac(self, opt):
        kw = self.off_kw()
        kind = self.kind
        if kind == 'TD3':
            kw['policy_update_delay'] = 2
        if kind == 'SAC':
            kw['act_deterministically'] = self.c['det']
            if self.c['temperature']:
                kw['entropy_target'] = -1.0
                if self.c['decay']:
                    kw['temperature_optimizer'] = chainer.optimizers.SGD(.1)
        if kind == 'PGT':
            kw['act_deterministically'] = self.c['det']
        if kind == 'DDPG' and self.rec:
            return self.build_rec_ddpg(opt, kw)
        if kind == 'DDPG':
            kw.pop('episodic_update_len', None)
        b = A.build_ac(kind, self.buffer, [], seed=self.seed, opt=opt,
                       explorer_=self.explorer(), **kw)
        ag = self.agent = b.agent
        for n, (src, dst) in b.pairs.items():
            self.parts[n] = src()
            self.parts['target_' + n] = dst()
        for n, o in b.opts.items():
            self.parts[n + '_optimizer'] = o
        if kind == 'SAC':
            self.parts['policy'] = ag.policy
            if self.c['temperature']:
                self.parts['temperature'] = ag.temperature_holder
                self.parts['temperature_optimizer'] = ag.temperature_optimizer

    def build_rec_ddpg(self, opt, kw):
        model = DDPGModel(
            policies.FCLSTMDeterministicPolicy(
                OBS, 1, 3, ACT, np.full(ACT, -1., 'f'), np.full(ACT, 1., 'f'),
                True, nonlinearity=F.tanh),
            q_functions.FCLSTMSAQFunction(OBS, ACT, 3, 1,
                                          nonlinearity=F.tanh))
        self.randomize(model)
        kw.pop('episodic_update_len', None)
        ag = self.agent = agents.DDPG(
            model, opt(model['policy']), opt(model['q_function']),
            self.buffer, 0.9, self.explorer(), episodic_update=True,
            episodic_update_len=3, **kw)
        self.parts = {
            'policy': ag.policy, 'q': ag.q_function,
            'target_policy': ag.target_policy, 'target_q': ag.target_q_function,
            'policy_optimizer': ag.actor_optimizer,
            'q_optimizer': ag.critic_optimizer}

    def build_nsq(self, opt):
        m = Body(NACT, self.rec, action_value.DiscreteActionValue)
        self.randomize(m)
        o = opt(m)
        ag = self.agent = agents.NSQ(m, o, 3, 0.9, 4, self.explorer(),
                                     **self.extra)
        self.parts = {'model': ag.shared_q_function, 'local': ag.q_function,
                      'target': ag.target_q_function, 'optimizer': o}

    def a3c_model(self, mod):
        pi = Body(NACT, self.rec, distribution.SoftmaxDistribution)
        v = Body(1, self.rec)
        return mod(pi=pi, v=v)

    def build_a3c(self, opt):
        m = self.a3c_model(a3c.A3CSeparateModel)
        self.randomize(m)
        o = opt(m)
        ag = self.agent = agents.A3C(m, o, 3, 0.9,
                                     act_deterministically=self.c['det'],
                                     **self.extra)
        self.parts = {'model': ag.shared_model, 'local': ag.model,
                      'optimizer': o}

    def build_a2c(self, opt):
        m = self.a3c_model(a2c.A2CSeparateModel)
        self.randomize(m)
        o = opt(m)
        ag = self.agent = agents.A2C(
            m, o, 0.9, self.n_envs, update_steps=3,
            use_gae=self.c['prio'], act_deterministically=self.c['det'],
            **self.extra)
        self.parts = {'model': ag.model, 'optimizer': o}

    def build_acer(self, opt):
        m = acer.ACERSeparateModel(
            pi=Body(NACT, self.rec, distribution.SoftmaxDistribution),
            q=Body(NACT, self.rec, action_value.DiscreteActionValue))
        self.finish_acer(m, opt)

    def build_acerc(self, opt):
        m = acer.ACERSDNSeparateModel(
            pi=Body(2 * ACT, False, gauss), v=Body(1, False),
            adv=AdvNet(), n=2)
        self.finish_acer(m, opt)

    def finish_acer(self, m, opt):
        self.randomize(m)
        o = opt(m)
        ag = self.agent = agents.ACER(
            m, o, t_max=3, gamma=0.9, replay_buffer=self.buffer,
            replay_start_size=6, n_times_replay=1,
            use_trust_region=self.c['prio'],
            act_deterministically=self.c['det'], **self.extra)
        self.parts = {'model': ag.shared_model, 'local': ag.model,
                      'optimizer': o}

    def build_pcl(self, opt):
        m = self.a3c_model(pcl.PCLSeparateModel)
        self.randomize(m)
        o = opt(m)
        asynch = self.c['method'] == 'soft'
        ag = self.agent = agents.PCL(
            m, o, replay_buffer=self.buffer, t_max=3, gamma=0.9,
            rollout_len=2, replay_start_size=6, n_times_replay=1,
            batchsize=1, train_async=asynch,
            act_deterministically=self.c['det'], **self.extra)
        self.parts = {'model': ag.model, 'optimizer': o}
        if asynch:
            self.parts['shared'] = ag.shared_model

    def build_reinforce(self, opt):
        m = Body(NACT, self.rec, distribution.SoftmaxDistribution)
        self.randomize(m)
        o = opt(m)
        ag = self.agent = agents.REINFORCE(
            m, o, beta=0.01, batchsize=self.c['interval'],
            backward_separately=self.c['prio'],
            act_deterministically=self.c['det'],
            batch_states=batch_states, **self.extra)
        self.parts = {'model': ag.model, 'optimizer': o}

    def nets(self):
        if self.rec:
            return (links.StatelessRecurrentSequential(
                L.NStepGRU(1, OBS, 3, 0), L.Linear(3, NACT),
                distribution.SoftmaxDistribution),
                links.StatelessRecurrentSequential(
                    L.NStepGRU(1, OBS, 3, 0), L.Linear(3, 1)))
        return (chainer.Sequential(L.Linear(OBS, NACT),
                                   distribution.SoftmaxDistribution),
                chainer.Sequential(L.Linear(OBS, 3), F.tanh,
                                   L.Linear(3, 1)))

    def on_kw(self):
        norm = links.EmpiricalNormalization(OBS, clip_threshold=3) \
            if self.c['norm'] else None
        return norm, dict(dict(
            obs_normalizer=norm, gamma=0.9, update_interval=6,
            recurrent=self.rec, act_deterministically=self.c['det']),
            **self.extra)

    def build_ppo(self, opt):
        pi, v = self.nets()
        m = (links.StatelessRecurrentBranched if self.rec
             else links.Branched)(pi, v)
        self.randomize(m)
        norm, kw = self.on_kw()
        o = opt(m)
        ag = self.agent = agents.PPO(
            m, o, epochs=2, minibatch_size=1 if self.rec else 4,
            clip_eps_vf=0.2 if self.c['prio'] else None, **kw)
        self.parts = {'model': ag.model, 'optimizer': o}
        if norm is not None:
            self.parts['normalizer'] = norm

    def build_trpo(self, opt):
        pi, v = self.nets()
        self.randomize(pi)
        self.randomize(v, 1)
        norm, kw = self.on_kw()
        o = opt(v)
        ag = self.agent = agents.TRPO(
            pi, v, o, vf_epochs=2, vf_batch_size=1 if self.rec else 4, **kw)
        self.parts = {'policy': ag.policy, 'vf': ag.vf, 'optimizer': o}
        if norm is not None:
            self.parts['normalizer'] = norm

    # --------------------------------------------------------------- looking

    def state(self):
        """Everything that is to be saved, by name."""
        out = {}
        for n, p in self.parts.items():
            if isinstance(p, chainer.Optimizer):
                out[n] = opt_state(p)
            else:
                out[n] = A.params(p)
        return out

    def updated(self):
        """Optimizers that were used."""
        return {n: p.t > 0 for n, p in self.parts.items()
                if isinstance(p, chainer.Optimizer)}


def opt_state(o):
    out = {'t': o.t, 'epoch': o.epoch}
    if o.t == 0:
        return out
    for name, p in sorted(o.target.namedparams()):
        rule = p.update_rule
        out[name + ':t'] = rule.t
        for k, v in sorted((rule.state or {}).items()):
            out[name + ':' + k] = np.array(v, copy=True)
    return out


def diff_states(a, b):
    """First difference of two states, or None."""
    if sorted(a) != sorted(b):
        return 'parts {} {}'.format(sorted(a), sorted(b))
    for part in a:
        x, y = a[part], b[part]
        if sorted(x) != sorted(y):
            return '{}: {} vs {}'.format(part, sorted(x), sorted(y))
        for k in x:
            if not np.array_equal(np.asarray(x[k]), np.asarray(y[k]),
                                  equal_nan=True):
                return '{} {}: {} vs {}'.format(
                    part, k, np.asarray(x[k]).tolist(),
                    np.asarray(y[k]).tolist())
    return None


def case_strategy(kinds=KINDS, min_steps=1, max_steps=30):
    return st.fixed_dictionaries({
        'kind': st.sampled_from(kinds),
        'recurrent': st.booleans(), 'batch': st.booleans(),
        'envs': st.integers(1, 3), 'opt': st.sampled_from(OPTS),
        'decay': st.booleans(), 'prio': st.booleans(),
        'n_step': st.integers(1, 3), 'interval': st.integers(1, 3),
        'method': st.sampled_from(['hard', 'soft']), 'det': st.booleans(),
        'temperature': st.booleans(), 'norm': st.booleans(),
        'seed': SEED,
        # [reward, end]: 0-3 goes on, 4 terminal, 5 cut
        'steps': sized(st.tuples(
            st.integers(-8, 8).map(lambda x: x / 4),
            st.integers(0, 5)).map(list), min_steps, max_steps)})


class Driver(object):
    """Plays a stream of steps to an agent; remembers its actions."""

    def __init__(self, zoo, stream_seed):
        self.z = zoo
        self.r = np.random.RandomState(stream_seed % 2 ** 32)
        self.actions = []
        self.fresh = True           # between episodes
        self.n_eval = 0
        z = zoo
        self.obs = [self.new() for _ in range(z.n_envs)] if z.batch \
            else self.new()
        self.reward = 0.0

    def new(self):
        return self.r.uniform(-1, 1, OBS).astype('f')

    def note(self, a):
        self.actions.append(np.array(a, copy=True).tolist())

    def play(self, steps):
        for j, (reward, end) in enumerate(steps):
            if self.z.batch:
                self.play_batch(reward, end, j)
            else:
                self.play_serial(reward, end)

    def play_serial(self, reward, end):
        ag = self.z.agent
        self.note(ag.act_and_train(self.obs, self.reward))
        self.fresh = False
        self.obs, self.reward = self.new(), reward
        if end >= 4:
            self.finish(end == 4)

    def finish(self, done):
        self.z.agent.stop_episode_and_train(self.obs, self.reward, done=done)
        self.obs, self.reward, self.fresh = self.new(), 0.0, True

    def play_batch(self, reward, end, j):
        n = self.z.n_envs
        ag = self.z.agent
        self.note(ag.batch_act_and_train(self.obs))
        nxt = [self.new() for _ in range(n)]
        ends = [0] * n
        ends[j % n] = end
        done = [e == 4 for e in ends]
        reset = [e == 5 for e in ends]
        rs = [reward + i for i in range(n)]
        ag.batch_observe_and_train(nxt, rs, done, reset)
        self.obs = [self.new() if d or r else o
                    for d, r, o in zip(done, reset, nxt)]
        self.fresh = False

    def end_all(self):
        """End the episodes of all environments."""
        if self.z.batch:
            n = self.z.n_envs
            ag = self.z.agent
            self.note(ag.batch_act_and_train(self.obs))
            ag.batch_observe_and_train(
                [self.new() for _ in range(n)], [0.5] * n, [True] * n,
                [False] * n)
            self.obs = [self.new() for _ in range(n)]
        elif not self.fresh:
            self.finish(True)

    def boundary(self, limit=60):
        """Play until an update comes with the end of all episodes."""
        opt = self.z.parts['optimizer']
        for _ in range(limit):
            if not self.z.batch:
                self.play_serial(0.5, 0)
            t = opt.t
            self.end_all()
            if opt.t != t:
                return
        raise HarnessError('no update at the end of an episode')

    def evaluate(self, r, n=2):
        """Greedy behaviour on some observations (only where allowed)."""
        z = self.z
        if not z.batch and not self.fresh:
            return None
        out = []
        for _ in range(n):
            out.append(np.array(z.agent.act(
                r.uniform(-1, 1, OBS).astype('f')), copy=True).tolist())
        z.agent.stop_episode()
        return out


class ModeHook(chainer.LinkHook):
    """Remembers which links were called in training mode."""

    name = 'ModeHook'

    def __init__(self):
        self.calls = {}         # id of link -> set of modes

    def forward_preprocess(self, args):
        self.calls.setdefault(id(args.link), set()).add(
            bool(chainer.config.train))


def modes_strategy(kinds):
    return case_strategy(kinds, 8, 24)


def run_modes(case, note):
    """Target networks never run in training mode, acting does not either."""
    case = dict(case, opt='sgd')
    z = Zoo(case, case['seed'])
    d = Driver(z, case['seed'] + 5)
    targets = [p for n, p in z.parts.items() if n.startswith('target')]
    ids = {id(l) for t in targets for l in t.links()}
    with ModeHook() as hook:
        d.play(case['steps'])
        d.end_all()
    seen = {m for i in ids for m in hook.calls.get(i, ())}
    check(True not in seen, '{}: the target network ran in training mode',
          case['kind'])
    check(any(True in m for i, m in hook.calls.items() if i not in ids) or
          not any(z.updated().values()),
          '{}: the network was not updated in training mode', case['kind'])
    with ModeHook() as hook:
        d.evaluate(np.random.RandomState(0))
    check(all(m == {False} for m in hook.calls.values()),
          '{}: acting ran in training mode', case['kind'])
    note.label('target used' if seen else 'no update')
    note.nontrivial(bool(seen))
