"""P38: the statistics that agents report about training."""
import numbers

import chainer
import numpy as np
from chainer import functions as F
from hypothesis import strategies as st

from chainerrl import explorer, replay_buffer

from pbt import agents as A
from pbt import zoo
from pbt.core import Suite, check
from pbt.gen import SEED, floats, sized

OBS, ACT, NACT = A.OBS, A.ACT, A.N_ACTIONS

suite = Suite(
    'P38',
    'at least two different values went into an average, or an update took '
    'place',
    ['averages are compared with references computed from networks that are '
     'kept from learning by a learning rate of zero',
     'averages of random targets (IQN, SAC, PGT losses) are not recomputed',
     'whether acting for evaluation counts for an average is not specified '
     'and not exercised here'])


class Counted(chainer.optimizers.SGD):
    """An optimizer that changes nothing and counts its updates."""

    n = 0

    def update(self, *args, **kwargs):
        super().update(*args, **kwargs)
        self.n += 1


def frozen(link):
    o = Counted(0.0)
    o.setup(link)
    return o


class Fixed(explorer.Explorer):
    """Random or constant actions; remembers the greedy ones."""

    def __init__(self, continuous, r, constant):
        self.continuous, self.r = continuous, r
        self.greedy = []
        self.constant = self.draw() if constant else None

    def draw(self):
        if self.continuous:
            return self.r.uniform(-1, 1, ACT).astype('f')
        return np.int32(self.r.randint(NACT))

    def select_action(self, t, greedy_action_func, action_value=None):
        self.greedy.append(np.array(greedy_action_func(), copy=True))
        return self.draw() if self.constant is None else self.constant


class Reporting(zoo.Zoo):

    def __init__(self, case, extra, explorer_):
        self.extra, self.explorer_ = extra, explorer_
        real = zoo.optimizer
        zoo.optimizer = lambda *a: frozen
        try:
            super().__init__(dict(case, opt='sgd', decay=False),
                             case['seed'])
        finally:
            zoo.optimizer = real

    def explorer(self):
        return self.explorer_

    def make_buffer(self):
        if self.off_policy:
            return replay_buffer.ReplayBuffer(None)
        return super().make_buffer()


def stats(agent):
    s = agent.get_statistics()
    check(all(len(x) == 2 and isinstance(x[0], str) for x in s),
          'statistics are not (name, value) pairs: {}', s)
    d = dict(s)
    check(len(d) == len(s), 'a name occurs twice: {}', [x[0] for x in s])
    for k, v in d.items():
        check(isinstance(v, numbers.Number) or np.ndim(v) == 0,
              '{} is reported as {!r}, not a number', k, v)
    again = dict(agent.get_statistics())
    check(str(again) == str(d), 'asking twice gives {} and {}', d, again)
    return d


def expect(d, name, want, what, atol=1e-7, rtol=2e-4):
    check(name in d, '{}: no {} in {}', what, name, d)
    got = float(d[name])
    if np.isnan(want):
        check(np.isnan(got), '{}: {} is {} without any data', what, name, got)
        return
    check(abs(got - want) <= atol + rtol * abs(want),
          '{}: {} is {}, must be {}', what, name, got, want)


class Ema(object):
    """Exponential moving average from 0."""

    def __init__(self, decay):
        self.decay, self.x, self.size = decay, 0.0, 0.0

    def add(self, v):
        self.x += (1 - self.decay) * (v - self.x)
        self.size = max(self.size, abs(v))


class Window(object):
    """Mean of the last values."""

    def __init__(self, size):
        self.n, self.v = size, []

    def add(self, *v):
        self.v = (self.v + [float(x) for x in v])[-self.n:]

    @property
    def x(self):
        return np.mean(self.v) if self.v else np.nan


def rng_of(case):
    return np.random.RandomState(case['seed'] % 2 ** 32)


DECAY = st.sampled_from([0.0, 0.5, 0.9, 0.99, 0.999])
COMMON = {
    'recurrent': st.just(False), 'batch': st.booleans(),
    'envs': st.integers(1, 3), 'prio': st.booleans(), 'n_step': st.just(1),
    'interval': st.integers(1, 3),
    'method': st.sampled_from(['hard', 'soft']), 'det': st.booleans(),
    'temperature': st.booleans(), 'norm': st.booleans(), 'seed': SEED,
    'd1': DECAY, 'd2': DECAY, 'w1': st.integers(1, 12),
    'w2': st.integers(1, 12),
    'steps': sized(st.tuples(floats(-2, 2), st.integers(0, 5)).map(list),
                   1, 25)}

# ------------------------------------------------------- averages over acting

ACTING = [k for k in A.Q_KINDS if not k.endswith('IQN')] + [
    'DDPG', 'PGT', 'A3C', 'ACER', 'ACERc', 'PCL', 'REINFORCE', 'PPO',
    'TRPO']


def observed(z, obs):
    """{name: values, one per row} of what acting on `obs` is to record."""
    ag, x = z.agent, np.asarray(obs, dtype='f')
    kind = z.kind
    norm = z.parts.get('normalizer')
    if norm is not None:
        x = norm(x, update=False)
    with chainer.no_backprop_mode(), chainer.using_config('train', False):
        if kind in A.Q_KINDS:
            return {'average_q': ag.model(x).q_values.array.max(axis=1)}
        if kind in ('DDPG', 'PGT'):
            a = np.stack(z.explorer_.greedy[-len(x):])
            return {'average_q': ag.q_function(x, a).array[:, 0]}
        if kind == 'REINFORCE':
            return {'average_entropy': entropy(ag.model(x))}
        if kind == 'TRPO':
            d, v = ag.policy(x), ag.vf(x)
        elif kind == 'A3C':
            d, v = ag.model.pi_and_v(x)
        elif kind in ('ACER', 'ACERc'):
            d, _, v = ag.model(x)
        else:
            d, v = ag.model(x)
        return {'average_value': v.array.ravel(),
                'average_entropy': entropy(d)}


def entropy(d):
    if hasattr(d, 'logits'):
        lp = F.log_softmax(d.logits).array.astype('d')
        return -(np.exp(lp) * lp).sum(axis=1)
    var = d.var.array.astype('d')
    return 0.5 * (np.log(2 * np.pi * np.e * var)).sum(axis=1)


def acting(kind, case, note):
    case = dict(case, kind=kind)
    windows = kind in ('PPO', 'TRPO')
    r = rng_of(case)
    if windows:
        extra = {'value_stats_window': case['w1'],
                 'entropy_stats_window': case['w2']}
        ref = {'average_value': Window(case['w1']),
               'average_entropy': Window(case['w2'])}
    else:
        names = {'REINFORCE': ['average_entropy']}.get(
            kind, ['average_q'] if kind in A.Q_KINDS + ['DDPG', 'PGT']
            else ['average_value', 'average_entropy'])
        ref = {n: Ema(case[d]) for n, d in zip(names, ('d1', 'd2'))}
        extra = {n + '_decay': e.decay for n, e in ref.items()}
    if kind == 'DDPG':
        case['batch'] = False       # nothing is specified for batches
    if kind == 'TRPO':
        extra['update_interval'] = 10 ** 9       # its policy would change
    z = Reporting(case, extra, Fixed(kind in zoo.CONTINUOUS, r, False))
    ag = z.agent
    n = z.n_envs if z.batch else 1
    if kind in ('ACER', 'ACERc'):
        # the average model lags behind
        for p in ag.shared_average_model.params():
            p.array[...] += r.uniform(-1, 1, p.shape)

    def new():
        return r.uniform(-1, 1, OBS).astype('f')

    def compare():
        d = stats(ag)
        for name, e in ref.items():
            expect(d, name, float(e.x), kind,
                   atol=1e-7 + 2e-5 * getattr(e, 'size', 0.05) *
                   (1 - getattr(e, 'decay', 0)))

    compare()
    obs, reward = [new() for _ in range(n)], 0.0
    for rew, end in case['steps']:
        if z.batch:
            ag.batch_act_and_train(obs)
        else:
            ag.act_and_train(obs[0], reward)
        for name, v in observed(z, obs).items():
            v = np.asarray(v, 'd')
            if windows:
                ref[name].add(*v)
            else:
                ref[name].add(v.mean())
        compare()
        nxt, reward = [new() for _ in range(n)], rew
        if z.batch:
            done = [end == 4 and i == 0 for i in range(n)]
            reset = [end == 5 and i == n - 1 for i in range(n)]
            ag.batch_observe_and_train(nxt, [rew] * n, done, reset)
            obs = [new() if a or b else o
                   for a, b, o in zip(done, reset, nxt)]
        elif end == 4 or end == 5 and kind != 'REINFORCE':
            ag.stop_episode_and_train(nxt[0], rew, done=end == 4)
            obs, reward = [new()], 0.0
        else:
            obs = nxt
    compare()
    note.label('batch' if z.batch else 'serial')
    note.nontrivial(len(case['steps']) > 1)


for _k in ACTING:
    suite.add('acting_' + _k, st.fixed_dictionaries(COMMON),
              lambda c, n, _k=_k: acting(_k, c, n), quick=20)


# ------------------------------------------------------- averages over losses

def huber(x):
    return 0.5 * x * x if abs(x) < 1 else abs(x) - 0.5


LOSSES = [k for k in A.Q_KINDS if not k.endswith('IQN')] + [
    'DDPG', 'TD3', 'SAC']


@suite.facet(st.fixed_dictionaries(dict(
    COMMON, kind=st.sampled_from(LOSSES + ['DQN', 'DDPG', 'TD3', 'SAC']),
    reward=floats(-3, 3), clip=st.booleans(), sum=st.booleans(),
    n_times=st.integers(1, 3), n=st.integers(1, 30),
    temp=st.sampled_from([0.1, 1.0, 2.5]))), quick=220, shards=2)
def losses(case, note):
    """A world in which all experiences are alike: each loss is the same."""
    c, kind = case, case['kind']
    r = rng_of(c)
    extra = {}
    dq = kind in A.Q_KINDS
    if dq or kind == 'DDPG':
        extra['average_loss_decay'] = c['d1']
        extra['n_times_update'] = c['n_times']
    if dq and kind in ('DQN', 'DoubleDQN', 'SARSA'):
        extra['clip_delta'] = c['clip']
        extra['batch_accumulator'] = 'sum' if c['sum'] else 'mean'
    if kind == 'TD3':
        extra['target_policy_smoothing_func'] = lambda a: a
    if kind == 'SAC':
        extra['initial_temperature'] = c['temp']
        if c['temperature']:
            extra['entropy_target'] = -1.0
            extra['temperature_optimizer'] = Counted(0.0)
            c = dict(c, temperature=False)
    z = Reporting(c, extra, Fixed(kind in zoo.CONTINUOUS, r, True))
    ag = z.agent
    o = r.uniform(-1, 1, OBS).astype('f')
    n_envs = z.n_envs if z.batch else 1
    ref, taken = references(z, o, c), []
    first = None
    opts = {k: p for k, p in z.parts.items() if isinstance(p, Counted)}
    for j in range(c['n']):
        if z.batch:
            taken = list(ag.batch_act_and_train([o] * n_envs))
            ag.batch_observe_and_train([o] * n_envs, [c['reward']] * n_envs,
                                       [False] * n_envs, [False] * n_envs)
        else:
            taken = [ag.act_and_train(o, c['reward'])]
        d = stats(ag)
        k = {name: p.n for name, p in opts.items()}
        if dq:
            n = k['optimizer']
            expect(d, 'n_updates', n, kind)
            if ref is None:
                if n and first is None:
                    first = d['average_loss'] / (1 - c['d1'] ** n)
                want = first
            else:
                want = ref['loss']
            expect(d, 'average_loss', (want or 0) * (1 - c['d1'] ** n), kind,
                   atol=1e-5)
        elif kind == 'DDPG':
            n = k['q_optimizer']
            expect(d, 'average_critic_loss',
                   ref['critic'] * (1 - c['d1'] ** n), kind, atol=1e-5)
            expect(d, 'average_actor_loss', ref['actor'] *
                   (1 - c['d1'] ** k['policy_optimizer']), kind, atol=1e-5)
            if 'n_updates' in d:
                expect(d, 'n_updates', n, kind)
        else:
            n = k['q1_optimizer']
            m = k['policy_optimizer']
            nan = float('nan')
            if kind == 'TD3':
                for i in (1, 2):
                    expect(d, 'average_q{}'.format(i),
                           ref['q%d' % i] if n else nan, kind, atol=1e-5)
                    expect(d, 'average_q_func%d_loss' % i,
                           ref['loss%d' % i] if n else nan, kind, atol=1e-5)
                expect(d, 'average_policy_loss', ref['actor'] if m else nan,
                       kind, atol=1e-5)
                expect(d, 'q_func_n_updates', n, kind)
                expect(d, 'policy_n_updates', m, kind)
            else:
                expect(d, 'temperature', c['temp'], kind)
                expect(d, 'n_updates', m, kind)
                check((d['average_entropy'] != d['average_entropy'])
                      == (m == 0), 'SAC: average_entropy {} after {} updates',
                      d['average_entropy'], m)
                for i in (1, 2):
                    check((d['average_q_func%d_loss' % i] !=
                           d['average_q_func%d_loss' % i]) == (n == 0),
                          'SAC: losses {} after {} updates', d, n)
    if kind == 'SAC' and n:
        sac_values(z, o, d, taken)
    note.label(kind)
    note.nontrivial(n > 0)


def sac_values(z, o, d, taken):
    """All actions of SAC differ, so only their range is known."""
    ag = z.agent
    with chainer.no_backprop_mode():
        acts = np.array([t[0]['action'] for t in ag.replay_buffer.memory])
        x = np.repeat(o[None], len(acts), axis=0)
        for i, q in ((1, ag.q_func1), (2, ag.q_func2)):
            v = q(x, acts.astype('f')).array
            check(v.min() - 1e-4 <= d['average_q%d' % i] <= v.max() + 1e-4,
                  'SAC: average_q{} is {}, outside of {} to {}', i,
                  d['average_q%d' % i], v.min(), v.max())
        law = ag.policy(np.repeat(o[None], 4000, axis=0))
        lp = law.sample_with_log_prob()[1].array.astype('d')
    m = 3 * z.parts['policy_optimizer'].n        # minibatches of three
    check(abs(d['average_entropy'] + lp.mean()) <=
          15 * lp.std() * (m ** -.5 + 0.02), 'SAC: average_entropy {}, but '
          'actions have log-probabilities of mean {} and deviation {}',
          d['average_entropy'], lp.mean(), lp.std())


def references(z, o, c):
    """The losses in a world of one state, action and reward."""
    ag, kind = z.agent, z.kind
    a = z.explorer_.constant
    x = o[None]
    with chainer.no_backprop_mode(), chainer.using_config('train', False):
        if kind in ('DQN', 'DoubleDQN', 'SARSA'):
            q = ag.model(x).q_values.array[0].astype('d')
            nxt = q[a] if kind == 'SARSA' else q.max()
            e = q[a] - (c['reward'] + 0.9 * nxt)
            loss = huber(e) if c['clip'] else 0.5 * e * e
            return {'loss': loss * (3 if c['sum'] else 1)}
        if kind in ('DDPG', 'TD3'):
            pi = ag.policy(x).most_probable.array
            if kind == 'DDPG':
                q = float(ag.q_function(x, a[None]).array)
                v = float(ag.q_function(x, pi).array)
                return {'critic': (q - c['reward'] - 0.9 * v) ** 2,
                        'actor': -v}
            q = [float(f(x, a[None]).array) for f in (ag.q_func1, ag.q_func2)]
            v = [float(f(x, pi).array) for f in (ag.q_func1, ag.q_func2)]
            t = c['reward'] + 0.9 * min(v)
            return {'q1': q[0], 'q2': q[1], 'loss1': (q[0] - t) ** 2,
                    'loss2': (q[1] - t) ** 2, 'actor': -v[0]}
    return None


# ------------------------------------------------------------------ PPO, TRPO

def returns(episodes, gamma, lambd):
    """(advantage, value target, value) of every step."""
    out = []
    for ep in episodes:
        adv, rows = 0.0, []
        for v, rew, nxt, alive in reversed(ep):
            adv = rew + gamma * alive * nxt - v + gamma * lambd * adv
            rows.append((adv, adv + v, v))
        out += rows[::-1]
    return np.array(out)


UPDATES = dict(
    COMMON,
    standardize=st.booleans(), gamma=st.sampled_from([0.0, 0.9, 1.0]),
    lambd=st.sampled_from([0.0, 0.5, 1.0]), epochs=st.integers(1, 3),
    size=st.integers(2, 8), max_kl=st.sampled_from([1e-3, 0.01, 1.0, 5.0, 30.0]),
    backtrack=st.sampled_from([0, 1, 10, 10]))


def updates(case, note):
    c, kind = dict(case, norm=False), case['kind']
    r = rng_of(c)
    size = c['size'] * (c['envs'] if c['batch'] else 1)
    extra = dict(gamma=c['gamma'], lambd=c['lambd'], update_interval=size,
                 standardize_advantages=c['standardize'], entropy_coef=0.0)
    if kind == 'PPO':
        extra.update(epochs=c['epochs'], minibatch_size=size,
                     value_loss_stats_window=c['w1'],
                     policy_loss_stats_window=c['w2'])
    else:
        extra.update(max_kl=c['max_kl'], kl_stats_window=c['w1'],
                     line_search_max_backtrack=c['backtrack'],
                     policy_step_size_stats_window=c['w2'])
    z = Sized(c, extra, None)
    ag = z.agent
    n = z.n_envs if z.batch else 1
    vloss, ploss = Window(c['w1']), Window(c['w2'])
    kls, steps = Window(c['w1']), Window(c['w2'])
    n_updates, ev, n_data = 0, float('nan'), 0
    episodes, cur, seen = [], [[] for _ in range(n)], []
    spread = False

    def value(x):
        with chainer.no_backprop_mode():
            v = ag.vf(x[None]) if kind == 'TRPO' else ag.model(x[None])[1]
        return float(v.array)

    def new():
        return r.uniform(-1, 1, OBS).astype('f')

    def law(xs):
        with chainer.no_backprop_mode():
            return F.log_softmax(ag.policy(np.stack(xs)).logits).array.astype(
                'd')

    obs, reward = [new() for _ in range(n)], 0.0
    prev = [None] * n

    def record(i, nxt, rew, done, cut):
        nonlocal n_data
        cur[i].append((value(prev[i]), rew, value(nxt), 0.0 if done else 1.0))
        seen.append(prev[i])
        n_data += 1
        if done or cut:
            episodes.append(cur[i])
            cur[i] = []

    def after(before):
        """Compare with the reports, after data that may fill a batch."""
        nonlocal n_data, n_updates, ev, episodes, seen, spread
        if n_data >= size:
            eps = episodes + [e for e in cur if e]
            for i in range(n):
                cur[i] = []
            t = returns(eps, c['gamma'], c['lambd'])
            var = np.var(t[:, 1])
            ev = 1 - np.var(t[:, 1] - t[:, 2]) / var if var > 1e-10 else None
            spread = spread or var > 1e-6
            adv = t[:, 0]
            if c['standardize']:
                adv = (adv - adv.mean()) / (adv.std() + 1e-8)
            if kind == 'PPO' and n_data == size:
                for _ in range(c['epochs']):
                    vloss.add(np.mean((t[:, 1] - t[:, 2]) ** 2))
                    ploss.add(-adv.mean())
                n_updates += c['epochs']
            elif kind == 'TRPO':
                lp = before(seen)
                lq = law(seen)
                kl = float((np.exp(lp) * (lp - lq)).sum(axis=1).mean())
                moved = not np.array_equal(lp, lq)
                compare_kl(kl, moved)
            n_data, episodes, seen = 0, [], []
        d = stats(ag)
        if ev is not None:
            expect(d, 'explained_variance', ev, kind, atol=1e-3, rtol=1e-3)
        if kind == 'PPO':
            expect(d, 'n_updates', n_updates, kind)
            check(ag.optimizer.n == n_updates, 'PPO: {} updates, not {}',
                  ag.optimizer.n, n_updates)
            expect(d, 'average_value_loss', vloss.x, kind, atol=1e-4,
                   rtol=1e-3)
            expect(d, 'average_policy_loss', ploss.x, kind, atol=1e-4,
                   rtol=1e-3)

    def compare_kl(kl, moved):
        d = stats(ag)
        s = float(d['average_policy_step_size'])
        old = list(steps.v)
        cand = [0.0] + [0.5 ** i for i in range(c['backtrack'] + 1)]
        fits = []
        for x in cand:
            w = Window(c['w2'])
            w.add(*old, x)
            if abs(w.x - s) < 1e-9:
                fits.append(x)
        check(fits, 'TRPO: the average step size is {} after steps {}', s,
              old)
        step = fits[0]
        steps.add(step)
        if step == 0:
            check(not moved, 'TRPO: the policy moved, reported step size 0')
        else:
            kls.add(kl)
        if moved:
            note.label('moved')
        if 0 < step < 1:
            note.label('shortened step')
        expect(d, 'average_kl', kls.x, kind, atol=2e-6, rtol=1e-2)

    for rew, end in c['steps'] * 2:
        if kind == 'TRPO':
            w = {k: v for k, v in A.params(ag.policy).items()}

            def before(xs):
                now = {k: p.array.copy() for k, p in
                       sorted(ag.policy.namedparams())}
                for k, p in ag.policy.namedparams():
                    p.array[...] = w[k]
                out = law(xs)
                for k, p in ag.policy.namedparams():
                    p.array[...] = now[k]
                return out
        else:
            before = None
        if z.batch:
            ag.batch_act_and_train(obs)
            prev = list(obs)
            nxt = [new() for _ in range(n)]
            done = [end == 4 and i == 0 for i in range(n)]
            cut = [end == 5 and i == n - 1 for i in range(n)]
            rews = [rew + i for i in range(n)]
            ag.batch_observe_and_train(nxt, rews, done, cut)
            for i in range(n):
                record(i, nxt[i], rews[i], done[i], cut[i])
            after(before)
            obs = [new() if a or b else o
                   for a, b, o in zip(done, cut, nxt)]
        else:
            ag.act_and_train(obs[0], reward)
            if prev[0] is not None:
                record(0, obs[0], reward, False, False)
                after(before)
            prev = list(obs)
            nxt, reward = [new()], rew
            if end >= 4:
                if kind == 'TRPO':
                    w.update(A.params(ag.policy))
                ag.stop_episode_and_train(nxt[0], rew, done=end == 4)
                record(0, nxt[0], rew, end == 4, True)
                after(before)
                obs, reward, prev = [new()], 0.0, [None]
            else:
                obs = nxt
    note.label(kind)
    note.nontrivial(spread)


for _kind, _n in [('PPO', 60), ('TRPO', 120)]:
    suite.add('updates_' + _kind, st.fixed_dictionaries(dict(
        UPDATES, kind=st.just(_kind))), updates, quick=_n, limit=60)


# ------------------------------------------------------------ A2C, PCL, ACER

ACTORS = dict(COMMON, reward=floats(-2, 2), n=st.integers(1, 24))


@suite.facet(st.fixed_dictionaries(dict(
    ACTORS, kind=st.just('A2C'), tau=st.sampled_from([0.0, 0.5, 0.95, 1.0]))),
    quick=60, limit=60)
def losses_A2C(case, note):
    """The policy's loss and entropy of every update."""
    c = dict(case, batch=True)
    r = rng_of(c)
    z = Reporting(c, {
        'average_actor_loss_decay': c['d1'], 'average_entropy_decay': c['d2'],
        'tau': c['tau']}, None)
    ag, n = z.agent, z.n_envs
    actor, ent = Ema(c['d1']), Ema(c['d2'])
    obs = r.uniform(-1, 1, (n, OBS)).astype('f')
    seg = []
    for t in range(c['n']):
        a = ag.batch_act_and_train(list(obs))
        nxt = r.uniform(-1, 1, (n, OBS)).astype('f')
        rew = list(r.uniform(-1, 1, n) + c['reward'])
        end = [c['steps'][(t * n + i) % len(c['steps'])][1] for i in range(n)]
        ag.batch_observe_and_train(list(nxt), rew, [e == 4 for e in end],
                                   [e == 5 for e in end])
        seg.append((obs, np.array(a), np.array(rew),
                    np.array([float(e < 4) for e in end])))
        if len(seg) == 3:
            with chainer.no_backprop_mode():
                x = np.concatenate([s[0] for s in seg])
                d, v = ag.model(x)
                last = ag.model(nxt)[1].array[:, 0].astype('d')
                lp = d.log_prob(np.concatenate(
                    [s[1] for s in seg]).astype('i')).array.astype('d')
            v = v.array[:, 0].astype('d').reshape(3, n)
            adv, acc = np.zeros((3, n)), 0.0
            for k in (2, 1, 0):
                after = last if k == 2 else v[k + 1]
                delta = seg[k][2] + 0.9 * seg[k][3] * after - v[k]
                # without GAE the errors add up undamped
                acc = delta + 0.9 * (c['tau'] if c['prio'] else 1.0) \
                    * seg[k][3] * acc
                adv[k] = acc
            actor.add(-np.mean(adv.ravel() * lp))
            ent.add(entropy(d).mean())
            seg = []
        s = stats(ag)
        expect(s, 'average_actor', actor.x, 'A2C', atol=2e-5 * (
            1 + actor.size), rtol=1e-3)
        expect(s, 'average_entropy', ent.x, 'A2C', atol=1e-5)
        obs = nxt
    note.label('GAE' if c['prio'] else 'returns')
    note.nontrivial(c['n'] >= 6)


@suite.facet(st.fixed_dictionaries(dict(
    ACTORS, kind=st.just('PCL'), tau=st.sampled_from([0.01, 0.5]),
    by_steps=st.booleans())), quick=40, limit=60)
def losses_PCL(case, note):
    """A world where every step is alike, so every update's loss is."""
    c = dict(case, batch=False)
    r = rng_of(c)
    ex = Fixed(False, r, True)
    z = Reporting(c, {
        'average_loss_decay': c['d1'], 'tau': c['tau'], 'explorer': ex,
        'pi_loss_coef': 1.0, 'v_loss_coef': 0.5,
        'normalize_loss_by_steps': c['by_steps']}, ex)
    ag = z.agent
    o = r.uniform(-1, 1, OBS).astype('f')
    with chainer.no_backprop_mode():
        d, v = ag.model(o[None])
        lp = float(d.log_prob(np.asarray([ex.constant], 'i')).array)
        v = float(v.array)
    g = c['reward'] - c['tau'] * lp
    one, two = -v + 0.9 * v + g, -v + 0.81 * v + 1.9 * g
    # the policy's part is made independent of the temperature
    loss = (0.5 / c['tau'] + 0.25) * (2 * two ** 2 + one ** 2) \
        / (3 if c['by_steps'] else 1)
    for t in range(c['n']):
        ag.act_and_train(o, c['reward'])
        k = z.parts['optimizer'].n
        check(k == t // 3, 'PCL: {} updates after {} steps', k, t)
        expect(stats(ag), 'average_loss', loss * (1 - c['d1'] ** k), 'PCL',
               atol=2e-5 * (1 + loss), rtol=1e-3)
    note.nontrivial(c['n'] >= 7)


@suite.facet(st.fixed_dictionaries(dict(
    ACTORS, kind=st.sampled_from(['ACER', 'ACERc']))), quick=40, limit=60)
def losses_ACER(case, note):
    """The divergence of the policy from the average policy."""
    c = dict(case, batch=False, prio=True)
    r = rng_of(c)
    z = Reporting(c, {'average_kl_decay': c['d1'],
                      'trust_region_alpha': 1.0}, None)
    ag = z.agent
    for p in ag.shared_average_model.params():
        p.array[...] += r.uniform(-1, 1, p.shape)
    o = r.uniform(-1, 1, OBS).astype('f')
    with chainer.no_backprop_mode():
        p = ag.model(o[None])[0]
        q = ag.shared_average_model(o[None])[0]
        if c['kind'] == 'ACER':
            lp, lq = (F.log_softmax(x.logits).array.astype('d')
                      for x in (p, q))
            kl = float((np.exp(lq) * (lq - lp)).sum())
        else:
            kl = 0.0
            for m, s, n, w in zip(*(np.ravel(a.array).astype('d') for a in (
                    q.mean, q.var, p.mean, p.var))):
                kl += 0.5 * (np.log(w / s) + (s + (m - n) ** 2) / w - 1)
    for t in range(c['n']):
        ag.act_and_train(o, c['reward'])
        k = z.parts['optimizer'].n
        check(k == t // 3, 'ACER: {} updates after {} steps', k, t)
        expect(stats(ag), 'average_kl', kl * (1 - c['d1'] ** (3 * k)),
               c['kind'], atol=2e-5 * (1 + kl), rtol=1e-3)
    note.nontrivial(c['n'] >= 7)


class Sized(Reporting):
    """Uses the minibatch size given."""

    def build_ppo(self, opt):
        from chainerrl import agents, links
        pi, v = self.nets()
        m = links.Branched(pi, v)
        self.randomize(m)
        norm, kw = self.on_kw()
        o = opt(m)
        ag = self.agent = agents.PPO(
            m, o, clip_eps_vf=0.2 if self.c['prio'] else None, **kw)
        self.parts = {'model': ag.model, 'optimizer': o}


@suite.facet(zoo.case_strategy(['SAC'], min_steps=5).map(
    lambda c: dict(c, temperature=True)), quick=20, limit=60)
def temperature(case, note):
    """The temperature reported is the one learned."""
    z = zoo.Zoo(case, case['seed'])
    drv = zoo.Driver(z, case['seed'])
    seen = set()
    for step in case['steps']:
        drv.play([step])
        with chainer.no_backprop_mode():
            t = float(z.parts['temperature']().array)
        expect(stats(z.agent), 'temperature', t, 'SAC')
        seen.add(round(t, 6))
    note.nontrivial(len(seen) > 2)


# ------------------------------------------------------------------ every kind

@suite.facet(zoo.case_strategy(min_steps=5), quick=140, shards=2, limit=60)
def plain_numbers(case, note):
    """Statistics of any agent, whatever it was through, are numbers."""
    z = zoo.Zoo(case, case['seed'])
    ag = z.agent
    names = list(stats(ag))
    drv = zoo.Driver(z, case['seed'])
    for step in case['steps']:
        drv.play([step])
        d = stats(ag)
        check(list(d) == names, '{}: names changed from {} to {}',
              case['kind'], names, list(d))
        if case['kind'] == 'SAC' and case['temperature']:
            expect(d, 'temperature', float(
                z.parts['temperature']().array), 'SAC')
    note.label(case['kind'])
    note.nontrivial(any(z.updated().values()))
