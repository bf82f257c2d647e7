"""P37: which action an agent takes in training and in evaluation."""
import chainer
import numpy as np
from chainer import functions as F
from hypothesis import strategies as st

from chainerrl import explorer, replay_buffer

from pbt import agents as A
from pbt import zoo
from pbt.core import Suite, check
from pbt.gen import SEED, binom_ok, floats, sized

OBS, ACT, NACT = A.OBS, A.ACT, A.N_ACTIONS

suite = Suite(
    'P37',
    'the policy prefers no action overwhelmingly (or is continuous), or the '
    'explorer changed some of the greedy actions',
    ['frequencies and the Kolmogorov-Smirnov distance are tested at error '
     'probabilities below 1e-9'])

DISCRETE = ['A3C', 'A2C', 'ACER', 'PCL', 'PPO', 'TRPO', 'REINFORCE']
GAUSS = ['ACERc', 'SAC', 'PGT']
DET_ARG = DISCRETE + GAUSS


def frozen(link):
    o = chainer.optimizers.SGD(0.0)
    o.setup(link)
    return o


class Meddler(explorer.Explorer):
    """Explorer that logs what it is given and follows a generated plan."""

    def __init__(self, continuous, plan, r):
        self.continuous, self.plan, self.r = continuous, plan, r
        self.calls = []

    def select_action(self, t, greedy_action_func, action_value=None):
        i = len(self.calls)
        greedy = np.array(greedy_action_func(), copy=True)
        if not self.plan[i % len(self.plan)]:
            a = greedy_action_func()
        elif self.continuous:
            a = self.r.uniform(-1, 1, ACT).astype('f')
        else:
            a = np.int32(self.r.randint(NACT))
        self.calls.append((t, greedy, action_value, np.array(a, copy=True)))
        return a


class Still(zoo.Zoo):
    """An agent that does not learn during the case."""

    def __init__(self, case, seed, explorer_=None):
        self.explorer_ = explorer_
        super().__init__(dict(case, opt='sgd', decay=False), seed)

    def explorer(self):
        return self.explorer_ or super().explorer()

    def off_kw(self):
        return dict(super().off_kw(), replay_start_size=10 ** 6)

    def make_buffer(self):
        if self.kind in ('SAC', 'PGT'):
            return replay_buffer.ReplayBuffer(None)
        return super().make_buffer()

    def on_kw(self):
        norm, kw = super().on_kw()
        return norm, dict(kw, update_interval=10 ** 9)


def build(case, explorer_=None):
    real = zoo.optimizer
    zoo.optimizer = lambda *a: frozen
    try:
        z = Still(case, case['seed'], explorer_)
    finally:
        zoo.optimizer = real
    r = np.random.RandomState(case['seed'] % 2 ** 32)
    for name, p in sorted(z.parts.items()):
        if isinstance(p, chainer.Link) and name in (
                'model', 'local', 'policy', 'shared'):
            for link in p.links():
                if hasattr(link, 'W') and link.W.array is not None:
                    link.W.array[...] *= np.float32(case['scale'])
    for name, p in sorted(z.parts.items()):      # keep shared ones the same
        if name == 'shared':
            z.agent.model.copyparams(p)
        if name == 'local':
            p.copyparams(z.parts['model'])
    norm = z.parts.get('normalizer')
    if norm is not None:
        norm.experience(r.uniform(-3, 3, (20, OBS)).astype('f'))
    return z, r


def law(z, obs):
    """What the policy says for some observations, one row each."""
    ag, x = z.agent, np.asarray(obs, dtype='f')
    norm = z.parts.get('normalizer')
    if norm is not None:
        x = norm(x, update=False)
    with chainer.no_backprop_mode(), chainer.using_config('train', False):
        if z.rec:                       # from the initial state
            d = ag.model(x, None)[0][0] if z.kind == 'PPO' \
                else ag.policy(x, None)[0]
        elif z.kind in ('A3C', 'A2C'):
            d = ag.model.pi_and_v(x)[0]
        elif z.kind in ('SAC', 'PGT', 'TRPO'):
            d = ag.policy(x)
        elif z.kind == 'REINFORCE':
            d = ag.model(x)
        else:
            d = ag.model(x)[0]
        if z.kind in DISCRETE:
            p = F.softmax(d.logits, axis=1).array.astype('d')
            return p / p.sum(axis=1, keepdims=True)
        return (np.array(d.mean.array, 'd'), np.array(d.var.array, 'd') ** .5)


def follows(z, obs, actions, sampled, what):
    """actions[j][i]: j-th action for obs[i]."""
    p = law(z, obs)
    acts = np.asarray(actions)
    n = len(acts)
    for i in range(len(obs)):
        mine = acts[:, i]
        if z.kind in DISCRETE:
            check(np.issubdtype(mine.dtype, np.integer), '{}: dtype {}', what,
                  mine.dtype)
            for a in range(NACT):
                k = int((mine == a).sum())
                if sampled:
                    check(binom_ok(k, n, p[i][a]),
                          '{}: action {} chosen {} of {} times, its '
                          'probability is {}', what, a, k, n, p[i][a])
                elif p[i][a] < p[i].max() - 1e-6:
                    check(k == 0, '{}: action {} is not the most probable one '
                          'of {}', what, a, p[i])
            check(((mine >= 0) & (mine < NACT)).all(), '{}: bad action', what)
            continue
        mean, std = p[0][i], p[1][i]
        squash = z.kind == 'SAC'
        check(mine.shape == (n, ACT), '{}: action shape {}', what, mine.shape)
        if not sampled:
            want = np.tanh(mean) if squash else mean
            check(np.allclose(mine, want, atol=1e-4, rtol=1e-4),
                  '{}: {} is not the most probable action {}', what, mine[0],
                  want)
            continue
        x = mine.astype('d')
        if squash:
            check((np.abs(x) <= 1).all(), '{}: outside the bounds', what)
            x = np.clip(x, -1 + 1e-7, 1 - 1e-7)
            x = np.arctanh(x)
        exact = (np.abs(x - mean) < 1e-7 * std).all(axis=1)
        check(not exact.any(), '{}: {} actions are the mode, not samples',
              what, exact.sum())
        from scipy import stats
        for j in range(ACT):
            u = stats.norm.cdf((x[:, j] - mean[j]) / std[j])
            d = np.abs(np.sort(u)[:, None] - np.stack(
                [np.arange(n), np.arange(1, n + 1)], 1) / n).max()
            # Dvoretzky-Kiefer-Wolfowitz
            check(d < np.sqrt(np.log(2e10) / (2 * n)) + 1e-3,
                  '{}: dimension {} is not Gaussian with mean {} and '
                  'deviation {}', what, j, mean[j], std[j])
    if not sampled:
        return
    # rows of one batch are drawn independently of each other
    for i in range(1, len(obs)):
        if z.kind in DISCRETE:
            q = float((p[0] * p[i]).sum())
            k = int((acts[:, 0] == acts[:, i]).sum())
            check(binom_ok(k, n, q), '{}: environments 0 and {} act alike {} '
                  'of {} times, expected at rate {}', what, i, k, n, q)
        else:
            c = np.corrcoef(acts[:, 0, 0], acts[:, i, 0])[0, 1]
            check(abs(c) < 8 / np.sqrt(n), '{}: environments 0 and {} are '
                  'correlated: {}', what, i, c)


COMMON = {
    'batch': st.booleans(), 'envs': st.integers(1, 3), 'prio': st.booleans(),
    'n_step': st.integers(1, 2), 'interval': st.integers(1, 3),
    'method': st.sampled_from(['hard', 'soft']), 'det': st.booleans(),
    'temperature': st.booleans(), 'norm': st.booleans(), 'seed': SEED,
    'scale': st.sampled_from([0.5, 1.0, 2.0, 4.0])}

N = 120


def act_once(ag, obs):
    a = np.array(ag.act(obs))
    ag.stop_episode()
    return a


def policy_agent(kind, case, note):
    case = dict(case, kind=kind,
                recurrent=kind in ('PPO', 'TRPO') and case['temperature'])
    ex = Meddler(True, [False, True], np.random.RandomState(1)) \
        if kind == 'PGT' else None
    z, r = build(case, ex)
    ag = z.agent
    if kind in ('ACER', 'ACERc', 'PCL'):
        ag.replay_start_size = 10 ** 9
    if kind in ('ACER', 'ACERc', 'PCL', 'A3C'):
        ag.t_max = 30
    m = z.n_envs if z.batch else 2
    obs = r.uniform(-1, 1, (m, OBS)).astype('f')
    if r.rand() < 0.5:
        obs[:] = obs[0]
    before = z.state()
    ev, tr = [], []
    if z.batch:
        for j in range(N):
            tr.append([np.array(a) for a in ag.batch_act_and_train(list(obs))])
            ag.batch_observe_and_train(
                list(obs), [0.0] * m,
                [j % 20 == 0 or z.rec and j % 2 == 0] * m,
                [j % 20 == 10 or z.rec and j % 2 == 1] * m)
        for j in range(N):
            ev.append([np.array(a) for a in ag.batch_act(list(obs))])
            ag.batch_observe(list(obs), [0.0] * m,
                             [z.rec and j % 2 == 0] * m,
                             [z.rec and j % 2 == 1] * m)
    else:
        for j in range(N):
            row = []
            for o in obs:
                row.append(np.array(ag.act_and_train(o, 0.0)))
                if z.rec:
                    ag.stop_episode_and_train(o, 0.0, j % 2 == 0)
            if j % 10 == 9 and not z.rec:
                ag.stop_episode_and_train(o, 0.0, j % 20 == 9)
            tr.append(row)
        for _ in range(N):
            ev.append([act_once(ag, o) for o in obs])
    after = z.state()
    for k in before:
        if k in ('policy', 'model', 'local', 'normalizer'):
            check(A.same_params(before[k], after[k]),
                  '{}: {} changed although nothing was learned', kind, k)
    det = case['det']
    what = '{} ({})'.format(kind, 'batch' if z.batch else 'serial')
    if kind == 'PGT':
        # the explorer is given what the agent would do in evaluation
        g = [c[1] for c in ex.calls]
        g = [g[2 * j:2 * j + 2] for j in range(N)]
        follows(z, obs, g, not det, what + ' given to the explorer')
    else:
        follows(z, obs, tr, True, what + ' in training')
    follows(z, obs, ev, not det, what + ' in evaluation')
    if z.batch:
        ag.stop_episode()
        one = [[act_once(ag, o) for o in obs] for _ in range(60)]
        follows(z, obs, one, not det, what + ' evaluated singly')
    note.label('recurrent' if z.rec else 'feedforward',
               'deterministic' if det else 'sampled')
    note.nontrivial(kind in GAUSS or law(z, obs).max() < 0.97)


for _k in DISCRETE + GAUSS:
    for _b in (False, True)[:1 + (_k in zoo.BATCH)]:
        suite.add('policy_' + _k + '_batch' * _b, st.fixed_dictionaries(
            dict(COMMON, batch=st.just(_b))),
                  lambda c, n, _k=_k: policy_agent(_k, c, n), quick=8,
                  limit=60)


# ------------------------------------------------------ agents with explorers

EXPLORED = A.Q_KINDS + ['NSQ', 'DDPG', 'TD3', 'PGT', 'PCL']


def q_rows(z, obs):
    """Action values for some observations."""
    ag, x = z.agent, np.asarray(obs, dtype='f')
    f = ag.q_function if z.kind == 'NSQ' else ag.model
    with chainer.no_backprop_mode(), chainer.using_config('train', False):
        y = f(x)
        if z.kind.endswith('IQN'):
            taus = np.random.RandomState(0).uniform(
                0, 1, (len(x), 300)).astype('f')
            return y(taus).quantiles.array        # (batch, taus, actions)
        if z.kind.startswith('Categorical'):
            return np.array(y.q_values.array)
        return np.array(y.q_values.array)


class Watch(Meddler):
    """Explorer that also checks the greedy action while it is current."""

    expect = None        # [z, observations left]

    def select_action(self, t, greedy_action_func, action_value=None):
        z, left, steps = self.expect
        check(left, 'explorer called more often than there are actions')
        obs = left.pop(0)
        check(t == steps, '{}: explorer was told step {}, it is step {}',
              z.kind, t, steps)
        is_greedy(z, obs, greedy_action_func(), 'given to the explorer')
        if z.kind in A.Q_KINDS + ['NSQ']:
            check(action_value is not None, 'no action value for the explorer')
            rows = action_value.max.shape
            check(rows == (1,), 'the explorer got action values of shape {}',
                  rows)
            got = np.array([action_value.evaluate_actions(
                np.array([a], dtype=np.int32)).array.ravel()
                for a in range(NACT)])
            if not z.kind.endswith('IQN'):
                want = q_rows(z, obs[None])[0]
                check(np.allclose(got[:, 0], want, atol=1e-4, rtol=1e-4),
                      '{}: the explorer got the values {}, they are {}',
                      z.kind, got[:, 0], want)
            else:
                a = int(greedy_action_func())
                check(got[a, 0] >= got.max() - 1e-5, '{}: greedy action {} '
                      'of {}', z.kind, a, got[:, 0])
        return super().select_action(t, greedy_action_func, action_value)


def is_greedy(z, obs, action, what):
    kind, action = z.kind, np.asarray(action)
    if kind in A.Q_KINDS + ['NSQ']:
        check(action.shape == () and np.issubdtype(action.dtype, np.integer),
              '{}: action {} of dtype {}', kind, action, action.dtype)
        check(0 <= action < NACT, '{}: action {}', kind, action)
        q = q_rows(z, obs[None])[0]
        if kind.endswith('IQN'):
            best = q.argmax(axis=1)
            if (best == best[0]).all() and (
                    np.sort(q, axis=1)[:, -1] - np.sort(q, axis=1)[:, -2]
                    > 1e-4).all():
                check(action == best[0], '{}: {} {} is not greedy, all '
                      'quantiles prefer {}', kind, what, action, best[0])
                z.sure = True
            return
        check(q[action] >= q.max() - 1e-5, '{}: {} {} is not greedy for {}',
              kind, what, action, q)
        z.sure = True
        return
    if kind == 'PCL':
        check(0 <= action < NACT, 'PCL: action {}', action)
        return
    with chainer.no_backprop_mode(), chainer.using_config('train', False):
        d = z.agent.policy(obs[None])
        want = d.most_probable.array[0]
    if kind == 'PGT' and not z.c['det']:
        return
    check(action.shape == want.shape and
          np.allclose(action, want, atol=1e-5, rtol=1e-4),
          '{}: {} {} is not the policy\'s {}', kind, what, action, want)
    z.sure = True


class Learning(zoo.Zoo):

    def __init__(self, case, explorer_, start=4, **kw):
        self.explorer_, self.start, self.more = explorer_, start, kw
        super().__init__(case, case['seed'])

    def explorer(self):
        return self.explorer_

    def off_kw(self):
        return dict(super().off_kw(), replay_start_size=self.start,
                    **self.more)


def explored(kind, case, note):
    case = dict(case, kind=kind, recurrent=False)
    r = np.random.RandomState(case['seed'] % 2 ** 32)
    ex = Watch(kind in zoo.CONTINUOUS, case['plan'], r)
    # SARSA asks the explorer for the actions of its targets as well
    z = Learning(case, ex, start=39 if kind == 'SARSA' else 4)
    z.sure = False
    ag = z.agent
    if kind == 'PCL':
        ag.explorer = ex
    steps = 0
    n = z.n_envs if z.batch else 1

    def new():
        return r.uniform(-1, 1, OBS).astype('f')

    obs = [new() for _ in range(n)]
    reward, fresh, n_eval = 0.0, True, 0
    for rew, end, ev in case['steps']:
        if ev and (z.batch or fresh):
            n_calls = len(ex.calls)
            o = [new() for _ in range(n)]
            if z.batch:
                acts = ag.batch_act(o)
                check(len(acts) == n, '{}: {} actions for {} environments',
                      kind, len(acts), n)
                ag.batch_observe(o, [0.0] * n, [False] * n, [False] * n)
            else:
                acts = [ag.act(o[0])]
                ag.stop_episode()
            for a, x in zip(acts, o):
                is_greedy(z, x, a, 'evaluation action')
            check(len(ex.calls) == n_calls, '{}: evaluation explored', kind)
            n_eval += 1
        left = list(obs)
        ex.expect = [z, left, steps]
        n_calls = len(ex.calls)
        if z.batch:
            acts = list(ag.batch_act_and_train(obs))
        else:
            acts = [ag.act_and_train(obs[0], reward)]
        check(not left, '{}: the explorer was not asked for {} environments',
              kind, len(left))
        for i, a in enumerate(acts):
            want = ex.calls[n_calls + i][3]
            check(np.array_equal(a, want), '{}: agent acted {}, the explorer '
                  'chose {}', kind, a, want)
        steps += n
        nxt = [new() for _ in range(n)]
        reward = rew
        if z.batch:
            done = [end == 4 and i == 0 for i in range(n)]
            reset = [end == 5 and i == n - 1 for i in range(n)]
            ag.batch_observe_and_train(nxt, [rew] * n, done, reset)
            obs = [new() if d or s else o
                   for d, s, o in zip(done, reset, nxt)]
        elif end >= 4:
            ag.stop_episode_and_train(nxt[0], rew, done=end == 4)
            obs, reward = [new()], 0.0
        else:
            obs = nxt
        fresh = not z.batch and end >= 4
    if not z.batch and not fresh:
        ag.stop_episode_and_train(obs[0], 0.0, done=True)
    changed = sum(not np.array_equal(c[1], c[3]) for c in ex.calls)
    if n_eval:
        note.label('evaluation in between')
    note.label('batch' if z.batch else 'serial')
    note.nontrivial(changed > 0 and (z.sure or kind in ('PCL', 'PGT')))


for _k in EXPLORED:
    suite.add('explored_' + _k, st.fixed_dictionaries(dict(
        COMMON, plan=st.lists(st.booleans(), min_size=1, max_size=4),
        opt=st.sampled_from(zoo.OPTS), decay=st.booleans(),
        steps=sized(st.tuples(floats(-2, 2), st.integers(0, 5),
                              st.booleans()).map(list), 3, 20))),
              lambda c, n, _k=_k: explored(_k, c, n), quick=40)


# -------------------------------------------------------------------- burn-in

def burnin(kind, case, note):
    case = dict(case, kind=kind, prio=False, recurrent=False)
    r = np.random.RandomState(case['seed'] % 2 ** 32)
    made = []

    def burn():
        a = r.uniform(-1, 1, ACT).astype('f')
        made.append(a.copy())
        return a

    ex = Meddler(True, [True], np.random.RandomState(3))
    z = Learning(case, ex, start=case['start'], burnin_action_func=burn)
    ag, opt = z.agent, z.parts['policy_optimizer'] \
        if 'policy_optimizer' in z.parts else z.parts['optimizer']
    others = [p for p in z.parts.values()
              if isinstance(p, chainer.Optimizer) and p is not opt]
    n = z.n_envs if z.batch else 1

    def new():
        return r.uniform(-1, 1, OBS).astype('f')

    obs, reward = [new() for _ in range(n)], 0.0
    burned = explored_ = 0
    for rew, end, ev in case['steps']:
        updated = opt.t > 0
        maybe = not updated and any(o.t > 0 for o in others)
        n_made, n_calls = len(made), len(ex.calls)
        if ev and z.batch:
            ag.batch_act(obs)
            check(len(made) == n_made and len(ex.calls) == n_calls,
                  '{}: evaluation used the burn-in actions', kind)
        if z.batch:
            acts = list(ag.batch_act_and_train(obs))
        else:
            acts = [ag.act_and_train(obs[0], reward)]
        used = len(made) - n_made
        if not maybe:
            check(used == (0 if updated else n), '{}: {} burn-in actions for '
                  '{} environments when the model was {}updated', kind, used,
                  n, '' if updated else 'not ')
        if used:
            burned += 1
            check(all(np.array_equal(a, b) for a, b in zip(
                acts, made[n_made:])), '{}: actions {} are not the burn-in '
                'ones {}', kind, acts, made[n_made:])
            check(len(ex.calls) == n_calls,
                  '{}: explorer used in burn-in', kind)
        else:
            explored_ += 1
            if kind != 'SAC':
                check(len(ex.calls) == n_calls + n and all(
                    np.array_equal(a, c[3]) for a, c in zip(
                        acts, ex.calls[n_calls:])),
                    '{}: actions are not the ones explored', kind)
        nxt, reward = [new() for _ in range(n)], rew
        if z.batch:
            ag.batch_observe_and_train(nxt, [rew] * n, [end == 4] * n,
                                       [end == 5] * n)
            obs = [new() for _ in range(n)] if end >= 4 else nxt
        elif end >= 4:
            ag.stop_episode_and_train(nxt[0], rew, done=end == 4)
            obs, reward = [new()], 0.0
            if ev:
                n_made = len(made)
                ag.act(obs[0])
                ag.stop_episode()
                check(len(made) == n_made, '{}: evaluation used the burn-in '
                      'actions', kind)
        else:
            obs = nxt
    note.label('batch' if z.batch else 'serial')
    note.nontrivial(burned > 0 and explored_ > 0)


for _k in ('DDPG', 'TD3', 'SAC'):
    suite.add('burnin_' + _k, st.fixed_dictionaries(dict(
        COMMON, opt=st.sampled_from(zoo.OPTS), decay=st.booleans(),
        start=st.integers(3, 12),
        steps=sized(st.tuples(floats(-2, 2), st.integers(0, 6),
                              st.booleans()).map(list), 4, 24))),
              lambda c, n, _k=_k: burnin(_k, c, n), quick=150)
