"""P09: what replay-based agents record."""
import chainer
import numpy as np

from chainerrl.replay_buffer import EpisodicReplayBuffer

from pbt import zoo
from pbt.core import Suite, check, same
from pbt.offpolicy import Session
from pbt.props.p08 import add_all

suite = Suite(
    'P09',
    'at least two episodes ended and at least five transitions were recorded',
    ['the twin buffer follows P01 and P02'])


def run(case, note, batch):
    s = Session(case, case['n_envs'] if batch else None)
    if batch:
        s.run_batch(case['ops'], True, False)
    else:
        s.run_serial(case['ops'], True, False)
    s.check_content()
    note.label(s.kind, type(s.twin).__name__)
    if s.n_eval:
        note.label('evaluation in between')
    note.nontrivial(s.n_ends >= 2 and s.n_env_steps >= 5)


add_all(suite, run)


# ------------------------------------------------------------- ACER and PCL

class Recorded(EpisodicReplayBuffer):
    """Buffer that remembers every call."""

    def __init__(self, log):
        super().__init__(None)
        self.log = log

    def append(self, *args, **kwargs):
        names = ['state', 'action', 'reward', 'next_state', 'next_action',
                 'is_state_terminal', 'env_id']
        d = dict(zip(names, args), **kwargs)
        self.log.append(('add', d))
        return super().append(*args, **kwargs)

    def stop_current_episode(self, *args, **kwargs):
        self.log.append(('end', None))
        return super().stop_current_episode(*args, **kwargs)


def params_of(d):
    return [np.array(p.array, copy=True) for p in d.params]


def actor_critic(case, note):
    log = []
    case = dict(case, prio=False)
    z = zoo.Zoo(case, case['seed'], buffer=Recorded(log))
    ag, r = z.agent, np.random.RandomState(case['seed'] % 2 ** 32)

    def new():
        return r.uniform(-1, 1, zoo.OBS).astype('f')
    want, obs, reward, fresh, ends, step = [], new(), 0.0, True, 0, None
    for rew, end in case['steps']:
        if fresh and r.rand() < 0.4:
            n = len(log)
            for _ in range(r.randint(1, 4)):
                ag.act(new())
            ag.stop_episode()
            check(not [e for e in log[n:] if e[0] == 'add'],
                  'evaluation was recorded')
            note.label('evaluation in between')
        a = ag.act_and_train(obs, reward)
        if step is not None:
            want.append(dict(step, reward=reward, next_state=obs,
                             next_action=np.array(a), end=0))
        mu = None
        if not z.rec:
            with chainer.no_backprop_mode():
                mu = params_of(ag.model(obs[None])[0])
        step = dict(state=obs, action=np.array(a), mu=mu)
        obs, reward, fresh = new(), rew, False
        if end >= 4:
            ag.stop_episode_and_train(obs, reward, done=end == 4)
            want.append(dict(step, reward=reward, next_state=obs,
                             end=1 + (end == 4)))
            ends += 1
            obs, reward, fresh, step = new(), 0.0, True, None
    got, over = [], True
    for kind, d in log:
        if kind == 'add':
            got.append(d)
            over = False
        elif got and not over:
            got[-1]['cut'] = over = True
    check(len(got) == len(want), '{}: {} transitions recorded, {} steps '
          'finished', z.kind, len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        for k in ('state', 'action', 'reward', 'next_state'):
            check(same(np.asarray(g[k]), np.asarray(w[k])),
                  '{}: transition {}: {} {} is recorded as {}', z.kind, i, k,
                  w[k], g[k])
        check(bool(g['is_state_terminal']) == (w['end'] == 2),
              '{}: transition {}: terminal recorded as {}', z.kind, i,
              g['is_state_terminal'])
        check(bool(g.get('cut') or g['is_state_terminal']) == bool(w['end']),
              '{}: transition {}: end of episode {} recorded as {}', z.kind,
              i, w['end'], g.get('cut'))
        if not w['end']:
            check(same(np.asarray(g['next_action']), w['next_action']),
                  '{}: transition {}: next action', z.kind, i)
        if w['mu'] is not None:
            m = params_of(g['mu'])
            check(len(m) == len(w['mu']) and all(
                x.shape == y.shape and np.allclose(x, y, atol=1e-5, rtol=1e-4)
                for x, y in zip(m, w['mu'])),
                '{}: transition {}: the policy acted by is recorded as {}, '
                'it was {}', z.kind, i, m, w['mu'])
    stored = len(ag.replay_buffer)
    full = len(want) if not want or want[-1]['end'] else max(
        [i + 1 for i, w in enumerate(want) if w['end']] or [0])
    check(stored == full, '{}: {} transitions of finished episodes stored, '
          'not {}', z.kind, stored, full)
    note.nontrivial(ends >= 2 and len(want) >= 5)


for _k in ('ACER', 'ACERc', 'PCL'):
    suite.add('actor_critic_' + _k, zoo.case_strategy([_k], 5, 30),
              actor_critic, quick=60)
