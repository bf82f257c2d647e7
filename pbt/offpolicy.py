"""Drives replay-based agents and predicts what they should record and do.

The reference keeps a twin replay buffer that gets exactly the transitions the
history defines, the step counter, and copies of the target parameters.
"""
import numpy as np
from hypothesis import strategies as st

from chainerrl import replay_buffer as rb
from chainerrl import replay_buffers as _rbs  # noqa: F401
from chainerrl.misc.batch_states import batch_states

from pbt import agents as A
from pbt.core import check, eq
from pbt.gen import SEED, floats, sized

FIELDS = ('state', 'action', 'reward', 'next_state', 'next_action',
          'is_state_terminal', 'env_id')


def bind(a, k):
    d = dict(zip(FIELDS, a))
    d.update(k)
    d.setdefault('env_id', 0)
    d.setdefault('next_action', None)
    d.setdefault('next_state', None)
    d.setdefault('is_state_terminal', False)
    return d


def tkey(tr):
    """Identity of a transition for comparing contents."""
    return (tuple(np.asarray(tr['state']).ravel().tolist()),
            tuple(np.asarray(tr['action']).ravel().tolist()),
            float(tr['reward']),
            tuple(np.asarray(tr['next_state']).ravel().tolist()),
            bool(tr['is_state_terminal']))


def config(kinds):
    return st.fixed_dictionaries({
        'kind': st.sampled_from(kinds),
        'recurrent': st.booleans(),
        'buffer': st.sampled_from(['plain', 'plain', 'prio', 'episodic']),
        'capacity': st.sampled_from([None, 8, 15, 40]),
        'n_steps': st.sampled_from([1, 1, 2, 3]),
        'start': st.integers(1, 8),
        'batch': st.integers(1, 4),
        'update_interval': st.integers(1, 4),
        'target_interval': st.integers(1, 6),
        'method': st.sampled_from(['hard', 'soft']),
        'tau': st.sampled_from([0.1, 0.5, 1.0, 0.013]),
        'n_times': st.sampled_from([1, 1, 2, 3]),
        'delay': st.integers(1, 3),
        'burnin': st.booleans(),
        'max_len': st.sampled_from([None, 1, 2]),
        'seed': SEED,
    })


SERIAL_OPS = sized(st.tuples(
    st.sampled_from(['step'] * 7 + ['done', 'interrupt', 'both', 'eval',
                                    'eval']),
    floats(-1, 1)).map(list), 1, 40)


def batch_ops(n):
    return sized(st.tuples(
        st.sampled_from(['round'] * 6 + ['eval_batch', 'eval_serial']),
        st.lists(st.tuples(
            st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3]),
            floats(-1, 1)).map(list), min_size=n, max_size=n)).map(list),
        1, 22)


class Session(object):

    def __init__(self, case, n_envs=None, twin=True):
        c = self.c = dict(case)
        self.kind = c['kind']
        self.ac = self.kind in A.AC_KINDS
        self.rec = c['recurrent'] and self.kind in A.REC_KINDS
        self.n_envs = n_envs
        self.log = []
        batch = c['batch']
        start = max(c['start'], batch)
        if c['capacity'] is not None:
            start = min(start, c['capacity'])
        self.start, self.batch = start, batch

        def mk(logged):
            if self.rec or c['buffer'] == 'episodic':
                cls, args = rb.EpisodicReplayBuffer, (c['capacity'],)
                kw = {}
            elif c['buffer'] == 'prio' and not self.ac:
                cls, args = rb.PrioritizedReplayBuffer, (c['capacity'],)
                kw = dict(num_steps=c['n_steps'], betasteps=50)
            else:
                cls, args = rb.ReplayBuffer, (c['capacity'],)
                kw = dict(num_steps=c['n_steps'])
            if logged:
                return A.logged_buffer(cls, self.log, *args, **kw)
            return cls(*args, **kw)
        self.prio = (not self.rec and c['buffer'] == 'prio' and not self.ac)
        self.episodic_buffer = self.rec or c['buffer'] == 'episodic'
        self.buf, self.twin = mk(True), mk(False)
        kw = dict(replay_start_size=start, minibatch_size=batch,
                  update_interval=c['update_interval'], seed=c['seed'],
                  batch_states=self._batch_states)
        self.n_phi = 0
        if self.kind in ('TD3', 'SAC'):
            kw['soft_update_tau'] = c['tau']
            if self.kind == 'TD3':
                kw['policy_update_delay'] = c['delay']
        else:
            kw.update(target_update_interval=c['target_interval'],
                      target_update_method=c['method'],
                      soft_update_tau=c['tau'], n_times_update=c['n_times'])
        self.burn = (c['burnin'] and self.kind in A.BATCH_AC_KINDS)
        if self.burn:
            kw['burnin_action_func'] = self._burnin
        if self.rec:
            kw['recurrent'] = True
            kw['episodic_update_len'] = c['max_len']
        self.b = A.build(self.kind, self.buf, self.log, **kw)
        self.agent = self.b.agent
        self.t = 0
        self.model = {n: A.params(s()) for n, (s, _) in self.b.pairs.items()}
        self.target = {n: A.params(s()) for n, (s, _) in self.b.pairs.items()}
        self.updates = {n: 0 for n in self.b.opts}
        self.n_rounds = 0
        self.n_syncs = 0
        self.next_obs = 0
        self.last = {}            # env -> (obs, action) in progress
        self.n_env_steps = 0
        self.n_eval = 0
        self.n_ends = 0

    def _batch_states(self, states, xp, phi):
        return batch_states(states, xp, phi)

    def _burnin(self):
        a = np.random.uniform(-1, 1, A.ACT).astype(np.float32)
        self.log.append(('burnin', a))
        return a

    def new_obs(self, env=0):
        self.next_obs += 1
        return A.observation(self.next_obs, env)

    # ------------------------------------------------------------ predictions

    def sync(self, names=None):
        c = self.c
        method = 'soft' if self.kind in ('TD3', 'SAC') else c['method']
        for n in self.target:
            src = self.model[n]
            if method == 'hard':
                self.target[n] = {k: v.copy() for k, v in src.items()}
            else:
                self.target[n] = {
                    k: (1 - c['tau']) * self.target[n][k] + c['tau'] * src[k]
                    for k in src}
        self.n_syncs += 1

    def due(self):
        if len(self.twin) < self.start:
            return 0
        if self.rec and self.twin.n_episodes < self.batch:
            return 0
        if self.t % self.c['update_interval'] != 0:
            return 0
        return 1 if self.kind in ('TD3', 'SAC') else self.c['n_times']

    def rounds(self, events):
        """Split the events of one call into update rounds."""
        out = []
        for e in events:
            if e[0] in ('sample', 'sample_episodes'):
                out.append([e])
            elif e[0] in ('update', 'errors'):
                check(out, 'update without a sample before it: {}', e[:2])
                out[-1].append(e)
        return out

    def check_rounds(self, k, rounds, schedule):
        """Consume k expected update rounds from the list of seen ones."""
        for _ in range(k):
            check(rounds, 'an update due at t={} did not happen', self.t)
            r = rounds.pop(0)
            self.n_rounds += 1
            s = r[0]
            if self.rec:
                eq(s[0], 'sample_episodes', 'kind of sample')
                eq(s[2], self.c['max_len'], 'maximum length of episodes')
            else:
                eq(s[0], 'sample', 'kind of sample')
            eq(s[1], self.batch, 'sampled batch size')
            names = sorted(e[1] for e in r if e[0] == 'update')
            if not self.ac:
                want = ['q']
            elif self.kind in ('DDPG', 'PGT'):
                want = ['policy', 'q']
            else:
                want = ['q1', 'q2']
                n = self.updates['q1'] + 1
                if self.kind == 'SAC' or n % self.c['delay'] == 0:
                    want = ['policy', 'q1', 'q2']
            eq(names, want, 'optimizers stepped in an update')
            for e in r:
                if e[0] == 'update':
                    self.updates[e[1]] += 1
                    if e[1] in self.model:
                        self.model[e[1]] = e[2]
            if self.prio:
                errs = [e for e in r if e[0] == 'errors']
                eq([len(e[1]) for e in errs], [self.batch],
                   'errors fed back per sample')
            if self.kind == 'SAC' or (self.kind == 'TD3'
                                      and 'policy' in names):
                self.sync()

    def check_models(self, where):
        for n, (src, dst) in self.b.pairs.items():
            check(A.same_params(A.params(src()), self.model[n]),
                  '{}: {} changed outside an update', where, n)
            tgt = A.params(dst())
            exact = (self.kind not in ('TD3', 'SAC')
                     and self.c['method'] == 'hard')
            check(A.same_params(tgt, self.target[n],
                                0.0 if exact else 2e-6),
                  '{}: target of {} is off by {} (t={})', where, n,
                  A.max_diff(tgt, self.target[n]), self.t)

    def explored(self, events):
        return [e for e in events if e[0] == 'explore']

    def interval_sync(self):
        if self.kind not in ('TD3', 'SAC') and \
                self.t % self.c['target_interval'] == 0:
            self.sync()

    def burning(self):
        return self.burn and self.updates['policy'] == 0

    def expect(self, env, reward, obs, done):
        """Transition that has to be recorded now."""
        o, a = self.last[env]
        tr = dict(state=o, action=a, reward=reward, next_state=obs,
                  is_state_terminal=done, env_id=env)
        kw = dict(tr)
        if self.rec:
            kw.update(recurrent_state=None, next_recurrent_state=None)
        self.twin.append(**kw)
        return tr

    def check_appends(self, events, want, actions):
        got = [bind(e[1], e[2]) for e in events if e[0] == 'append']
        eq(len(got), len(want), 'number of transitions recorded')
        for g, w in zip(got, want):
            for f in ('state', 'action', 'reward', 'next_state', 'env_id'):
                eq(g[f], w[f], 'recorded ' + f)
            eq(bool(g['is_state_terminal']), bool(w['is_state_terminal']),
               'recorded is_state_terminal')
            if actions is not None and g['next_action'] is not None:
                eq(g['next_action'], actions, 'recorded next_action')

    def check_buffer(self):
        eq(len(self.buf), len(self.twin), 'size of the replay buffer')
        if self.episodic_buffer:
            eq(self.buf.n_episodes, self.twin.n_episodes, 'episodes')

    def check_content(self):
        self.check_buffer()
        n = len(self.buf)
        if self.episodic_buffer:
            n = self.buf.n_episodes
            if not n:
                return
            f = self.buf.sample_episodes
            g = self.twin.sample_episodes
        else:
            if not n or self.prio:
                return
            f, g = self.buf.sample, self.twin.sample
        got = sorted(tuple(tkey(x) for x in w) for w in f(n))
        want = sorted(tuple(tkey(x) for x in w) for w in g(n))
        check(got == want, 'buffer content differs: {} vs {}', got, want)

    # ------------------------------------------------------------ interactions

    def call(self, f, *args, **kw):
        del self.log[:]
        out = f(*args, **kw)
        return out, list(self.log)

    def run_serial(self, ops, record, schedule):
        reward = 0.0
        for kind, r in ops:
            if kind == 'eval':
                self.evaluate(record, schedule, 0 in self.last)
                continue
            if 0 not in self.last:
                # start of an episode
                self.step(self.new_obs(), 0.0, record, schedule)
                if kind == 'step':
                    continue
            if kind == 'step':
                self.step(self.new_obs(), r, record, schedule)
                continue
            obs = self.new_obs()
            done = kind in ('done', 'both')
            _, ev = self.call(self.agent.stop_episode_and_train, obs, r,
                              done=done)
            self.n_env_steps += 1
            self.n_ends += 1
            tr = self.expect(0, r, obs, done)
            self.twin.stop_current_episode()
            if record:
                self.check_appends(ev, [tr], None)
                self.check_buffer()
            if schedule:
                eq(self.rounds(ev), [], 'updates at the end of an episode')
                self.check_models('stop_episode_and_train')
            del self.last[0]

    def step(self, obs, r, record, schedule):
        burning = self.burning()
        a, ev = self.call(self.agent.act_and_train, obs, r)
        want = []
        t0 = self.t
        if 0 in self.last:
            self.n_env_steps += 1
            want = [self.expect(0, r, obs, False)]
        rounds = self.rounds(ev)
        if self.ac:
            self.t += 1
            self.interval_sync()
            k = self.due()
        else:
            self.interval_sync()
            k = self.due()
            self.t += 1
        if schedule:
            self.check_rounds(k, rounds, schedule)
            eq([x[0] for x in rounds], [], 'updates not due at t={}'.format(
                self.t))
            self.check_models('act_and_train')
            ex = self.explored(ev)
            burned = [e for e in ev if e[0] == 'burnin']
            if burning:
                eq(len(burned), 1, 'burn-in action before the first update')
                eq(a, burned[0][1], 'burn-in action returned')
                eq(ex, [], 'exploration during burn-in')
            else:
                eq(burned, [], 'burn-in action after the first update')
                if self.kind != 'SAC':
                    check(ex, 'explorer not asked')
                    eq(ex[-1][1], t0, 'time step given to the explorer')
                    eq(a, ex[-1][2], 'action returned')
                    if self.kind != 'SARSA':
                        eq(len(ex), 1, 'explorer calls')
        if record:
            self.check_appends(ev, want, a)
            self.check_buffer()
        self.last[0] = (obs, a)

    def evaluate(self, record, schedule, running):
        self.n_eval += 1
        for _ in range(2):
            _, ev = self.call(self.agent.act, self.new_obs())
            self.nothing(ev, 'act')
        if not running:
            _, ev = self.call(self.agent.stop_episode)
            eq([e[0] for e in ev if e[0] not in ('stop',)], [],
               'events in stop_episode')
        if record:
            self.check_buffer()
        if schedule:
            self.check_models('evaluation')

    def nothing(self, ev, where):
        eq([e[0] for e in ev if e[0] in ('append', 'sample', 'update',
                                         'sample_episodes', 'errors',
                                         'burnin', 'explore')],
           [], 'effects of ' + where)

    def run_batch(self, ops, record, schedule):
        n = self.n_envs
        obs = [self.new_obs(i) for i in range(n)]
        for kind, args in ops:
            if kind == 'eval_batch':
                self.n_eval += 1
                o = [self.new_obs(i) for i in range(n)]
                _, ev = self.call(self.agent.batch_act, o)
                self.nothing(ev, 'batch_act')
                flags = [bool(a[0]) for a in args]
                _, ev = self.call(self.agent.batch_observe, o, [0.0] * n,
                                  flags, flags)
                self.nothing(ev, 'batch_observe')
                if schedule:
                    self.check_models('evaluation')
            elif kind == 'eval_serial':
                self.n_eval += 1
                _, ev = self.call(self.agent.act, self.new_obs())
                self.nothing(ev, 'act')
                _, ev = self.call(self.agent.stop_episode)
                self.nothing(ev, 'stop_episode')
                if schedule:
                    self.check_models('evaluation')
            else:
                obs = self.round(obs, args, record, schedule)
            if record:
                self.check_buffer()

    def round(self, obs, args, record, schedule):
        n = self.n_envs
        burning = self.burning()
        acts, ev = self.call(self.agent.batch_act_and_train, obs)
        eq(len(acts), n, 'number of actions')
        acts = [np.array(a, copy=True) for a in acts]
        if record or schedule:
            eq([e[0] for e in ev if e[0] in (
                'append', 'sample', 'update', 'sample_episodes')], [],
               'effects of batch_act_and_train')
        if schedule:
            burned = [e for e in ev if e[0] == 'burnin']
            eq(len(burned), n if burning else 0, 'burn-in actions')
            if not burning and self.kind != 'SAC':
                ex = self.explored(ev)
                eq([e[1] for e in ex], [self.t] * n,
                   'time steps given to the explorer')
                for a, e in zip(acts, ex):
                    eq(a, np.asarray(e[2]), 'action returned')
        nxt = [self.new_obs(i) for i in range(n)]
        rewards = [a[1] for a in args]
        done = [bool(a[0] & 1) for a in args]
        reset = [bool(a[0] & 2) for a in args]
        _, ev = self.call(self.agent.batch_observe_and_train,
                          nxt, rewards, done, reset)
        rounds = self.rounds(ev)
        want = []
        for i in range(n):
            self.t += 1
            self.n_env_steps += 1
            self.interval_sync()
            self.last[i] = (obs[i], acts[i])
            want.append(self.expect(i, rewards[i], nxt[i], done[i]))
            if done[i] or reset[i]:
                self.n_ends += 1
                self.twin.stop_current_episode(env_id=i)
            if schedule:
                self.check_rounds(self.due(), rounds, schedule)
        if schedule:
            eq([x[0] for x in rounds], [], 'updates not due at t={}'.format(
                self.t))
            self.check_models('batch_observe_and_train')
        if record:
            self.check_appends(ev, want, None)
        return [self.new_obs(i) if done[i] or reset[i] else nxt[i]
                for i in range(n)]
