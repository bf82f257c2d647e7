"""Scripted environments and recording agents for the training loops."""
import os

import numpy as np
from hypothesis import strategies as st

from chainerrl import agent as agent_mod
from chainerrl import env as env_mod

from pbt.gen import floats, sized


class Boom(Exception):
    """An injected fault."""


# One environment step: [reward, end]; 0-4 goes on, 5 done, 6 reset request,
# 7 both.
STEP = st.tuples(floats(-4, 4), st.sampled_from(
    [0, 0, 0, 0, 0, 0, 5, 5, 6, 7])).map(list)
SCRIPT = sized(STEP, 1, 12)


class Clock(object):
    """Log of calls, with a fault at one of them."""

    def __init__(self, fault=None):
        self.log = []
        self.fault = fault      # [channel, index, interrupt?]
        self.counts = {}
        self.raised = None

    def tick(self, name, *args):
        n = self.counts.get(name, 0)
        self.counts[name] = n + 1
        if self.fault and self.fault[0] == name and self.fault[1] == n:
            self.raised = KeyboardInterrupt() if self.fault[2] else Boom()
            raise self.raised
        self.log.append((name,) + args)

    def n(self, name):
        return self.counts.get(name, 0)


def unpack(step):
    rew, end = step
    return float(rew), end in (5, 7), end in (6, 7)


class Env(env_mod.Env):
    """Plays its script over and over; observations are unique.

    An observation is (id, episode, step of the episode).
    """

    def __init__(self, script, clock, name='', eid=0, integer=False):
        self.script, self.clock, self.name, self.eid = \
            script, clock, name, eid
        self.k = 0
        self.episode = -1
        self.t = 0
        self.closed = 0
        self.over = True
        self.integer = integer

    def obs(self):
        return (self.eid, self.episode, self.t)

    def reset(self):
        self.clock.tick(self.name + 'reset', self.eid)
        self.episode += 1
        self.t = 0
        self.over = False
        return self.obs()

    def step(self, action):
        self.clock.tick(self.name + 'step', self.eid, action)
        assert not self.over, 'step() without reset()'
        r, done, reset = unpack(self.script[self.k % len(self.script)])
        self.k += 1
        self.t += 1
        self.over = done
        if self.integer:
            r = int(r)
        return self.obs(), r, done, ({'needs_reset': True} if reset else {})

    def close(self):
        self.clock.tick(self.name + 'close', self.eid)
        self.closed += 1


class VectorEnv(env_mod.VectorEnv):

    def __init__(self, scripts, clock, name=''):
        self.name, self.clock = name, clock
        self.inner = Clock()
        self.envs = [Env(s, self.inner, name, i)
                     for i, s in enumerate(scripts)]
        self.last = [None] * len(scripts)
        self.closed = 0

    @property
    def num_envs(self):
        return len(self.envs)

    def step(self, actions):
        self.clock.tick(self.name + 'step', list(actions))
        out = [e.step(a) for e, a in zip(self.envs, actions)]
        obs, rews, dones, infos = zip(*out)
        self.last = list(obs)
        return list(obs), rews, dones, infos

    def reset(self, mask=None):
        m = [False] * self.num_envs if mask is None else \
            [bool(x) for x in mask]
        assert len(m) == self.num_envs
        self.clock.tick(self.name + 'reset', m)
        self.last = [o if keep else e.reset()
                     for o, keep, e in zip(self.last, m, self.envs)]
        return list(self.last)

    def seed(self, seeds):
        pass

    def close(self):
        self.clock.tick(self.name + 'close')
        self.closed += 1


class Agent(agent_mod.BatchAgent):
    """Records what it is told; actions are numbered."""

    saved_attributes = ()

    def __init__(self, clock, with_t=True):
        self.clock = clock
        self.actions = 0
        if with_t:
            self.t = 12345
        self.saves = []

    def _action(self):
        self.actions += 1
        return self.actions

    def act_and_train(self, obs, reward):
        self.clock.tick('act_and_train', obs, reward)
        return self._action()

    def act(self, obs):
        self.clock.tick('act', obs)
        return -1

    def stop_episode_and_train(self, state, reward, done=False):
        self.clock.tick('stop_and_train', state, reward, bool(done))

    def stop_episode(self):
        self.clock.tick('stop')

    def batch_act(self, batch_obs):
        self.clock.tick('batch_act', list(batch_obs))
        return [-1] * len(batch_obs)

    def batch_act_and_train(self, batch_obs):
        self.clock.tick('batch_act_and_train', list(batch_obs))
        return [self._action() for _ in batch_obs]

    def batch_observe(self, batch_obs, batch_reward, batch_done,
                      batch_reset):
        self.clock.tick('batch_observe', *plain(
            batch_obs, batch_reward, batch_done, batch_reset))

    def batch_observe_and_train(self, batch_obs, batch_reward, batch_done,
                                batch_reset):
        self.clock.tick('batch_observe_and_train', *plain(
            batch_obs, batch_reward, batch_done, batch_reset))

    def save(self, dirname):
        self.saves.append(
            (os.path.basename(dirname), os.path.dirname(dirname),
             self.actions))
        os.makedirs(dirname, exist_ok=True)
        with open(os.path.join(dirname, 'actions'), 'w') as f:
            f.write(str(self.actions))

    def load(self, dirname):
        with open(os.path.join(dirname, 'actions')) as f:
            self.actions = int(f.read())

    def get_statistics(self):
        return [('n_actions', self.actions)]


def plain(obs, rews, dones, resets):
    return (list(obs), [float(x) for x in rews], [bool(x) for x in dones],
            [bool(x) for x in resets])


# ------------------------------------------------------ reference parts

class RefEnv(object):
    """What an environment with this script does."""

    def __init__(self, script, eid=0):
        self.script, self.eid = script, eid
        self.k, self.episode, self.t = 0, -1, 0

    def reset(self):
        self.episode += 1
        self.t = 0
        return (self.eid, self.episode, 0)

    def step(self):
        r, done, reset = unpack(self.script[self.k % len(self.script)])
        self.k += 1
        self.t += 1
        return (self.eid, self.episode, self.t), r, done, reset


def ref_evaluation(env, n_steps, n_episodes, max_len):
    """[(return, length)], unfinished, steps: serial evaluation."""
    out, t = [], 0
    while True:
        obs, ret, n, end = env.reset(), 0.0, 0, False
        while not end:
            _, r, done, reset = env.step()
            ret += r
            n += 1
            t += 1
            end = done or reset or n == max_len
            if n_steps is not None and t >= n_steps:
                break
        if end:
            out.append((ret, n))
        if n_steps is None:
            if len(out) >= n_episodes:
                return out, None, t
        elif t >= n_steps:
            return out, None if end else (ret, n), t


def read_scores(outdir):
    with open(os.path.join(outdir, 'scores.txt')) as f:
        rows = [l.rstrip('\n').split('\t') for l in f]
    return rows
