"""P30: vector environments."""
import multiprocessing as mp
import os
import signal
import time

import gym
import gym.spaces
import numpy as np
from hypothesis import strategies as st

import chainerrl
from chainerrl.envs import MultiprocessVectorEnv, SerialVectorEnv

from pbt.core import Suite, check, eq, must_raise
from pbt.gen import SEED, floats, sized

suite = Suite(
    'P30',
    'two environments or more, with a masked reset that touches some of '
    'them and leaves others alone',
    ['Environments are scripted; in worker processes they also answer after '
     'delays of up to some milliseconds, so that they finish in any order'])

# one step: [reward, ends, delay, kind of info]
STEP = st.tuples(floats(-100, 100), st.integers(0, 4).map(lambda x: x == 4),
                 st.integers(0, 3), st.integers(0, 2)).map(list)
SCRIPT = sized(STEP, 1, 8)
# [kind, bits]: 0 full reset, 1-3 masked (list, array, tuple), 4 seed, steps
OP = st.tuples(st.integers(0, 11), st.integers(0, 31)).map(list)


class Env(object):
    """Everything it ever was asked for can be read off its answers."""

    def __init__(self, script, i, obs='array', delay=0.0, closed=None,
                 spec=None):
        self.script = script
        self.i = i
        self.kind = obs
        self.delay = delay
        self.closed = closed
        self.k = 0
        self.history = []
        self.action_space = gym.spaces.Discrete(i + 2)
        self.observation_space = gym.spaces.Box(
            low=-i - 1, high=i + 1, shape=(2,), dtype=np.float32)
        self.spec = spec

    def obs(self):
        h = [len(self.history), sum(x[0] == 'reset' for x in self.history)]
        if self.kind == 'array':
            return np.asarray([self.i] + h, np.float32)
        if self.kind == 'tuple':
            return (self.i, np.asarray(h))
        return {'env': self.i, 'h': h}

    def reset(self):
        self.history.append(('reset',))
        self.wait(self.k % 3)
        return self.obs()

    def step(self, action):
        self.history.append(('step', action))
        r, end, delay, kind = self.script[self.k % len(self.script)]
        self.k += 1
        self.wait(delay)
        info = ({}, {'needs_reset': True}, {'history': list(self.history)}
                )[kind]
        return self.obs(), r, end, info

    def wait(self, n):
        if self.delay:
            time.sleep(n * self.delay)

    def seed(self, seed=None):
        self.history.append(('seed', seed))
        return [seed, self.i]

    def close(self):
        if self.closed is None:
            self.history.append(('close',))
        else:
            with self.closed.get_lock():
                self.closed[self.i] += 1


CASE = {
    'scripts': st.lists(SCRIPT, min_size=1, max_size=5),
    'ops': sized(OP, 1, 25),
    'obs': st.sampled_from(['array', 'tuple', 'dict']), 'seed': SEED,
    'spec': st.booleans()}


def drive(case, vec, alone, note, multi):
    n = len(alone)
    eq(vec.num_envs, n, 'num_envs')
    check(isinstance(vec, chainerrl.env.VectorEnv), 'type')
    check(vec.unwrapped is vec, 'unwrapped')
    eq(vec.action_space, alone[0].action_space, 'action space')
    eq(vec.observation_space, alone[0].observation_space,
       'observation space')
    eq(vec.spec, alone[0].spec, 'spec')
    last = None
    partial = False
    for j, (kind, bits) in enumerate([[0, 0]] + case['ops']):
        if kind == 0:
            got = vec.reset() if bits % 2 else vec.reset(None)
            last = [e.reset() for e in alone]
            eq(list(got), last, 'observations of a reset')
        elif kind <= 3:
            mask = [bool(bits >> i & 1) for i in range(n)]
            m = (mask, np.asarray(mask), tuple(mask))[kind - 1]
            if bits % 5 == 0:
                m = np.asarray(mask, np.float64)
            got = vec.reset(m) if bits % 2 else vec.reset(mask=m)
            last = [o if x else e.reset()
                    for x, e, o in zip(mask, alone, last)]
            partial |= any(mask) and not all(mask)
            eq(list(got), last, 'observations of a masked reset')
        elif kind == 4:
            seeds = [(case['seed'] + 7 * i) % 2 ** 31 for i in range(n)]
            got = vec.seed(seeds)
            want = [e.seed(s) for e, s in zip(alone, seeds)]
            if multi:
                eq(list(got), want, 'answers to seeding')
        else:
            acts = [(j * 3 + i, np.asarray([j, i], 'f'))[bits % 2]
                    for i in range(n)]
            if bits % 3 == 0 and bits % 2:
                acts = np.asarray(acts)
            out = vec.step(acts)
            eq(len(out), 4, 'parts of a step')
            obs, rs, ds, infos = out
            want = [e.step(a) for e, a in zip(alone, acts)]
            last = [w[0] for w in want]
            eq(list(obs), last, 'observations')
            eq(list(rs), [w[1] for w in want], 'rewards')
            eq(list(ds), [w[2] for w in want], 'dones')
            eq(list(infos), [w[3] for w in want], 'infos')
        if kind <= 3 or kind > 4:
            if case['obs'] == 'array':
                o = got if kind <= 3 else obs
                check(all(x.dtype == np.float32 for x in o), 'dtype')
    note.nontrivial(n > 1 and partial)


@suite.facet(st.fixed_dictionaries(CASE), quick=3000, shards=2)
def serial(case, note):
    spec = 'the spec' if case['spec'] else None
    n = len(case['scripts'])
    envs = [Env(s, i, case['obs'], spec=spec)
            for i, s in enumerate(case['scripts'])]
    alone = [Env(s, i, case['obs'], spec=spec)
             for i, s in enumerate(case['scripts'])]
    vec = SerialVectorEnv(envs)
    drive(case, vec, alone, note, False)
    for e, a in zip(envs, alone):
        eq(e.history, a.history, 'what environment {} was asked'.format(e.i))
    vec.close()
    eq([e.history.count(('close',)) for e in envs], [1] * n, 'closed')


@suite.facet(st.fixed_dictionaries(dict(CASE, arg=st.integers(0, 3))),
             quick=160, shards=8, max_shrink=60)
def multiprocess(case, note):
    spec = 'the spec' if case['spec'] else None
    n = len(case['scripts'])
    closed = mp.Array('i', n)

    def make(i):
        return lambda: Env(case['scripts'][i], i, case['obs'], delay=5e-4,
                           closed=closed, spec=spec)

    alone = [Env(s, i, case['obs'], spec=spec)
             for i, s in enumerate(case['scripts'])]
    vec = MultiprocessVectorEnv([make(i) for i in range(n)])
    try:
        drive(case, vec, alone, note, True)
        # interrupting from the keyboard is for the main process to handle
        if case['arg'] == 3:
            eq(list(vec.seed(5)), [e.seed(5) for e in alone],
               'answers to seeding')        # by now all workers are running
            for p in mp.active_children():
                os.kill(p.pid, signal.SIGINT)
        # seeding in its other forms, and what it does not take
        with must_raise(ValueError):
            vec.seed([1] * (n + 1))
        with must_raise(TypeError):
            vec.seed('12')
        if case['arg'] == 0:
            got, want = vec.seed(), [e.seed(None) for e in alone]
        elif case['arg'] == 1:
            got, want = vec.seed(None), [e.seed(None) for e in alone]
        else:
            s = case['seed']
            got, want = vec.seed(s), [e.seed(s) for e in alone]
        eq(list(got), want, 'answers to seeding')
        # the whole history, as the workers remember it
        for _ in range(12):
            if all(e.script[e.k % len(e.script)][3] == 2 for e in alone):
                break
            out = vec.step([0] * n)
            want = [e.step(0) for e in alone]
            eq(list(out[3]), [w[3] for w in want], 'infos')
            eq(list(out[0]), [w[0] for w in want], 'observations')
    finally:
        vec.close()
    eq(list(closed), [1] * n, 'closed')
    check(not mp.active_children(), 'workers left behind')
    for f in (lambda: vec.step([0] * n), vec.reset, vec.close,
              lambda: vec.seed(1)):
        with must_raise(AssertionError):
            f()
    del vec
    eq(list(closed), [1] * n, 'closed again')


@suite.facet(st.fixed_dictionaries({
    'n': st.integers(1, 3), 'reset': st.booleans()}), quick=24, shards=3)
def forgotten(case, note):
    """An environment that is dropped without closing ends its workers."""
    n = case['n']
    closed = mp.Array('i', n)

    def make(i):
        return lambda: Env([[0.0, False, 0, 0]], i, closed=closed)

    vec = MultiprocessVectorEnv([make(i) for i in range(n)])
    if case['reset']:
        vec.reset()
    del vec
    eq(list(closed), [1] * n, 'closed')
    check(not mp.active_children(), 'workers left behind')
    note.nontrivial(n > 1)
