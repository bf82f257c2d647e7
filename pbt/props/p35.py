"""P35: reproducibility."""
import hashlib
import json
import logging
import os
import random
import subprocess
import sys
import warnings

import numpy as np
from hypothesis import strategies as st

from chainerrl import env as env_mod
from chainerrl import envs, experiments
from chainerrl.misc import random_seed

from pbt import agents as A
from pbt import bootstrap, loops, zoo
from pbt.core import HarnessError, Suite, check, eq, scratch_dir
from pbt.gen import SEED, sized

suite = Suite(
    'P35',
    'the agent was updated and chose an action at random, or (seeds, '
    'workers) two different seeds were used',
    ['CPU, one thread', 'Statistics and parameters are compared bit for bit'])

logger = logging.getLogger('quiet')
logger.setLevel(logging.CRITICAL + 1)

ANY_SEED = st.one_of(st.integers(0, 2 ** 32 - 1), st.integers(0, 20),
                     st.sampled_from([2 ** 32 - 1, 2 ** 31]))


def pollute(n):
    """Leave the global sources somewhere else."""
    random.seed(n)
    np.random.seed(n)
    np.random.normal()              # a cached second normal
    os.environ['CHAINER_SEED'] = '77'


def history(case, seed):
    """A run from a seed: what it did and what it became."""
    random_seed.set_random_seed(seed)
    z = zoo.Zoo(case, None if case['init'] else case['seed'])
    d = zoo.Driver(z, case['seed'] + 1)
    out = []
    steps = case['steps']
    cut = len(steps) // 2
    for part in (steps[:cut], steps[cut:]):
        d.play(part)
        if case['stop']:
            d.end_all()       # evaluation is possible between episodes
        out.append(d.evaluate(np.random.RandomState(case['seed'] % 99)))
        out.append([[k, float(v)] for k, v in z.agent.get_statistics()])
    d.end_all()
    out.append([[k, float(v)] for k, v in z.agent.get_statistics()])
    out.append(d.actions)
    out.append([random.random(), np.random.rand(),
                os.environ.get('CHAINER_SEED')])
    return out, z.state(), any(z.updated().values())


def twice(case, note):
    results = []
    for junk in (1, 2):
        pollute(junk)
        results.append(history(case, case['global_seed']))
    (a, sa, updated), (b, sb, _) = results
    for k, (x, y) in enumerate(zip(a, b)):
        eq(y, x, 'second run, record {}'.format(k))
    diff = zoo.diff_states(sa, sb)
    check(diff is None, 'second run: {}', diff)
    note.nontrivial(updated)


def strategy(kinds, **kw):
    return st.tuples(zoo.case_strategy(kinds, **kw), st.fixed_dictionaries({
        'init': st.booleans(), 'stop': st.booleans(), 'global_seed': ANY_SEED})).map(
            lambda t: dict(t[0], **t[1]))


# ------------------------------------------------------ in another process

def digest(case):
    pollute(3)
    out, state, updated = history(case, case['global_seed'])
    h = hashlib.sha1(json.dumps(out).encode())
    for part in sorted(state):
        for k in sorted(state[part]):
            h.update(np.ascontiguousarray(state[part][k]).tobytes())
    return [h.hexdigest(), updated]


CHILD = """
import json, sys
sys.path.insert(0, {here!r})
from pbt import bootstrap
bootstrap.setup_paths()
import warnings
warnings.simplefilter('ignore')
from pbt.props import p35
print('DIGEST', json.dumps([p35.digest(c) for c in json.load(sys.stdin)]))
"""


@suite.facet(st.lists(strategy(zoo.KINDS, min_steps=4, max_steps=20),
                      min_size=3, max_size=9), quick=12, shards=4,
             max_shrink=60)
def other_process(cases, note):
    """Another process with other hashes and another environment."""
    mine = [digest(c) for c in cases]
    env = dict(os.environ, PYTHONHASHSEED='4321', VERIF_JUNK='x' * 40)
    env.pop('CHAINER_SEED', None)
    p = subprocess.run(
        [sys.executable, '-c', CHILD.format(here=bootstrap.HERE)], env=env,
        input=json.dumps(cases).encode(), stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, timeout=120)
    lines = [l for l in p.stdout.decode().splitlines()
             if l.startswith('DIGEST ')]
    if not lines:
        raise HarnessError(p.stderr.decode()[-2000:])
    eq(json.loads(lines[-1][7:]), mine, 'in another process')
    note.nontrivial(any(u for _, u in mine))


# ------------------------------------------------------------ whole loops

class RandomEnv(env_mod.Env):
    """Observations and rewards from its own stream."""

    def __init__(self, seed, period):
        self.r = np.random.RandomState(seed % 2 ** 32)
        self.period = period
        self.action_space = self.observation_space = self.spec = None
        self.n = 0

    def obs(self):
        return self.r.uniform(-1, 1, A.OBS).astype('f')

    def reset(self):
        self.n = 0
        return self.obs()

    def step(self, action):
        self.n += 1
        r = self.r.uniform(-1, 1) + float(np.sum(action)) / 10
        end = self.n >= self.period and self.r.rand() < 0.6
        return self.obs(), r, end, {}

    def close(self):
        pass


def files(folder):
    """Relative paths and contents, without times."""
    out = {}
    for root, _, names in os.walk(folder):
        for n in names:
            p = os.path.join(root, n)
            key = os.path.relpath(p, folder)
            if n.endswith('.npz'):
                with np.load(p, allow_pickle=True) as f:
                    out[key] = {k: f[k].copy() for k in f.files}
            elif n == 'scores.txt':
                rows = loops.read_scores(root)
                skip = rows[0].index('elapsed')
                out[key] = [r[:skip] + r[skip + 1:] for r in rows]
            else:
                with open(p, 'rb') as f:
                    out[key] = f.read()
    return out


def training(case, seed, folder):
    random_seed.set_random_seed(seed)
    z = zoo.Zoo(case, case['seed'])
    n = case['total']
    kw = dict(steps=n, eval_n_steps=None, eval_n_episodes=2,
              eval_interval=case['eval_every'], outdir=folder,
              logger=logger)
    if z.batch:
        k = z.n_envs
        mk = lambda s: envs.SerialVectorEnv(      # noqa
            [RandomEnv(s + i, case['period']) for i in range(k)])
        experiments.train_agent_batch_with_evaluation(
            agent=z.agent, env=mk(case['seed']),
            eval_env=mk(case['seed'] + 50), max_episode_len=7,
            log_interval=None, **kw)
    else:
        experiments.train_agent_with_evaluation(
            agent=z.agent, env=RandomEnv(case['seed'], case['period']),
            eval_env=RandomEnv(case['seed'] + 50, case['period']),
            train_max_episode_len=7, **kw)
    out = files(folder)
    return out, z.state(), any(z.updated().values())


@suite.facet(st.tuples(
    zoo.case_strategy(zoo.KINDS, max_steps=1), st.fixed_dictionaries({
        'global_seed': ANY_SEED, 'total': st.integers(5, 30),
        'eval_every': st.integers(3, 12), 'period': st.integers(1, 5)})).map(
            lambda t: dict(t[0], **t[1])), quick=72, shards=4)
def loops_twice(case, note):
    if case['recurrent'] and case['kind'] in zoo.STATEFUL:
        case = dict(case, recurrent=False)
    res = []
    for junk in (1, 2):
        pollute(junk)
        with scratch_dir() as folder:
            res.append(training(case, case['global_seed'], folder))
    (fa, sa, updated), (fb, sb, _) = res
    eq(fb, fa, 'files of the second run')
    diff = zoo.diff_states(sa, sb)
    check(diff is None, 'second run: {}', diff)
    note.nontrivial(updated and len(fa.get('scores.txt', [])) > 1)


# ----------------------------------------------------------------- seeding

def draws():
    return [random.random(), random.randint(0, 10 ** 9),
            np.random.rand(3).tolist(), np.random.normal(),
            np.random.randint(10 ** 9), os.environ.get('CHAINER_SEED')]


@suite.facet(st.tuples(ANY_SEED, ANY_SEED, sized(st.integers(-3, -1), 0, 3))
             .map(list), quick=1500)
def seeding(case, note):
    s, t, gpus = case
    os.environ.pop('CHAINER_SEED', None)
    random_seed.set_random_seed(s, tuple(gpus))
    a = draws()
    pollute(5)
    random_seed.set_random_seed(t)
    b = draws()
    pollute(6)
    random_seed.set_random_seed(s)
    eq(draws(), a, 'draws after seeding with {}'.format(s))
    if s != t:
        for k in (0, 2, 3, 5):
            check(a[k] != b[k], 'seeds {} and {} give {}', s, t, a)
    note.nontrivial(s != t)


class Worker(loops.Agent):
    """Acts at random and notes it."""

    process_idx = None
    shared_attributes = ()

    def bind(self, folder):
        self.folder = folder

    def act_and_train(self, obs, reward):
        with open(os.path.join(self.folder, 'acts-{}'.format(
                self.process_idx)), 'a') as f:
            f.write(json.dumps(draws()) + '\n')
        return 0

    def act(self, obs):
        return 0

    def stop_episode_and_train(self, state, reward, done=False):
        pass

    def stop_episode(self):
        pass


def worker_draws(case):
    """The streams of the workers: at make_env and then at every action."""
    n = case['workers']
    with scratch_dir() as folder:
        agent = Worker(loops.Clock(), with_t=False)
        agent.bind(folder)

        def make_env(idx, test):
            with open(os.path.join(folder, 'env-{}-{}'.format(
                    idx, test)), 'w') as f:
                f.write(json.dumps(draws()))
            return RandomEnv(idx, 3)

        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            experiments.train_agent_async(
                folder, n, make_env, steps=case['total'],
                eval_interval=None, max_episode_len=5, agent=agent,
                logger=logger)
        out = []
        for i in range(n):
            with open(os.path.join(folder, 'env-{}-False'.format(i))) as f:
                stream = [json.loads(f.read())]
            p = os.path.join(folder, 'acts-{}'.format(i))
            if os.path.exists(p):
                with open(p) as f:
                    stream += [json.loads(l) for l in f]
            out.append(stream)
    return out


@suite.facet(st.fixed_dictionaries({
    'workers': st.integers(2, 6), 'total': st.integers(1, 30),
    'junk': SEED}), quick=24, shards=4)
def workers(case, note):
    pollute(case['junk'])
    a = worker_draws(case)
    pollute(case['junk'] + 1 - 2 * (case['junk'] > 5))
    b = worker_draws(case)
    for i, (x, y) in enumerate(zip(a, b)):
        k = min(len(x), len(y))      # the schedule decides how many
        eq(y[:k], x[:k], 'draws of worker {} in another run'.format(i))
    firsts = [json.dumps(x[0][:-1]) for x in a]
    check(len(set(firsts)) == len(firsts), 'workers draw the same: {}',
          firsts)
    for j in (0, 2):
        check(len({json.dumps(x[0][j]) for x in a}) == len(a),
              'workers draw the same: {}', firsts)
    note.nontrivial(len(a) > 1)


SLOW = ['TRPO', 'PPO', 'ACER', 'ACERc', 'PCL']
for kind in SLOW + [k for k in zoo.KINDS if k not in SLOW]:
    suite.add('twice_' + kind, strategy([kind], min_steps=3), twice,
              quick=6 if kind == 'TRPO' else 14, thorough=200)
