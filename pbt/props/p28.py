"""P28: environment wrappers."""
import glob
import json
import os

import gym
import gym.spaces
import numpy as np
from hypothesis import strategies as st

from chainerrl import wrappers
from chainerrl.misc import env_modifiers
from chainerrl.wrappers.monitor import Monitor

from pbt.core import Suite, check, close, eq, must_raise, scratch_dir
from pbt.gen import SEED, binom_ok, floats, rng, sized

suite = Suite(
    'P28',
    'the wrapper changed at least one thing and passed another one through '
    '(a step beyond a reset, an action off the middle, ...)',
    ['Base environments are scripted gym environments; frequencies of '
     'random actions are tested at a false-alarm rate below 1e-9'])

# one step: [reward, ends, asks for a reset, extra info key]
STEP = st.tuples(floats(-100, 100), st.integers(0, 5).map(lambda x: x == 5),
                 st.booleans(), st.booleans()).map(list)
SCRIPT = sized(STEP, 1, 12)
# histories: 0 reset, 1 step, 2 render, 3 seed
HIST = sized(st.integers(0, 9), 1, 40)


class Base(gym.Env):
    """Plays a script; records all it is asked for."""

    metadata = {'render.modes': ['human', 'rgb_array']}
    reward_range = (-7.0, 7.0)

    def __init__(self, script, obs='f8', n=None, box=None):
        self.script = script
        self.kind = obs
        self.log = []
        self.k = -1
        self.extra = object()
        self.action_space = (gym.spaces.Discrete(n) if n else
                             gym.spaces.Box(*box, dtype=np.float32) if box
                             else gym.spaces.Discrete(3))
        self.observation_space = gym.spaces.Box(
            low=-1e9, high=1e9, shape=(3,), dtype=np.float64)

    def obs(self):
        x = self.k * 7.25 + 300
        o = np.asarray([x, -x / 3, x * 1e-3])
        if self.kind in ('u1', 'i8'):
            o = np.abs(o) % 250
        return o.astype(self.kind)

    def reset(self, **kwargs):
        self.k += 1
        self.log.append(('reset', kwargs) if kwargs else ('reset',))
        self.last = self.obs()
        return self.last

    def step(self, action):
        r, end, ask, extra = self.script[self.k % len(self.script)]
        self.k += 1
        self.log.append(('step', action))
        self.last = self.obs()
        info = {}
        if ask:
            info['needs_reset'] = True
        if extra:
            info['extra'] = self.extra
        return self.last, r, end, info

    def render(self, mode='human', **kwargs):
        self.log.append(('render', mode, kwargs) if kwargs
                        else ('render', mode))
        return 'picture {}'.format(self.k)

    def seed(self, seed=None):
        self.log.append(('seed', seed))
        return [seed]

    def close(self):
        self.log.append(('close',))


def drive(env, hist, actions, seeds=True, limit_resets=False):
    """What the outside sees when driven by a history."""
    seen = [('reset', env.reset())]
    for i, h in enumerate(hist):
        if h == 0:
            seen.append(('reset', env.reset()))
        elif h == 1:
            seen.append(('render', env.render(mode='rgb_array')))
        elif h == 2 and seeds:
            seen.append(('seed', env.seed(i)))
        else:
            seen.append(('step',) + tuple(env.step(actions[i % len(actions)])))
    return seen


def transparent(env, base, note=None):
    """What a wrapper shows of the wrapped environment."""
    check(env.unwrapped is base, 'unwrapped')
    check(env.observation_space is base.observation_space,
          'observation space')
    eq(env.reward_range, base.reward_range, 'reward range')
    eq(env.metadata, base.metadata, 'metadata')


def compare(seen, want, what, key, fun):
    """Records agree except for one field, which is a function of the other.

    key: position in a step's record (1 observation, 2 reward, 3 done,
    4 info).
    """
    eq(len(seen), len(want), 'number of calls')
    n = 0
    for s, w in zip(seen, want):
        eq(s[0], w[0], 'call')
        if s[0] == 'seed':
            continue
        for j in range(1, len(w)):
            if j == key and (s[0] == 'step' or s[0] == 'reset' and key == 1):
                n += 1
                fun(s[j], w[j])
            else:
                eq(s[j], w[j], '{} of {}'.format(
                    ('', 'observation', 'reward', 'done', 'info')[j], s[0]))
                if isinstance(w[j], np.ndarray):
                    eq(s[j].dtype, w[j].dtype, 'observation dtype')
                if s[0] == 'step' and j == 2:
                    check(type(s[j]) is type(w[j]), 'type of reward {!r}',
                          s[j])
    return n


BASE = {'script': SCRIPT, 'hist': HIST,
        'obs': st.sampled_from(['f8', 'f4', 'u1', 'i8'])}


@suite.facet(st.fixed_dictionaries(dict(
    BASE, dtype=st.sampled_from(['f4', 'f8', 'f2', 'i4', 'u1', 'plain']))),
    quick=1200)
def cast_observation(case, note):
    plain = case['dtype'] == 'plain'
    dt = np.dtype('f4' if plain else case['dtype'])
    base = Base(case['script'], case['obs'])
    twin = Base(case['script'], case['obs'])
    env = wrappers.CastObservationToFloat32(base) if plain else \
        wrappers.CastObservation(base, dt.type)
    eq(env.action_space, base.action_space, 'action space')
    transparent(env, base)
    twin.extra = base.extra

    def fun(s, w):
        check(isinstance(s, np.ndarray) and s.dtype == dt, 'dtype {}', s)
        eq(s, w.astype(dt), 'cast')

    acts = [0, 1, 2]
    obs = env.reset()
    want = twin.reset()
    fun(obs, want)
    eq(env.original_observation, want, 'original observation')
    for i, h in enumerate(case['hist']):
        if h == 0:
            obs, want = env.reset(), twin.reset()
        else:
            s, w = env.step(acts[i % 3]), twin.step(acts[i % 3])
            obs, want = s[0], w[0]
            eq(s[1:], w[1:], 'reward, done, info')
        fun(obs, want)
        eq(env.original_observation, want, 'original observation')
        eq(env.original_observation.dtype, want.dtype, 'original dtype')
    eq(base.log, twin.log, 'calls')
    note.nontrivial(np.dtype(case['obs']) != dt and len(case['hist']) > 1)


@suite.facet(st.fixed_dictionaries(dict(
    BASE, scale=st.one_of(floats(-10, 10), st.integers(-3, 3)))), quick=1000)
def scale_reward(case, note):
    base = Base(case['script'], case['obs'])
    twin = Base(case['script'], case['obs'])
    env = wrappers.ScaleReward(base, case['scale'])
    eq(env.action_space, base.action_space, 'action space')
    transparent(env, base)
    twin.extra = base.extra
    check(env.original_reward is None, 'original reward before any step')
    eq(env.scale, case['scale'], 'scale')

    def fun(s, w):
        eq(s, case['scale'] * w, 'scaled reward')

    seen = drive(env, case['hist'], [0, 1, 2])
    want = drive(twin, case['hist'], [0, 1, 2])
    n = compare(seen, want, 'scaled', 2, fun)
    eq(base.log, twin.log, 'calls')
    steps = [w[2] for w in want if w[0] == 'step']
    eq(env.original_reward, steps[-1] if steps else None, 'original reward')
    note.nontrivial(n > 1 and case['scale'] not in (0, 1))


@suite.facet(st.fixed_dictionaries(dict(
    BASE, limit=st.integers(1, 12), nested=st.booleans(),
    limit2=st.integers(1, 12))), quick=2500)
def continuing_time_limit(case, note):
    base = Base(case['script'], case['obs'])
    twin = Base(case['script'], case['obs'])
    env = wrappers.ContinuingTimeLimit(base, case['limit'])
    limit = case['limit']
    if case['nested']:
        env = wrappers.ContinuingTimeLimit(env, case['limit2'])
        limit = min(limit, case['limit2'])
    eq(env.action_space, base.action_space, 'action space')
    transparent(env, base)
    twin.extra = base.extra
    with must_raise(AssertionError):
        env.step(0)
    eq(base.log, [], 'a step before the first reset reached the environment')
    t = 0
    at_limit = early = False
    eq(env.reset(), twin.reset(), 'observation')
    for i, h in enumerate(case['hist']):
        if h == 0:
            eq(env.reset(), twin.reset(), 'observation')
            early |= 0 < t < limit
            t = 0
            continue
        s, w = env.step(i % 3), twin.step(i % 3)
        t += 1
        eq(s[:3], w[:3], 'observation, reward, done')
        check(s[2] is w[2], 'done {!r}', s[2])
        info = dict(w[3])
        if t >= limit:
            info['needs_reset'] = True
            at_limit |= not w[3].get('needs_reset', False)
        got = dict(s[3])
        if not got.get('needs_reset', False):
            # a key that says no is as good as no key
            got.pop('needs_reset', None)
        eq(got, info, 'info')
    eq(base.log, twin.log, 'calls')
    note.nontrivial(at_limit and early)


BOX = st.lists(st.tuples(floats(-50, 50), floats(0.0009765625, 50)),
               min_size=1, max_size=4)


@suite.facet(st.fixed_dictionaries(dict(
    BASE, box=BOX, seed=SEED, kind=st.sampled_from(['f4', 'f8']))),
    quick=1500)
def normalize_action_space(case, note):
    low = np.asarray([a for a, _ in case['box']], np.float32)
    high = np.asarray([a + b for a, b in case['box']], np.float32)
    base = Base(case['script'], case['obs'], box=(low, high))
    twin = Base(case['script'], case['obs'], box=(low, high))
    env = wrappers.NormalizeActionSpace(base)
    transparent(env, base)
    twin.extra = base.extra
    n = len(low)
    check(isinstance(env.action_space, gym.spaces.Box), 'box')
    eq(env.action_space.low, -np.ones(n), 'low')
    eq(env.action_space.high, np.ones(n), 'high')
    eq(base.action_space.low, low, 'the original space')
    eq(base.action_space.high, high, 'the original space')
    rs = rng(case['seed'])
    acts = [-np.ones(n), np.ones(n), np.zeros(n)] + [
        rs.uniform(-1, 1, size=n) for _ in range(5)]
    acts = [a.astype(case['kind']) for a in acts]
    copies = [a.copy() for a in acts]
    seen = drive(env, case['hist'], acts)
    want = drive(twin, case['hist'], acts)
    compare(seen, want, '', None, None)
    eq(acts, copies, 'the action was changed')
    eq(len(base.log), len(twin.log), 'number of calls')
    steps = 0
    tol = 1e-4 * (1 + np.abs(low) + np.abs(high))
    for b, t in zip(base.log, twin.log):
        if b[0] != 'step':
            eq(b, t, 'call')
            continue
        steps += 1
        a = t[1].astype(np.float64)
        exact = low + (a + 1) / 2 * (high.astype('f8') - low)
        check(b[1].shape == (n,), 'shape')
        check((np.abs(b[1] - exact) <= tol).all(), 'action {} maps to {}, '
              'not {}', a, b[1], exact)
    # sampled actions are admissible
    env.action_space.seed(case['seed'])
    for _ in range(3):
        a = env.action_space.sample()
        env.step(a)
        got = base.log[-1][1]
        check((got >= low - tol).all() and (got <= high + tol).all(),
              'outside of the bounds: {}', got)
    note.nontrivial(steps > 2)
    with must_raise(AssertionError):
        wrappers.NormalizeActionSpace(Base(case['script']))


@suite.facet(st.fixed_dictionaries(dict(
    BASE, n=st.integers(1, 6), fraction=st.one_of(
        st.sampled_from([0, 0.0, 1, 1.0]), floats(0, 1)), seed=SEED)),
    quick=1200)
def randomize_action(case, note):
    n = case['n']
    base = Base(case['script'], case['obs'], n=n)
    twin = Base(case['script'], case['obs'], n=n)
    env = wrappers.RandomizeAction(base, case['fraction'])
    eq(env.action_space, base.action_space, 'action space')
    transparent(env, base)
    env.seed(case['seed'])
    eq(base.log.pop(), ('seed', case['seed']), 'seed passed on')
    acts = [i % n for i in range(7)]
    seen = drive(env, case['hist'], acts, seeds=False)
    twin.extra = base.extra
    want = drive(twin, case['hist'], acts, seeds=False)
    compare(seen, want, '', None, None)
    eq(len(base.log), len(twin.log), 'number of calls')
    changed = 0
    for b, t in zip(base.log, twin.log):
        eq(b[0], t[0], 'call')
        if b[0] == 'step':
            check(base.action_space.contains(b[1]), 'action {!r}', b[1])
            changed += b[1] != t[1]
    if case['fraction'] == 0:
        eq(changed, 0, 'actions changed at a fraction of 0')
    # the same seed gives the same replacements, on any instance
    again = Base(case['script'], case['obs'], n=n)
    env2 = wrappers.RandomizeAction(again, case['fraction'])
    env2.seed(case['seed'])
    again.log.pop()
    drive(env2, case['hist'], acts, seeds=False)
    eq([int(x[1]) for x in again.log if x[0] == 'step'],
       [int(x[1]) for x in base.log if x[0] == 'step'],
       'same seed')
    note.nontrivial(changed > 0)
    with must_raise(AssertionError):
        wrappers.RandomizeAction(base, -0.1)
    with must_raise(AssertionError):
        wrappers.RandomizeAction(base, 1.1)
    with must_raise(AssertionError):
        wrappers.RandomizeAction(Base(case['script'], box=(
            np.zeros(1, 'f4'), np.ones(1, 'f4'))), 0.5)


@suite.facet(st.fixed_dictionaries({
    'n': st.integers(2, 6), 'fraction': floats(0, 1), 'seed': SEED,
    'act': st.integers(0, 5)}), quick=120)
def randomize_frequencies(case, note):
    n, p = case['n'], case['fraction']
    base = Base([[0.0, False, False, False]], n=n)
    env = wrappers.RandomizeAction(base, p)
    env.seed(case['seed'])
    env.reset()
    act = case['act'] % n
    N = 3000
    for _ in range(N):
        env.step(act)
    counts = np.bincount([int(x[1]) for x in base.log if x[0] == 'step'],
                         minlength=n)
    check(len(counts) == n, 'actions {}', counts)
    for a in range(n):
        q = p / n + (1 - p if a == act else 0)
        check(binom_ok(int(counts[a]), N, q),
              'action {} sent {} times of {}, expected rate {}', a,
              counts[a], N, q)
    note.nontrivial(0 < p < 1)


@suite.facet(st.fixed_dictionaries(dict(
    BASE, kwargs=st.booleans(), reset_kwargs=st.booleans())), quick=600)
def render(case, note):
    base = Base(case['script'], case['obs'])
    twin = Base(case['script'], case['obs'])
    twin.extra = base.extra
    kw = {'mode': 'rgb_array', 'width': 3} if case['kwargs'] else {}
    env = wrappers.Render(base, **kw)
    eq(env.action_space, base.action_space, 'action space')
    transparent(env, base)
    rkw = {'state': 4} if case['reset_kwargs'] else {}
    shown = ('render', 'rgb_array', {'width': 3}) if kw else (
        'render', 'human')
    log = []
    hist = [0] + case['hist']
    for i, h in enumerate(hist):
        if h == 0:
            eq(env.reset(**rkw), twin.reset(**rkw), 'observation')
        else:
            eq(env.step(i), twin.step(i), 'step')
        log.append(twin.log[-1])
        log.append(shown)
    eq(base.log, log, 'calls')
    note.nontrivial(len(hist) > 2)


# ------------------------------------------------------- in-place modifiers

MODS = ['limit', 'action', 'reward', 'clip', 'repeat', 'render']


@suite.facet(st.fixed_dictionaries(dict(
    BASE, mods=sized(st.tuples(st.sampled_from(MODS), st.integers(1, 6)
                               ).map(list), 1, 3))), quick=2500, shards=2)
def env_modifiers_compose(case, note):
    """In-place modifiers, in any order, against a pure reference."""
    base = Base(case['script'], case['obs'])
    twin = Base(case['script'], case['obs'])
    twin.extra = base.extra
    step, reset = twin.step, twin.reset
    for kind, k in case['mods']:
        if kind == 'limit':
            env_modifiers.make_timestep_limited(base, k)
            step, reset = ref_limit(step, reset, k)
        elif kind == 'action':
            env_modifiers.make_action_filtered(base, lambda a, k=k: a * k + 1)
            step = ref_action(step, k)
        elif kind == 'reward':
            env_modifiers.make_reward_filtered(base, lambda r, k=k: r * k - 1)
            step = ref_reward(step, lambda r, k=k: r * k - 1)
        elif kind == 'clip':
            env_modifiers.make_reward_clipped(base, -k, k * 2)
            step = ref_reward(step, lambda r, k=k: min(max(r, -k), k * 2))
        elif kind == 'repeat':
            env_modifiers.make_action_repeated(base, k)
            step = ref_repeat(step, k)
        else:
            env_modifiers.make_rendered(base, width=k)
            step = ref_render(step, twin, k)
    changed = 0
    eq(base.reset(), reset(), 'observation')
    over = False
    for i, h in enumerate(case['hist']):
        if h == 0 or over:
            eq(base.reset(), reset(), 'observation')
            over = False
            continue
        s, w = base.step(i), step(i)
        eq(s[0], w[0], 'observation')
        close(s[1], w[1], 'reward', rtol=1e-9, atol=1e-9)
        eq(bool(s[2]), bool(w[2]), 'done')
        eq(s[3], w[3], 'info')
        over = w[2] and h < 7
        changed += 1
    eq(base.log, twin.log, 'calls')
    note.nontrivial(changed > 3 and len(case['mods']) > 1)


def ref_limit(step0, reset0, k):
    state = {'t': 0}

    def step(a):
        o, r, d, i = step0(a)
        state['t'] += 1
        return o, r, d or state['t'] >= k, i

    def reset():
        state['t'] = 0
        return reset0()

    return step, reset


def ref_action(step0, k):
    return lambda a: step0(a * k + 1)


def ref_reward(step0, f):
    def step(a):
        o, r, d, i = step0(a)
        return o, f(r), d, i
    return step


def ref_repeat(step0, k):
    def step(a):
        total = 0
        for _ in range(k):
            o, r, d, i = step0(a)
            total += r
            if d:
                break
        return o, total, d, i
    return step


def ref_render(step0, twin, k):
    def step(a):
        out = step0(a)
        twin.render(width=k)
        return out
    return step


# ------------------------------------------------------------------ monitor

@suite.facet(st.fixed_dictionaries(dict(
    BASE, limit=st.one_of(st.none(), st.integers(1, 8)),
    scale=floats(0.5, 2))), quick=150, shards=3)
def monitor(case, note):
    """Monitored continuing episodes: same stream, right statistics."""
    import gym.logger
    gym.logger.set_level(gym.logger.DISABLED)
    base = Base(case['script'], case['obs'])
    twin = Base(case['script'], case['obs'])
    twin.extra = base.extra
    base.spec = twin.spec = None
    env = base
    if case['limit'] is not None:
        env = wrappers.ContinuingTimeLimit(env, case['limit'])
    lens, rews = [], []
    cur = None
    early = False
    with scratch_dir() as d:
        env = Monitor(env, d, video_callable=False, force=True)
        eq(env.reset(), twin.reset(), 'observation')
        cur = [0, 0.0, False]
        for i, h in enumerate(case['hist']):
            if h == 0 or cur[2]:
                if cur[0] > 0 and not cur[2]:
                    # a continuing episode that was cut
                    early = True
                    lens.append(cur[0])
                    rews.append(cur[1])
                eq(env.reset(), twin.reset(), 'observation')
                cur = [0, 0.0, False]
                continue
            s, w = env.step(i % 3), twin.step(i % 3)
            eq(s[:3], w[:3], 'observation, reward, done')
            cur[0] += 1
            cur[1] += w[1]
            limit = case['limit'] is not None and cur[0] >= case['limit']
            check(bool(s[3].get('needs_reset', False)) == bool(
                limit or w[3].get('needs_reset', False)), 'needs_reset')
            if w[2]:
                cur[2] = True
                lens.append(cur[0])
                rews.append(cur[1])
        n_done = len(lens)
        got_l = list(env.get_episode_lengths())
        got_r = list(env.get_episode_rewards())
        env.close()
        eq(got_l, lens, 'episode lengths')
        close(got_r, rews, 'episode returns', rtol=1e-5, atol=1e-4)
        # what is left on the disk includes the episode under way
        if cur[0] > 0 and not cur[2]:
            lens.append(cur[0])
            rews.append(cur[1])
        stats = glob.glob(os.path.join(d, '*.stats.json'))
        check(len(stats) == 1, 'statistics in {}', stats)
        with open(stats[0]) as f:
            stats = json.load(f)
        eq(stats['episode_lengths'], lens, 'episode lengths on the disk')
        close(stats['episode_rewards'], rews, 'episode returns on the disk',
              rtol=1e-5, atol=1e-4)
        eq(len(stats['timestamps']), len(lens), 'number of time stamps')
    eq([x for x in base.log if x[0] in ('reset', 'step')], twin.log, 'calls')
    eq(sum(x[0] == 'close' for x in base.log), 1, 'closed once')
    note.nontrivial(early and n_done > 1)


# ------------------------------------------------------------------ nesting

LAYERS = ['cast', 'scale', 'limit', 'normalize', 'render']


@suite.facet(st.fixed_dictionaries(dict(
    BASE, layers=st.lists(st.tuples(st.sampled_from(LAYERS),
                                    st.integers(1, 6)).map(list),
                          min_size=2, max_size=5), seed=SEED)),
    quick=1200, shards=2)
def nesting(case, note):
    """Any stack of wrappers does what its layers do, each on its own part."""
    low, high = np.asarray([-2.0, 1.0]), np.asarray([6.0, 2.0])
    box = (low.astype('f4'), high.astype('f4'))
    base = Base(case['script'], case['obs'], box=box)
    twin = Base(case['script'], case['obs'], box=box)
    twin.extra = base.extra
    env = base
    dtype, scale, limit, norm, renders = np.dtype(case['obs']), 1.0, None, 0, 0
    for kind, k in case['layers']:
        if kind == 'cast':
            env = wrappers.CastObservationToFloat32(env)
            dtype = np.dtype('f4')
        elif kind == 'scale':
            env = wrappers.ScaleReward(env, k / 2.0)
            scale *= k / 2.0
        elif kind == 'limit':
            env = wrappers.ContinuingTimeLimit(env, k)
            limit = k if limit is None else min(limit, k)
        elif kind == 'normalize':
            env = wrappers.NormalizeActionSpace(env)
            norm += 1
        else:
            env = wrappers.Render(env)
            renders += 1
    check(env.unwrapped is base, 'unwrapped')
    rs = rng(case['seed'])
    o, w = env.reset(), twin.reset()
    eq(o, w.astype(dtype), 'observation')
    t = 0
    for h in case['hist']:
        if h == 0:
            o, w = env.reset(), twin.reset()
            eq(o, w.astype(dtype), 'observation')
            eq(o.dtype, dtype, 'dtype')
            t = 0
            continue
        a = rs.uniform(-1, 1, size=2).astype('f4')
        s, w = env.step(a.copy()), twin.step(a)
        t += 1
        eq(s[0], w[0].astype(dtype), 'observation')
        eq(s[0].dtype, dtype, 'dtype')
        close(s[1], w[1] * scale, 'reward', rtol=1e-6, atol=1e-6)
        eq(s[2], w[2], 'done')
        eq(bool(s[3].get('needs_reset', False)), bool(
            w[3].get('needs_reset', False) or
            limit is not None and t >= limit), 'needs_reset')
        check(s[3].get('extra') is w[3].get('extra'), 'info')
        sent = [x for x in base.log if x[0] == 'step'][-1][1]
        exact = low + (a + 1) / 2 * (high - low) if norm else a
        close(sent, exact, 'action', rtol=1e-4, atol=1e-4)
    eq(sum(x[0] == 'render' for x in base.log),
       renders * sum(x[0] != 'render' for x in base.log), 'renders')
    note.nontrivial(len({k for k, _ in case['layers']}) > 1 and
                    len(case['hist']) > 3)
