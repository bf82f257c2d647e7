"""P29: Atari preprocessing and frame stacking."""
import gym
import gym.spaces
import numpy as np
from hypothesis import strategies as st

import chainerrl
from chainerrl.envs import SerialVectorEnv
from chainerrl.wrappers import ContinuingTimeLimit, VectorFrameStack
from chainerrl.wrappers import atari_wrappers as aw

from pbt.core import Suite, check, close, eq, must_raise
from pbt.gen import SEED, binom_ok, floats, rng, sized

suite = Suite(
    'P29',
    'a game ends, a life is lost or a reset is asked for inside the part of '
    'the wrapper that acts by itself (skipped frames, no-ops, fire), or two '
    'episodes or more are stacked',
    ['Games are scripted stand-ins with the interface of the gym Atari '
     'environments (lives, no-op and fire actions); no emulator is there'])

# one frame: [reward, lives lost (negative: won), ends, asks for a reset]
FRAME = st.tuples(floats(-10, 10), st.sampled_from([0, 0, 0, 0, 1, 1, -1]),
                  st.sampled_from([False] * 6 + [True]),
                  st.sampled_from([False] * 9 + [True])).map(list)
SCRIPT = sized(FRAME, 1, 25)
HIST = sized(st.integers(0, 6), 1, 40)      # 0: reset, otherwise a step


class Ale(object):

    def __init__(self, game):
        self.game = game

    def lives(self):
        return self.game.n_lives


class Game(gym.Env):
    """A scripted game: every frame of every episode is different."""

    metadata = {'render.modes': []}
    reward_range = (-np.inf, np.inf)

    def __init__(self, script, shape=(2, 3, 3), meanings=None, seed=0,
                 constant=False):
        self.script = script
        self.shape = tuple(shape)
        self.observation_space = gym.spaces.Box(
            low=0, high=255, shape=self.shape, dtype=np.uint8)
        self.meanings = meanings or ['NOOP', 'FIRE', 'UP', 'DOWN']
        self.action_space = gym.spaces.Discrete(len(self.meanings))
        self.log = []
        self.k = 0
        self.n_lives = 0
        self.episode = -1
        self.live = False
        self.last = None
        self.ale = Ale(self)
        self.pixels = np.random.RandomState(seed)
        self.np_random = np.random.RandomState(seed + 1)

    def get_action_meanings(self):
        return self.meanings

    def frame(self):
        self.last = self.pixels.randint(
            0, 256, size=self.shape).astype(np.uint8)
        return self.last.copy()

    def reset(self, **kwargs):
        self.log.append(('reset', kwargs) if kwargs else ('reset',))
        self.episode += 1
        self.t = 0
        self.n_lives = 3
        self.live = True
        return self.frame()

    def step(self, action):
        r, lost, end, ask = self.script[self.k % len(self.script)]
        self.k += 1
        self.t += 1
        self.log.append(('step', action, self.live))
        self.n_lives = max(0, self.n_lives - lost)
        if end:
            self.n_lives = 0
        info = {'k': self.k}
        if ask:
            info['needs_reset'] = True
        self.live = not (end or ask)
        return self.frame(), r, end, info

    def seed(self, seed=None):
        self.log.append(('seed', seed))
        return [seed]


def twins(case, **kw):
    return (Game(case['script'], seed=case['seed'], **kw),
            Game(case['script'], seed=case['seed'], **kw))


# ----------------------------------------------------------- frame skipping

@suite.facet(st.fixed_dictionaries({
    'script': SCRIPT, 'hist': HIST, 'skip': st.integers(1, 6),
    'seed': SEED, 'default': st.booleans(), 'shape': st.sampled_from(
        [[2, 3, 3], [4], [5, 1]])}), quick=2500, shards=2)
def skip(case, note):
    game, twin = twins(case, shape=case['shape'])
    n = 4 if case['default'] else case['skip']
    env = aw.MaxAndSkipEnv(game) if case['default'] else \
        aw.MaxAndSkipEnv(game, skip=n)
    kept = []
    live = False
    cut = False
    for i, h in enumerate(case['hist']):
        if h == 0 or not live:
            kw = {'state': i} if h == 0 and i % 2 else {}
            obs, want = env.reset(**kw), twin.reset(**kw)
            live = True
        else:
            frames, total = [], 0.0
            for j in range(n):
                o, r, done, info = twin.step(i % 4)
                frames.append(o)
                total += r
                if done or info.get('needs_reset', False):
                    live = h >= 5 and not done
                    cut |= j < n - 1
                    break
            want = np.max(frames[-2:], axis=0)
            obs, r, d, got_info = env.step(i % 4)
            close(r, total, 'sum of rewards', rtol=1e-6, atol=1e-5)
            eq(bool(d), bool(done), 'done')
            eq(got_info, info, 'info')
        eq(obs, want, 'observation')
        eq(obs.dtype, np.dtype(np.uint8), 'dtype')
        kept.append((obs, want))
        eq(game.log, twin.log, 'frames')
    # what was shown does not change later
    for obs, want in kept:
        eq(obs, want, 'an earlier observation changed')
    note.nontrivial(cut and len(kept) > 3)


# -------------------------------------------------------------------- lives

@suite.facet(st.fixed_dictionaries({
    'script': SCRIPT, 'hist': HIST, 'seed': SEED}), quick=2500, shards=2)
def lives(case, note):
    game, twin = twins(case)
    env = aw.EpisodicLifeEnv(game)
    over = True          # the game needs a restart
    lives_ = None
    ended = True
    lost_lives = restarts = 0
    fresh = False        # no step since the last reset
    for i, h in enumerate(case['hist']):
        if h == 0 and not fresh or ended:
            fresh = True
            kw = {'state': i} if h == 0 and i % 2 else {}
            if over:
                want = twin.reset(**kw)
            else:
                want, _, done, info = twin.step(0)
                if done or info.get('needs_reset', False):
                    want = twin.reset(**kw)
                    restarts += 1
            lives_ = twin.n_lives
            over = False
            ended = False
            eq(env.reset(**kw), want, 'observation')
            check(game.live, 'an episode starts in a game that is over')
        else:
            fresh = False
            want, r, done, info = twin.step(i % 4)
            got = env.step(i % 4)
            over = done or info.get('needs_reset', False)
            lost = 0 < twin.n_lives < lives_
            lives_ = twin.n_lives
            lost_lives += lost
            eq(got[0], want, 'observation')
            eq(got[1], r, 'reward')
            eq(bool(got[2]), bool(done or lost), 'done')
            eq(got[3], info, 'info')
            ended = bool(got[2]) or over and h < 5
        eq(game.log, twin.log, 'calls')
    note.nontrivial(lost_lives > 0 and restarts > 0)


# -------------------------------------------------------- start of episodes

@suite.facet(st.fixed_dictionaries({
    'script': SCRIPT, 'hist': HIST, 'seed': SEED,
    'noop_max': st.integers(1, 12), 'override': st.one_of(
        st.none(), st.integers(1, 12))}), quick=2000, shards=2)
def noops(case, note):
    game = Game(case['script'], seed=case['seed'])
    env = aw.NoopResetEnv(game, noop_max=case['noop_max'])
    env.override_num_noops = case['override']
    inside = 0
    for i, h in enumerate(case['hist']):
        if h > 3 and i > 0:
            n = len(game.log)
            out = env.step(i % 4)
            eq(game.log[n:], [('step', i % 4, game.log[n][2])], 'a step')
            eq(out[0], game.last, 'observation')
            eq((out[1], out[2], out[3]['k']),
               (game.script[(game.k - 1) % len(game.script)][0],
                game.script[(game.k - 1) % len(game.script)][2], game.k),
               'reward, done, info')
            continue
        n = len(game.log)
        k0 = game.k
        kw = {'state': i} if i % 2 else {}
        obs = env.reset(**kw)
        log = game.log[n:]
        check(game.live, 'an episode starts in a game that is over')
        eq(obs, game.last, 'observation at the start')
        eq(log[0][0], 'reset', 'first call')
        count = sum(x[0] == 'step' for x in log)
        if case['override'] is not None:
            eq(count, case['override'], 'number of no-ops')
        else:
            check(1 <= count <= case['noop_max'], '{} no-ops', count)
        for x in log:
            if x[0] == 'step':
                eq(x[1], 0, 'no-op action')
                check(x[2], 'a no-op in a game that is over')
            else:
                eq(x[1:], (kw,) if kw else (), 'arguments of reset')
        # resets only where the game needs one
        k = k0
        pending = True
        for x in log:
            if x[0] == 'reset':
                check(pending, 'the game was restarted needlessly')
                pending = False
            else:
                s = game.script[k % len(game.script)]
                k += 1
                pending = s[2] or s[3]
        inside += sum(x[0] == 'reset' for x in log) > 1
    note.nontrivial(inside > 0)
    with must_raise(AssertionError):
        aw.NoopResetEnv(Game(case['script'], meanings=['A', 'NOOP']))


@suite.facet(st.fixed_dictionaries({
    'seed': SEED, 'noop_max': st.integers(1, 6)}), quick=60)
def noop_counts(case, note):
    """Every number of no-ops from one to the maximum comes up."""
    game = Game([[0.0, 0, False, False]], shape=(1,), seed=case['seed'])
    env = aw.NoopResetEnv(game, noop_max=case['noop_max'])
    N = 600
    counts = np.zeros(case['noop_max'] + 2, int)
    for _ in range(N):
        n = len(game.log)
        env.reset()
        counts[len(game.log) - n - 1] += 1
    check(counts[0] == 0 and counts[-1] == 0, 'counts {}', counts)
    check((counts[1:-1] > 0).all(), 'counts {}', counts)
    note.nontrivial(case['noop_max'] > 1)


@suite.facet(st.fixed_dictionaries({
    'script': SCRIPT, 'hist': HIST, 'seed': SEED}), quick=1500)
def fire(case, note):
    game = Game(case['script'], seed=case['seed'])
    env = aw.FireResetEnv(game)
    inside = 0
    for i, h in enumerate(case['hist']):
        n = len(game.log)
        if h > 2 and i > 0:
            out = env.step(i % 4)
            eq(out[0], game.last, 'observation')
            eq([x[:2] for x in game.log[n:]], [('step', i % 4)], 'a step')
            continue
        k = game.k
        kw = {'state': i} if i % 2 else {}
        obs = env.reset(**kw)
        log = game.log[n:]
        check(game.live, 'an episode starts in a game that is over')
        eq(obs, game.last, 'observation at the start')
        want = [('reset',)]
        for a in (1, 2):
            want.append(('step', a))
            s = game.script[k % len(game.script)]
            k += 1
            if s[2] or s[3]:
                want.append(('reset',))
                inside += 1
        if kw:
            want = [('reset', kw) if x[0] == 'reset' else x for x in want]
        eq([x[:2] for x in log], want, 'calls')
    note.nontrivial(inside > 0)
    with must_raise(AssertionError):
        aw.FireResetEnv(Game(case['script'], meanings=['NOOP', 'UP', 'FIRE']))
    with must_raise(AssertionError):
        aw.FireResetEnv(Game(case['script'], meanings=['NOOP', 'FIRE']))


# ------------------------------------------------------------ simple layers

@suite.facet(st.fixed_dictionaries({
    'rewards': sized(st.one_of(floats(-5, 5), st.integers(-3, 3)), 1, 10),
    'seed': SEED, 'hist': HIST}), quick=500)
def clip_and_scale(case, note):
    script = [[r, 0, False, False] for r in case['rewards']]
    game, twin = Game(script, seed=case['seed']), Game(
        script, seed=case['seed'])
    env = aw.ScaledFloatFrame(aw.ClipRewardEnv(game))
    space = env.observation_space
    eq(space.dtype, np.dtype('f4'), 'dtype of the space')
    close(space.low, np.zeros(game.shape), 'low')
    close(space.high, np.ones(game.shape), 'high')
    eq(game.observation_space.high, np.full(game.shape, 255),
       'the original space')
    for i, h in enumerate([0] + case['hist']):
        if h == 0:
            o, w = env.reset(), twin.reset()
        else:
            (o, r, d, info), (w, r0, d0, info0) = env.step(1), twin.step(1)
            check(r == (r0 > 0) - (r0 < 0), 'reward {} of {}', r, r0)
            eq((d, info), (d0, info0), 'done, info')
        eq(o.dtype, np.dtype('f4'), 'dtype')
        close(o, w / 255.0, 'scaled frame', rtol=1e-6, atol=1e-7)
    eq(game.log, twin.log, 'calls')
    note.nontrivial(len({np.sign(r) for r in case['rewards']}) > 1)


@suite.facet(st.fixed_dictionaries({
    'seed': SEED, 'order': st.sampled_from(['hwc', 'chw']),
    'ratio': st.sampled_from([[1, 1], [2, 2], [1, 3], [3, 2]])}), quick=60)
def warp(case, note):
    """Grey values averaged over the area of each of the 84 x 84 pixels."""
    a, b = case['ratio']
    game = Game([[0.0, 0, False, False]], shape=(84 * a, 84 * b, 3),
                seed=case['seed'])
    env = aw.WarpFrame(game, channel_order=case['order'])
    shape = (84, 84, 1) if case['order'] == 'hwc' else (1, 84, 84)
    eq(env.observation_space.shape, shape, 'shape of the space')
    eq(env.observation_space.dtype, np.dtype('u1'), 'dtype of the space')
    for k in range(2):
        obs = env.reset() if k == 0 else env.step(0)[0]
        eq(obs.shape, shape, 'shape')
        eq(obs.dtype, np.dtype('u1'), 'dtype')
        f = game.last.astype('f8')
        grey = f[..., 0] * .299 + f[..., 1] * .587 + f[..., 2] * .114
        want = grey.reshape(84, a, 84, b).mean(axis=(1, 3))
        d = np.abs(obs.reshape(84, 84) - want).max()
        check(d <= 2.0, 'off by {}', d)
    note.nontrivial(a * b > 1)


@suite.facet(st.fixed_dictionaries({'seed': SEED}), quick=30)
def flicker(case, note):
    game = Game([[1.0, 0, False, False]], shape=(3,), seed=case['seed'])
    env = aw.FlickerFrame(game)
    N, zeros = 800, 0
    env.reset()
    for i in range(N):
        o, r, d, _ = env.step(1)
        eq((r, d), (1.0, False), 'reward, done')
        eq(o.dtype, np.dtype('u1'), 'dtype')
        if (o == 0).all():
            zeros += 1
        else:
            eq(o, game.last, 'frame')
    check(binom_ok(zeros, N, 0.5), '{} of {} frames hidden', zeros, N)
    # what is hidden is a matter of the seed of the game alone
    seen = []
    for k in range(2):
        env = aw.FlickerFrame(Game([[1.0, 0, False, False]], shape=(3,),
                                   seed=case['seed']))
        np.random.seed(k)
        seen.append([env.reset()] + [env.step(1)[0] for _ in range(30)])
    eq(seen[0], seen[1], 'frames of two games of the same seed')
    note.nontrivial(zeros > 0)


# ------------------------------------------------------------------- stacks

STACK = {
    'k': st.integers(1, 5), 'order': st.sampled_from(['hwc', 'chw']),
    'c': st.integers(1, 2), 'seed': SEED}


@suite.facet(st.fixed_dictionaries(dict(
    STACK, script=SCRIPT, hist=HIST)), quick=1500, shards=2)
def stack(case, note):
    shape = (2, 3, case['c']) if case['order'] == 'hwc' else (
        case['c'], 2, 3)
    axis = 2 if case['order'] == 'hwc' else 0
    game, twin = twins(case, shape=shape)
    env = aw.FrameStack(game, case['k'], channel_order=case['order'])
    full = list(shape)
    full[axis] *= case['k']
    space = env.observation_space
    eq(space.shape, tuple(full), 'shape of the space')
    eq(space.dtype, np.dtype('u1'), 'dtype of the space')
    kept = []
    eps = []
    for i, h in enumerate([0] + case['hist']):
        if h == 0:
            obs = env.reset()
            eps.append([twin.reset()])
        else:
            obs, r, d, info = env.step(i % 4)
            o, r0, d0, info0 = twin.step(i % 4)
            eps[-1].append(o)
            eq((r, d, info), (r0, d0, info0), 'reward, done, info')
        frames = ([eps[-1][0]] * case['k'] + eps[-1])[-case['k']:] \
            if len(eps[-1]) < case['k'] else eps[-1][-case['k']:]
        want = np.concatenate(frames, axis=axis)
        kept.append((obs, want))
        got = np.asarray(obs)
        eq(got, want, 'stack')
        eq(got.dtype, np.dtype('u1'), 'dtype')
        check(space.contains(got), 'not in the space')
        eq(np.asarray(obs, dtype='f4').dtype, np.dtype('f4'), 'cast')
    for obs, want in kept:
        eq(np.asarray(obs), want, 'an earlier stack changed')
    eq(game.log, twin.log, 'calls')
    note.nontrivial(len(eps) > 1 and len(eps[-1]) > 1 and case['k'] > 1)


# vector histories: [kind, mask]; kind 0 full reset, 1 masked, else step
VHIST = sized(st.tuples(st.integers(0, 5), st.integers(0, 15)).map(list),
              1, 25)


@suite.facet(st.fixed_dictionaries(dict(
    STACK, scripts=st.lists(SCRIPT, min_size=1, max_size=4), hist=VHIST)),
    quick=1200, shards=2)
def vector_stack(case, note):
    """Stacks over parallel environments equal those of each one alone."""
    n = len(case['scripts'])
    shape = (2, 3, case['c']) if case['order'] == 'hwc' else (
        case['c'], 2, 3)
    axis = 2 if case['order'] == 'hwc' else 0

    def game(i):
        return Game(case['scripts'][i], shape=shape,
                    seed=(case['seed'] + i) % 2 ** 31)

    vec = SerialVectorEnv([game(i) for i in range(n)])
    env = VectorFrameStack(vec, case['k'], stack_axis=axis)
    eq(env.num_envs, n, 'num_envs')
    check(isinstance(env, chainerrl.env.VectorEnv), 'a vector environment')
    alone = [aw.FrameStack(game(i), case['k'], channel_order=case['order'])
             for i in range(n)]
    eq(env.observation_space, alone[0].observation_space, 'space')
    eq(env.action_space, alone[0].action_space, 'action space')
    check(env.unwrapped is vec, 'unwrapped')
    kept = []
    masked = False
    last = None
    for j, (kind, bits) in enumerate([[0, 0]] + case['hist']):
        if kind == 0:
            obs = env.reset()
            last = [e.reset() for e in alone]
        elif kind in (1, 2):
            mask = [bool(bits >> i & 1) for i in range(n)]
            masked |= any(mask) and not all(mask)
            obs = env.reset(mask=mask) if kind == 1 else env.reset(
                np.asarray(mask))
            last = [o if m else e.reset()
                    for m, e, o in zip(mask, alone, last)]
        else:
            acts = [(j + i) % 4 for i in range(n)]
            obs, rs, ds, infos = env.step(acts)
            out = [e.step(a) for e, a in zip(alone, acts)]
            last = [o[0] for o in out]
            eq(list(rs), [o[1] for o in out], 'rewards')
            eq(list(ds), [o[2] for o in out], 'dones')
            eq(list(infos), [o[3] for o in out], 'infos')
        eq(len(obs), n, 'number of observations')
        for i in range(n):
            w = np.asarray(last[i])
            g = np.asarray(obs[i])
            eq(g, w, 'stack of environment {}'.format(i))
            eq(g.dtype, w.dtype, 'dtype')
            kept.append((obs[i], w))
    for o, w in kept:
        eq(np.asarray(o), w, 'an earlier stack changed')
    for e, a in zip(vec.envs, alone):
        eq(e.log, a.unwrapped.log, 'calls')
    note.nontrivial(masked and case['k'] > 1)


# ----------------------------------------------------------- the whole thing

class RefLives(object):

    def __init__(self, game, env):
        self.game, self.env = game, env
        self.over, self.n = True, 0

    def reset(self):
        if self.over:
            o = self.env.reset()
        else:
            o, _, d, i = self.env.step(0)
            if d or i.get('needs_reset', False):
                o = self.env.reset()
        self.over = False
        self.n = self.game.n_lives
        return o

    def step(self, a):
        o, r, d, i = self.env.step(a)
        self.over = d or i.get('needs_reset', False)
        lost = 0 < self.game.n_lives < self.n
        self.n = self.game.n_lives
        return o, r, d or lost, i


class RefFire(object):

    def __init__(self, env):
        self.env = env
        self.step = env.step

    def reset(self):
        self.env.reset()
        for a in (1, 2):
            o, _, d, i = self.env.step(a)
            if d or i.get('needs_reset', False):
                o = self.env.reset()
        return o


@suite.facet(st.fixed_dictionaries({
    'script': SCRIPT, 'hist': sized(st.integers(0, 6), 1, 12), 'seed': SEED,
    'life': st.booleans(), 'clip': st.booleans(), 'stack': st.booleans(),
    'scale': st.booleans(), 'fire': st.booleans(),
    'has_fire': st.booleans(), 'order': st.sampled_from(['hwc', 'chw'])}),
    quick=250, shards=4)
def deepmind(case, note):
    meanings = ['NOOP', 'FIRE', 'UP', 'DOWN'] if case['has_fire'] else [
        'NOOP', 'UP', 'DOWN', 'LEFT']
    game, twin = twins(case, shape=(84, 84, 3), meanings=meanings)
    env = aw.wrap_deepmind(
        game, episode_life=case['life'], clip_rewards=case['clip'],
        frame_stack=case['stack'], scale=case['scale'],
        fire_reset=case['fire'], channel_order=case['order'])
    ref = RefLives(twin, twin) if case['life'] else twin
    if case['fire'] and case['has_fire']:
        ref = RefFire(ref)
    axis = 2 if case['order'] == 'hwc' else 0

    def see(f):
        f = f.astype('f8')
        g = f[..., 0] * .299 + f[..., 1] * .587 + f[..., 2] * .114
        g = g.reshape((84, 84, 1) if axis == 2 else (1, 84, 84))
        return g / 255 if case['scale'] else g

    tol = 1.01 / 255 if case['scale'] else 1.01
    frames = []
    ended = True
    n_eps = 0
    fresh = False
    for i, h in enumerate(case['hist']):
        if h == 0 and not fresh or ended:
            fresh = True
            obs = env.reset()
            frames = [see(ref.reset())] * 4
            ended = False
            n_eps += 1
        else:
            fresh = False
            o, r, d, info = ref.step(i % 4)
            frames = (frames + [see(o)])[-4:]
            obs, got_r, got_d, got_info = env.step(i % 4)
            if case['clip']:
                r = (r > 0) - (r < 0)
            eq(float(got_r), float(r), 'reward')
            eq(bool(got_d), bool(d), 'done')
            eq(got_info, info, 'info')
            ended = d or info.get('needs_reset', False)
        want = np.concatenate(frames, axis=axis) if case['stack'] \
            else frames[-1]
        got = np.asarray(obs)
        eq(got.dtype, np.dtype('f4' if case['scale'] else 'u1'), 'dtype')
        for to in ('f4', 'f8'):
            cast = np.asarray(obs, dtype=to)
            eq(cast.dtype, np.dtype(to), 'dtype of a cast')
            eq(cast, got.astype(to), 'cast frames')
        eq(got.shape, want.shape, 'shape')
        eq(env.observation_space.shape, want.shape, 'shape of the space')
        check(np.abs(got - want).max() <= tol, 'frames differ')
    eq(game.log, twin.log, 'calls')
    note.nontrivial(n_eps > 1)


@suite.facet(st.fixed_dictionaries({
    'script': SCRIPT, 'hist': HIST, 'seed': SEED,
    'limit': st.one_of(st.none(), st.integers(3, 40))}), quick=700)
def atari(case, note):
    """make_atari: own time limit in frames, no-ops, skipping of four."""
    holder = {}

    def make():
        holder['game'] = Game(case['script'], shape=(2, 2, 3),
                              seed=case['seed'])
        return holder['game']

    from gym.envs.registration import registry
    name = 'PbtNoFrameskip-v0'
    registry.env_specs.pop(name, None)
    gym.register(id=name, entry_point=make, max_episode_steps=5)
    try:
        env = aw.make_atari(name, max_frames=case['limit'])
    finally:
        registry.env_specs.pop(name, None)
    game = holder['game']
    check(env.unwrapped is game, 'unwrapped')
    limit = case['limit']
    frames = 0                  # since the last reset of the game
    ended = True
    asked = False
    for i, h in enumerate(case['hist']):
        n, k = len(game.log), game.k
        if h == 0 or ended:
            obs = env.reset()
            log = game.log[n:]
            eq(log[0], ('reset',), 'first call')
            check(1 <= sum(x[0] == 'step' for x in log) <= 30, 'no-ops')
            pending = True
            for x in log:
                if x[0] == 'reset':
                    check(pending, 'needless restart')
                    pending, frames = False, 0
                else:
                    eq(x[1], 0, 'no-op action')
                    check(not pending, 'no-op in a game that is over')
                    s = game.script[k % len(game.script)]
                    k += 1
                    frames += 1
                    pending = s[2] or s[3] or (
                        limit is not None and frames >= limit)
            check(not pending, 'an episode starts in a game that is over')
            eq(obs, game.last, 'observation at the start')
            ended = False
        else:
            obs, r, d, info = env.step(i % 4)
            total, over, ask, m = 0.0, False, False, 0
            while m < 4:
                s = game.script[k % len(game.script)]
                k += 1
                m += 1
                frames += 1
                total += s[0]
                over = s[2]
                ask = s[3] or (limit is not None and frames >= limit)
                if over or ask:
                    break
            eq([x[:2] for x in game.log[n:]], [('step', i % 4)] * m,
               'frames')
            close(r, total, 'reward', rtol=1e-6, atol=1e-5)
            eq(bool(d), bool(over), 'done')
            eq(bool(info.get('needs_reset', False)), bool(ask),
               'needs_reset')
            ended = over or ask
            asked |= ask and limit is not None and frames == limit
    note.nontrivial(asked)


# --------------------------------------------------- the ALE environment

class Emulator(object):
    """A stand-in for atari_py and its ALEInterface, playing a script."""

    def __init__(self, case):
        self.case = case
        self.ACTIONS = case.get('actions', [0, 1, 3, 4, 12])
        self.pixels = np.random.RandomState(case['seed'] % 2 ** 32)
        self.log, self.settings = [], {}
        self.k, self.n_lives, self.over = 0, 3, False
        self.rom = None
        self.draw()

    # the module

    def get_game_path(self, game):
        return '/roms/{}.bin'.format(game)

    def ALEInterface(self):
        return self

    # the interface

    def set(self, key, value):
        check(self.rom is None, '{} is set after loading the game', key)
        self.settings[key] = value

    setInt = setFloat = setBool = setString = set

    def loadROM(self, path):
        self.rom = path

    def getFrameNumber(self):
        return self.k

    def getMinimalActionSet(self):
        return np.array(self.ACTIONS)

    def draw(self):
        base = self.pixels.randint(0, 256, size=(30, 20, 3))
        self.screen = np.kron(base, np.ones((7, 8, 1), int)).astype(np.uint8)

    def getScreenRGB(self):
        return self.screen.copy()

    def frame(self):
        return self.case['script'][self.k % len(self.case['script'])]

    def act(self, action):
        if self.over:
            self.log.append(('dead', int(action)))
            return 0
        reward, lost, end, _ = self.frame()
        self.k += 1
        self.log.append(('act', int(action)))
        self.n_lives -= lost
        self.over = end or self.n_lives <= 0
        self.draw()
        return int(reward)

    def lives(self):
        return max(self.n_lives, 0)

    def game_over(self):
        return self.over

    def reset_game(self):
        self.log.append(('reset', self.over))
        self.n_lives, self.over = 3, False
        self.draw()


def luminance(a, b, how):
    import cv2
    rgb = np.maximum(a, b)
    img = (rgb @ np.array([0.299, 0.587, 0.114])).astype(np.uint8)
    if how == 'scale':
        return cv2.resize(img, (84, 84), interpolation=cv2.INTER_LINEAR)
    img = cv2.resize(img, (84, 110), interpolation=cv2.INTER_LINEAR)
    return img[18:102]


def screens_eq(got, want, what):
    eq(len(got), len(want), what)
    for g, w in zip(got, want):
        check(g.shape == (84, 84) and g.dtype == np.uint8,
              '{}: a screen is {} of {}', what, g.shape, g.dtype)
        check(np.abs(g.astype(int) - w.astype(int)).max() <= 2,
              '{}: a screen is not what the game showed', what)


@suite.facet(st.fixed_dictionaries({
    'script': SCRIPT, 'hist': HIST, 'skip': st.integers(1, 5),
    'screens': st.integers(1, 4), 'life': st.booleans(),
    'how': st.sampled_from(['scale', 'crop']),
    'actions': st.sampled_from([[0, 1, 3, 4, 12], [1, 3, 0], [2, 5]]),
    'nullops': st.sampled_from([0, 1, 3, 30]),
    'ale_seed': st.one_of(st.none(), st.integers(0, 2 ** 31 - 1)),
    'seed': SEED}), quick=160, shards=2)
def ale(case, note):
    from chainerrl.envs import ale as mod
    c = case
    emu = Emulator(c)
    old = getattr(mod, 'atari_py', None), mod.atari_py_available
    mod.atari_py, mod.atari_py_available = emu, True
    try:
        env = mod.ALE('pong', seed=c['ale_seed'], n_last_screens=c['screens'],
                      frame_skip=c['skip'], crop_or_scale=c['how'],
                      treat_life_lost_as_terminal=c['life'],
                      max_start_nullops=c['nullops'])
        eq(emu.rom, b'/roms/pong.bin', 'game')
        eq(emu.settings.get(b'repeat_action_probability'), 0.0,
           'stochastic frames')
        check(not emu.settings.get(b'color_averaging'), 'averaged frames')
        s = emu.settings[b'random_seed']
        check(s == c['ale_seed'] if c['ale_seed'] is not None
              else 0 <= s < 2 ** 31, 'random seed {}', s)
        eq(env.action_space.n, len(emu.ACTIONS), 'actions')
        play_ale(c, env, emu, note)
    finally:
        mod.atari_py, mod.atari_py_available = old


def play_ale(c, env, emu, note):
    blank = np.zeros((84, 84), np.uint8)
    n = len(emu.log)
    was_over = False

    def started(over, since):
        """An episode starts: a live game, no needless restart."""
        log = emu.log[since:]
        acts = [x for x in log if x[0] != 'reset']
        check(all(x == ('act', 0) for x in acts),
              'not only no-ops in a live game: {}', log)
        check(len(acts) <= c['nullops'], '{} no-ops, at most {} are allowed',
              len(acts), c['nullops'])
        if over:
            eq(log[:1], [('reset', True)], 'start after the end of a game')
        check(all(x[1] for x in log if x[0] == 'reset'),
              'a game that goes on is restarted')
        check(not emu.over, 'an episode starts in a game that is over')
        x = luminance(emu.screen, emu.screen, c['how'])
        return [blank] * (c['screens'] - 1) + [x]

    want = started(False, 0)
    screens_eq(env.state, want, 'first state')
    check(not env.is_terminal, 'a new episode is over')
    lost_any, episodes = False, 0
    done = False
    kept = []
    for h in c['hist']:
        n = len(emu.log)
        if h == 0 or done:
            over = emu.over
            obs = env.reset()
            want = started(over, n)
            screens_eq(obs, want, 'reset')
            kept.append((obs, want))
            check(not env.is_terminal, 'a new episode is over')
            eq(env.reward, 0, 'reward before the first step')
            done = False
            episodes += 1
            continue
        a = h % len(emu.ACTIONS)
        total, frames = 0, []
        k, lives = emu.k, emu.n_lives
        over = end = False
        for _ in range(c['skip']):
            r, lost, e, _ = c['script'][k % len(c['script'])]
            k += 1
            total += int(r)
            over = e or lives - lost <= 0
            end = over or c['life'] and lost > 0
            lost_any |= lost > 0
            lives -= lost
            frames.append(k)
            if end:
                break
        raw = []
        act = emu.act

        def record(x):
            raw.append(emu.getScreenRGB())
            return act(x)
        emu.act = record
        try:
            obs, r, done, info = env.step(a)
        finally:
            del emu.act
        eq(emu.log[n:], [('act', emu.ACTIONS[a])] * len(frames), 'frames')
        close(r, total, 'reward')
        eq(bool(done), bool(end), 'done')
        if not done:
            want = (want + [luminance(raw[-1], emu.screen, c['how'])])[1:]
            screens_eq(obs, want, 'state')
            kept.append((obs, want))
    for obs, want in kept:
        screens_eq(obs, want, 'an observation of an earlier step')
    if lost_any and not c['life']:
        note.label('life lost, going on')
    note.nontrivial(lost_any and episodes > 0)


@suite.facet(st.fixed_dictionaries({
    'nullops': st.integers(0, 6), 'seed': SEED}), quick=10)
def ale_nullops(case, note):
    """The number of no-ops is uniform."""
    from chainerrl.envs import ale as mod
    m, n = case['nullops'], 120
    emu = Emulator(dict(case, script=[[0.0, 0, False, False]]))
    old = getattr(mod, 'atari_py', None), mod.atari_py_available
    mod.atari_py, mod.atari_py_available = emu, True
    try:
        env = mod.ALE('pong', max_start_nullops=m)
        counts = []
        for _ in range(n):
            k = len(emu.log)
            env.reset()
            counts.append(len(emu.log) - k)
        seeds = []
        for x in (1, 1, 2, 3, 4):
            np.random.seed(x)
            emu = mod.atari_py = Emulator(emu.case)
            mod.ALE('pong')
            seeds.append(emu.settings[b'random_seed'])
        eq(seeds[0], seeds[1], 'seed drawn from the same random state')
        check(len(set(seeds)) > 1, 'the seed is always {}', seeds[0])
    finally:
        mod.atari_py, mod.atari_py_available = old
    for v in range(max(counts + [m]) + 1):
        check(binom_ok(counts.count(v), n, 1 / (m + 1) if v <= m else 0),
              '{} no-ops {} of {} times, at most {} allowed', v,
              counts.count(v), n, m)
    note.nontrivial(m > 0)
