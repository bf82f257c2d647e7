"""P27: evaluation."""
from fractions import Fraction
import logging
import os

import numpy as np
from hypothesis import strategies as st

from chainerrl.experiments.evaluator import (
    AsyncEvaluator, Evaluator, batch_run_evaluation_episodes,
    eval_performance, run_evaluation_episodes)

from pbt import loops
from pbt.core import Suite, check, close, eq, scratch_dir
from pbt.gen import floats, sized

suite = Suite(
    'P27',
    'two episodes or more, of different lengths or returns',
    ['Environments and agents are scripted; files go to a scratch '
     'directory'])

logger = logging.getLogger('quiet')
logger.setLevel(logging.CRITICAL + 1)

BUDGET = {
    'n_steps': st.one_of(st.none(), st.integers(1, 25)),
    'n_episodes': st.integers(1, 6),
    'max_len': st.one_of(st.none(), st.integers(1, 6))}


def budget(case, scripts):
    """n_steps, n_episodes and a length limit that lets episodes end."""
    n_eps = None if case['n_steps'] is not None else case['n_episodes']
    max_len = case['max_len']
    if n_eps is not None and max_len is None and not all(
            any(s[1] >= 5 for s in script) for script in scripts):
        max_len = 5
    return case['n_steps'], n_eps, max_len


@suite.facet(st.fixed_dictionaries(dict(
    BUDGET, script=loops.SCRIPT, integer=st.booleans())), quick=2500,
    shards=2)
def serial(case, note):
    n_steps, n_eps, max_len = budget(case, [case['script']])
    clock = loops.Clock()
    env = loops.Env(case['script'], clock, integer=case['integer'])
    agent = loops.Agent(clock)
    script = case['script']
    if case['integer']:
        script = [[int(r), e] for r, e in script]
    got = run_evaluation_episodes(env, agent, n_steps, n_eps, max_len,
                                  logger)
    ref = loops.RefEnv(script)
    eps, rest, n = loops.ref_evaluation(ref, n_steps, n_eps, max_len)
    scores = [e[0] for e in eps] or [rest[0]]
    check(all(type(x) is float for x in got), 'scores {}', got)
    close(got, scores, 'returns', rtol=1e-6)
    # the history of calls
    ref = loops.RefEnv(script)
    want = []
    lens = [e[1] for e in eps] + ([rest[1]] if rest else [])
    for k in lens:
        want.append(('reset', 0))
        obs = ref.reset()
        for _ in range(k):
            want.append(('act', obs))
            want.append(('step', 0, -1))
            obs = ref.step()[0]
        want.append(('stop',))
    eq(clock.log, want, 'calls')
    note.nontrivial(len(set(eps)) > 1)


def batch_reference(scripts, n_steps, n_eps, max_len):
    """Episodes are numbered in the order they start in; the result is that
    of a serial evaluation of them in this order."""
    N = len(scripts)
    envs = [loops.RefEnv(s, i) for i, s in enumerate(scripts)]
    log = [('reset', [False] * N)]
    obs = [e.reset() for e in envs]
    number = list(range(N))
    started = N
    episodes = {i: [0.0, 0, False] for i in range(N)}   # return, len, over
    while True:
        log.append(('batch_act', list(obs)))
        log.append(('step', [-1] * N))
        out = [e.step() for e in envs]
        obs = [o[0] for o in out]
        resets = [o[3] or e.t == max_len for o, e in zip(out, envs)]
        ends = [o[2] or r for o, r in zip(out, resets)]
        for i in range(N):
            ep = episodes[number[i]]
            ep[0] += out[i][1]
            ep[1] += 1
            if ends[i]:
                ep[2] = True
                number[i] = started
                episodes[started] = [0.0, 0, False]
                started += 1
        # what a serial run would have seen so far
        scores, total, over = [], 0, False
        for k in range(started):
            r, n, fin = episodes[k]
            total += n
            if n_steps is not None:
                if total >= n_steps:
                    over = True
                    if fin and total == n_steps or not scores and not (
                            total > n_steps and fin):
                        scores.append(r)
                    break
            if not fin:
                break
            scores.append(r)
            if n_eps is not None and len(scores) == n_eps:
                over = True
                break
        log.append(('batch_observe', list(obs), [o[1] for o in out],
                    [o[2] for o in out], [True] * N if over else resets))
        if over:
            return scores, log, episodes
        mask = [not e for e in ends]
        log.append(('reset', mask))
        obs = [e.reset() if x else o for e, x, o in zip(envs, ends, obs)]


@suite.facet(st.fixed_dictionaries(dict(
    BUDGET, scripts=st.lists(loops.SCRIPT, min_size=1, max_size=4))),
    quick=2500, shards=4)
def batch(case, note):
    scripts = case['scripts']
    n_steps, n_eps, max_len = budget(case, scripts)
    clock = loops.Clock()
    env = loops.VectorEnv(scripts, clock)
    agent = loops.Agent(clock)
    got = batch_run_evaluation_episodes(env, agent, n_steps, n_eps, max_len,
                                        logger)
    want, log, episodes = batch_reference(scripts, n_steps, n_eps, max_len)
    check(all(type(x) is float for x in got), 'scores {}', got)
    close(got, want, 'returns', rtol=1e-6)
    for i, (a, b) in enumerate(zip(clock.log, log)):
        check(a == b, 'call {}: {} expected {}', i, a, b)
    check(len(clock.log) == len(log), '{} calls, expected {}',
          len(clock.log), len(log))
    note.nontrivial(len(scripts) > 1 and len(set(want)) > 1)


@suite.facet(st.fixed_dictionaries(dict(
    BUDGET, episodes=sized(st.tuples(
        st.integers(1, 5), floats(-4, 4), st.booleans()).map(list), 1, 12),
    envs=st.integers(1, 4))), quick=1500, shards=2)
def agree(case, note):
    """The same episodes, one by one and in a batch."""
    n_steps, n_eps = case['n_steps'], None
    if n_steps is None:
        n_eps = case['n_episodes']
    N, eps = case['envs'], case['episodes']

    class Shared(object):
        """Hands out episodes in the order they are started in."""
        k = 0

    def player(pool, clock):
        class Player(loops.Env):
            def reset(self):
                n, r, cut = eps[pool.k % len(eps)]
                pool.k += 1
                self.script = [[r, 0]] * (n - 1) + [[r, 6 if cut else 5]]
                self.k = 0
                return super().reset()
        return Player([[0, 0]], clock)

    def one():
        clock = loops.Clock()
        return run_evaluation_episodes(
            player(Shared(), clock), loops.Agent(clock), n_steps, n_eps,
            case['max_len'], logger)

    clock = loops.Clock()
    venv = loops.VectorEnv([[[0, 0]]] * N, clock)
    pool = Shared()
    venv.envs = [player(pool, venv.inner) for _ in range(N)]
    got = batch_run_evaluation_episodes(
        venv, loops.Agent(clock), n_steps, n_eps, case['max_len'], logger)
    want = one()
    close(got, want, 'batched and serial returns', rtol=1e-6)
    note.nontrivial(N > 1 and len(want) > 1)


def stats_of(scores):
    return dict(mean=float(sum(map(Fraction, scores)) / len(scores)), median=np.median(scores),
                stdev=np.std(scores, ddof=1) if len(scores) > 1 else 0.0,
                max=max(scores), min=min(scores))


@suite.facet(st.fixed_dictionaries({
    'script': loops.SCRIPT, 'kind': st.sampled_from(
        ['serial', 'batch', 'async']),
    'n_steps': st.one_of(st.none(), st.integers(1, 12)),
    'n_episodes': st.integers(1, 4), 'max_len': st.integers(1, 5),
    'interval': st.integers(1, 12), 'offset': st.integers(0, 30),
    'ts': sized(st.integers(0, 9), 1, 15), 'best': st.booleans(),
    'shift': st.sampled_from([0.0, -10.0, 10.0, -1e6])}), quick=2000,
    shards=4)
def evaluators(case, note):
    """When, what is recorded, and what is saved."""
    c = case
    kind = c['kind']
    n_eps = None if c['n_steps'] is not None else c['n_episodes']
    # returns that differ between evaluations
    script = [[r + c['shift'], e] for r, e in c['script']]
    clock = loops.Clock()
    if kind == 'batch':
        env = loops.VectorEnv([script], clock)
    else:
        env = loops.Env(script, clock)
    agent = loops.Agent(clock)
    ref = loops.RefEnv(script)
    prev = c['offset'] - c['offset'] % c['interval']
    best, saves, rows, late = None, [], [], False
    with scratch_dir() as d:
        kw = dict(max_episode_len=c['max_len'], step_offset=c['offset'],
                  save_best_so_far_agent=c['best'], logger=logger)
        if kind == 'async':
            ev = AsyncEvaluator(c['n_steps'], n_eps, c['interval'], d, **kw)
            run = lambda t, k: ev.evaluate_if_necessary(  # noqa
                t, k, env, agent)
        else:
            ev = Evaluator(agent, env, c['n_steps'], n_eps, c['interval'],
                           d, **kw)
            run = lambda t, k: ev.evaluate_if_necessary(t, k)  # noqa
        t = c['offset']
        for k, dt in enumerate(c['ts']):
            t += dt
            agent.actions += 1
            got = run(t, k)
            if t < prev + c['interval']:
                check(got is None, 'evaluated at {} (last {}, every {})', t,
                      prev, c['interval'])
                continue
            check(got is not None, 'not evaluated at {} (last {}, every {})',
                  t, prev, c['interval'])
            if kind == 'async':
                prev += c['interval']
            else:
                prev = t - t % c['interval']
            late = late or t % c['interval'] != 0
            eps, rest, n = loops.ref_evaluation(
                ref, c['n_steps'], n_eps, c['max_len'])
            scores = [e[0] for e in eps] or [rest[0]]
            s = stats_of(scores)
            rows.append((t, k, s, agent.actions))
            close(got, s['mean'], 'mean return', rtol=1e-6)
            if best is None or s['mean'] > best:
                best = s['mean']
                saves.append(agent.actions)
            close(ev.max_score, best, 'max_score', rtol=1e-9)
        table = loops.read_scores(d)
        files = set(os.listdir(d))
        if 'best' in files:
            with open(os.path.join(d, 'best', 'actions')) as f:
                last = int(f.read())
    if rows or kind != 'async':
        eq(table[0], ['steps', 'episodes', 'elapsed', 'mean', 'median',
                      'stdev', 'max', 'min', 'n_actions'], 'header')
    check(len(table) == len(rows) + (1 if rows or kind != 'async' else 0),
          '{} lines for {} evaluations', len(table), len(rows))
    for got, (t, k, s, n) in zip(table[1:], rows):
        eq((int(got[0]), int(got[1]), int(got[8])), (t, k, n), 'row')
        check(float(got[2]) >= 0, 'elapsed {}', got[2])
        for col, key in ((3, 'mean'), (4, 'median'), (6, 'max'), (7, 'min')):
            close(float(got[col]), s[key], key, rtol=1e-6)
        close(float(got[5]), s['stdev'], 'stdev', rtol=1e-4,
              atol=1e-6 * (1 + abs(c['shift'])))
    got = [(n, a) for n, _, a in agent.saves]
    eq(got, [('best', a) for a in saves] if c['best'] else [], 'saved')
    eq(files, {'scores.txt'} | ({'best'} if got else set()), 'files')
    if got:
        eq(last, saves[-1], 'what is in the directory of the best agent')
    check(not any(x[0].endswith('train') for x in clock.log),
          'the agent was trained')
    note.nontrivial(len(rows) > 1 and late)
    note.label(kind)


@suite.facet(st.fixed_dictionaries(dict(
    BUDGET, script=loops.SCRIPT, vector=st.booleans())), quick=400)
def performance(case, note):
    n_steps, n_eps, max_len = budget(case, [case['script']])
    clock = loops.Clock()
    env = loops.VectorEnv([case['script']], clock) if case['vector'] else \
        loops.Env(case['script'], clock)
    got = eval_performance(env, loops.Agent(clock), n_steps, n_eps, max_len,
                           logger)
    eps, rest, _ = loops.ref_evaluation(
        loops.RefEnv(case['script']), n_steps, n_eps, max_len)
    scores = [e[0] for e in eps] or [rest[0]]
    want = dict(stats_of(scores), episodes=len(scores))
    eq(sorted(got), sorted(want), 'keys')
    for k in want:
        close(float(got[k]), float(want[k]), k, rtol=1e-4, atol=1e-6)
    note.nontrivial(len(set(scores)) > 1)
