"""P26: asynchronous training."""
import logging
import multiprocessing as mp
import os
import signal
import warnings

import chainer
import numpy as np
from hypothesis import strategies as st

from chainerrl import experiments
from chainerrl.agent import AsyncAgent
from chainerrl.experiments.train_agent_async import train_loop
from chainerrl.misc.async_ import AbnormalExitWarning
from chainerrl.optimizers.rmsprop_async import RMSpropAsync

from pbt import loops
from pbt.core import Suite, check, close, eq, scratch_dir
from pbt.gen import SEED, floats, rng, sized

suite = Suite(
    'P26',
    'two workers or more (really or by scripted interference), or a fault '
    'that was reached',
    ['Real schedules are the kernel\'s; interference with one worker is '
     'scripted at its environment steps'])

logger = logging.getLogger('quiet')
logger.setLevel(logging.CRITICAL + 1)


class Scores(object):
    """An evaluator with scripted scores."""

    def __init__(self, scores, clock):
        self.scores, self.clock = scores, clock

    def evaluate_if_necessary(self, t, episodes, env, agent):
        self.clock.tick('evaluate', int(t))
        n = self.clock.n('evaluate') - 1
        return self.scores[n % len(self.scores)]


@suite.facet(st.fixed_dictionaries({
    'script': loops.SCRIPT, 'more': st.integers(1, 25),
    'offset': st.one_of(st.just(0), st.integers(0, 20)),
    'max_len': st.one_of(st.none(), st.integers(1, 6)),
    'idx': st.integers(0, 2), 'hooks': st.integers(0, 2),
    # what the other workers do while this one is in its environment
    'others': sized(st.sampled_from([0, 0, 0, 0, 1, 2, 5, 'done', 'episode']),
                    1, 12),
    'scores': st.one_of(st.none(), sized(st.one_of(
        st.none(), floats(-4, 4)), 1, 6)),
    'success': st.one_of(st.none(), st.just(0.0), floats(-4, 6)),
    'fault': st.one_of(st.none(), st.tuples(
        st.sampled_from(['reset', 'step', 'act_and_train', 'stop_and_train',
                         'hook', 'evaluate']),
        st.integers(0, 15), st.booleans()).map(list))}), quick=2500,
    shards=4)
def one_worker(case, note):
    """The loop of one worker with scripted interference."""
    c = case
    steps = c['offset'] + c['more']
    others = c['others']
    scores = c['scores']

    # ---- reference
    rc = loops.Clock(c['fault'])
    tick = rc.tick
    env = loops.RefEnv(c['script'])
    ref = {'g': 0, 'acts': 0, 'counter': c['offset'], 'done': False,
           'episodes': 0, 'k': 0, 'ok': False}
    saves = []
    want = None

    def reference():
        tick('reset', 0)
        obs, r, n = env.reset(), 0, 0
        while True:
            tick('act_and_train', obs, r)
            ref['acts'] += 1
            tick('step', 0, ref['acts'])
            obs, r, done, reset = env.step()
            n += 1
            o = others[ref['k'] % len(others)]
            ref['k'] += 1
            if o == 'done':
                ref['done'] = True
            elif o == 'episode':
                ref['episodes'] += 1
            else:
                ref['counter'] += o
            ref['counter'] += 1
            ref['g'] = g = ref['counter']
            for h in range(c['hooks']):
                tick('hook', h, g, ref['acts'])
            if done or reset or n == c['max_len'] or g >= steps or \
                    ref['done']:
                tick('stop_and_train', obs, r, done)
                if scores is not None:
                    tick('evaluate', g)
                    s = scores[(rc.n('evaluate') - 1) % len(scores)]
                    if s is not None and c['success'] is not None and \
                            s >= c['success']:
                        ref['ok'] = not ref['done']
                        ref['done'] = True
                        return
                ref['episodes'] += 1
                if g >= steps or ref['done']:
                    return
                tick('reset', 0)
                obs, r, n = env.reset(), 0, 0

    try:
        reference()
    except (loops.Boom, KeyboardInterrupt) as e:
        want = e
        if c['idx'] == 0:
            saves.append(('{}_except'.format(ref['g']), ref['acts']))
    else:
        if ref['g'] == steps:
            saves.append(('{}_finish'.format(steps), ref['acts']))
        if ref['ok']:
            saves.append(('successful', ref['acts']))

    # ---- real
    counter = mp.Value('l', c['offset'])
    episodes = mp.Value('l', 0)
    finished = mp.Value('b', False)
    clock = loops.Clock(c['fault'])

    class Env(loops.Env):
        n_steps = 0

        def step(self, action):
            out = super().step(action)
            o = others[Env.n_steps % len(others)]
            Env.n_steps += 1
            if o == 'done':
                finished.value = True
            elif o == 'episode':
                episodes.value += 1
            else:
                counter.value += o
            return out

    real_env = Env(c['script'], clock)
    agent = loops.Agent(clock)
    hooks = []
    for h in range(c['hooks']):
        def hook(e, a, t, h=h):
            check(e is real_env and a is agent, 'hook called with {} {}',
                  e, a)
            clock.tick('hook', h, int(t), agent.actions)
        hooks.append(hook)
    with scratch_dir() as d:
        try:
            train_loop(
                c['idx'], real_env, agent, steps, d, counter, episodes,
                finished, max_episode_len=c['max_len'],
                evaluator=None if scores is None else Scores(scores, clock),
                eval_env=None, successful_score=c['success'], logger=logger,
                global_step_hooks=hooks)
        except (loops.Boom, KeyboardInterrupt) as e:
            check(want is not None and e is clock.raised,
                  'raised {!r}, the fault was {!r}', e, clock.raised)
        else:
            check(want is None, 'the fault {} was swallowed', c['fault'])

    def split(log):
        return ([x for x in log if x[0] != 'hook'],
                [x for x in log if x[0] == 'hook'])
    for g, w, name in zip(split(clock.log), split(rc.log),
                          ('calls', 'hook calls')):
        for i, (a, b) in enumerate(zip(g, w)):
            check(a == b, '{} number {}: {} expected {}', name, i, a, b)
        check(len(g) == len(w), '{} {}, expected {}: {}', len(g), name,
              len(w), (g + w)[min(len(g), len(w)):][:3])
    eq([(n, a) for n, _, a in agent.saves], saves, 'saves')
    eq(counter.value, ref['counter'], 'step counter')
    eq(bool(finished.value), ref['done'], 'training_done')
    if want is None:
        eq(episodes.value, ref['episodes'], 'episode counter')
    note.nontrivial(want is not None or any(others) and rc.n(
        'stop_and_train') > 1)
    if want is not None:
        note.label('fault in ' + c['fault'][0])
    if ref['ok']:
        note.label('successful')


# ------------------------------------------------------- real processes

class Worker(AsyncAgent):
    """Marks its actions in everything that is declared shared."""

    shared_attributes = ('link', 'optimizer', 'total', 'pair')
    process_idx = None

    def __init__(self, n):
        def link():
            l = chainer.Link()
            with l.init_scope():
                l.p = chainer.Parameter(np.zeros((n, 2), 'f'))
            l.add_persistent('seen', np.zeros(n, 'd'))
            return l
        self.link = link()
        self.optimizer = RMSpropAsync()
        self.optimizer.setup(self.link)
        self.total = mp.Value('l', 0)
        self.pair = (link(), mp.Value('d', 0.0))
        self.private = np.zeros(n)
        self.log = None

    def act_and_train(self, obs, reward):
        i = self.process_idx
        self.log.write('act {} {}\n'.format(i, obs))
        self.link.p.array[i, 0] += 1
        self.link.seen[i] += 1
        self.link.p.update_rule.state['ms'][i, 1] += 1
        self.pair[0].p.array[i, 1] += 1
        self.private[i] += 1
        with self.total.get_lock():
            self.total.value += 1
        with self.pair[1].get_lock():
            self.pair[1].value += 0.5
        return 0

    def act(self, obs):
        return 0

    def stop_episode_and_train(self, state, reward, done=False):
        self.log.write('stop {} {}\n'.format(state, bool(done)))

    def stop_episode(self):
        pass

    def save(self, dirname):
        # a directory is made by one worker only
        os.makedirs(dirname, exist_ok=dirname.endswith('best'))

    def load(self, dirname):
        pass

    def get_statistics(self):
        return [('total', self.total.value)]


class WorkerEnv(object):

    def __init__(self, script, log, idx, fault=None, record=True):
        self.inner = loops.Env(script, loops.Clock(), '', idx)
        self.log, self.fault, self.record = log, fault, record
        self.n = 0

    def reset(self):
        obs = self.inner.reset()
        if self.record:
            self.log.write('reset {}\n'.format(obs))
        return obs

    def step(self, a):
        self.n += 1
        if self.fault and self.n == self.fault[1]:
            self.log.flush()
            if self.fault[2] == 'kill':
                os.kill(os.getpid(), signal.SIGKILL)
            raise loops.Boom('injected')
        out = self.inner.step(a)
        if self.record:
            self.log.write('step {} {} {}\n'.format(out[0], out[2], int(
                out[3].get('needs_reset', False))))
        return out

    def close(self):
        self.log.write('close{}\n'.format('' if self.record else '_eval'))
        self.log.flush()


@suite.facet(st.fixed_dictionaries({
    'scripts': st.lists(loops.SCRIPT, min_size=1, max_size=4),
    'more': st.integers(1, 60),
    'offset': st.one_of(st.just(0), st.integers(0, 30)),
    'max_len': st.one_of(st.none(), st.integers(1, 6)),
    'interval': st.one_of(st.none(), st.integers(1, 20)),
    'score': st.integers(-3, 3),
    'success': st.one_of(st.none(), st.none(), st.integers(-3, 4)),
    'make_agent': st.booleans(), 'hook': st.booleans(),
    'best': st.booleans(), 'profile': st.just(False),
    'fault': st.one_of(st.none(), st.none(), st.tuples(
        st.integers(0, 3), st.integers(1, 12),
        st.sampled_from(['raise', 'raise', 'kill'])).map(list))}),
    quick=240, shards=4)
def processes(case, note):
    """Real worker processes."""
    c = case
    n = len(c['scripts'])
    steps = c['offset'] + c['more']
    fault = c['fault']
    if fault is not None:
        fault = [fault[0] % n] + fault[1:]
    with scratch_dir() as d:
        out = os.path.join(d, 'out')
        os.makedirs(out)

        def log_file(i):
            return os.path.join(d, 'log{}'.format(i))

        logs = {}

        def make_env(idx, test):
            if not test:
                logs[idx] = open(log_file(idx), 'w')
                logs[idx].write('seed {!r}\n'.format(
                    float(np.random.rand())))
            if test:
                return WorkerEnv([[c['score'], 5]], logs[idx], idx,
                                 record=False)
            agent.log = logs[idx]
            Worker.log = logs[idx]
            return WorkerEnv(
                c['scripts'][idx], logs[idx], idx,
                fault if fault and fault[0] == idx else None)

        agent = Worker(n)
        del agent.log
        Worker.log = None
        made = []

        def make_agent(idx):
            if not made and idx == 0:
                made.append(agent)
                return agent
            w = Worker(n)
            del w.log
            return w

        def hook(env, a, t):
            a.log.write('hook {}\n'.format(int(t)))

        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            kw = dict(make_agent=make_agent) if c['make_agent'] else dict(
                agent=agent)
            ret = experiments.train_agent_async(
                out, n, make_env, steps=steps, eval_interval=c['interval'],
                eval_n_episodes=2, max_episode_len=c['max_len'],
                step_offset=c['offset'], successful_score=c['success'],
                global_step_hooks=(hook,) if c['hook'] else (),
                save_best_so_far_agent=c['best'], logger=logger, **kw)
        check(ret is agent, 'returned {!r}', ret)
        text = []
        for i in range(n):
            with open(log_file(i)) as f:
                text.append([l.split(' ', 1) for l in
                             f.read().splitlines()])
        dirs = sorted(x for x in os.listdir(out) if x != 'scores.txt')
        rows = loops.read_scores(out) if c['interval'] is not None else []

    acts = [sum(l[0] == 'act' for l in t) for t in text]
    reported = [str(w.message) for w in ws
                if issubclass(w.category, AbnormalExitWarning)]
    hit = fault is not None and acts[fault[0]] == fault[1] and \
        text[fault[0]][-1][0] == 'act'
    if hit:
        check(len(reported) == 1 and '#{} '.format(fault[0]) in reported[0]
              and ('signal' in reported[0]) == (fault[2] == 'kill'),
              'failure of worker {} reported as {}', fault[0], reported)
        note.label('worker ' + fault[2])
    else:
        check(not reported, 'reported {}', reported)

    # every global step once
    took = sum(acts) - (1 if hit else 0)
    stopped = c['interval'] is not None and c['success'] is not None and \
        c['score'] >= c['success']
    alive = n - (1 if hit else 0)
    if not stopped and alive:
        check(c['more'] <= took <= c['more'] + n - 1,
              '{} steps of {} with {} workers', took, c['more'], n)
    else:
        check(took <= c['more'] + n - 1, '{} steps of {}', took, c['more'])
    if c['hook']:
        ts = sorted(int(l[1]) for t in text for l in t if l[0] == 'hook')
        eq(ts, list(range(c['offset'] + 1, c['offset'] + took + 1)),
           'global steps seen by hooks')
        for t in text:
            mine = [int(l[1]) for l in t if l[0] == 'hook']
            eq(mine, sorted(mine), 'global steps of a worker')

    # shared objects have seen all workers
    eq(agent.link.p.array[:, 0].tolist(), [float(a) for a in acts],
       'shared parameter')
    eq(agent.link.seen.tolist(), [float(a) for a in acts],
       'shared persistent value')
    eq(agent.link.p.update_rule.state['ms'][:, 1].tolist(),
       [float(a) for a in acts], 'shared optimizer state')
    eq(agent.pair[0].p.array[:, 1].tolist(), [float(a) for a in acts],
       'shared parameter in a tuple')
    eq(agent.total.value, sum(acts), 'shared counter')
    close(agent.pair[1].value, 0.5 * sum(acts), 'shared value')

    # each worker's own stream
    ends = 0
    for i, t in enumerate(text):
        eq(float(t[0][1]), float(np.random.RandomState(i).rand()),
           'random draw of worker {}'.format(i))
        env = loops.RefEnv(c['scripts'][i], i)
        want = [['reset', str(env.reset())]]
        obs, m = (i, 0, 0), 0
        body = [l for l in t[1:] if l[0] not in ('hook', 'close',
                                                 'close_eval')]
        for k in range(acts[i]):
            want.append(['act', '{} {}'.format(i, obs)])
            if hit and i == fault[0] and k == acts[i] - 1:
                break
            obs, _, done, reset = env.step()
            m += 1
            want.append(['step', '{} {} {}'.format(obs, done, int(reset))])
            if done or reset or m == c['max_len'] or k == acts[i] - 1:
                want.append(['stop', '{} {}'.format(obs, done)])
                ends += 1
                m = 0
                if k < acts[i] - 1:
                    obs = env.reset()
                    want.append(['reset', str(obs)])
        # a fault can come right after a reset
        for k, (a, b) in enumerate(zip(body, want)):
            check(a == b, 'worker {} event {}: {} expected {}', i, k, a, b)
        check(len(body) == len(want), 'worker {}: {} events, expected {}',
              i, len(body), len(want))
        closes = [l[0] for l in t if l[0].startswith('close')]
        if not (hit and i == fault[0]):
            eq(sorted(closes), ['close'] + (
                ['close_eval'] if c['interval'] is not None else []),
               'environments closed by worker {}'.format(i))

    # evaluations and saves
    R = 0
    if c['interval'] is not None:
        base = c['offset'] - c['offset'] % c['interval']
        R = max(0, len(rows) - 1)
        if R:
            check(rows[0][0] == 'steps' and rows[0][-1] == 'total',
                  'header {}', rows[0])
        ts = sorted(int(r[0]) for r in rows[1:])
        for k, t in enumerate(ts):
            check(base + (k + 1) * c['interval'] <= t <= c['offset'] + took,
                  'evaluation {} at step {}', k, t)
        check(R <= ends, '{} evaluations at {} ends of episodes', R, ends)
        if not stopped:
            need = min(alive, (steps - base) // c['interval'])
            check(R >= need, '{} evaluations, expected {}', R, need)
        for r in rows[1:]:
            eq(float(r[3]), float(c['score']), 'mean return')
            check(0 <= int(r[1]) <= ends, 'episodes {} of {}', r[1], ends)
    want = set()
    if R and c['best']:
        want.add('best')
    if hit and fault[0] == 0 and fault[2] == 'raise':
        excepts = [x for x in dirs if x.endswith('_except')]
        check(len(excepts) == 1, 'saved {}', dirs)
        want.add(excepts[0])
    got = set(dirs)
    if stopped:
        # (how far the others come is up to the schedule)
        if R:
            want.add('successful')
        got -= {'{}_finish'.format(steps)}
    elif alive:
        want.add('{}_finish'.format(steps))
    eq(sorted(got), sorted(want), 'saved')
    note.nontrivial(n > 1 or hit)
    note.label('{} workers'.format(n))
    if stopped and R:
        note.label('successful')
