"""P36: hooks, demonstrations, run directories, small utilities."""
import argparse
import builtins
import contextlib
import datetime
import json
import logging
import os
import re
import subprocess
import sys
import tempfile

import chainer
import numpy as np
from chainer import functions as F
from hypothesis import strategies as st

from chainerrl import action_value, distribution
from chainerrl import env as env_mod
from chainerrl.experiments import (LinearInterpolationHook,
                                   collect_demonstrations,
                                   prepare_output_dir)
from chainerrl.experiments.prepare_output_dir import is_under_git_control
from chainerrl.misc import draw_computational_graph, env_modifiers
from chainerrl.misc.ask_yes_no import ask_yes_no
from chainerrl.misc.is_return_code_zero import is_return_code_zero
from chainerrl.misc.reward_filter import (AverageRewardFilter,
                                          NormalizedRewardFilter)

from pbt.core import (Suite, check, close, eq, must_raise, quiet_stdout,
                      scratch_dir)
from pbt.gen import SEED, floats, rng, sized
from pbt.loops import SCRIPT, Agent, Boom, Clock, Env, RefEnv, unpack

suite = Suite(
    'P36',
    'more than one episode, modifier, file or output, or a step inside the '
    'interpolated range',
    ['Interpolation over at least two steps (total_steps >= 2)',
     'Repositories have at least one commit',
     'Files are written only below a scratch directory'])


# ------------------------------------------------------------ interpolation

@suite.facet(st.fixed_dictionaries({
    'total': st.integers(2, 10 ** 7), 'start': floats(-100, 100),
    'stop': floats(-100, 100),
    'steps': sized(st.one_of(st.integers(0, 12), st.integers(0, 2 * 10 ** 7),
                             floats(0, 1).map(lambda x: ['part', x])),
                   1, 12)}), quick=3000)
def interpolation(case, note):
    c = case
    got = []
    hook = LinearInterpolationHook(
        c['total'], c['start'], c['stop'],
        lambda env, agent, value: got.append((env, agent, value)))
    inside = 0
    for s in c['steps']:
        if isinstance(s, list):
            s = int(1 + s[1] * (c['total'] - 1))
        env, agent = object(), object()
        del got[:]
        hook(env, agent, s)
        check(len(got) == 1, 'setter called {} times', len(got))
        check(got[0][0] is env and got[0][1] is agent, 'arguments')
        if s <= 1:
            want = c['start']
        elif s >= c['total']:
            want = c['stop']
        else:
            inside += 1
            f = (s - 1) / (c['total'] - 1)
            want = (1 - f) * c['start'] + f * c['stop']
        close(got[0][2], want, 'value at step {}'.format(s), rtol=1e-9,
              atol=1e-9)
        if s <= 1 or s >= c['total']:
            check(got[0][2] == want, 'end value {} != {}', got[0][2], want)
        lo, hi = sorted([c['start'], c['stop']])
        check(lo - 1e-9 <= got[0][2] <= hi + 1e-9, 'out of range')
    note.nontrivial(inside > 0)


# ----------------------------------------------------------- demonstrations

@suite.facet(st.fixed_dictionaries({
    'script': SCRIPT, 'count': st.integers(1, 15),
    'by_steps': st.booleans(),
    'max_len': st.one_of(st.none(), st.integers(1, 6)),
    'integer': st.booleans(),
    'fault': st.one_of(*[st.none()] * 5 + [st.tuples(
        st.sampled_from(['step', 'act', 'reset']), st.integers(0, 10),
        st.just(False)).map(list)])}), quick=1200)
def demonstrations(case, note):
    c = case
    script = list(c['script'])
    if not c['by_steps'] and c['max_len'] is None and \
            not any(unpack(s)[1] or unpack(s)[2] for s in script):
        script.append([1.0, 5])
    clock = Clock(c['fault'])
    env, agent = Env(script, clock, integer=c['integer']), Agent(clock)
    agent.act = lambda obs: (clock.tick('act', obs), agent._action())[1]
    logger = logging.getLogger('pbt.demos')
    logger.propagate = False
    logger.disabled = True
    # reference
    ref, want, log = RefEnv(script), [], []
    n_act = steps = episodes = 0
    counts = {}

    def tick(name, *args):
        i = counts.get(name, 0)
        counts[name] = i + 1
        if c['fault'] and c['fault'][:2] == [name, i]:
            raise Boom()
        log.append((name,) + args)
    raised = False
    try:
        over = True
        while True:
            if over:
                tick('reset', 0)
                obs, length = ref.reset(), 0
            tick('act', obs)
            n_act += 1
            tick('step', 0, n_act)
            new, r, done, reset = ref.step()
            want.append((obs, n_act, int(r) if c['integer'] else r, new, done,
                         {'needs_reset': True} if reset else {}))
            obs = new
            steps += 1
            length += 1
            over = done or reset or length == c['max_len']
            episodes += over
            stop = (steps if c['by_steps'] else episodes) >= c['count']
            if over or stop:
                tick('stop')
            if stop:
                break
    except Boom:
        raised = True
    with scratch_dir() as d:
        try:
            collect_demonstrations(
                agent, env, c['count'] if c['by_steps'] else None,
                None if c['by_steps'] else c['count'], d,
                max_episode_len=c['max_len'], logger=logger)
            check(not raised, 'the fault was swallowed')
        except Boom as e:
            check(raised and e is clock.raised, 'unexpected {!r}', e)
        eq(clock.log, log, 'calls')
        eq(os.listdir(d), ['demos.pickle'], 'files')
        with chainer.datasets.open_pickle_dataset(
                os.path.join(d, 'demos.pickle')) as ds:
            if not raised:
                eq(len(ds), len(want), 'number of transitions')
                eq([ds[i] for i in range(len(ds))], want, 'transitions')
                for i in reversed(range(0, len(ds), 3)):
                    eq(ds[i], want[i], 'transition in random order')
            else:
                got = [ds[i] for i in range(len(ds))]
                eq(got, want[:len(got)], 'transitions before the fault')
    note.nontrivial(episodes > 1 and len(want) > 2)


@suite.facet(st.fixed_dictionaries({'steps': st.booleans()}), quick=4)
def demonstrations_arguments(case, note):
    """Steps or episodes, exactly one of them."""
    with scratch_dir() as d:
        n = 3 if case['steps'] else None
        with must_raise(AssertionError):
            collect_demonstrations(None, None, n, n, d)
    note.nontrivial(True)


# -------------------------------------------------------- run directories

NAME = st.text('abcdefgXYZ_', min_size=1, max_size=6)
JSON = st.recursive(
    st.one_of(st.none(), st.booleans(), st.integers(-10 ** 12, 10 ** 12),
              floats(-1e6, 1e6, 64), st.text(max_size=8)),
    lambda x: st.one_of(st.lists(x, max_size=3),
                        st.dictionaries(NAME, x, max_size=3)),
    max_leaves=6)


@contextlib.contextmanager
def process_state(cwd, environ, argv, tmp):
    """Working directory, environment, command line, temporary directory."""
    old = os.getcwd(), sys.argv, tempfile.tempdir
    keep = dict(os.environ)
    try:
        os.chdir(cwd)
        os.environ.update(environ)
        sys.argv = argv
        tempfile.tempdir = tmp
        yield
    finally:
        os.chdir(old[0])
        sys.argv, tempfile.tempdir = old[1:]
        for k in set(os.environ) - set(keep):
            del os.environ[k]
        os.environ.update(keep)


def tree(d):
    out = {}
    for root, dirs, files in os.walk(d):
        if '.git' in dirs:
            dirs.remove('.git')     # git status refreshes its index
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, d)] = fh.read()
        for f in dirs:
            out[os.path.relpath(os.path.join(root, f), d) + '/'] = None
    return out


def git(*args):
    return subprocess.run(
        ['git'] + list(args), stdout=subprocess.PIPE, check=True,
        stderr=subprocess.DEVNULL).stdout


ISOLATED = {'GIT_CONFIG_NOSYSTEM': '1', 'GIT_AUTHOR_NAME': 'a',
            'GIT_AUTHOR_EMAIL': 'a@b', 'GIT_COMMITTER_NAME': 'a',
            'GIT_COMMITTER_EMAIL': 'a@b'}


@suite.facet(st.fixed_dictionaries({
    'git': st.sampled_from([False, False, True]),
    'dirty': st.booleans(), 'staged': st.booleans(),
    'subdir': st.booleans(),
    'where': st.sampled_from(['new', 'nested', 'old', 'none', 'relative']),
    'fmt': st.sampled_from([None, None, 'fixed', 'run_%Y', '%Y%m%d',
                            'a-%H']),
    'args': st.dictionaries(NAME, JSON, max_size=4),
    'namespace': st.booleans(),
    'argv': st.one_of(st.none(), st.lists(st.text(
        'abc-=é/.', min_size=1, max_size=8), max_size=4)),
    'environ': st.dictionaries(
        st.text('ABC_', min_size=1, max_size=4).map('PBT_{}'.format),
        st.text('abc é\n"', max_size=8), max_size=3),
    'runs': st.integers(1, 3)}), quick=250, shards=2, max_shrink=20)
def output_dir(case, note):
    c = case
    with scratch_dir() as d:
        d = os.path.realpath(d)
        cwd, tmp, home = (os.path.join(d, n) for n in ('w', 't', 'h'))
        for n in (cwd, tmp, home):
            os.makedirs(n)
        argv = ['program', '--of', 'the process']
        env = dict(ISOLATED, HOME=home, GIT_CEILING_DIRECTORIES=d,
                   **c['environ'])
        with process_state(cwd, env, argv, tmp):
            if c['git']:
                git('init', '-q')
                with open('a.bin', 'wb') as f:
                    f.write(b'\x80 one\n')
                git('add', 'a.bin')
                git('commit', '-qm', 'first \u00e9')
                if c['staged']:
                    with open('a.bin', 'wb') as f:
                        f.write(b'\x82 half\n')
                    git('add', 'a.bin')
                if c['dirty']:
                    with open('a.bin', 'wb') as f:
                        f.write(b'\x81 two\n')
                    with open('untracked', 'w') as f:
                        f.write('x')
                if c['subdir']:
                    os.makedirs('sub/dir')
                    os.chdir('sub/dir')
            check(is_under_git_control() is c['git'], 'under git control')
            target = {'new': os.path.join(d, 'out'), 'none': None,
                      'nested': os.path.join(d, 'o', 'u', 't'),
                      'old': os.path.join(d, 'old'),
                      'relative': os.path.join('..', 'rel')}[c['where']]
            if c['git'] and c['where'] == 'relative':
                # outside the repository, so that its status stays the same
                target = os.path.relpath(os.path.join(d, 'rel'))
            if c['where'] == 'old':
                os.makedirs(target)
                with open(os.path.join(target, 'keep'), 'w') as f:
                    f.write('precious')
            kw = {} if c['fmt'] is None else {'time_format': c['fmt']}
            seen = []
            for i in range(c['runs']):
                args = dict(c['args'], run=i)
                given = argparse.Namespace(**args) if c['namespace'] else \
                    args
                before = tree(d)
                t0 = datetime.datetime.now()
                fixed = c['fmt'] is not None and target is not None and seen
                try:
                    out = prepare_output_dir(
                        given, user_specified_dir=target, argv=c['argv'],
                        **kw)
                except RuntimeError:
                    check(fixed, 'refused without a reason')
                    eq(tree(d), before, 'files after the refusal')
                    continue
                t1 = datetime.datetime.now()
                after = tree(d)
                check(os.path.isdir(out), 'no directory {}', out)
                full = os.path.realpath(out)
                check(full not in seen, 'directory used twice')
                seen.append(full)
                # nothing else was touched
                rel = os.path.relpath(full, d)
                inside = {k[len(rel) + 1:]: v for k, v in after.items()
                          if k.startswith(rel + '/') and k != rel + '/'}
                for k, v in before.items():
                    check(after.get(k, 0) == v, '{} was changed', k)
                for k in set(after) - set(before):
                    check(k.startswith(rel + '/') or rel.startswith(k) or
                          (k.endswith('/') and (rel + '/').startswith(k)),
                          '{} was created', k)
                base = os.path.basename(full)
                parent = os.path.dirname(full)
                fmt = c['fmt'] or '%Y%m%dT%H%M%S.%f'
                if target is not None:
                    eq(parent, os.path.realpath(target), 'parent')
                    if c['fmt'] is None:
                        check(t0 <= datetime.datetime.strptime(base, fmt)
                              <= t1, 'time {}', base)
                    else:
                        check(base in (t0.strftime(fmt), t1.strftime(fmt)),
                              'name {}', base)
                else:
                    eq(parent, os.path.realpath(tmp), 'parent')
                    if c['fmt'] is not None:
                        check(base.startswith((t0.strftime(fmt),
                                               t1.strftime(fmt))),
                              'name {}', base)
                # contents
                files = {'args.txt', 'environ.txt', 'command.txt'}
                if c['git']:
                    files |= {'git-head.txt', 'git-status.txt',
                              'git-log.txt', 'git-diff.txt'}
                eq(set(inside), files, 'files')
                eq(json.loads(inside['args.txt'].decode('utf-8')),
                   json.loads(json.dumps(args)), 'arguments')
                eq(json.loads(inside['environ.txt'].decode('utf-8')),
                   dict(os.environ), 'environment')
                eq(inside['command.txt'].decode(),
                   ' '.join(argv if c['argv'] is None else c['argv']),
                   'command')
                if c['git']:
                    eq(inside['git-head.txt'], git('rev-parse', 'HEAD'),
                       'revision')
                    eq(inside['git-log.txt'], git('log'), 'log')
                    eq(inside['git-diff.txt'], git('diff'), 'diff')
                    check((b'\x81' in inside['git-diff.txt']) == c['dirty'],
                          'diff without the change')
                    eq(inside['git-status.txt'], git('status'), 'status')
                eq(args, dict(c['args'], run=i), 'arguments were changed')
            if target is None or c['fmt'] is None:
                check(len(seen) == c['runs'], '{} directories', len(seen))
            elif c['fmt'] == 'fixed':
                check(len(seen) == 1, '{} directories', len(seen))
    note.nontrivial(c['git'] or c['runs'] > 1)


@suite.facet(st.fixed_dictionaries({'link': st.booleans()}), quick=6)
def output_dir_is_a_file(case, note):
    with scratch_dir() as d:
        p = os.path.join(d, 'f')
        with open(p, 'w') as f:
            f.write('precious')
        if case['link']:
            os.symlink(p, os.path.join(d, 'l'))
            p = os.path.join(d, 'l')
        before = tree(d)
        with must_raise(RuntimeError):
            prepare_output_dir({}, user_specified_dir=p, argv=['x'])
        eq(tree(d), before, 'files')
    note.nontrivial(True)


# ----------------------------------------------------- environment modifiers

class Plain(env_mod.Env):
    """One long stream; counts and records everything."""

    def __init__(self, script):
        self.script = script
        self.k = 0
        self.log = []

    def step(self, action):
        r, done, _ = unpack(self.script[self.k % len(self.script)])
        self.k += 1
        self.log.append(('step', action))
        return self.k, r, done, {'k': self.k}

    def reset(self):
        self.log.append(('reset',))
        return -self.k

    def render(self, *args, **kwargs):
        self.log.append(('render', args, kwargs))

    def close(self):
        self.log.append(('close',))


MODS = st.one_of(
    st.tuples(st.just('limit'), st.integers(1, 5)),
    st.tuples(st.just('action'), st.integers(1, 3)),
    st.tuples(st.just('reward'), st.integers(2, 3)),
    st.tuples(st.just('clip'), floats(-3, 0)),
    st.tuples(st.just('repeat'), st.integers(1, 4)),
    st.tuples(st.just('render'), st.integers(0, 2))).map(list)


class Ref(object):
    """The stack of modifiers, one layer at a time."""

    def __init__(self, env, mods):
        self.env, self.mods = env, mods
        self.t = [0] * len(mods)

    def step(self, a, level=None):
        level = len(self.mods) if level is None else level
        if level == 0:
            return self.env.step(a)
        kind, arg = self.mods[level - 1]
        if kind == 'action':
            return self.step(a + 10 * arg, level - 1)
        if kind == 'repeat':
            total = 0
            for _ in range(arg):
                o, r, d, i = self.step(a, level - 1)
                total += r
                if d:
                    break
            return o, total, d, i
        o, r, d, i = self.step(a, level - 1)
        if kind == 'limit':
            self.t[level - 1] += 1
            d = d or self.t[level - 1] >= arg
        elif kind == 'reward':
            r = arg * r + 1
        elif kind == 'clip':
            r = min(max(r, arg), 1)
        elif kind == 'render':
            self.env.render(*['x'] * arg, mode=arg)
        return o, r, d, i

    def reset(self):
        self.t = [0] * len(self.mods)
        return self.env.reset()

    def close(self):
        for kind, arg in reversed(self.mods):
            if kind == 'render':
                self.env.render(*['x'] * arg, close=True, mode=arg)
        self.env.close()


@suite.facet(st.fixed_dictionaries({
    'script': SCRIPT, 'mods': st.lists(MODS, min_size=1, max_size=4),
    'ops': sized(st.sampled_from(['step'] * 6 + ['reset']), 1, 25)}),
    quick=3000)
def modifiers(case, note):
    c = case
    mods = [list(m) for m in c['mods']]
    env, plain = Plain(c['script']), Plain(c['script'])
    ref = Ref(plain, mods)
    for kind, arg in mods:
        if kind == 'limit':
            env_modifiers.make_timestep_limited(env, arg)
        elif kind == 'action':
            env_modifiers.make_action_filtered(
                env, lambda a, n=arg: a + 10 * n)
        elif kind == 'reward':
            env_modifiers.make_reward_filtered(
                env, lambda r, n=arg: n * r + 1)
        elif kind == 'clip':
            env_modifiers.make_reward_clipped(env, arg, 1)
        elif kind == 'repeat':
            env_modifiers.make_action_repeated(env, arg)
        else:
            env_modifiers.make_rendered(env, *['x'] * arg, mode=arg)
    eq(env.reset(), ref.reset(), 'first observation')
    for i, op in enumerate(c['ops']):
        if op == 'reset':
            eq(env.reset(), ref.reset(), 'observation after reset')
            continue
        o, r, d, info = env.step(i)
        o2, r2, d2, info2 = ref.step(i)
        eq((o, bool(d), info), (o2, bool(d2), info2), 'step {}'.format(i))
        close(r, r2, 'reward', rtol=1e-9, atol=1e-9)
    env.close()
    ref.close()
    eq(env.log, plain.log, 'calls of the environment')
    note.nontrivial(len(mods) > 1 and len(c['ops']) > 2)


# --------------------------------------------------------- reward filters

@suite.facet(st.fixed_dictionaries({
    'tau': floats(0.0009765625, 1), 'normalized': st.booleans(),
    'scale': floats(0.125, 4), 'eps': floats(0.0009765625, 1),
    'default': st.booleans(),
    'rewards': sized(st.one_of(st.just(0.0), floats(-9, 9)), 1, 20)}),
    quick=1500)
def reward_filters(case, note):
    """Exponential averages; the variance has a floor."""
    c = case
    tau, scale, eps = c['tau'], c['scale'], c['eps']
    if c['default']:
        tau, scale, eps = 1e-3, 1, 1e-1
    kw = {} if c['default'] else {'tau': tau}
    if c['normalized']:
        if not c['default']:
            kw.update(scale=scale, eps=eps)
        flt = NormalizedRewardFilter(**kw)
    else:
        flt = AverageRewardFilter(**kw)
    m = m2 = 0.0
    for i, r in enumerate(c['rewards']):
        m = (1 - tau) * m + tau * r
        m2 = (1 - tau) * m2 + tau * r * r
        want = r - m
        if c['normalized']:
            want = scale * want / np.sqrt(max(m2 - m * m, eps))
        close(flt(r), want, 'reward {}'.format(i), rtol=1e-6, atol=1e-7)
    note.nontrivial(len(c['rewards']) > 1)


# ------------------------------------------------------------- utilities

@suite.facet(st.fixed_dictionaries({
    'answers': st.lists(st.sampled_from(
        ['y', 'Y', 'ye', 'yEs', 'n', 'N', 'No', '', 'yep', 'nope', ' ',
         '?', 'on', 'yn']), max_size=6),
    'last': st.sampled_from(['y', 'yes', 'YE', 'n', 'NO']),
    'question': st.text('abc? ', max_size=8)}), quick=500)
def yes_no(case, note):
    """Asks again until it gets an answer, and returns that answer."""
    answers = list(case['answers']) + [case['last']]
    asked = []

    def answer(prompt=''):
        check(len(asked) < len(answers), 'asked again after an answer')
        asked.append(prompt)
        return answers[len(asked) - 1]
    keep = builtins.input
    builtins.input = answer
    try:
        got = ask_yes_no(case['question'])
    finally:
        builtins.input = keep
    want, n = None, 0
    for n, a in enumerate(answers, 1):
        if a.lower() in ('y', 'ye', 'yes', 'n', 'no'):
            want = a.lower()[0] == 'y'
            break
    check(got is want, 'answer {} to {}', got, answers)
    eq(len(asked), n, 'questions')
    check(all(case['question'] in q for q in asked), 'prompt {}', asked)
    note.nontrivial(n > 1)


@suite.facet(st.fixed_dictionaries({
    'code': st.one_of(st.just(0), st.integers(0, 255), st.just('missing'),
                      st.just('signal'), st.just('not executable')),
    'noise': st.booleans()}), quick=150)
def return_code(case, note):
    c = case
    say = 'echo out; echo err >&2; ' if c['noise'] else ''
    with scratch_dir() as d:
        if c['code'] == 'missing':
            args = [os.path.join(d, 'no-such-command')]
        elif c['code'] == 'not executable':
            args = [os.path.join(d, 'file')]
            with open(args[0], 'w') as f:
                f.write('x')
        elif c['code'] == 'signal':
            args = ['sh', '-c', say + 'kill -9 $$']
        else:
            args = ['sh', '-c', say + 'exit {}'.format(c['code'])]
        # catch what is written to the real descriptors
        path = os.path.join(d, 'shown')
        sys.stdout.flush()
        sys.stderr.flush()
        keep = os.dup(1), os.dup(2)
        with open(path, 'wb') as f:
            os.dup2(f.fileno(), 1)
            os.dup2(f.fileno(), 2)
            try:
                got = is_return_code_zero(args)
            finally:
                os.dup2(keep[0], 1)
                os.dup2(keep[1], 2)
                os.close(keep[0])
                os.close(keep[1])
        with open(path, 'rb') as f:
            eq(f.read(), b'', 'output')
    check(got is (c['code'] == 0), '{} for {}', got, c['code'])
    note.nontrivial(c['code'] != 0)


OUTPUT = st.recursive(
    st.sampled_from(['variable', 'discrete', 'quadratic', 'softmax',
                     'gaussian', 'quantile']),
    lambda x: st.lists(x, min_size=1, max_size=3), max_leaves=5)


@suite.facet(st.fixed_dictionaries({'out': OUTPUT, 'seed': SEED}), quick=200)
def graph(case, note):
    """The DOT file holds the graph of every output given."""
    r = rng(case['seed'])
    roots, kinds = [], []

    def var(*shape):
        x = chainer.Variable(r.uniform(0.5, 1, shape).astype('f'),
                             name='v{}'.format(len(roots)))
        roots.append(x.name)
        return x * 2

    def make(o):
        if isinstance(o, list):
            x = [make(i) for i in o]
            return tuple(x) if len(x) % 2 else x
        kinds.append(o)
        if o == 'variable':
            return F.sum(var(2))
        if o == 'discrete':
            return action_value.DiscreteActionValue(var(2, 3))
        if o == 'quantile':
            return action_value.QuantileDiscreteActionValue(var(2, 4, 3))
        if o == 'quadratic':
            return action_value.QuadraticActionValue(
                var(2, 2), var(2, 2, 2), var(2, 1))
        if o == 'softmax':
            return distribution.SoftmaxDistribution(var(2, 3))
        return distribution.GaussianDistribution(var(2, 2), var(2, 2))
    out = make(case['out'])
    with scratch_dir() as d, quiet_stdout():
        p = os.path.join(d, 'graph')
        draw_computational_graph(out, p)
        check('graph.gv' in os.listdir(d) and
              set(os.listdir(d)) <= {'graph.gv', 'graph.png'},
              'files {}', os.listdir(d))
        with open(p + '.gv') as f:
            text = f.read()
    check(text.lstrip().startswith('digraph') and
          text.rstrip().endswith('}'), 'not a DOT file')
    labels = re.findall(r'label="(v\d+)[:"]', text)
    eq(sorted(labels), sorted(roots), 'inputs in the graph')
    note.nontrivial(len(kinds) > 1)
