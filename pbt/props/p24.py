"""P24: the serial training loop."""
import logging
import os

from hypothesis import strategies as st

from chainerrl import experiments
from chainerrl.experiments.train_agent import train_agent

from pbt import loops
from pbt.core import Suite, check, close, eq, scratch_dir
from pbt.gen import floats

suite = Suite(
    'P24',
    'two episodes or more, or a fault that was reached',
    ['The environment and agent are scripted; files go to a scratch '
     'directory'])

logger = logging.getLogger('quiet')
logger.setLevel(logging.CRITICAL + 1)

BASE = {
    'script': loops.SCRIPT, 'steps': st.integers(0, 30),
    'offset': st.one_of(st.just(0), st.integers(0, 25)),
    'max_len': st.one_of(st.none(), st.integers(1, 6)),
    'freq': st.one_of(st.none(), st.integers(1, 9)),
    'hooks': st.integers(0, 2), 'with_t': st.booleans(),
    'fault': st.one_of(st.none(), st.tuples(
        st.sampled_from(['reset', 'step', 'act_and_train', 'stop_and_train',
                         'hook']),
        st.integers(0, 25), st.booleans()).map(list)),
}


class Reference(object):
    """The loop as documented, ahead of the real one."""

    def __init__(self, case, clock, evaluator=None):
        self.clock = clock
        self.saves = []
        self.hooks = []
        self.c = case
        self.t = case['offset']
        self.acts = 0
        self.final_t = None
        self.evaluator = evaluator
        self.episodes = 0
        self.stop_reason = None

    def save(self, suffix, optional=False):
        self.saves.append(('{}{}'.format(self.t, suffix), self.acts,
                           optional))

    def run(self):
        env = loops.RefEnv(self.c['script'])
        tick = self.clock.tick
        tick('reset', 0)
        obs, r, n = env.reset(), 0, 0
        c = self.c
        if c['offset'] >= c['steps']:
            self.save('_finish')
            return
        try:
            while True:
                tick('act_and_train', obs, r)
                self.acts += 1
                tick('step', 0, self.acts)
                obs, r, done, reset = env.step()
                self.t += 1
                n += 1
                for h in range(c['hooks']):
                    tick('hook', h, self.t, self.acts)
                last = self.t == c['steps']
                if done or reset or n == c['max_len'] or last:
                    tick('stop_and_train', obs, r, done)
                    self.episodes += 1
                    if self.evaluator and self.evaluator(
                            self.t, self.episodes):
                        break
                    if last:
                        break
                    tick('reset', 0)
                    obs, r, n = env.reset(), 0, 0
                if c['freq'] and self.t % c['freq'] == 0:
                    self.save('_checkpoint')
        except (loops.Boom, KeyboardInterrupt):
            self.save('_except')
            raise
        if c['freq'] and self.t % c['freq'] == 0:
            self.save('_checkpoint', optional=True)
        self.save('_finish')


def run_both(case, note, real, ref):
    """Runs the loop and its reference with the same fault; compares."""
    want = None
    rc = ref.clock
    try:
        ref.run()
    except (loops.Boom, KeyboardInterrupt) as e:
        want = e
    with scratch_dir() as d:
        clock = loops.Clock(case['fault'])
        env = loops.Env(case['script'], clock)
        agent = loops.Agent(clock, case['with_t'])
        hooks = []
        for h in range(case['hooks']):
            def hook(e, a, t, h=h):
                check(e is env and a is agent, 'hook called with {} {}', e, a)
                clock.tick('hook', h, int(t), agent.actions)
            hooks.append(hook)
        try:
            real(d, env, agent, hooks)
        except (loops.Boom, KeyboardInterrupt) as e:
            check(want is not None and e is clock.raised,
                  'raised {!r}, the fault was {!r}', e, clock.raised)
        else:
            check(want is None, 'the fault {} was swallowed', case['fault'])

        def split(log):
            hooks = [x for x in log if x[0] == 'hook']
            return [x for x in log if x[0] != 'hook'], hooks
        for g, w, name in zip(split(clock.log), split(rc.log),
                              ('calls', 'hook calls')):
            for i, (a, b) in enumerate(zip(g, w)):
                check(a == b, '{} number {}: {} expected {}', name, i, a, b)
            check(len(g) == len(w), '{} {}, expected {}: {}', len(g), name,
                  len(w), (g + w)[min(len(g), len(w)):][:3])
        if case['with_t'] and not (want and case['fault'][0] == 'reset'
                                   and case['fault'][1] == 0):
            eq(agent.t, case['offset'], 'agent.t')
        # saves
        got = [s for s in agent.saves if s[0] != 'best']
        for name, where, acts in got:
            check(os.path.realpath(where) == os.path.realpath(d),
                  'saved in {}', where)
        got = [(n, a) for n, _, a in got]
        must = [(n, a) for n, a, opt in ref.saves if not opt]
        may = [(n, a) for n, a, _ in ref.saves]
        check(got in (must, may), 'saved {} (with the number of actions '
              'taken), expected {}', got, must)
        names = set(os.listdir(d)) - {'scores.txt', 'best'}
        check(names == {n for n, _ in got}, 'directory has {}', names)
        note.nontrivial(rc.n('stop_and_train') > 1 or want is not None)
        if want is not None:
            note.label('fault in ' + case['fault'][0])
        return agent, d


@suite.facet(st.fixed_dictionaries(BASE), quick=2500, shards=4)
def loop(case, note):
    def real(d, env, agent, hooks):
        train_agent(agent, env, case['steps'], d,
                    checkpoint_freq=case['freq'],
                    max_episode_len=case['max_len'],
                    step_offset=case['offset'], step_hooks=hooks,
                    logger=logger)
    run_both(case, note, real, Reference(
        case, loops.Clock(case['fault'])))


@suite.facet(st.fixed_dictionaries(dict(
    BASE, eval_script=loops.SCRIPT, interval=st.integers(1, 12),
    n_steps=st.one_of(st.none(), st.integers(1, 8)),
    n_episodes=st.integers(1, 3), eval_max=st.one_of(
        st.none(), st.integers(1, 5)),
    success=st.one_of(st.none(), floats(-6, 6)),
    own_env=st.booleans(), best=st.booleans())), quick=1500, shards=4)
def with_evaluation(case, note):
    """train_agent_with_evaluation: the whole of both histories."""
    c = case
    n_eps = None if c['n_steps'] is not None else c['n_episodes']
    max_len = c['eval_max'] if c['eval_max'] is not None else c['max_len']
    if n_eps is not None and max_len is None and all(
            s[1] < 5 for s in c['eval_script']):
        c = dict(c, eval_max=4)
        max_len = 4
    clock = loops.Clock(c['fault'])
    ref = Reference(c, clock)
    eenv = loops.RefEnv(c['eval_script'], 7)
    rows = []
    state = {'prev': c['offset'] - c['offset'] % c['interval'],
             'best': None, 'bests': []}

    def evaluator(t, episodes):
        if t >= state['prev'] + c['interval']:
            eps, rest, n = loops.ref_evaluation(
                eenv, c['n_steps'], n_eps, max_len)
            scores = [e[0] for e in eps] or [rest[0]]
            mean = sum(scores) / len(scores)
            rows.append((t, episodes, mean, n))
            state['prev'] = t - t % c['interval']
            if state['best'] is None or mean > state['best']:
                state['best'] = mean
                state['bests'].append(ref.acts)
        return c['success'] is not None and state['best'] is not None \
            and state['best'] >= c['success']
    ref.evaluator = evaluator
    evals = loops.Clock()
    seen = {}

    def real(d, env, agent, hooks):
        # the evaluation has a log of its own
        own = loops.Env(c['eval_script'], evals, 'eval_', 7)
        agent.act = lambda obs: (evals.tick('act', obs), -1)[1]
        agent.stop_episode = lambda: evals.tick('stop')
        try:
            experiments.train_agent_with_evaluation(
                agent, env, c['steps'], c['n_steps'], n_eps, c['interval'],
                d, checkpoint_freq=c['freq'],
                train_max_episode_len=c['max_len'],
                eval_max_episode_len=c['eval_max'],
                step_offset=c['offset'], eval_env=own,
                successful_score=c['success'], step_hooks=hooks,
                save_best_so_far_agent=c['best'], logger=logger)
        finally:
            seen['scores'] = loops.read_scores(d)
            seen['bests'] = [a for n, _, a in agent.saves if n == 'best']
    run_both(c, note, real, ref)
    got = seen['scores'][1:]
    eq([(int(x[0]), int(x[1])) for x in got], [r[:2] for r in rows],
       'steps and episodes of evaluations')
    close([float(x[3]) for x in got], [r[2] for r in rows], 'mean returns')
    check(len([x for x in evals.log if x[0] == 'act'])
          == sum(r[3] for r in rows), 'number of evaluation steps')
    eq(seen['bests'], state['bests'] if c['best'] else [],
       'actions taken when the best agent was saved')
    if rows:
        note.label('evaluated')
    if c['success'] is not None and ref.t < c['steps'] and not clock.raised:
        note.label('stopped by success')


@suite.facet(st.fixed_dictionaries({
    'script': loops.SCRIPT, 'steps': st.integers(1, 25),
    'interval': st.integers(1, 8), 'n_episodes': st.integers(1, 3),
    'max_len': st.integers(1, 6)}), quick=500)
def shared_env(case, note):
    """Without an evaluation environment the training one is used, between
    episodes."""
    with scratch_dir() as d:
        clock = loops.Clock()
        env = loops.Env(case['script'], clock)
        agent = loops.Agent(clock)
        experiments.train_agent_with_evaluation(
            agent, env, case['steps'], None, case['n_episodes'],
            case['interval'], d, train_max_episode_len=case['max_len'],
            logger=logger)
        ref = loops.RefEnv(case['script'])
        want, t, prev, k, evals = [], 0, 0, 0, 0
        while t < case['steps']:
            want.append(('reset', 0))
            obs, r, n, end = ref.reset(), 0, 0, False
            while not end:
                want.append(('act_and_train', obs, r))
                t += 1
                n += 1
                want.append(('step', 0, t))
                obs, r, done, reset = ref.step()
                end = done or reset or n == case['max_len'] or \
                    t == case['steps']
            want.append(('stop_and_train', obs, r, done))
            if t >= prev + case['interval']:
                prev = t - t % case['interval']
                evals += 1
                for _ in range(case['n_episodes']):
                    want.append(('reset', 0))
                    obs, n, end = ref.reset(), 0, False
                    while not end:
                        want.append(('act', obs))
                        want.append(('step', 0, -1))
                        obs, r, done, reset = ref.step()
                        n += 1
                        end = done or reset or n == case['max_len']
                    want.append(('stop',))
        for i, (a, b) in enumerate(zip(clock.log, want)):
            check(a == b, 'call {}: {} expected {}', i, a, b)
        check(len(clock.log) == len(want), '{} calls, expected {}',
              len(clock.log), len(want))
        note.nontrivial(evals > 0)
