"""P25: the batch training loop."""
import logging
import os

from hypothesis import strategies as st

from chainerrl import experiments
from chainerrl.experiments.train_agent_batch import train_agent_batch

from pbt import loops
from pbt.core import Suite, check, close, eq, scratch_dir
from pbt.gen import floats

suite = Suite(
    'P25',
    'several environments whose episodes end at different times, or a fault '
    'that was reached',
    ['Environments and agent are scripted; evaluation has an environment of '
     'its own (with a shared one it disturbs training: known finding)'])

logger = logging.getLogger('quiet')
logger.setLevel(logging.CRITICAL + 1)
chatty = logging.getLogger('chatty')
chatty.propagate = False
chatty.setLevel(logging.DEBUG)


class Lines(logging.Handler):

    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


BASE = {
    'scripts': st.lists(loops.SCRIPT, min_size=1, max_size=4),
    'more': st.integers(1, 40), 'offset': st.one_of(
        st.just(0), st.integers(0, 25)),
    'max_len': st.one_of(st.none(), st.integers(1, 6)),
    'freq': st.one_of(st.none(), st.integers(1, 9)),
    'log': st.one_of(st.none(), st.integers(1, 9)),
    'hooks': st.integers(0, 2), 'with_t': st.booleans(),
    'window': st.sampled_from([1, 3, 100]),
    'fault': st.one_of(st.none(), st.tuples(
        st.sampled_from(['reset', 'step', 'batch_act_and_train',
                         'batch_observe_and_train', 'hook']),
        st.integers(0, 15), st.booleans()).map(list)),
}


class Reference(object):

    def __init__(self, case, evaluator=None):
        self.c = case
        self.clock = loops.Clock(case['fault'])
        self.envs = [loops.RefEnv(s, i)
                     for i, s in enumerate(case['scripts'])]
        self.saves = []
        self.t = case['offset']
        self.acts = 0
        self.evaluator = evaluator
        self.episodes = 0
        self.ends = set()
        self.returns = []
        self.logs = []

    def save(self, suffix):
        self.saves.append(('{}{}'.format(self.t, suffix), self.acts))

    def run(self):
        c, tick, N = self.c, self.clock.tick, len(self.envs)
        steps = c['offset'] + c['more']
        tick('reset', [False] * N)
        obs = [e.reset() for e in self.envs]
        rets = [0.0] * N
        try:
            while True:
                tick('batch_act_and_train', obs)
                acts = [self.acts + i + 1 for i in range(N)]
                self.acts += N
                tick('step', acts)
                out = [e.step() for e in self.envs]
                obs = [o[0] for o in out]
                dones = [o[2] for o in out]
                resets = [o[3] or e.t == c['max_len']
                          for o, e in zip(out, self.envs)]
                tick('batch_observe_and_train', obs, [o[1] for o in out],
                     dones, resets)
                end = [d or r for d, r in zip(dones, resets)]
                for i in range(N):
                    rets[i] += out[i][1]
                    if end[i]:
                        self.returns.append(rets[i])
                        rets[i] = 0.0
                self.episodes += sum(end)
                self.ends.add(tuple(end))
                for _ in range(N):
                    self.t += 1
                    if c['freq'] and self.t % c['freq'] == 0:
                        self.save('_checkpoint')
                    for h in range(c['hooks']):
                        tick('hook', h, self.t, self.acts)
                if self.evaluator and self.evaluator(self.t, self.episodes):
                    break
                if self.t >= steps:
                    break
                tick('reset', [not e for e in end])
                obs = [e.reset() if x else o
                       for e, x, o in zip(self.envs, end, obs)]
        except (loops.Boom, KeyboardInterrupt):
            self.save('_except')
            raise
        self.save('_finish')


def run_both(case, note, real, ref, eval_env=False):
    want = None
    rc = ref.clock
    try:
        ref.run()
    except (loops.Boom, KeyboardInterrupt) as e:
        want = e
    with scratch_dir() as d:
        clock = loops.Clock(case['fault'])
        env = loops.VectorEnv(case['scripts'], clock)
        agent = loops.Agent(clock, case['with_t'])
        hooks = []
        for h in range(case['hooks']):
            def hook(e, a, t, h=h):
                check(e is env and a is agent, 'hook called with {} {}', e, a)
                clock.tick('hook', h, int(t), agent.actions)
            hooks.append(hook)
        try:
            real(d, env, agent, hooks)
        except (loops.Boom, KeyboardInterrupt) as e:
            check(want is not None and e is clock.raised,
                  'raised {!r}, the fault was {!r}', e, clock.raised)
        else:
            check(want is None, 'the fault {} was swallowed', case['fault'])
        early = want is not None and case['fault'][0] == 'reset' and \
            case['fault'][1] == 0
        # the environment is closed when training fails
        n_close = sum(x[0] == 'close' for x in clock.log)
        check(n_close == (1 if want is not None and not early else 0),
              'environment closed {} times', n_close)

        def split(log):
            return ([x for x in log if x[0] not in ('hook', 'close')],
                    [x for x in log if x[0] == 'hook'])
        for g, w, name in zip(split(clock.log), split(rc.log),
                              ('calls', 'hook calls')):
            for i, (a, b) in enumerate(zip(g, w)):
                check(a == b, '{} number {}: {} expected {}', name, i, a, b)
            check(len(g) == len(w), '{} {}, expected {}: {}', len(g), name,
                  len(w), (g + w)[min(len(g), len(w)):][:3])
        if case['with_t'] and not early:
            eq(agent.t, case['offset'], 'agent.t')
        got = [s for s in agent.saves if s[0] != 'best']
        for name, where, acts in got:
            check(os.path.realpath(where) == os.path.realpath(d),
                  'saved in {}', where)
        eq([(n, a) for n, _, a in got], ref.saves,
           'saves (with the number of actions taken)')
        note.nontrivial(want is not None or (
            len(case['scripts']) > 1
            and any(any(e) and not all(e) for e in ref.ends)))
        if want is not None:
            note.label('fault in ' + case['fault'][0])


@suite.facet(st.fixed_dictionaries(BASE), quick=2000, shards=4)
def loop(case, note):
    lines = Lines()
    chatty.handlers = [lines]
    ref = Reference(case)

    def real(d, env, agent, hooks):
        import logging as lg
        old = lg.root.manager.disable
        lg.disable(lg.NOTSET)
        try:
            train_agent_batch(
                agent, env, case['offset'] + case['more'], d,
                checkpoint_freq=case['freq'], log_interval=case['log'],
                max_episode_len=case['max_len'], step_offset=case['offset'],
                step_hooks=hooks, return_window_size=case['window'],
                logger=chatty)
        finally:
            lg.disable(old)
    run_both(case, note, real, ref)
    # the last progress line of a run that ended in a logged iteration
    n = len(case['scripts'])
    if case['log'] and not ref.clock.raised and ref.t >= case['log'] and \
            ref.t % case['log'] < n:
        last = [l for l in lines.lines if 'average_R' in l]
        check(last, 'no progress was logged')
        words = dict(w.split(':') for w in
                     last[-1].replace(': ', ':').split() if w.count(':') == 1)
        eq(int(words['step']), ref.t, 'logged step')
        eq(int(words['episode']), ref.episodes, 'logged episodes')
        recent = ref.returns[-case['window']:]
        if recent:
            close(float(words['last_R']), recent[-1], 'logged return')
            close(float(words['average_R']), sum(recent) / len(recent),
                  'logged average return', rtol=1e-3)
        note.label('logged')


@suite.facet(st.fixed_dictionaries(dict(
    BASE, eval_scripts=st.lists(loops.SCRIPT, min_size=1, max_size=2),
    interval=st.integers(1, 15), vector=st.booleans(),
    n_episodes=st.integers(1, 3), eval_max=st.integers(1, 5),
    default_max=st.booleans(),
    success=st.one_of(st.none(), st.just(0.0), floats(-6, 6)),
    best=st.booleans())), quick=1500, shards=4)
def with_evaluation(case, note):
    """train_agent_batch_with_evaluation; a serial evaluation environment."""
    c = case
    max_len = c['eval_max']
    if c['default_max'] and c['max_len'] is not None:
        max_len = c['max_len']
    rows, state = [], {'prev': c['offset'] - c['offset'] % c['interval'],
                       'best': None, 'bests': []}
    eenv = loops.RefEnv(c['eval_scripts'][0], 7)
    ref = Reference(c)

    def evaluator(t, episodes):
        if t < state['prev'] + c['interval']:
            return False
        eps, _, n = loops.ref_evaluation(eenv, None, c['n_episodes'],
                                         max_len)
        mean = sum(e[0] for e in eps) / len(eps)
        rows.append((t, episodes, mean, n))
        state['prev'] = t - t % c['interval']
        if state['best'] is None or mean > state['best']:
            state['best'] = mean
            state['bests'].append(ref.acts)
        return c['success'] is not None and state['best'] >= c['success']
    ref.evaluator = evaluator
    evals = loops.Clock()
    seen = {}

    def real(d, env, agent, hooks):
        own = loops.Env(c['eval_scripts'][0], evals, 'eval_', 7)
        agent.act = lambda obs: (evals.tick('act', obs), -1)[1]
        agent.stop_episode = lambda: evals.tick('stop')
        try:
            experiments.train_agent_batch_with_evaluation(
                agent, env, c['offset'] + c['more'], None, c['n_episodes'],
                c['interval'], d, checkpoint_freq=c['freq'],
                max_episode_len=c['max_len'],
                eval_max_episode_len=None if max_len == c['max_len']
                else c['eval_max'],
                step_offset=c['offset'], eval_env=own,
                log_interval=c['log'],
                return_window_size=c['window'],
                successful_score=c['success'], step_hooks=hooks,
                save_best_so_far_agent=c['best'], logger=logger)
        finally:
            seen['scores'] = loops.read_scores(d)
            seen['bests'] = [a for n, _, a in agent.saves if n == 'best']
            seen['closed'] = own.closed
    run_both(c, note, real, ref)
    got = seen['scores'][1:]
    eq([(int(x[0]), int(x[1])) for x in got], [r[:2] for r in rows],
       'steps and episodes of evaluations')
    close([float(x[3]) for x in got], [r[2] for r in rows], 'mean returns')
    eq(seen['bests'], state['bests'] if c['best'] else [],
       'actions taken when the best agent was saved')
    failed = ref.clock.raised is not None and ref.saves != []
    eq(seen['closed'], 1 if failed else 0,
       'times the evaluation environment was closed')
    if rows:
        note.label('evaluated')
    if ref.t < c['offset'] + c['more'] and not ref.clock.raised:
        note.label('stopped by success')


@suite.probe
def shared_env():
    """Evaluation in the environment of training."""
    with scratch_dir() as d:
        clock = loops.Clock()
        env = loops.VectorEnv([[[1.0, 0]] * 3 + [[1.0, 5]]], clock)
        agent = loops.Agent(clock)
        experiments.train_agent_batch_with_evaluation(
            agent, env, 4, None, 1, 2, d, logger=logger)
    observed = [x for x in clock.log if x[0] == 'batch_observe_and_train']
    acted = [x for x in clock.log if x[0] == 'batch_act_and_train']
    # the episode is neither over nor cut after step 2, so that the next
    # action is for the same observation
    check(acted[2][1] == observed[1][1],
          'acts on {} after observing {}', acted[2][1], observed[1][1])
