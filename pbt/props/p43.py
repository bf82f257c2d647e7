"""P43: evaluation leaves no trace in training."""
import random

from hypothesis import strategies as st
import numpy as np

from pbt import zoo
from pbt.core import Suite, check, eq, seed_all
from pbt.gen import sized

suite = Suite(
    'P43',
    'evaluation took place before and between updates',
    ['The state of the random number generators is put back after each '
     'evaluation: that the same generators are used is not a trace',
     'The statistic average_q is left out: some agents count evaluation in',
     'Agents that are stepped one environment at a time are evaluated '
     'between episodes, as the training loops do'])


def randomness():
    return np.random.get_state(), random.getstate()


def put_back(state):
    np.random.set_state(state[0])
    random.setstate(state[1])


class Driver(zoo.Driver):
    """Evaluates wherever training loops may."""

    def __init__(self, z, seed, evals):
        self.evals, self.n, self.k = evals, 0, 0
        super().__init__(z, seed)
        self.evaluation()

    def evaluation(self):
        kind, steps = self.evals[self.k % len(self.evals)]
        self.k += 1
        if kind == 0:
            return
        z, ag = self.z, self.z.agent
        r = np.random.RandomState(self.k)
        state = randomness()
        # other numbers are drawn in an evaluation
        seed_all(self.k)
        for j in range(steps):
            if kind == 1 or not (z.batch and hasattr(ag, 'batch_act')):
                ag.act(r.uniform(-3, 3, zoo.OBS).astype('f'))
            else:
                # (evaluation may use another number of environments)
                m = z.n_envs
                ag.batch_act([r.uniform(-3, 3, zoo.OBS).astype('f')
                              for _ in range(m)])
                if kind == 3 and hasattr(ag, 'batch_observe'):
                    ag.batch_observe(
                        [r.uniform(-3, 3, zoo.OBS).astype('f')
                         for _ in range(m)], [9.0] * m,
                        [j % 2 == 0] * m, [False] * m)
            self.n += 1
        ag.stop_episode()
        put_back(state)

    def finish(self, done):
        super().finish(done)
        self.evaluation()

    def play_batch(self, reward, end, j):
        super().play_batch(reward, end, j)
        self.evaluation()


def statistics(ag):
    # (average_q is the mean over all states acted on, also in evaluation)
    return [(n, float(v)) for n, v in ag.get_statistics()
            if n != 'average_q']


def play(case, evals):
    seed_all(case['seed'])
    z = zoo.Zoo(case, case['seed'])
    d = Driver(z, case['seed'] + 5, evals)
    k = len(case['steps']) // 2
    d.play(case['steps'][:k])
    d.end_all()
    d.evaluation()
    d.play(case['steps'][k:])
    d.end_all()
    return z, d


def no_trace(case, note):
    kind = case['kind']
    z, d = play(case, case['evals'])
    z2, d2 = play(case, [[0, 0]])
    eq(d.actions, d2.actions, '{}: actions in training with and without '
       'evaluation'.format(kind))
    diff = zoo.diff_states(z.state(), z2.state())
    check(diff is None, '{}: with and without evaluation: {}', kind, diff)
    a, b = statistics(z.agent), statistics(z2.agent)
    check(np.array_equal([x[1] for x in a], [x[1] for x in b],
                         equal_nan=True),
          '{}: statistics with and without evaluation: {} {}', kind, a, b)
    if z.buffer is not None:
        eq(len(z.buffer), len(z2.buffer), '{}: transitions'.format(kind))
    note.label('batch' if z.batch else 'serial')
    if z.rec:
        note.label('recurrent')
    note.nontrivial(d.n > 1 and any(z.updated().values()))


# [kind, steps]: 0 none, 1 one environment, 2 several, 3 several and ends
EVALS = sized(st.tuples(st.integers(0, 3), st.integers(1, 3)).map(list), 1, 6)


def strategy(kind):
    return st.tuples(zoo.case_strategy([kind], 4, 20), EVALS).map(
        lambda x: dict(x[0], evals=x[1]))


for _k in zoo.KINDS:
    suite.add('evaluated_' + _k, strategy(_k), no_trace, quick=12)
