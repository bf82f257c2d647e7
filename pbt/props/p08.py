"""P08: update and synchronisation schedules of replay-based agents."""
from hypothesis import strategies as st

from pbt import agents as A
from pbt.core import Suite, must_raise
from pbt.offpolicy import SERIAL_OPS, Session, batch_ops, config
from pbt.props import p15

suite = Suite(
    'P08',
    'at least two updates and one later target synchronisation happened, '
    'after at least one step at which no update was due',
    ['an update is a call of Optimizer.update', 'the replay buffer holds '
     'what P09 says (its size is predicted by a twin buffer)'])


def run(case, note, batch):
    s = Session(case, case['n_envs'] if batch else None)
    if batch:
        s.run_batch(case['ops'], False, True)
    else:
        s.run_serial(case['ops'], False, True)
    note.label(s.kind, 'recurrent' if s.rec else 'flat')
    if s.burn:
        note.label('burnin')
    note.nontrivial(s.n_rounds >= 2 and s.n_syncs >= 1
                    and s.n_rounds < s.n_env_steps * max(
                        1, case['n_times']))


def with_ops(kinds, ops):
    return st.tuples(config(kinds), ops).map(
        lambda x: dict(x[0], ops=x[1]))


def with_batch_ops(kinds):
    return st.integers(1, 3).flatmap(
        lambda n: st.tuples(config(kinds), batch_ops(n)).map(
            lambda x: dict(x[0], ops=x[1], n_envs=n)))


def add_all(suite, run):
    for k in A.Q_KINDS + A.AC_KINDS:
        suite.add('serial_' + k, with_ops([k], SERIAL_OPS),
                  lambda c, n: run(c, n, False), quick=50)
    for k in A.Q_KINDS + A.BATCH_AC_KINDS:
        suite.add('batch_' + k, with_batch_ops([k]),
                  lambda c, n: run(c, n, True), quick=36)


add_all(suite, run)


@suite.facet(st.fixed_dictionaries({
    'capacity': st.integers(1, 20), 'more': st.integers(1, 20),
    'kind': st.sampled_from(A.Q_KINDS)}), quick=40)
def start_size_beyond_capacity(case, note):
    from chainerrl.replay_buffer import ReplayBuffer
    note.nontrivial()
    with must_raise(ValueError):
        A.build(case['kind'], ReplayBuffer(case['capacity']), [],
                replay_start_size=case['capacity'] + case['more'],
                minibatch_size=1)


class NSQSchedule(p15.NSQRun):
    """Rollouts, exploration and target of a worker among others."""
    gradients = False


suite.add('NSQ', p15.NSQ_CONFIG, lambda c, n: NSQSchedule(c, n).drive(),
          quick=100)
