"""P04: prioritized episodic replay."""
import numpy as np
from hypothesis import strategies as st

from chainerrl.replay_buffers import PrioritizedEpisodicReplayBuffer

from pbt.core import Suite, check, close, eq
from pbt.gen import ENV_IDS, chi2_sf, ops
from pbt.props.p02 import (EpisodeModel, check_episodes, check_transitions,
                           transition)
from pbt.props.p03 import beta_at, priority

suite = Suite(
    'P04',
    'a history with a priority update followed by a sample with different '
    'weights, or an eviction between samples',
    ['errors fed back belong to the last sample and no episode is dropped '
     'between a sample and its feedback',
     'weights are normalised by the batch or the memory maximum'])


def prio_func(kind):
    if kind == 'len':
        return lambda ep: 0.5 + 0.25 * len(ep)
    if kind == 'reward':
        return lambda ep: 0.1 + sum(t['reward'] for t in ep)
    return None


CONF = {
    'cap': st.one_of(st.none(), st.integers(2, 16)),
    'alpha': st.sampled_from([0.0, 0.6, 1.0]),
    'beta0': st.sampled_from([0.0, 0.4, 1.0]),
    'betasteps': st.sampled_from([None, 2, 5, 1000]),
    'eps': st.sampled_from([1e-8, 0.1]),
    'norm': st.sampled_from([True, 'batch', 'memory']),
    'emin': st.sampled_from([None, 0.3]),
    'emax': st.sampled_from([None, 1.5]),
    'uniform': st.sampled_from([0, 0, 0.3, 0.8, 1.0]),
    'wait': st.booleans(),
    'prio': st.sampled_from([None, 'len', 'reward']),
    'ret_w': st.sampled_from([True, True, True, False]),
}


def make(c):
    return PrioritizedEpisodicReplayBuffer(
        capacity=c['cap'], alpha=c['alpha'], beta0=c['beta0'],
        betasteps=c['betasteps'], eps=c['eps'], normalize_by_max=c['norm'],
        default_priority_func=prio_func(c['prio']),
        uniform_ratio=c['uniform'], wait_priority_after_sampling=c['wait'],
        return_sample_weights=c['ret_w'], error_min=c['emin'],
        error_max=c['emax'])


class Model(EpisodeModel):

    def __init__(self, c):
        EpisodeModel.__init__(self, c['cap'])
        self.c = c
        self.pri = {}
        self.max = 1.0
        self.n_samples = 0

    def stop(self, env):
        ep = self.cur.get(env, [])
        if ep:
            f = prio_func(self.c['prio'])
            self.pri[ep[0]['state']] = f(ep) if f else self.max
        return EpisodeModel.stop(self, env)

    def priorities(self):
        return [self.pri[e[0]['state']] for e in self.eps]

    def check_sample(self, got, k, max_len):
        c = self.c
        if c['ret_w']:
            check(isinstance(got, tuple) and len(got) == 2,
                  'sample_episodes does not return (episodes, weights)')
            eps, weights = got
        else:
            eps = got
        idx, partial = check_episodes(eps, self, k, max_len)
        if not k:
            return [], False
        pri = self.priorities()
        total = sum(pri)
        u = c['uniform']
        probs = [u / len(pri) + (1 - u) * p / total for p in pri]
        if c['ret_w']:
            beta = beta_at(c, self.n_samples)
            m = min(probs) if c['norm'] == 'memory' else \
                min(probs[i] for i in idx)
            close(weights, [(probs[i] / m) ** -beta for i in idx],
                  'importance weights', rtol=1e-5, atol=1e-9)
            self.n_samples += 1
        s = [probs[i] for i in idx]
        return idx, max(s) > min(s) * 1.001

    def feedback(self, idx, errors):
        for i, e in zip(idx, errors):
            p = priority(e, self.c)
            self.pri[self.eps[i][0]['state']] = p
            self.max = max(self.max, p)


@suite.facet(st.fixed_dictionaries(dict(
    CONF, ops=ops(['a', 't', 's', 'q', 'e'], weights=[7, 4, 2, 1, 5],
                  max_size=60))), quick=2000, shards=4)
def weights(case, note):
    c = case
    buf, model = make(c), Model(c)
    updates = 0
    for i, (kind, e, arg) in enumerate(case['ops']):
        env = ENV_IDS[e]
        if kind in 'at':
            tr = transition(i, kind == 't', arg)
            buf.append(env_id=env, **tr)
            model.append(env, tr, kind == 't')
        elif kind == 's':
            buf.stop_current_episode(env_id=env)
            model.stop(env)
        eq(buf.n_episodes, len(model.eps), 'number of episodes')
        eq(len(buf), model.total(), 'number of transitions')
        if kind == 'q':
            check_transitions(buf, model, arg % (model.total() + 1))
        if kind == 'e' and model.eps:
            k = 1 + arg % len(model.eps)
            if arg % 5 == 0:
                k = len(model.eps)
            max_len = None if arg % 4 == 0 else 1 + arg % 5
            got = buf.sample_episodes(k, max_len)
            idx, differ = model.check_sample(got, k, max_len)
            if updates and differ:
                note.nontrivial()
                note.label('after_update')
            if c['wait'] or arg % 3:
                errors = [((arg * 7 + j * 13) % 23) / 11.0 + 1e-3
                          for j in range(k)]
                buf.update_errors(errors)
                model.feedback(idx, errors)
                updates += 1
    if model.n_evicted:
        note.label('evicted')
        note.nontrivial(len(model.eps) > 0)
    if model.eps:
        k = len(model.eps)
        model.check_sample(buf.sample_episodes(k), k, None)


@suite.facet(st.fixed_dictionaries({
    'errs': st.lists(st.integers(0, 20), min_size=2, max_size=8),
    'drop': st.integers(0, 5),
    'uniform': st.sampled_from([0, 0.3, 0.7, 1.0]),
    'wait': st.booleans()}), quick=48, shards=6)
def frequencies(case, note):
    """Single draws mix uniform and proportional choice as configured."""
    m = len(case['errs'])
    c = {'cap': 2 * m, 'alpha': 1.0, 'beta0': 1.0, 'betasteps': None,
         'eps': 0.05, 'norm': 'memory', 'emin': None, 'emax': None,
         'uniform': case['uniform'], 'wait': case['wait'], 'prio': None,
         'ret_w': True}
    buf = make(c)
    for i in range(2 * (m + case['drop'])):
        buf.append(state=i, action=0, reward=0, next_state=i + 1,
                   is_state_terminal=i % 2 == 1)
    base = case['drop']
    err = {2 * (base + i): x / 10.0 for i, x in enumerate(case['errs'])}
    eps, _ = buf.sample_episodes(m)
    buf.update_errors([err[e[0]['state']] for e in eps])
    pri = np.array([priority(err[2 * (base + i)], c) for i in range(m)])
    u = case['uniform']
    probs = u / m + (1 - u) * pri / pri.sum()
    counts = np.zeros(m)
    n = 3000
    for _ in range(n):
        (ep,), _ = buf.sample_episodes(1)
        s = ep[0]['state']
        check(s in err, 'episode starting at {} is not stored', s)
        counts[s // 2 - base] += 1
        if case['wait']:
            buf.update_errors([err[s]])
    note.nontrivial(probs.max() > 1.5 * probs.min())
    pv = chi2_sf(counts, probs)
    check(pv > 1e-10, 'frequencies {} do not follow {} (p={})',
          counts.tolist(), (probs * n).round(1).tolist(), pv)
