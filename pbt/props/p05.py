"""P05: saved replay buffers load back to the same content and behaviour."""
import os

import numpy as np
from hypothesis import strategies as st

from chainerrl import replay_buffers as rb

from pbt.core import Suite, check, close, eq, scratch_dir
from pbt.gen import ENV_IDS, ops, sized

suite = Suite(
    'P05',
    'content was dropped before or after the save, or priorities were '
    'updated before it, and the continuation samples from it',
    ['no episode is in progress at the save (unfinished episodes are not '
     'part of the saved content)',
     'the beta of prioritized buffers is constant in the compared runs '
     '(the schedule position is not part of the saved content)'])

BUF = st.fixed_dictionaries({
    'kind': st.sampled_from(['plain', 'prio', 'episodic', 'prio_episodic']),
    'cap': st.one_of(st.none(), st.integers(1, 14)),
    'n': st.integers(1, 4),
    'beta0': st.sampled_from([0.0, 0.5, 1.0]),
    'uniform': st.sampled_from([0, 0.5]),
    'wait': st.booleans(),
    'norm': st.sampled_from(['batch', 'memory']),
})


def make(c):
    if c['kind'] == 'plain':
        return rb.ReplayBuffer(c['cap'], num_steps=c['n'])
    if c['kind'] == 'prio':
        return rb.PrioritizedReplayBuffer(
            c['cap'], alpha=0.8, beta0=c['beta0'], betasteps=None,
            num_steps=c['n'], normalize_by_max=c['norm'], error_max=2)
    if c['kind'] == 'episodic':
        return rb.EpisodicReplayBuffer(c['cap'])
    return rb.PrioritizedEpisodicReplayBuffer(
        c['cap'], alpha=0.8, beta0=c['beta0'], betasteps=None, eps=0.01,
        normalize_by_max=c['norm'], uniform_ratio=c['uniform'],
        wait_priority_after_sampling=c['wait'])


def apply(buf, c, i, op):
    """One operation; returns everything it shows."""
    kind, e, arg = op
    env = ENV_IDS[e]
    out = []
    if kind in 'at':
        buf.append(state=np.array([i, arg], dtype='f'), action=i,
                   reward=arg * 0.5, next_state=np.array([i + 1], dtype='f'),
                   is_state_terminal=kind == 't', env_id=env, tag=('x', i))
    elif kind == 's':
        buf.stop_current_episode(env_id=env)
    elif kind == 'q' and len(buf):
        k = 1 + arg % len(buf)
        np.random.seed(1000 + i)
        got = buf.sample(k)
        out.append([[dict(t) for t in w] for w in got])
        if c['kind'] == 'prio':
            buf.update_errors([((arg + 5 * j) % 17) / 8.0
                               for j in range(k)])
    elif kind == 'e' and c['kind'].endswith('episodic') and buf.n_episodes:
        k = 1 + arg % buf.n_episodes
        np.random.seed(2000 + i)
        got = buf.sample_episodes(k, None if arg % 2 else 1 + arg % 4)
        if c['kind'] == 'prio_episodic':
            eps, w = got
            out.append([[dict(t) for t in ep] for ep in eps])
            out.append([float(x) for x in w])
            if c['wait'] or arg % 3:
                buf.update_errors([((arg + 5 * j) % 17) / 8.0
                                   for j in range(k)])
        else:
            out.append([[dict(t) for t in ep] for ep in got])
    out.append(len(buf))
    if c['kind'].endswith('episodic'):
        out.append(buf.n_episodes)
    return out


def strip(windows):
    return [[{k: v for k, v in t.items() if k != 'weight'} for t in w]
            for w in windows]


def drain(buf, c):
    np.random.seed(7)
    out = [len(buf)]
    if len(buf):
        got = buf.sample(len(buf))
        out.append([[dict(t) for t in w] for w in got])
        if c['kind'] == 'prio':
            buf.update_errors([0.5 + 0.01 * j for j in range(len(got))])
    if c['kind'].endswith('episodic'):
        out.append(buf.n_episodes)
        if buf.n_episodes:
            got = buf.sample_episodes(buf.n_episodes)
            if c['kind'] == 'prio_episodic':
                got, w = got
                out.append([float(x) for x in w])
                buf.update_errors([0.3 + 0.01 * j for j in range(len(got))])
            out.append([[dict(t) for t in ep] for ep in got])
    return out


@suite.facet(st.fixed_dictionaries({
    'buf': BUF,
    'pre': ops(['a', 't', 's', 'q', 'e'], weights=[7, 3, 1, 2, 2],
               max_size=40),
    'post': ops(['a', 't', 's', 'q', 'e'], weights=[7, 3, 1, 3, 3],
                max_size=30),
    'again': st.booleans()}), quick=1200, shards=4)
def continuation(case, note):
    c = case['buf']
    a = make(c)
    appended = sum(1 for k, _, _ in case['pre'] if k in 'at')
    updates = 0
    for i, op in enumerate(case['pre']):
        apply(a, c, i, op)
        updates += op[0] in 'qe'
    for e in range(3):
        a.stop_current_episode(env_id=ENV_IDS[e])
    size = len(a)
    with scratch_dir() as d:
        path = os.path.join(d, 'buf.pkl')
        a.save(path)
        eq(len(a), size, 'size of the saved buffer after saving')
        b = make(c)
        b.load(path)
        eq(len(b), size, 'size after loading')
        if case['again']:
            # a second generation
            path2 = os.path.join(d, 'buf2.pkl')
            b.save(path2)
            b = make(c)
            b.load(path2)
            eq(len(b), size, 'size after loading twice')
    sampled = False
    for i, op in enumerate(case['post']):
        got_a = apply(a, c, 500 + i, op)
        got_b = apply(b, c, 500 + i, op)
        sampled = sampled or len(got_a) > 1 and op[0] in 'qe'
        eq(got_b, got_a, '{}: reaction to operation {} {} after loading'
           .format(c['kind'], i, op))
    eq(drain(b, c), drain(a, c), '{}: final contents'.format(c['kind']))
    evicted = c['cap'] is not None and appended > c['cap']
    note.label(c['kind'])
    if evicted:
        note.label('evicted')
    note.nontrivial(sampled and (evicted or updates > 1))


@suite.facet(st.fixed_dictionaries({
    'buf': BUF,
    'pre': ops(['a', 't', 's', 'q', 'e'], weights=[7, 3, 1, 2, 2],
               max_size=40)}), quick=600, shards=2)
def contents(case, note):
    """The loaded contents are the saved ones, and independent of them."""
    c = case['buf']
    a = make(c)
    for i, op in enumerate(case['pre']):
        apply(a, c, i, op)
    for e in range(3):
        a.stop_current_episode(env_id=ENV_IDS[e])
    with scratch_dir() as d:
        path = os.path.join(d, 'buf.pkl')
        a.save(path)
        b = make(c)
        b.load(path)
        # what happens to the original later does not reach the loaded one
        before = drain(a, c)
        for i in range(5):
            apply(a, c, 900 + i, ['t', 0, i])
        after = drain(b, c)
    eq(after, before, '{}: contents'.format(c['kind']))
    note.label(c['kind'])
    note.nontrivial(before[0] > 1)


@suite.facet(st.fixed_dictionaries({
    'n': st.integers(1, 12), 'cap': st.integers(1, 12)}), quick=60)
def legacy_deque(case, note):
    """Files of the oldest format (a bounded deque) still load."""
    import collections
    import pickle
    buf = rb.ReplayBuffer(capacity=case['cap'])
    q = collections.deque(
        [[dict(state=i, action=0, reward=0, next_state=i + 1,
               next_action=None, is_state_terminal=False)]
         for i in range(case['n'])], maxlen=case['cap'])
    with scratch_dir() as d:
        path = os.path.join(d, 'old.pkl')
        with open(path, 'wb') as f:
            pickle.dump(q, f)
        buf.load(path)
    want = list(range(case['n']))[-case['cap']:]
    eq(sorted(w[0]['state'] for w in buf.sample(len(buf))), want, 'contents')
    buf.append(state=99, action=0, reward=0, next_state=100)
    want = (want + [99])[-case['cap']:]
    eq(sorted(w[0]['state'] for w in buf.sample(len(buf))), want,
       'contents after an append')
    note.nontrivial(case['n'] > case['cap'])
