"""P07: batches of experiences."""
import numpy as np
from chainer import links as L
from hypothesis import strategies as st

from chainerrl.links import StatelessRecurrentSequential
from chainerrl.misc.batch_states import batch_states
from chainerrl.replay_buffer import (batch_experiences,
                                     batch_recurrent_experiences)

from pbt.core import Suite, check, close, eq
from pbt.gen import floats

suite = Suite(
    'P07',
    'at least two experiences of different lengths, one of them longer than '
    'one step', ['float32 rounding of the NumPy reference'])

TRANS = st.fixed_dictionaries({
    'r': floats(-10, 10), 's': st.integers(0, 10 ** 6)})


def obs(i, kind):
    v = np.array([i, i * 0.5 - 3, (i % 7)], dtype=np.float32)
    if kind == 'vec':
        return v
    if kind == 'int':
        return np.int32(i)
    if kind == 'img':
        return np.arange(8, dtype=np.uint8).reshape(2, 4) + i % 100
    if kind == 'tuple':
        return v, np.int32(i)
    return {'a': v, 'b': np.float32(i)}


def stack(values):
    if isinstance(values[0], tuple):
        return tuple(stack(list(x)) for x in zip(*values))
    if isinstance(values[0], dict):
        return {k: stack([v[k] for v in values]) for k in values[0]}
    return np.stack([np.asarray(v) for v in values])


def compare(got, want, msg):
    if isinstance(want, tuple):
        eq(len(got), len(want), msg)
        for g, w in zip(got, want):
            compare(g, w, msg)
    elif isinstance(want, dict):
        eq(sorted(got), sorted(want), msg)
        for k in want:
            compare(got[k], want[k], msg)
    else:
        close(got, want, msg, rtol=1e-6, atol=1e-6)
        check(np.asarray(got).dtype == want.dtype, '{}: dtype {} != {}', msg,
              np.asarray(got).dtype, want.dtype)


def scale(x):
    if isinstance(x, tuple):
        return tuple(scale(y) for y in x)
    if isinstance(x, dict):
        return {k: scale(v) for k, v in x.items()}
    return np.asarray(x * 2 + 1, dtype=np.asarray(x).dtype)


CASE = st.fixed_dictionaries({
    'exps': st.lists(st.fixed_dictionaries({
        'steps': st.lists(TRANS, min_size=1, max_size=5),
        'terminal': st.booleans(),
        'na': st.booleans()}), min_size=1, max_size=6),
    'all_na': st.booleans(),
    'gamma': st.one_of(st.sampled_from([0.0, 1.0, 0.99]), floats(0, 1)),
    'obs': st.sampled_from(['vec', 'int', 'img', 'tuple', 'dict']),
    'act': st.sampled_from(['int', 'vec']),
    'phi': st.sampled_from(['id', 'scale']),
})


def action(i, kind):
    return np.int32(i % 5) if kind == 'int' else \
        np.array([i % 5, -i % 3], dtype=np.float32)


def build(case, recurrent=False, model_states=None):
    out = []
    for j, e in enumerate(case['exps']):
        w = []
        for k, t in enumerate(e['steps']):
            last = k == len(e['steps']) - 1
            na = case['all_na'] or e['na']
            tr = dict(
                state=obs(t['s'], case['obs']),
                action=action(t['s'], case['act']), reward=t['r'],
                next_state=obs(t['s'] + 1, case['obs']),
                next_action=action(t['s'] + 2, case['act']) if na else None,
                is_state_terminal=bool(e['terminal'] and last))
            if recurrent:
                tr['recurrent_state'] = model_states(j, k)
                tr['next_recurrent_state'] = model_states(j, k + 1)
            w.append(tr)
        out.append(w)
    return out


class Phi(object):

    def __init__(self, kind):
        self.kind = kind
        self.calls = []

    def __call__(self, x):
        self.calls.append(x)
        return scale(x) if self.kind == 'scale' else x

    def ref(self, x):
        return scale(x) if self.kind == 'scale' else x


@suite.facet(CASE, quick=1000, shards=4)
def nstep(case, note):
    exps = build(case)
    phi = Phi(case['phi'])
    g = case['gamma']
    b = batch_experiences(exps, np, phi, g)
    lens = [len(e) for e in exps]
    note.nontrivial(max(lens) > 1 and len(set(lens)) > 1)
    note.label(case['obs'])
    compare(b['state'], stack([phi.ref(e[0]['state']) for e in exps]),
            'state')
    compare(b['next_state'],
            stack([phi.ref(e[-1]['next_state']) for e in exps]),
            'next_state')
    compare(b['action'], stack([e[0]['action'] for e in exps]), 'action')
    close(b['reward'], [sum(g ** i * t['reward'] for i, t in enumerate(e))
                        for e in exps], 'n-step return', rtol=1e-5,
          atol=1e-5)
    close(b['discount'], [g ** len(e) for e in exps], 'discount', rtol=1e-5)
    close(b['is_state_terminal'],
          [float(e[-1]['is_state_terminal']) for e in exps], 'terminal')
    check(b['reward'].dtype == np.float32, 'reward dtype')
    check(b['is_state_terminal'].dtype == np.float32, 'terminal dtype')
    if all(e[-1]['next_action'] is not None for e in exps):
        compare(b['next_action'],
                stack([e[-1]['next_action'] for e in exps]), 'next_action')
    else:
        check('next_action' not in b, 'next_action is present')
    # each observation goes through the feature extractor exactly once
    eq(len(phi.calls), 2 * len(exps), 'calls of the feature extractor')
    seen = sorted(id(x) for x in phi.calls)
    want = sorted([id(e[0]['state']) for e in exps] +
                  [id(e[-1]['next_state']) for e in exps])
    check(seen == want, 'feature extractor is applied to other objects')


@suite.facet(CASE, quick=600, shards=3)
def recurrent(case, note):
    import chainer
    model = StatelessRecurrentSequential(
        L.Linear(3, 2), L.NStepLSTM(1, 2, 3, 0), L.NStepGRU(1, 3, 2, 0))
    r = np.random.RandomState(len(case['exps']))

    def states(j, k):
        if (j + k) % 3 == 0:
            return None
        v = np.float32(j + 10 * k)
        return ((np.full((1, 3), v, 'f'), np.full((1, 3), -v, 'f')),
                np.full((1, 2), v + 0.5, 'f'))

    def norm(s):
        if s is None:
            return ((np.zeros((1, 3), 'f'),) * 2, np.zeros((1, 2), 'f'))
        return s

    exps = build(case, True, states)
    phi = Phi(case['phi'])
    g = case['gamma']
    b = batch_recurrent_experiences(exps, model, np, phi, g)
    flat = [t for e in exps for t in e]
    note.nontrivial(len(exps) > 1 and len(flat) > len(exps))
    eq(len(b['state']), len(exps), 'one sequence per episode')
    for i, e in enumerate(exps):
        compare(b['state'][i], stack([phi.ref(t['state']) for t in e]),
                'state sequence')
        compare(b['next_state'][i],
                stack([phi.ref(t['next_state']) for t in e]),
                'next_state sequence')
    compare(b['action'], stack([t['action'] for t in flat]), 'action')
    close(b['reward'], [t['reward'] for t in flat], 'reward')
    close(b['is_state_terminal'],
          [float(t['is_state_terminal']) for t in flat], 'terminal')
    close(b['discount'], [g] * len(flat), 'discount')
    if all(t['next_action'] is not None for t in flat):
        compare(b['next_action'], stack([t['next_action'] for t in flat]),
                'next_action')
    else:
        check('next_action' not in b, 'next_action is present')
    for key, src in (('recurrent_state', 'recurrent_state'),
                     ('next_recurrent_state', 'next_recurrent_state')):
        want = [norm(e[0][src]) for e in exps]
        rs = b[key]
        if all(e[0][src] is None for e in exps):
            if rs is None:
                continue
        (h, c), gs = rs

        def val(x):
            return x.array if isinstance(x, chainer.Variable) else x
        close(val(h), np.stack([w[0][0] for w in want], 1), key + ' lstm h')
        close(val(c), np.stack([w[0][1] for w in want], 1), key + ' lstm c')
        close(val(gs), np.stack([w[1] for w in want], 1), key + ' gru')
    eq(len(phi.calls), 2 * len(flat), 'calls of the feature extractor')


@suite.facet(st.fixed_dictionaries({
    'n': st.integers(1, 6), 's': st.integers(0, 1000),
    'obs': st.sampled_from(['vec', 'int', 'img', 'tuple', 'dict']),
    'phi': st.sampled_from(['id', 'scale'])}), quick=300)
def states(case, note):
    xs = [obs(case['s'] + i, case['obs']) for i in range(case['n'])]
    phi = Phi(case['phi'])
    got = batch_states(xs, np, phi)
    compare(got, stack([phi.ref(x) for x in xs]), 'batch of observations')
    eq(len(phi.calls), case['n'], 'calls of the feature extractor')
    note.nontrivial(case['n'] > 1)
