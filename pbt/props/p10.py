"""P10: losses of the value-based agents."""
import copy

import chainer
import numpy as np
from chainer import functions as F
from hypothesis import strategies as st

from chainerrl import explorer
from chainerrl.replay_buffer import ReplayBuffer

from pbt import agents as A
from pbt import zoo
from pbt.core import Suite, check, close
from pbt.gen import SEED, floats

suite = Suite(
    'P10',
    'at least two experiences, one of them not terminal, and a gradient that '
    'is not zero',
    ['Chainer autodiff of the predicted value is trusted; targets, clipping, '
     'weighting and accumulation are recomputed in NumPy',
     'float32 tolerance 2e-4'])

KINDS = ['DQN', 'DoubleDQN', 'SARSA', 'AL', 'PAL', 'DoublePAL', 'DPP',
         'DPPL', 'DPPGreedy', 'ResidualDQN']


class OddExplorer(explorer.Explorer):
    """Alternates between the worst and the greedy action."""

    def __init__(self):
        self.n = 0

    def select_action(self, t, greedy_action_func, action_value=None):
        self.n += 1
        if self.n % 2:
            return int(action_value.q_values.array[0].argmin())
        return int(greedy_action_func())


class StubBuffer(ReplayBuffer):

    def __init__(self):
        super().__init__(None)
        self.errors = []

    def update_errors(self, errors):
        self.errors.append([float(np.asarray(e).ravel()[0]) for e in errors])


STEP = st.fixed_dictionaries({'r': floats(-3, 3), 'a': st.integers(0, 2)})


def case_strategy(recurrent):
    return st.fixed_dictionaries({
        'exps': st.lists(st.fixed_dictionaries({
            'steps': st.lists(STEP, min_size=1, max_size=4),
            'terminal': st.booleans(),
            'weight': floats(0.125, 2),
            'state': st.integers(0, 3)}), min_size=1, max_size=5),
        'weighted': st.booleans() if not recurrent else st.just(False),
        'want_errors': st.booleans(),
        'gamma': st.one_of(st.sampled_from([0.0, 1.0]), floats(0.125, 1)),
        'clip': st.booleans(),
        'acc': st.sampled_from(['mean', 'sum']),
        'alpha': floats(0, 1), 'eta': floats(0.125, 4),
        'grad_scale': floats(0, 2),
        'scale': st.sampled_from([0.3, 1.0, 2.0]),
        'phi': st.booleans(),
        'seed': SEED,
    })


def phi2(x):
    return x * np.float32(2)


def softmax(x):
    e = np.exp(x - x.max(1, keepdims=True))
    return e / e.sum(1, keepdims=True)


def targets(kind, case, r, disc, term, acts, q, nq, tq, tnq):
    """Documented targets from the Q-values (NumPy, double precision)."""
    i = np.arange(len(r))
    cont = disc * (1.0 - term)
    if kind in ('DQN', 'AL', 'PAL'):
        nxt = tnq.max(1)
    elif kind in ('DoubleDQN', 'DoublePAL'):
        nxt = tnq[i, nq.argmax(1)]
    elif kind == 'SARSA':
        a = [tnq[j].argmin() if j % 2 == 0 else tnq[j].argmax() for j in i]
        nxt = tnq[i, a]
    elif kind == 'ResidualDQN':
        nxt = nq.max(1)
    else:
        eta = case['eta']

        def op(x):
            if kind == 'DPP':
                return (softmax(eta * x) * x).sum(1)
            if kind == 'DPPL':
                m = (eta * x).max(1)
                return (np.log(np.exp(eta * x - m[:, None]).sum(1))
                        + m) / eta
            return x.max(1)
        return tq[i, acts] + r + cont * op(tnq) - op(tq)
    t = r + cont * nxt
    if kind in ('AL', 'PAL', 'DoublePAL'):
        cur = tq[i, acts] - tq.max(1)
        if kind != 'AL':
            nadv = (1.0 - term) * (tnq[i, acts] - tnq.max(1))
            cur = np.maximum(cur, nadv)
        t = t + case['alpha'] * cur
    return t


def make(kind, case, recurrent):
    buf = StubBuffer()
    kw = {}
    if kind in ('AL', 'PAL', 'DoublePAL'):
        kw['alpha'] = case['alpha']
    elif kind in ('DPP', 'DPPL'):
        kw['eta'] = case['eta']
    elif kind == 'ResidualDQN':
        kw['grad_scale'] = case['grad_scale']
    if case['phi']:
        kw['phi'] = phi2
    b = A.build_q(
        kind, buf, [], recurrent=recurrent, seed=case['seed'], lr=1.0,
        explorer_=OddExplorer(), gamma=case['gamma'],
        clip_delta=case['clip'], batch_accumulator=case['acc'],
        replay_start_size=10, minibatch_size=1, **kw)
    A.randomize(b.agent.model, case['seed'] + 11, case['scale'])
    if kind != 'ResidualDQN':
        A.randomize(b.agent.target_model, case['seed'] + 12, case['scale'])
    return b, buf


def make_exps(case, model=None):
    r = np.random.RandomState(case['seed'] % (2 ** 32) // 3)
    exps = []
    for e in case['exps']:
        n = len(e['steps'])
        obs = r.uniform(-1, 1, (n + 1, A.OBS)).astype(np.float32)
        w = []
        for j, s in enumerate(e['steps']):
            t = dict(state=obs[j], action=np.int32(s['a']), reward=s['r'],
                     next_state=obs[j + 1],
                     next_action=(np.int32((j + case['seed']) % 3)
                                  if case['seed'] % 2 else None),
                     is_state_terminal=e['terminal'] and j == n - 1)
            if j == 0 and case['weighted']:
                t['weight'] = e['weight']
            w.append(t)
        exps.append(w)
        if model is not None:
            state, k = None, e['state']
            for _ in range(k):     # some history before the episode
                _, state = model(r.uniform(-1, 1, (1, A.OBS)).astype('f'),
                                 state)
            for j, t in enumerate(w):
                t['recurrent_state'] = model.get_recurrent_state_at(
                    state, 0, unwrap_variable=True) if state else None
                x = t['state'][None] * (2 if case['phi'] else 1)
                _, state = model(x.astype('f'), state)
                t['next_recurrent_state'] = model.get_recurrent_state_at(
                    state, 0, unwrap_variable=True)
    return exps


def q_flat(model, xs, _):
    return model(np.stack(xs)).q_values


def q_rec(model, episodes, states):
    """Unroll every episode alone, step by step."""
    out = []
    for ep, s in zip(episodes, states):
        if s is not None:
            s = model.concatenate_recurrent_states([s])
        for x in ep:
            v, s = model(x[None], s)
            out.append(v.q_values)
    return F.concat(out, axis=0)


def run(kind, case, note, recurrent):
    b, buf = make(kind, case, recurrent)
    agent = b.agent
    with chainer.using_config('train', False), chainer.no_backprop_mode():
        exps = make_exps(case, agent.model if recurrent else None)
    f = phi2 if case['phi'] else (lambda x: x)
    g = case['gamma']
    if recurrent:
        S = [[f(t['state']) for t in e] for e in exps]
        NS = [[f(t['next_state']) for t in e] for e in exps]
        h = [e[0]['recurrent_state'] for e in exps]
        nh = [e[0]['next_recurrent_state'] for e in exps]
        flat = [t for e in exps for t in e]
        r = np.array([t['reward'] for t in flat])
        disc = np.full(len(flat), g)
        term = np.array([float(t['is_state_terminal']) for t in flat])
        acts = np.array([t['action'] for t in flat])
        q_of = q_rec
    else:
        S = [f(e[0]['state']) for e in exps]
        NS = [f(e[-1]['next_state']) for e in exps]
        h = nh = None
        r = np.array([sum(g ** i * t['reward'] for i, t in enumerate(e))
                      for e in exps])
        disc = np.array([g ** len(e) for e in exps])
        term = np.array([float(e[-1]['is_state_terminal']) for e in exps])
        acts = np.array([e[0]['action'] for e in exps])
        q_of = q_flat
    n = len(r)
    i = np.arange(n)
    online = copy.deepcopy(agent.model)
    online.cleargrads()
    q = q_of(online, S, h)
    with chainer.no_backprop_mode():
        tgt = agent.target_model if kind != 'ResidualDQN' else online
        tq = q_of(tgt, S, h).array.astype('d')
        tnq = q_of(tgt, NS, nh).array.astype('d')
    nq = q_of(online, NS, nh)
    t = targets(kind, case, r, disc, term, acts, q.array.astype('d'),
                nq.array.astype('d'), tq, tnq)
    y = q.array[i, acts].astype('d')
    d = y - t
    gd = np.clip(d, -1, 1) if case['clip'] else d
    if case['weighted']:
        gd = gd * np.array([e['weight'] for e in case['exps']])
    if case['acc'] == 'mean':
        gd = gd / n
    loss = F.sum(F.select_item(q, acts.astype('i')) * gd.astype('f'))
    if kind == 'ResidualDQN':
        dn = gd * case['grad_scale'] * disc * (1 - term)
        loss -= F.sum(F.max(nq, axis=1) * dn.astype('f'))
    loss.backward()

    before = A.params(agent.model)
    tbefore = None if kind == 'ResidualDQN' else A.params(agent.target_model)
    errs = [7.0] if case['want_errors'] and not recurrent else None
    if recurrent:
        agent.update_from_episodes(exps)
    else:
        agent.update(exps, errors_out=errs)
    after = A.params(agent.model)
    total = 0.0
    for name, p in sorted(online.namedparams()):
        want = np.zeros_like(p.array) if p.grad is None else p.grad
        total += float(np.abs(want).sum())
        close(before[name] - after[name], want,
              '{} gradient of {}'.format(kind, name), rtol=2e-4, atol=2e-5)
    if tbefore is not None:
        check(A.same_params(tbefore, A.params(agent.target_model)),
              'the update changed the target network')
    if case['weighted']:
        check(len(buf.errors) == 1, 'errors fed back {} times',
              len(buf.errors))
        close(buf.errors[0], np.abs(d), 'errors fed back', rtol=2e-4,
              atol=2e-5)
    else:
        check(not buf.errors, 'errors fed back without weights')
    if errs is not None:
        close([float(np.asarray(e).ravel()[0]) for e in errs], np.abs(d),
              'errors_out', rtol=2e-4, atol=2e-5)
    note.nontrivial(n >= 2 and term.min() == 0 and total > 1e-6)
    if (np.abs(d) > 1).any():
        note.label('clipped' if case['clip'] else 'large error')
    if term.any():
        note.label('terminal')


for _k in KINDS:
    suite.add('flat_' + _k, case_strategy(False),
              lambda c, n, _k=_k: run(_k, c, n, False), quick=120)
    suite.add('recurrent_' + _k, case_strategy(True),
              lambda c, n, _k=_k: run(_k, c, n, True), quick=50)


suite.add('modes', zoo.modes_strategy(
    [k for k in KINDS if k != 'ResidualDQN']), zoo.run_modes, quick=60)
