"""P41: what the library is handed stays as it is."""
import chainer
from hypothesis import strategies as st
import numpy as np

from chainerrl import action_value as av
from chainerrl import explorers
from chainerrl import functions as CF
from chainerrl import links
from chainerrl import replay_buffer as rb
from chainerrl import wrappers
from chainerrl.envs import SerialVectorEnv
from chainerrl.functions.bound_by_tanh import bound_by_tanh
from chainerrl.functions.invert_gradients import invert_gradients
from chainerrl.functions.lower_triangular_matrix import \
    lower_triangular_matrix
from chainerrl.functions.mellowmax import maximum_entropy_mellowmax
from chainerrl.functions.mellowmax import mellowmax
from chainerrl.functions.scale_grad import scale_grad
from chainerrl.misc import env_modifiers, reward_filter
from chainerrl.misc.batch_states import batch_states
from chainerrl.misc.conjugate_gradient import conjugate_gradient
from chainerrl.misc.copy_param import copy_param, soft_copy_param
from chainerrl.wrappers import atari_wrappers as aw
from pbt import zoo
from pbt.core import Suite, check, eq, seed_all
from pbt.gen import SEED, floats, rng, sized
from pbt.props import p07, p17, p18, p28, p29, p34

suite = Suite(
    'P41',
    'an array was handed over (for an agent: updates took place; for a '
    'function, network or distribution: gradients were computed)',
    ['What is said to be learned or computed in place is left out: '
     'parameters in an update, persistent statistics of networks, the '
     'needs_reset of ContinuingTimeLimit, gradients in an optimizer hook, '
     'the weight a prioritized buffer adds to the transitions it returns',
     'Arrays given to an agent or an environment stay as the caller left '
     'them; only lists are also used again by the caller'])


def snapshot(x):
    """A copy that shares nothing with x."""
    if isinstance(x, chainer.Variable):
        return None if x.array is None else x.array.copy()
    if isinstance(x, (np.ndarray, np.generic)):
        return np.array(x, copy=True)
    if isinstance(x, (list, tuple)):
        return [snapshot(y) for y in x]
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, aw.LazyFrames):
        return np.array(x, copy=True)
    return x


def differs(x, was, keys=()):
    """What of x is not as it was, or None."""
    if isinstance(x, chainer.Variable):
        x = x.array
    if isinstance(x, aw.LazyFrames):
        x = np.asarray(x)
    if isinstance(x, (np.ndarray, np.generic)):
        y = np.asarray(x)
        if y.dtype != was.dtype or y.shape != was.shape:
            return '{} {} became {} {}'.format(
                was.dtype, was.shape, y.dtype, y.shape)
        ok = np.array_equal(y, was, equal_nan=y.dtype.kind == 'f')
        return None if ok else '{} became {}'.format(was.tolist(), y.tolist())
    if isinstance(x, (list, tuple)):
        if len(x) != len(was):
            return '{} items became {}'.format(len(was), len(x))
        for a, b in zip(x, was):
            d = differs(a, b, keys)
            if d:
                return d
        return None
    if isinstance(x, dict):
        if set(x) - set(keys) != set(was) - set(keys):
            return 'keys {} became {}'.format(sorted(was), sorted(x))
        for k in was:
            d = differs(x[k], was[k], keys) if k in x and \
                k not in keys else None
            if d:
                return '{}: {}'.format(k, d)
        return None
    return None if x == was or x != x and was != was else \
        '{!r} became {!r}'.format(was, x)


class Ledger(object):
    """What was handed over, and how it was."""

    def __init__(self, keys=()):
        self.items, self.keys = [], keys

    def __call__(self, x, what):
        self.items.append((x, snapshot(x), what))
        return x

    def audit(self, when=''):
        for x, was, what in self.items:
            d = differs(x, was, self.keys)
            check(d is None, '{}: {} changed: {}', when, what, d)


# ------------------------------------------------------------------ agents

class Driver(zoo.Driver):
    """Hands over everything through a ledger."""

    def __init__(self, z, seed, ledger, reuse=False):
        self.ledger, self.reuse = ledger, reuse
        super().__init__(z, seed)

    def new(self):
        return self.ledger(super().new(), 'an observation')

    def note(self, a):
        super().note(a)
        if self.z.batch:
            for x in a:
                self.ledger(x, 'an action that was returned')
            self.ledger(list(a), 'the actions that were returned')
        else:
            self.ledger(a, 'an action that was returned')

    def play_serial(self, reward, end):
        super().play_serial(self.ledger(np.float32(reward), 'a reward'), end)

    def play_batch(self, reward, end, j):
        n = self.z.n_envs
        ag = self.z.agent
        given = Ledger()
        obs = given(list(self.obs), 'the list of observations')
        self.note(ag.batch_act_and_train(obs))
        given.audit(self.z.kind)
        nxt = [self.new() for _ in range(n)]
        ends = [0] * n
        ends[j % n] = end
        done = given([e == 4 for e in ends], 'the list of ends')
        reset = given([e == 5 for e in ends], 'the list of resets')
        rs = given([reward + i for i in range(n)], 'the list of rewards')
        nobs = given(list(nxt), 'the list of observations')
        ag.batch_observe_and_train(nobs, rs, done, reset)
        given.audit(self.z.kind)
        self.obs = [self.new() if d or r else o
                    for d, r, o in zip(done, reset, nxt)]
        self.fresh = False
        if self.reuse:
            # the caller uses its lists again
            junk = np.full(zoo.OBS, 9, 'f')
            for i in range(n):
                obs[i] = nobs[i] = junk
                rs[i], done[i], reset[i] = 1e3, True, True


def play(case, reuse=False, audit=True):
    z = zoo.Zoo(case, case['seed'])
    ledger = Ledger()
    d = Driver(z, case['seed'] + 5, ledger, reuse)
    r = np.random.RandomState(case['seed'] % 2 ** 32)
    k = len(case['steps']) // 2
    d.play(case['steps'][:k])
    if audit:
        ledger.audit(case['kind'])
    d.end_all()
    seen = ledger(r.uniform(-1, 1, zoo.OBS).astype('f'), 'an observation')
    ledger(z.agent.act(seen), 'an action that was returned')
    z.agent.stop_episode()
    if z.batch and hasattr(z.agent, 'batch_act'):
        obs = ledger([d.new() for _ in range(z.n_envs)],
                     'the list of observations')
        for a in z.agent.batch_act(obs):
            ledger(a, 'an action that was returned')
        z.agent.stop_episode()
    d.play(case['steps'][k:])
    d.end_all()
    if audit:
        ledger.audit(case['kind'])
    return z, d


def agent(case, note):
    z, d = play(case)
    note.label('batch' if z.batch else 'serial')
    if z.rec:
        note.label('recurrent')
    note.nontrivial(any(z.updated().values()))


for _k in zoo.KINDS:
    suite.add('agent_' + _k, zoo.case_strategy([_k], 4, 20), agent, quick=10)


def weights(z):
    return {n: [(k, p.array.copy()) for k, p in sorted(l.namedparams())
                if p.array is not None]
            for n, l in z.parts.items() if isinstance(l, chainer.Link)}


@suite.facet(zoo.case_strategy(zoo.BATCH, 4, 16), quick=60, shards=2)
def lists_used_again(case, note):
    """An agent does not look at a list again after it was given back."""
    case = dict(case, batch=True)
    out = []
    for reuse in (False, True):
        seed_all(case['seed'])
        z, d = play(case, reuse, audit=False)
        if not z.batch:
            note.label('serial')
            return
        out.append((d.actions, weights(z)))
    eq(out[1][0], out[0][0], '{}: actions when lists are used again'.format(
        case['kind']))
    for n, ws in out[0][1].items():
        for (k, w), (_, v) in zip(ws, out[1][1][n]):
            check(np.array_equal(w, v, equal_nan=True), '{}: {} of {} when '
                  'lists are used again: {} != {}', case['kind'], k, n,
                  v.tolist(), w.tolist())
    note.label(case['kind'])
    note.nontrivial(any(z.updated().values()))


# ----------------------------------------------------- transitions, batches

@suite.facet(p07.CASE, quick=300)
def experiences(case, note):
    """Making a batch of transitions leaves them alone."""
    exps = p07.build(case)
    ledger = Ledger()
    ledger(exps, 'a transition')
    phi = (lambda x: p07.scale(x)) if case['phi'] == 'scale' else (
        lambda x: x)
    batch = rb.batch_experiences(exps, np, phi, case['gamma'])
    ledger.audit('batch_experiences')
    ledger(batch, 'a batch')
    # the batch belongs to the caller
    for v in batch.values():
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = 1
    ledger.items = ledger.items[:1]
    ledger.audit('writing into the batch')
    states = [t['state'] for e in exps for t in e]
    ledger(states, 'a state')
    y = batch_states(states, np, phi)
    ledger.audit('batch_states')
    for v in y if isinstance(y, tuple) else [y]:
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = 1
    ledger.audit('writing into the batched states')
    note.nontrivial(len(exps) > 1)


@suite.facet(st.fixed_dictionaries({
    'kind': st.sampled_from(['plain', 'prio', 'episodic', 'prio_episodic']),
    'n_step': st.integers(1, 3), 'capacity': st.integers(3, 12),
    'ops': sized(st.integers(0, 9), 4, 40), 'seed': SEED}), quick=400,
    shards=2)
def buffer(case, note):
    """Stored transitions come out as they went in."""
    r = rng(case['seed'])
    kind = case['kind']
    b = {'plain': lambda: rb.ReplayBuffer(
            case['capacity'], num_steps=case['n_step']),
         'prio': lambda: rb.PrioritizedReplayBuffer(
             case['capacity'], num_steps=case['n_step'], betasteps=5),
         'episodic': lambda: rb.EpisodicReplayBuffer(case['capacity']),
         'prio_episodic': lambda: rb.PrioritizedEpisodicReplayBuffer(
             case['capacity'], betasteps=5, uniform_ratio=0.5)}[kind]()
    ledger = Ledger()
    drawn = Ledger(keys=('weight',))
    s = ledger(r.normal(size=2), 'a state')
    sampled = 0
    for op in case['ops']:
        if op < 6:
            s2 = ledger(r.normal(size=2), 'a state')
            a = ledger(r.normal(size=1), 'an action')
            b.append(state=s, action=a, reward=float(op), next_state=s2,
                     next_action=None, is_state_terminal=op == 0)
            s = s2
            if op < 2:
                b.stop_current_episode()
                s = ledger(r.normal(size=2), 'a state')
        elif kind in ('plain', 'prio') and len(b) > 0:
            n = 1 + op % 3
            if n > len(b):
                continue
            x = drawn(b.sample(n), 'a sample')
            if kind == 'prio':
                e = ledger(list(r.uniform(0, 2, n)), 'the errors')
                b.update_errors(e)
            sampled += 1
        elif 'episodic' in kind and b.n_episodes > 0:
            x = b.sample_episodes(min(2, b.n_episodes), 3)
            if kind == 'prio_episodic':
                x, w = x
                drawn(w, 'the weights')
                b.update_errors(ledger(list(r.uniform(0, 2, len(w))),
                                       'the errors'))
            drawn(x, 'a sample')
            sampled += 1
        ledger.audit(kind)
        drawn.audit(kind)
    note.label(kind)
    note.nontrivial(sampled > 1)


# ------------------------------------------------- functions, distributions

def variables(xs, ledger, what):
    return [ledger(chainer.Variable(ledger(x, what)), what) for x in xs]


def backward(ys, r, ledger):
    """Gradients from random gradients above, which stay as they are."""
    for y in ys:
        if y.creator_node is None:
            continue
        g = r.normal(size=y.shape).astype(y.dtype)
        y.grad = ledger(g, 'the gradient from above')
        y.backward()
    return len(ys)


FUNS = ['mellowmax', 'softmellow', 'bound', 'arctanh', 'tri', 'muladd',
        'scale', 'sum', 'wsum', 'invert']


@suite.facet(st.fixed_dictionaries({
    'kind': st.sampled_from(FUNS), 'rows': st.integers(1, 4),
    'n': st.integers(1, 4), 'seed': SEED, 'raw': st.booleans(),
    'dtype': st.sampled_from(['f', 'd']), 'twice': st.booleans()}),
    quick=800)
def functions(case, note):
    r = rng(case['seed'])
    b, n = case['rows'], case['n']
    ledger = Ledger()

    # (these exist in single precision only)
    dtype = 'f' if case['kind'] in ('tri', 'scale') else case['dtype']

    def arrays(*shapes):
        return [r.uniform(-0.9, 0.9, s).astype(dtype) for s in shapes]
    f, shapes = {
        'mellowmax': (lambda x: mellowmax(x, omega=2.), [(b, n)]),
        'softmellow': (lambda x: maximum_entropy_mellowmax(x), [(b, n)]),
        'bound': (lambda x: bound_by_tanh(x, lo, hi), [(b, n)]),
        'arctanh': (CF.arctanh, [(b, n)]),
        'tri': (lower_triangular_matrix, [(b, n), (b, n * (n - 1) // 2)]),
        'muladd': (CF.muladd, [(b, n)] * 3),
        'scale': (lambda x: scale_grad(x, 0.3), [(b, n)]),
        'sum': (lambda *x: CF.sum_arrays(x), [(b, n)] * 3),
        'wsum': (lambda *x: CF.weighted_sum_arrays(x, ws), [(b, n)] * 3),
        'invert': (lambda x: invert_gradients(x, lo, hi), [(b, n)]),
    }[case['kind']]
    lo = ledger(-np.ones(n, case['dtype']), 'a bound')
    hi = ledger(np.full(n, 2, case['dtype']), 'a bound')
    ws = ledger([0.5, -1.0, 2.0], 'the weights')
    xs = arrays(*shapes)
    if case['raw'] and case['kind'] in (
            'mellowmax', 'arctanh', 'muladd', 'sum', 'wsum', 'scale'):
        xs = [ledger(x, 'an input') for x in xs]
        y = f(*xs)
        ledger.audit(case['kind'])
    vs = variables(xs, ledger, 'an input')
    for _ in range(1 + case['twice']):
        y = f(*vs)
        ledger(y, 'an output')
        backward([y], r, ledger)
        ledger.audit(case['kind'])
    note.label(case['kind'])
    note.nontrivial(vs[0].grad is not None)


def use_distribution(d, x, r, ledger, discrete):
    """Everything there is to ask a distribution for."""
    out = []
    with chainer.no_backprop_mode():
        for _ in range(2):
            ledger(d.sample(), 'a sample')
        ledger(d.most_probable, 'the most probable action')
    out.append(d.log_prob(ledger(x, 'an action')))
    out.append(d.log_prob(chainer.Variable(x)))
    out.append(d.prob(x))
    e = d.entropy
    out.append(e)
    if discrete:
        ledger(d.all_prob, 'the probabilities')
        ledger(d.all_log_prob, 'the logarithms of the probabilities')
    ledger(list(out), 'a result')
    repr(d)
    d.copy()
    return out


@suite.facet(st.fixed_dictionaries(p18.CAT), quick=300)
def categorical(case, note):
    r = rng(case['seed'])
    ledger = Ledger()
    d, p, _ = p18.make_cat(case, r)
    q, _, _ = p18.make_cat(case, r)
    ledger([d.params, q.params], 'a parameter')
    x = r.randint(case['acts'], size=case['rows']).astype(np.int32)
    out = use_distribution(d, x, r, ledger, True)
    out.append(d.kl(q))
    if case['kind'] == 'softmax':
        w = ledger(r.normal(size=(case['rows'], case['acts'])).astype('f'),
                   'the values')
        if hasattr(d, 'compute_expectation'):
            d.compute_expectation(w)
    ledger.audit(case['kind'])
    backward(out, r, ledger)
    ledger.audit(case['kind'])
    note.label(case['kind'])
    note.nontrivial(case['rows'] > 1)


@suite.facet(st.fixed_dictionaries(p18.CONT), quick=300)
def continuous(case, note):
    r = rng(case['seed'])
    ledger = Ledger()
    d, m, v = p18.make_cont(case, r)
    q, _, _ = p18.make_cont(case, r)
    ledger([m, v, d.params, q.params], 'a parameter')
    x = r.uniform(-0.9, 0.9, size=m.shape).astype(case['dtype'])
    if case['kind'] == 'gauss':
        out = use_distribution(d, x, r, ledger, False)
        out.append(d.kl(q))
    else:
        with chainer.no_backprop_mode():
            ledger(d.sample(), 'a sample')
            ledger(d.most_probable, 'the most probable action')
        out = [d.log_prob(ledger(x, 'an action'))]
        a, lp = d.sample_with_log_prob()
        out += [a, lp]
        ledger(list(out), 'a result')
    ledger.audit(case['kind'])
    backward(out, r, ledger)
    ledger.audit(case['kind'])
    note.label(case['kind'])
    note.nontrivial(case['rows'] > 1)


VAL = {
    'kind': st.sampled_from(['discrete', 'distributional', 'quantile',
                             'quadratic', 'quadratic']),
    'rows': st.integers(1, 5), 'acts': st.integers(1, 5),
    'atoms': st.integers(1, 5), 'scale': st.sampled_from([1.0, 100.0]),
    'shift': st.sampled_from([0.0, -3.0]), 'ties': st.booleans(),
    'var': st.booleans(), 'bound': st.booleans(), 'seed': SEED}


def make_value(case, r, ledger):
    """An action value, two batches of actions for it, its parameters."""
    n, k = case['rows'], case['acts']
    if case['kind'] != 'quadratic':
        v = p17.build(case['kind'], case, r)[0]
        acts = [r.randint(k, size=n).astype(np.int32) for _ in range(2)]
        if case['kind'] == 'distributional':
            ledger(v.z_values, 'the atoms')
        return v, acts
    a = r.normal(size=(n, k, k))
    mat = np.einsum('nij,nkj->nik', a, a) + 0.1 * np.eye(k)
    kw = {}
    if case['bound']:
        kw = dict(min_action=ledger(np.full(k, -.5, 'f'), 'a bound'),
                  max_action=ledger(np.full(k, .5, 'f'), 'a bound'))
    v = av.QuadraticActionValue(
        chainer.Parameter(r.normal(size=(n, k)).astype('f')),
        chainer.Parameter(mat.astype('f')),
        chainer.Parameter(r.normal(size=(n, 1)).astype('f')), **kw)
    return v, [r.normal(size=(n, k)).astype('f') for _ in range(2)]


@suite.facet(st.fixed_dictionaries(VAL), quick=400)
def values(case, note):
    r = rng(case['seed'])
    ledger = Ledger()
    v, acts = make_value(case, r, ledger)
    ledger(list(v.params), 'a parameter')
    acts = [ledger(a, 'an action') for a in acts]
    if case['var']:
        acts = [chainer.Variable(a) for a in acts]
    ledger(v.greedy_actions, 'the greedy actions')
    out = [v.max, v.evaluate_actions(acts[0]), v.compute_advantage(acts[0]),
           v.compute_double_advantage(acts[0], acts[1])]
    if case['kind'] != 'quadratic':
        out.append(v.compute_expectation(0.7))
    if case['kind'] == 'distributional':
        out += [v.max_as_distribution, v.evaluate_actions_as_distribution(
            chainer.as_array(acts[0]))]
    if case['kind'] == 'quantile':
        out.append(v.evaluate_actions_as_quantiles(acts[0]))
    v[np.array([0])].max
    repr(v)
    ledger(list(out), 'a result')
    ledger.audit(case['kind'])
    backward([y for y in out if isinstance(y, chainer.Variable)], r, ledger)
    ledger.audit(case['kind'])
    note.label(case['kind'])
    note.nontrivial(case['rows'] > 1)


# --------------------------------------------------------------- explorers

@suite.facet(st.fixed_dictionaries({
    'kind': st.sampled_from(['greedy', 'const', 'linear', 'boltzmann',
                             'gauss', 'gauss', 'ou', 'ou']),
    'dim': st.integers(1, 3), 'steps': st.integers(2, 12),
    'bound': st.booleans(), 'mu': st.booleans(), 'seed': SEED}), quick=300)
def explorer(case, note):
    r = rng(case['seed'])
    ledger = Ledger()
    n = case['dim'] + 1
    kw = dict(low=-0.3, high=0.3) if case['bound'] else {}
    if case['bound'] and case['mu']:
        kw = dict(low=ledger(np.full(n, -.3, 'f'), 'a bound'),
                  high=ledger(np.full(n, .3, 'f'), 'a bound'))
    kind = case['kind']
    shared = ledger(r.normal(size=n).astype('f'), 'an action')
    ask = lambda: shared    # noqa
    e = {'greedy': lambda: explorers.Greedy(),
         'const': lambda: explorers.ConstantEpsilonGreedy(0.5, ask),
         'linear': lambda: explorers.LinearDecayEpsilonGreedy(
             0.9, 0.1, 5, ask),
         'boltzmann': lambda: explorers.Boltzmann(T=0.7),
         'gauss': lambda: explorers.AdditiveGaussian(
             ledger(np.full(n, 0.4, 'f'), 'the scale')
             if case['mu'] else 0.4, **kw),
         'ou': lambda: explorers.AdditiveOU(
             mu=0.2, sigma=ledger(np.full(n, 0.4), 'the scale')
             if case['mu'] else 0.4, start_with_mu=case['bound'])}[kind]()
    for t in range(case['steps']):
        q = av.DiscreteActionValue(
            ledger(chainer.Variable(r.normal(size=(1, n)).astype('f')),
                   'the action values'))
        a = e.select_action(t, ask if t % 2 else lambda: ledger(
            r.normal(size=n).astype('f'), 'the greedy action'), q)
        ledger(a, 'an action that was chosen')
        ledger.audit(kind)
        repr(e)
    note.label(kind)
    note.nontrivial(case['steps'] > 2)


# ---------------------------------------------------------------- networks

@suite.facet(p34.net(kind=st.sampled_from(p34.KINDS), train=st.booleans()),
             quick=400)
def networks(case, note):
    r = rng(case['seed'])
    case = dict(case, mag=1.0, last=1.0)
    m, f = p34.head(case)
    ledger = Ledger()
    ledger([p for p in m.params()], 'a parameter')
    x = ledger(r.normal(size=(3, case['n_in'])).astype('f'), 'an input')
    a = ledger(r.uniform(-1, 1, (3, case['n'])).astype('f'), 'an action')
    for x_, a_ in ((x, a), (chainer.Variable(x), chainer.Variable(a))):
        m.cleargrads()
        with chainer.using_config('train', case['train']):
            ys = f(x_, a_)
        ledger.audit(case['kind'])
        ledger(ys, 'an output')
        backward(ys, r, ledger)
        ledger.audit(case['kind'])
    note.label(case['kind'])
    note.nontrivial(any(p.grad is not None for p in m.params()))


@suite.facet(st.fixed_dictionaries({
    'shape': st.lists(st.integers(1, 3), min_size=1, max_size=2),
    'batches': st.lists(st.integers(1, 4), min_size=1, max_size=6),
    'ops': st.integers(0, 63), 'clip': st.booleans(),
    'dtype': st.sampled_from(['f', 'd']), 'var': st.booleans(),
    'seed': SEED}), quick=300)
def normalization(case, note):
    """Observations and statistics of an observation normalizer."""
    r = rng(case['seed'])
    ledger = Ledger()
    e = links.EmpiricalNormalization(
        tuple(case['shape']), dtype=np.dtype(case['dtype']),
        clip_threshold=1.0 if case['clip'] else None)
    flt = [reward_filter.NormalizedRewardFilter(),
           reward_filter.AverageRewardFilter()]
    for j, n in enumerate(case['batches']):
        x = ledger(r.normal(size=[n] + case['shape']).astype(case['dtype']),
                   'an input')
        op = (case['ops'] >> j) & 1
        x_ = chainer.Variable(x) if case['var'] else x
        if op:
            e.experience(x_)
        y = ledger(e(x_, update=not op), 'a normalized value')
        if isinstance(y, chainer.Variable) and y.creator_node is not None:
            backward([y], r, ledger)
        ledger(e.inverse(chainer.as_array(y)), 'a value')
        ledger(e.mean, 'the mean')
        ledger(e.std, 'the deviation')
        z = ledger(r.normal(size=2), 'a reward')
        ledger(flt[1](z), 'a filtered reward')
        ledger(flt[0](z[0]), 'a filtered reward')
        ledger.audit('normalization')
    note.nontrivial(len(case['batches']) > 1)


# ------------------------------------------------------------ environments

class Raw(p28.Base):
    """Its observations, infos and what it was sent are on the ledger."""

    def __init__(self, ledger, *args, **kw):
        self.ledger = ledger
        super().__init__(*args, **kw)

    def obs(self):
        return self.ledger(super().obs(), "the environment's observation")

    def step(self, action):
        self.ledger(action, 'an action the environment was sent')
        o, r, d, i = super().step(action)
        return o, r, d, self.ledger(i, "the environment's info")


@suite.facet(st.fixed_dictionaries({
    'kind': st.sampled_from(['cast', 'scale', 'limit', 'normalize', 'random',
                             'filter', 'repeat', 'timelimit', 'plain']),
    'script': p28.SCRIPT, 'steps': st.integers(1, 12),
    'box': p28.BOX, 'seed': SEED}), quick=500)
def environments(case, note):
    """Wrappers change neither actions nor what the environment returned."""
    r = rng(case['seed'])
    kind = case['kind']
    # asking for a reset is what this wrapper writes into the info
    ledger = Ledger(keys=('needs_reset',) if kind == 'limit' else ())
    n = len(case['box'])
    low = np.array([b[0] for b in case['box']], 'f')
    high = np.array([b[0] + b[1] for b in case['box']], 'f')
    ledger([low, high], 'a bound')
    env = base = Raw(ledger, case['script'], box=(low, high))
    if kind == 'cast':
        env = wrappers.CastObservationToFloat32(base)
    elif kind == 'scale':
        env = wrappers.ScaleReward(base, 0.5)
    elif kind == 'limit':
        env = wrappers.ContinuingTimeLimit(base, 3)
    elif kind == 'normalize':
        env = wrappers.NormalizeActionSpace(base)
    elif kind == 'random':
        env = wrappers.RandomizeAction(
            Raw(ledger, case['script'], n=3), 0.5)
    elif kind == 'filter':
        env_modifiers.make_action_filtered(base, lambda a: a * 2)
        env_modifiers.make_reward_filtered(base, lambda x: x * 2)
    elif kind == 'repeat':
        env_modifiers.make_action_repeated(base, 2)
    elif kind == 'timelimit':
        env_modifiers.make_timestep_limited(base, 3)
    same = ledger(r.uniform(-1, 1, n).astype('f'), 'an action')
    ledger(env.reset(), 'an observation')
    for t in range(case['steps']):
        # (an action may be sent again)
        a = same if t % 3 == 0 else ledger(
            r.uniform(-1, 1, n).astype('f'), 'an action')
        if kind == 'random':
            a = int(r.randint(3))
        o, _, done, info = env.step(a)
        ledger(o, 'an observation')
        ledger.audit(kind)
        if done or info.get('needs_reset'):
            ledger(env.reset(), 'an observation')
    ledger.audit(kind)
    note.label(kind)
    note.nontrivial(case['steps'] > 2)


class RawGame(p29.Game):

    def __init__(self, ledger, *args, **kw):
        self.ledger = ledger
        super().__init__(*args, **kw)

    def frame(self):
        return self.ledger(super().frame(), "the environment's frame")

    def step(self, action):
        o, r, d, i = super().step(action)
        return o, r, d, self.ledger(i, "the environment's info")


@suite.facet(st.fixed_dictionaries({
    'script': p29.SCRIPT, 'hist': p29.HIST, 'seed': SEED,
    'skip': st.booleans(), 'life': st.booleans(), 'fire': st.booleans(),
    'noop': st.booleans(), 'flicker': st.booleans(), 'float': st.booleans(),
    'stack': st.integers(0, 3), 'big': st.booleans(),
    'order': st.sampled_from(['hwc', 'chw'])}), quick=300)
def games(case, note):
    """Frames stay as they are in any pile of the Atari wrappers."""
    ledger = Ledger()
    env = RawGame(ledger, case['script'], shape=(
        (9, 7, 3) if case['big'] else (2, 3, 3)), seed=case['seed'])
    if case['noop']:
        env = aw.NoopResetEnv(env, noop_max=3)
    if case['skip']:
        env = aw.MaxAndSkipEnv(env, skip=2)
    if case['life']:
        env = aw.EpisodicLifeEnv(env)
    if case['fire']:
        env = aw.FireResetEnv(env)
    if case['big']:
        env = aw.WarpFrame(env, channel_order=case['order'])
    if case['float']:
        env = aw.ScaledFloatFrame(env)
    env = aw.ClipRewardEnv(env)
    if case['flicker']:
        env = aw.FlickerFrame(env)
    if case['stack']:
        env = aw.FrameStack(env, case['stack'], channel_order=case['order'])
    ledger(env.reset(), 'an observation')
    over = False
    for x in case['hist']:
        if over or x == 0:
            ledger(env.reset(), 'an observation')
        o, _, done, info = env.step(x % 4)
        over = done or info.get('needs_reset', False)
        ledger(o, 'an observation')
        ledger.audit('Atari wrappers')
    note.label('stack' if case['stack'] else 'no stack')
    note.nontrivial(case['stack'] > 1)


@suite.facet(st.fixed_dictionaries({
    'scripts': st.lists(p29.SCRIPT, min_size=1, max_size=4),
    'hist': p29.VHIST, 'k': st.integers(0, 3), 'seed': SEED}), quick=300)
def parallel(case, note):
    """What a vector environment is handed, and what it handed out."""
    ledger = Ledger()
    n = len(case['scripts'])
    env = SerialVectorEnv([RawGame(ledger, s, seed=case['seed'] + i)
                           for i, s in enumerate(case['scripts'])])
    if case['k']:
        env = wrappers.VectorFrameStack(env, case['k'])
    ledger(env.reset(), 'the observations')
    masks = 0
    for j, (kind, bits) in enumerate(case['hist']):
        if kind < 3:
            mask = ledger([bool(bits >> i & 1) for i in range(n)],
                          'the mask')
            masks += any(mask) and not all(mask)
            ledger(env.reset(mask=np.asarray(mask) if kind == 1 else mask),
                   'the observations')
        else:
            a = ledger([(j + i) % 4 for i in range(n)], 'the actions')
            o, r, d, _ = env.step(a)
            ledger([o, r, d], 'what a step returned')
            ledger(o, 'the observations')
        ledger.audit('vector environment')
    note.nontrivial(masks > 0)


# -------------------------------------------------------------- the rest

@suite.facet(st.fixed_dictionaries({
    'n': st.integers(1, 5), 'tau': floats(0, 1), 'seed': SEED}), quick=200)
def helpers(case, note):
    r = rng(case['seed'])
    n = case['n']
    ledger = Ledger()
    a = r.normal(size=(n, n))
    mat = ledger((a.dot(a.T) + np.eye(n)).astype('f'), 'the matrix')
    b = ledger(r.normal(size=n).astype('f'), 'the right-hand side')
    given = Ledger()

    def product(v):
        return ledger(mat.dot(given(v, 'a vector')), 'a product')
    x = conjugate_gradient(product, b)
    ledger(x, 'the solution')
    ledger.audit('conjugate_gradient')
    src = links.MLP(2, 2, (3,))
    dst = links.MLP(2, 2, (3,))
    ledger(list(src.params()), "the source's parameters")
    soft_copy_param(dst, src, case['tau'])
    ledger.audit('soft_copy_param')
    copy_param(dst, src)
    ledger.audit('copy_param')
    # the two have nothing in common
    for p in dst.params():
        p.array[...] = 7
    ledger.audit('writing into the copy')
    note.nontrivial(n > 1)
