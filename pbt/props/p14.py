"""P14: TRPO's policy steps and the conjugate gradient solver."""
import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np
from hypothesis import strategies as st

from chainerrl import agents
from chainerrl.distribution import SoftmaxDistribution
from chainerrl.misc import conjugate_gradient

from pbt import onpolicy as O
from pbt.core import Suite, check
from pbt.gen import SEED, floats

suite = Suite(
    'P14',
    'TRPO: the policy moved in at least one update; CG: a right-hand side '
    'that is not zero',
    ['KL divergence and surrogate are recomputed in double precision from '
     'the raw outputs of the nets; tolerance 0.2% for float32',
     'the direction is compared only for feed-forward policies, and for few '
     'or well-conditioned CG iterations'])


def run(case, note):
    s = O.Session('TRPO', case, note, policy_checks=True)
    s.run()
    note.nontrivial(s.n_moved > 0)


suite.add('policy_step', O.case_strategy('TRPO', False), run, quick=100,
          shards=5)
suite.add('policy_step_recurrent', O.case_strategy('TRPO', True), run,
          quick=80, shards=5)


class OldStyleIdentity(chainer.Function):
    """A function without double backpropagation."""

    def forward(self, inputs):
        return tuple(x.copy() for x in inputs)

    def backward(self, inputs, gys):
        return gys


class Stack(chainer.Chain):
    """A policy of many layers, each of which uses its input twice."""

    def __init__(self, depth, old_at, n_out):
        super().__init__()
        self.depth, self.old_at = depth, old_at
        with self.init_scope():
            self.a = L.Linear(2, 3)
            self.b = L.Linear(3, n_out)

    def __call__(self, x):
        h = self.a(x)
        for i in range(self.depth):
            if self.old_at == i:
                h = OldStyleIdentity()(h)
            h = 0.5 * h + 0.5 * F.tanh(h)
        if self.old_at == self.depth:
            h = OldStyleIdentity()(h)
        return SoftmaxDistribution(self.b(h))


@suite.facet(st.fixed_dictionaries({
    'depth': st.one_of(st.integers(0, 6), st.integers(7, 60)),
    'old': st.one_of(st.none(), st.sampled_from([0.0, 0.5, 1.0])),
    'steps': st.integers(2, 6), 'seed': SEED}), quick=40, max_shrink=5,
    limit=60)
def deep_policies(case, note):
    """Updates need double backpropagation through policies of any shape:
    they are done, or refused when a function does not support it."""
    r = np.random.RandomState(case['seed'] % (2 ** 32))
    old_at = None if case['old'] is None else int(case['old'] * case['depth'])
    pi = Stack(case['depth'], old_at, 3)
    vf = chainer.Sequential(L.Linear(2, 1))
    opt = chainer.optimizers.Adam()
    opt.setup(vf)
    n = case['steps']
    agent = agents.TRPO(pi, vf, opt, update_interval=n, vf_batch_size=n,
                        vf_epochs=1)
    obs = [r.normal(size=2).astype('f') for _ in range(n + 1)]
    before = [p.array.copy() for p in pi.params()]
    agent.act_and_train(obs[0], 0.0)
    for o in obs[1:-1]:
        agent.act_and_train(o, float(r.normal()))
    refused = False
    try:
        agent.stop_episode_and_train(obs[-1], 1.0, done=True)
    except RuntimeError as e:
        if 'ld-style' not in str(e):
            raise
        refused = True
    moved = any((p.array != b).any() for p, b in zip(pi.params(), before))
    if old_at is None:
        check(not refused, 'a policy of new-style functions is refused')
    else:
        check(refused, 'a policy with a function that has no second '
              'derivative is not refused')
        check(not moved, 'a refused update changes the policy')
    note.label('refused' if refused else 'updated')
    note.nontrivial(case['depth'] > 1)


@suite.facet(st.fixed_dictionaries({
    'dim': st.integers(1, 8), 'log_cond': floats(0, 2),
    'log_scale': floats(-2, 2), 'zero': st.integers(0, 9),
    'iters': st.sampled_from([0, 1, 3, None]),
    'f32': st.booleans(), 'seed': SEED}), quick=600)
def cg(case, note):
    r = np.random.RandomState(case['seed'] % (2 ** 32))
    n = case['dim']
    dt = np.float32 if case['f32'] else np.float64
    q, _ = np.linalg.qr(r.normal(size=(n, n)))
    ev = 10 ** (r.uniform(0, 1, n) * case['log_cond'] + case['log_scale'])
    M = ((q * ev) @ q.T)
    M = (M + M.T) / 2
    b = r.normal(size=n)
    if case['zero'] == 0:
        b[:] = 0
    calls = []
    Md = M.astype(dt)

    def prod(v):
        check(v.shape == (n,), 'shape {}', v.shape)
        calls.append(1)
        return Md.dot(v)
    b0 = b.astype(dt)
    iters = case['iters'] if case['iters'] is not None else 4 * n + 4
    x = conjugate_gradient(prod, b0.copy(), max_iter=iters)
    check(x.shape == (n,) and x.dtype == dt, 'result {} {}', x.shape, x.dtype)
    want = np.linalg.solve(M, b)

    def energy(z):
        e = z - want
        return float(e @ M @ e)
    check(np.isfinite(x).all(), 'solution is not finite: {}', x.tolist())
    tol = 1e-4 if case['f32'] else 1e-9
    if iters == 0:
        check(not x.any(), 'no iterations, but {}', x.tolist())
    else:
        e0 = energy(np.zeros(n))
        # Chebyshev bound on the energy norm of the error
        k = ev.max() / ev.min()
        s = (np.sqrt(k) - 1) / (np.sqrt(k) + 1)
        bound = min(1.0, 4 * s ** (2 * iters)) * e0
        if iters >= n:
            bound = 0.0
        check(energy(x.astype('d')) <= bound * 1.01 + (tol ** 2) * k * 100 * e0
              + 1e-18, 'error {} after {} iterations, bound {} of {}',
              energy(x.astype('d')), iters, bound, e0)
    note.nontrivial(b.any() and iters > 0 and n > 1)
