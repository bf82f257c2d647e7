"""P12: updates of the continuous-control agents."""
import copy

import chainer
import numpy as np
from chainer import functions as F
from chainer import links as L
from hypothesis import strategies as st
from scipy import stats

from chainerrl import agents, distribution, policies, q_functions
from chainerrl.agents import td3
from chainerrl.agents.ddpg import DDPGModel
from chainerrl.misc.batch_states import batch_states
from chainerrl.policy import Policy
from chainerrl.replay_buffer import ReplayBuffer

from pbt import agents as A
from pbt import zoo
from pbt.core import Suite, check, close, eq
from pbt.gen import SEED, floats

suite = Suite(
    'P12',
    'at least two experiences, one of them not terminal, and critic and (when '
    'due) actor gradients that are not zero',
    ['Chainer autodiff of the networks is trusted; objectives are recomputed '
     'from them with the noise the policy drew',
     'float32 tolerance 5e-4'])

LOG = []          # (policy, input, noise)


class NoisyGaussian(distribution.GaussianDistribution):
    """Gaussian whose reparameterisation noise is logged."""

    owner = x = None

    def _noise(self):
        eps = np.random.standard_normal(self.mean.shape).astype('f')
        LOG.append((self.owner, np.array(self.x, copy=True), eps))
        return self.mean + F.exp(self.ln_var / 2) * eps

    def sample(self):
        return self._noise()

    def sample_with_log_prob(self):
        y = self._noise()
        return y, self.log_prob(y)


class NoisySquashed(distribution.SquashedGaussianDistribution):

    owner = x = None
    _noise = NoisyGaussian._noise

    def sample(self):
        return F.tanh(self._noise())

    def sample_with_log_prob(self):
        u = self._noise()
        return F.tanh(u), squashed_log_prob(u, self.mean, self.ln_var)


def squashed_log_prob(u, mean, ln_var):
    lp = -0.5 * (np.log(2 * np.pi).astype('f') + ln_var
                 + (u - mean) ** 2 * F.exp(-ln_var))
    ldj = 2 * (np.log(2).astype('f') - u - F.softplus(-2 * u))
    return F.sum(lp - ldj, axis=1)


class LoggedPolicy(chainer.Chain, Policy):

    def __init__(self, kind):
        super().__init__()
        self.kind = kind
        with self.init_scope():
            self.mean = L.Linear(A.OBS, A.ACT)
            if kind != 'det':
                self.lv = L.Linear(A.OBS, A.ACT)

    def stats(self, x):
        return self.mean(x), F.tanh(self.lv(x))

    def __call__(self, x):
        if self.kind == 'det':
            LOG.append((self, np.array(x, copy=True), None))
            return distribution.ContinuousDeterministicDistribution(
                F.tanh(self.mean(x)))
        m, lv = self.stats(x)
        if self.kind == 'gauss':
            d = NoisyGaussian(m, F.exp(lv))
        else:
            d = NoisySquashed(m, F.exp(lv))
        d.owner, d.x = self, x
        return d

    def actions(self, x, eps):
        """(actions, log probabilities, entropy) given the noise."""
        if self.kind == 'det':
            return F.tanh(self.mean(x)), None, None
        m, lv = self.stats(x)
        u = m + F.exp(lv / 2) * eps
        if self.kind == 'squash':
            return F.tanh(u), squashed_log_prob(u, m, lv), None
        lp = F.sum(-0.5 * (np.float32(np.log(2 * np.pi)) + lv
                           + (u - m) ** 2 * F.exp(-lv)), axis=1)
        ent = F.sum(0.5 * (lv + np.float32(np.log(2 * np.pi * np.e))),
                    axis=1)
        return u, lp, ent

    def mode(self, x):
        m = self.mean(x)
        return m if self.kind == 'gauss' else F.tanh(m)


class Q(chainer.Chain):

    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.a = L.Linear(A.OBS + A.ACT, 4)
            self.b = L.Linear(4, 1)

    def __call__(self, x, a):
        return self.b(F.tanh(self.a(F.concat((x, a), axis=1))))


CASE = st.fixed_dictionaries({
    'exps': st.lists(st.fixed_dictionaries({
        'r': st.lists(floats(-3, 3), min_size=1, max_size=3),
        'terminal': st.booleans()}), min_size=1, max_size=5),
    'gamma': st.one_of(st.sampled_from([0.0, 1.0]), floats(0.125, 1)),
    'tau': st.sampled_from([0.005, 0.3, 1.0]),
    'delay': st.integers(1, 3), 'updates': st.integers(1, 3),
    'gauss': st.booleans(), 'phi': st.booleans(), 'bs': st.booleans(),
    'beta': st.sampled_from([0.0, 0.01, 0.7]),
    'temp': st.sampled_from([0.1, 1.0, 2.0]),
    'entropy_target': st.sampled_from([None, -2.0, 0.5, 1.0]),
    'scale': st.sampled_from([0.3, 1.0]),
    'seed': SEED,
})


T_LR = 0.01


def phi2(x):
    return x * np.float32(2)


def shifted_batch_states(states, xp, phi):
    """A batch_states that leaves a trace in the batch."""
    return batch_states(states, xp, phi) + np.float32(0.25)


def smooth(a):
    return np.clip(a + np.float32(0.37), -0.8, 0.8).astype('f')


class Setup(object):

    def __init__(self, kind, case):
        self.kind, self.case = kind, case
        self.log = []
        s, sc = case['seed'], case['scale']
        self.r = np.random.RandomState(s % (2 ** 32))
        kw = dict(replay_start_size=10, minibatch_size=1,
                  phi=phi2 if case['phi'] else (lambda x: x))
        if case['bs']:
            kw['batch_states'] = shifted_batch_states
        buf, g = ReplayBuffer(None), case['gamma']
        if kind == 'SAC':
            self.policy = LoggedPolicy('squash')
        elif kind == 'PGT':
            self.policy = LoggedPolicy('gauss')
        else:
            self.policy = LoggedPolicy('gauss' if case['gauss'] else 'det')
        A.randomize(self.policy, s, sc)
        self.opt = {}
        if kind in ('TD3', 'SAC'):
            self.qs = {'q1': Q(), 'q2': Q()}
        else:
            self.qs = {'q': Q()}
        for i, (n, q) in enumerate(sorted(self.qs.items())):
            A.randomize(q, s + 1 + i, sc)
            self.opt[n] = A.LoggedSGD(lr=1.0).attach(n, q, self.log)
        if kind in ('TD3', 'SAC'):
            po = A.LoggedSGD(lr=1.0).attach('policy', self.policy, self.log)
        if kind == 'TD3':
            ag = self.agent = agents.TD3(
                self.policy, self.qs['q1'], self.qs['q2'], po,
                self.opt['q1'], self.opt['q2'], buf, g, A.LoggedExplorer([]),
                soft_update_tau=case['tau'],
                policy_update_delay=case['delay'],
                target_policy_smoothing_func=smooth, **kw)
            self.tgt = {'q1': ag.target_q_func1, 'q2': ag.target_q_func2,
                        'policy': ag.target_policy}
        elif kind == 'SAC':
            self.topt = chainer.optimizers.SGD(lr=T_LR)
            ag = self.agent = agents.SoftActorCritic(
                self.policy, self.qs['q1'], self.qs['q2'], po,
                self.opt['q1'], self.opt['q2'], buf, g,
                soft_update_tau=case['tau'],
                initial_temperature=case['temp'],
                entropy_target=case['entropy_target'],
                temperature_optimizer=self.topt, **kw)
            self.tgt = {'q1': ag.target_q_func1, 'q2': ag.target_q_func2}
        else:
            if kind == 'DDPG':
                model = DDPGModel(self.policy, self.qs['q'])
            else:
                model = chainer.Chain(policy=self.policy,
                                      q_function=self.qs['q'])
                kw['beta'] = case['beta']
            po = A.LoggedSGD(lr=1.0).attach('policy', self.policy, self.log)
            ag = self.agent = getattr(agents, kind)(
                model, po, self.opt['q'], buf, g, A.LoggedExplorer([]), **kw)
            self.tgt = {'q': ag.target_q_function,
                        'policy': ag.target_policy}
        self.opt['policy'] = po
        for i, (n, t) in enumerate(sorted(self.tgt.items())):
            A.randomize(t, s + 5 + i, sc)

    def exps(self):
        out = []
        for e in self.case['exps']:
            n = len(e['r'])
            obs = self.r.uniform(-1, 1, (n + 1, A.OBS)).astype('f')
            out.append([dict(
                state=obs[j], next_state=obs[j + 1],
                action=self.r.uniform(-1, 1, A.ACT).astype('f'),
                reward=e['r'][j], next_action=None,
                is_state_terminal=e['terminal'] and j == n - 1)
                for j in range(n)])
        return out

    def batch(self, xs):
        x = np.stack(xs) * np.float32(2 if self.case['phi'] else 1)
        return x + np.float32(0.25) if self.case['bs'] else x

    def noise(self, policy, x, what):
        """Noise logged for `policy` on input x."""
        hits = [e for o, y, e in LOG if o is policy and y.shape == x.shape
                and np.array_equal(y, x)]
        check(hits, 'the {} was not evaluated by the expected policy', what)
        return hits[-1]


def grads(link):
    return {k: (np.zeros_like(p.array) if p.grad is None else p.grad.copy())
            for k, p in link.namedparams()}


def step_is(before, after, g, what):
    for k in g:
        close(before[k] - after[k], g[k], '{} ({})'.format(what, k),
              rtol=5e-4, atol=3e-5)


def run(kind, case, note):
    del LOG[:]
    s = Setup(kind, case)
    ag = s.agent
    total = 0.0
    q_updates = 0
    cont_seen = False
    for _ in range(case['updates']):
        if max(np.abs(v).max() for k in s.opt.values()
               for v in A.params(k.target).values()) > 100:
            note.label('stopped: unit learning rate diverged')
            break
        exps = s.exps()
        S = s.batch([e[0]['state'] for e in exps])
        NS = s.batch([e[-1]['next_state'] for e in exps])
        acts = np.stack([e[0]['action'] for e in exps])
        g = case['gamma']
        r = np.array([sum(g ** i * t['reward'] for i, t in enumerate(e))
                      for e in exps])
        disc = np.array([g ** len(e) for e in exps])
        term = np.array([float(e[-1]['is_state_terminal']) for e in exps])
        n = len(exps)
        pol0 = copy.deepcopy(s.policy)
        q0 = {k: copy.deepcopy(q) for k, q in s.qs.items()}
        before = {k: A.params(q) for k, q in s.qs.items()}
        pbefore = A.params(s.policy)
        tbefore = {k: A.params(t) for k, t in s.tgt.items()}
        temp = ag.temperature if kind == 'SAC' else None
        lt = float(ag.temperature_holder.log_temperature.array) \
            if kind == 'SAC' and case['entropy_target'] is not None else None
        del LOG[:]
        del s.log[:]
        ag.update(exps)
        q_updates += 1
        # critics
        with chainer.no_backprop_mode():
            if kind == 'SAC':
                na, nlp, _ = pol0.actions(
                    NS, s.noise(s.policy, NS, 'next action'))
            else:
                tp = s.tgt['policy']
                eps = s.noise(tp, NS, 'next action')
                # the target policy may have moved after being used
                saved = A.params(tp)
                load(tp, tbefore['policy'])
                na = tp.actions(NS, eps)[0]
                load(tp, saved)
            na = na.array
            if kind == 'TD3':
                na = smooth(na)
            vals = []
            for k in s.qs:
                saved = A.params(s.tgt[k])
                load(s.tgt[k], tbefore[k])
                vals.append(s.tgt[k](NS, na).array[:, 0].astype('d'))
                load(s.tgt[k], saved)
            nq = np.min(vals, axis=0)
            if kind == 'SAC':
                nq = nq - temp * nlp.array.astype('d')
        y = r + disc * (1 - term) * nq
        scale = 1.0 if kind == 'SAC' else 2.0
        for k, q in q0.items():
            q.cleargrads()
            v = q(S, acts)
            d = scale * (v.array[:, 0] - y) / n
            F.sum(v[:, 0] * d.astype('f')).backward()
            step_is(before[k], A.params(s.qs[k]), grads(q),
                    '{} critic {}'.format(kind, k))
            total += sum(np.abs(v).sum() for v in grads(q).values())
        # actor
        due = kind != 'TD3' or q_updates % case['delay'] == 0
        names = sorted(e[1] for e in s.log)
        eq(names, sorted(list(s.qs) + (['policy'] if due else [])),
           'optimizers stepped')
        pg = 1.0
        if due:
            q1 = copy.deepcopy(s.qs.get('q') or s.qs['q1'])
            pol0.cleargrads()
            eps = s.noise(s.policy, S, 'action')
            a, lp, ent = pol0.actions(S, eps)
            if kind == 'SAC':
                q2 = copy.deepcopy(s.qs['q2'])
                q = F.minimum(q1(S, a), q2(S, a))[:, 0]
                loss = F.sum(np.float32(temp) * lp - q) / n
            elif kind == 'PGT':
                with chainer.no_backprop_mode():
                    adv = (q1(S, a.array) - q1(S, pol0.mode(S))).array[:, 0]
                m, lv = pol0.stats(S)
                u = a.array
                lp = F.sum(-0.5 * (np.float32(np.log(2 * np.pi)) + lv
                                   + (u - m) ** 2 * F.exp(-lv)), axis=1)
                loss = -F.sum(adv * lp + np.float32(case['beta']) * ent) / n
            else:
                loss = -F.sum(q1(S, a)) / n
            loss.backward()
            step_is(pbefore, A.params(s.policy), grads(pol0),
                    '{} actor'.format(kind))
            pg = sum(np.abs(v).sum() for v in grads(pol0).values())
            if lt is not None:
                got = float(ag.temperature_holder.log_temperature.array)
                want = np.exp(lt) * float(np.mean(
                    lp.array + case['entropy_target']))
                close((got - lt) / T_LR, want, 'log temperature step',
                      rtol=1e-3, atol=1e-3)
        else:
            check(A.same_params(pbefore, A.params(s.policy)),
                  'policy changed by a critic update')
        if kind == 'SAC' and lt is None:
            close(ag.temperature, case['temp'], 'fixed temperature')
        # targets
        for k, t in s.tgt.items():
            src = s.policy if k == 'policy' else s.qs[k]
            want = tbefore[k]
            if kind == 'SAC' or (kind == 'TD3' and due):
                p = A.params(src)
                want = {x: (1 - case['tau']) * want[x] + case['tau'] * p[x]
                        for x in want}
            got = A.params(t)
            for x in want:
                close(got[x], want[x], 'target {}'.format(k), rtol=1e-5,
                      atol=1e-6)
        cont_seen = cont_seen or term.min() == 0
    if case['bs']:
        note.label('custom batch_states')
    note.nontrivial(len(case['exps']) >= 2 and cont_seen and total > 1e-6
                    and pg > 1e-9)


def load(link, values):
    for k, p in link.namedparams():
        p.array[...] = values[k]


for _k in ('DDPG', 'TD3', 'SAC', 'PGT'):
    suite.add('update_' + _k, CASE, lambda c, n, _k=_k: run(_k, c, n),
              quick=260, shards=2)


@suite.facet(st.fixed_dictionaries({
    'n': st.integers(1, 5), 'd': st.integers(1, 3), 'seed': SEED}),
    quick=60)
def default_smoothing(case, note):
    r = np.random.RandomState(case['seed'] % (2 ** 32))
    a = r.uniform(-1, 1, (case['n'], case['d'])).astype('f')
    for _ in range(20):
        b = td3.default_target_policy_smoothing_func(a.copy())
        check(b.shape == a.shape, 'shape {}', b.shape)
        check((np.abs(b) <= 1).all(), 'smoothed action out of [-1, 1]')
        check((np.abs(b - a) <= 0.5 + 1e-6).all(),
              'smoothing noise beyond its bound')
    # noise of deviation 0.2 cut at 0.5, around any action
    m = 20000
    x0 = np.float32(r.uniform(-0.45, 0.45))
    big = np.full((m, 1), x0, 'f')
    noise = np.sort((td3.default_target_policy_smoothing_func(big)
                     - x0).ravel().astype('d'))
    inner = np.abs(noise) < 0.4999
    cdf = stats.norm.cdf(noise / 0.2)
    rank = np.arange(1, m + 1) / m
    d = np.abs(rank - cdf)[inner].max()
    check(d < np.sqrt(np.log(2e11) / (2 * m)) + 1e-3,
          'smoothing noise is not Gaussian with deviation 0.2: distance {}', d)
    note.nontrivial(a.size > 1)


# ------------------------------------------------- recurrent DDPG

@suite.facet(st.fixed_dictionaries({
    'eps': st.lists(st.fixed_dictionaries({
        'r': st.lists(floats(-3, 3), min_size=1, max_size=4),
        'terminal': st.booleans()}), min_size=1, max_size=4),
    'gamma': floats(0.125, 1), 'seed': SEED}), quick=100, shards=2)
def recurrent_ddpg(case, note):
    """Updates from episodes equal unrolling every episode alone."""
    s = case['seed']
    pol = policies.FCLSTMDeterministicPolicy(
        A.OBS, 1, 3, A.ACT, np.full(A.ACT, -1, 'f'), np.full(A.ACT, 1, 'f'),
        True)
    qf = q_functions.FCLSTMSAQFunction(A.OBS, A.ACT, 3, 1)
    A.randomize(pol, s, 1.0)
    A.randomize(qf, s + 1, 1.0)
    model = DDPGModel(pol, qf)
    ao = chainer.optimizers.SGD(lr=1.0)
    ao.setup(model['policy'])
    co = chainer.optimizers.SGD(lr=1.0)
    co.setup(model['q_function'])
    ag = agents.DDPG(model, ao, co, ReplayBuffer(None), case['gamma'],
                     A.LoggedExplorer([]), replay_start_size=10,
                     minibatch_size=1, episodic_update=True)
    A.randomize(ag.target_model, s + 2, 1.0)
    r = np.random.RandomState(s % (2 ** 32))
    eps = []
    for e in case['eps']:
        n = len(e['r'])
        obs = r.uniform(-1, 1, (n + 1, A.OBS)).astype('f')
        act = r.uniform(-1, 1, (n + 1, A.ACT)).astype('f')
        eps.append([dict(state=obs[j], next_state=obs[j + 1], action=act[j],
                         next_action=act[j + 1], reward=e['r'][j],
                         is_state_terminal=e['terminal'] and j == n - 1)
                    for j in range(n)])
    T = max(len(e) for e in eps)
    active = [sum(len(e) > t for e in eps) for t in range(T)]
    q0 = copy.deepcopy(ag.q_function)
    p0 = copy.deepcopy(ag.policy)
    qt, pt = copy.deepcopy(ag.target_q_function), \
        copy.deepcopy(ag.target_policy)
    q0.cleargrads()
    loss = 0
    for e in eps:
        for link in (q0, qt, pt):
            link.reset_state()
        with chainer.no_backprop_mode():
            qt(e[0]['state'][None], e[0]['action'][None])
            pt(e[0]['state'][None])
        for t, tr in enumerate(e):
            ns = tr['next_state'][None]
            with chainer.no_backprop_mode():
                na = pt(ns).sample()
                h, c = qt.lstm.h, qt.lstm.c
                nq = float(qt(ns, na).array)
                qt.lstm.h, qt.lstm.c = h, c
                qt(ns, tr['next_action'][None])
            y = tr['reward'] + case['gamma'] * (
                1 - tr['is_state_terminal']) * nq
            v = q0(tr['state'][None], tr['action'][None])
            loss += F.sum((v - np.float32(y)) ** 2) / (active[t] * T)
    loss.backward()
    bq, bp = A.params(ag.q_function), A.params(ag.policy)
    bt = A.params(ag.target_model)
    ag.update_from_episodes(eps)
    step_is(bq, A.params(ag.q_function), grads(q0), 'recurrent critic')
    q1 = copy.deepcopy(ag.q_function)
    p0.cleargrads()
    loss = 0
    for e in eps:
        q1.reset_state()
        p0.reset_state()
        for t, tr in enumerate(e):
            x = tr['state'][None]
            a = p0(x).sample()
            h, c = q1.lstm.h, q1.lstm.c
            loss -= F.sum(q1(x, a)) / (active[t] * T)
            q1.lstm.h, q1.lstm.c = h, c
            q1(x, tr['action'][None])
    loss.backward()
    step_is(bp, A.params(ag.policy), grads(p0), 'recurrent actor')
    check(A.same_params(bt, A.params(ag.target_model)),
          'the update changed the targets')
    note.nontrivial(len(set(len(e) for e in eps)) > 1 and T > 1)


suite.add('modes', zoo.modes_strategy(A.AC_KINDS), zoo.run_modes, quick=60)
