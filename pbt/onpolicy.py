"""PPO and TRPO driven through generated histories, with every optimizer step
and every policy step compared with an independent reference."""
import copy

import chainer
import numpy as np
from chainer import functions as F
from chainer import links as L
from hypothesis import strategies as st

import chainerrl
from chainerrl import agents, distribution
from chainerrl.links import (Branched, StatelessRecurrentBranched,
                             StatelessRecurrentSequential)
from chainerrl.misc.batch_states import batch_states

from pbt import agents as A
from pbt.core import check, close
from pbt.gen import SEED, floats, sized

OBS, ACT, NACT, H = 2, 2, 3, 3
LOG2PI = float(np.log(2 * np.pi))


# ---------------------------------------------------------------- models

def softmax_dist(y):
    return distribution.SoftmaxDistribution(y)


def gauss_dist(y):
    m, lv = F.split_axis(y, 2, axis=1)
    return distribution.GaussianDistribution(m, F.exp(lv))


def to_dist(kind):
    return softmax_dist if kind == 'softmax' else gauss_dist


def out_size(kind):
    return NACT if kind == 'softmax' else 2 * ACT


class Net(chainer.Chain):
    """Feed-forward net that logs inputs of training passes."""

    def __init__(self, n_out, name, log, wrap=None):
        super().__init__()
        self.log_name, self.log, self.wrap = name, log, wrap
        with self.init_scope():
            self.a = L.Linear(OBS, H)
            self.b = L.Linear(H, n_out)

    def raw(self, x):
        return self.b(F.tanh(self.a(x)))

    def __call__(self, x):
        if chainer.config.enable_backprop:
            self.log.append(('fwd', self.log_name, [A_(x).copy()]))
        y = self.raw(x)
        return self.wrap(y) if self.wrap else y


class RecNet(StatelessRecurrentSequential):

    def setup(self, name, log):
        self.log_name, self.log = name, log
        return self

    def n_step_forward(self, sequences, recurrent_state, output_mode):
        if chainer.config.enable_backprop:
            self.log.append(('fwd', self.log_name,
                             [A_(s).copy() for s in sequences]))
        return super().n_step_forward(sequences, recurrent_state,
                                      output_mode)


def A_(x):
    return x.array if isinstance(x, chainer.Variable) else x


def rec_net(cell, n_out, wrap, name, log):
    rnn = {'lstm': L.NStepLSTM, 'gru': L.NStepGRU,
           'rnn': L.NStepRNNTanh}[cell](1, OBS, H, 0)
    layers = [rnn, L.Linear(H, n_out)] + ([wrap] if wrap else [])
    return RecNet(*layers).setup(name, log)


class Ref(object):
    """Reference evaluation of a net: raw outputs, one sequence at a time."""

    def __init__(self, net, cell):
        self.net, self.cell = net, cell

    def step(self, x, state):
        """x: (1, OBS); returns raw output Variable and the new state."""
        if not self.cell:
            return self.net.raw(x), None
        x = [chainer.as_variable(x)]
        rnn, lin = self.net[0], self.net[1]
        if self.cell == 'lstm':
            h, c, ys = rnn(*(state or (None, None)), x)
            return lin(ys[0]), (h, c)
        h, ys = rnn(state, x)
        return lin(ys[0]), h

    def unroll(self, xs, state):
        out = []
        for x in xs:
            y, state = self.step(x[None], state)
            out.append(y)
        return F.concat(out, axis=0)


def detach(state):
    if state is None:
        return None
    if isinstance(state, tuple):
        return tuple(A_(s).copy() for s in state)
    return A_(state).copy()


def log_prob_entropy(kind, y, actions):
    """Log-probabilities and entropies (Variables) from raw outputs."""
    if kind == 'softmax':
        m = F.broadcast_to(F.max(y, axis=1, keepdims=True), y.shape)
        z = y - m
        lse = F.broadcast_to(
            F.log(F.sum(F.exp(z), axis=1, keepdims=True)), y.shape)
        lp = z - lse
        onehot = np.eye(NACT, dtype='f')[np.asarray(actions, dtype='i')]
        return F.sum(lp * onehot, axis=1), -F.sum(F.exp(lp) * lp, axis=1)
    m, lv = y[:, :ACT], y[:, ACT:]
    a = np.asarray(actions, dtype='f')
    lp = F.sum(-0.5 * (np.float32(LOG2PI) + lv
                       + (a - m) ** 2 * F.exp(-lv)), axis=1)
    ent = F.sum(0.5 * (lv + np.float32(LOG2PI + 1)), axis=1)
    return lp, ent


def kl_rows(kind, old, new):
    """KL(old || new) per row in double precision from raw outputs."""
    old, new = old.astype('d'), new.astype('d')
    if kind == 'softmax':
        def lsm(y):
            y = y - y.max(1, keepdims=True)
            return y - np.log(np.exp(y).sum(1, keepdims=True))
        p, q = lsm(old), lsm(new)
        return (np.exp(p) * (p - q)).sum(1)
    m0, l0, m1, l1 = old[:, :ACT], old[:, ACT:], new[:, :ACT], new[:, ACT:]
    return (0.5 * (l1 - l0 + (np.exp(l0) + (m0 - m1) ** 2) * np.exp(-l1)
                   - 1)).sum(1)


def log_prob_np(kind, y, actions):
    y = y.astype('d')
    if kind == 'softmax':
        y = y - y.max(1, keepdims=True)
        lp = y - np.log(np.exp(y).sum(1, keepdims=True))
        ent = -(np.exp(lp) * lp).sum(1)
        return lp[np.arange(len(y)), np.asarray(actions, dtype=int)], ent
    m, lv = y[:, :ACT], y[:, ACT:]
    a = np.asarray(actions, dtype='d')
    return ((-0.5 * (LOG2PI + lv + (a - m) ** 2 * np.exp(-lv))).sum(1),
            (0.5 * (lv + LOG2PI + 1)).sum(1))


# ------------------------------------------------------------------ cases

def phi2(x):
    return x * np.float32(2)


def shifted(states, xp, phi):
    return batch_states(states, xp, phi) + np.float32(0.25)


def case_strategy(kind, recurrent):
    d = {
        'dist': st.sampled_from(['softmax', 'gauss']),
        'batch': st.booleans(), 'envs': st.integers(1, 3),
        'interval': st.integers(2, 12), 'div': st.integers(0, 5),
        'epochs': st.integers(1, 3),
        'gamma': st.one_of(st.sampled_from([0.0, 1.0]), floats(0.125, 1)),
        'lambd': st.one_of(st.sampled_from([0.0, 1.0]), floats(0.125, 1)),
        'eps_clip': st.sampled_from([0.05, 0.2]),
        'eps_vf': st.sampled_from([None, 0.05, 0.3]),
        'std': st.booleans(), 'norm': st.booleans(),
        'phi': st.booleans(), 'bs': st.booleans(),
        'vcoef': st.sampled_from([0.0, 0.5, 1.0]),
        'ecoef': st.sampled_from([0.0, 0.01, 0.5]),
        'det': st.booleans(), 'lr': st.sampled_from([0.03, 0.3]),
        'scale': st.sampled_from([0.3, 1.0]),
        'cell': st.sampled_from(['lstm', 'gru', 'rnn']) if recurrent
        else st.just(None),
        'max_len': st.sampled_from([None, 1, 2, 3]),
        'max_kl': st.sampled_from([0.001, 0.01, 0.1, 1.0, 10.0]),
        'backtrack': st.sampled_from([0, 1, 2, 10]),
        'cg_iter': st.sampled_from([1, 3, 10]),
        'damping': st.sampled_from([1e-3, 1e-2, 0.1, 1.0]),
        # step: [reward, end]; 0-3 goes on, 4 terminal, 5 cut, 6 both
        'steps': sized(st.tuples(floats(-2, 2), st.integers(0, 6)).map(list),
                       4, 30),
        'evals': st.lists(st.integers(0, 29), max_size=3),
        'seed': SEED,
    }
    return st.fixed_dictionaries(d)


class Step(object):

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Session(object):

    def __init__(self, kind, case, note, policy_checks=False):
        self.kind, self.case, self.note = kind, case, note
        self.policy_checks = policy_checks
        c = case
        self.r = np.random.RandomState(c['seed'] % (2 ** 32))
        self.log = []
        self.cell = c['cell']
        self.dist = c['dist']
        wrap = to_dist(c['dist'])
        if self.cell:
            self.pi = rec_net(self.cell, out_size(self.dist), wrap, 'pi',
                              self.log)
            self.v = rec_net(self.cell, 1, None, 'v', self.log)
        else:
            self.pi = Net(out_size(self.dist), 'pi', self.log, wrap)
            self.v = Net(1, 'v', self.log)
        A.randomize(self.pi, c['seed'], c['scale'])
        A.randomize(self.v, c['seed'] + 1, c['scale'])
        self.n_envs = c['envs'] if c['batch'] else 1
        n = c['interval']
        if self.cell:
            n = -(-n // self.n_envs) * self.n_envs
        self.interval = n
        size = -(-n // self.n_envs) * self.n_envs
        divs = [d for d in range(1, size + 1) if size % d == 0]
        self.mb = (divs[c['div'] * 7 % len(divs)] if c['div'] % 2
                   else 1 + c['div'] * 7 % (size + 1))
        norm = chainerrl.links.EmpiricalNormalization(
            OBS, clip_threshold=2.0) if c['norm'] else None
        kw = dict(
            obs_normalizer=norm, gamma=c['gamma'], lambd=c['lambd'],
            entropy_coef=c['ecoef'], update_interval=n,
            standardize_advantages=c['std'], recurrent=bool(self.cell),
            max_recurrent_sequence_len=c['max_len'],
            act_deterministically=c['det'])
        if c['phi']:
            kw['phi'] = phi2
        if c['bs']:
            kw['batch_states'] = shifted
        if kind == 'PPO':
            br = StatelessRecurrentBranched if self.cell else Branched
            self.link = br(self.pi, self.v)
            opt = A.LoggedSGD(lr=c['lr']).attach('opt', self.link, self.log)
            self.agent = agents.PPO(
                self.link, opt, value_func_coef=c['vcoef'],
                minibatch_size=self.mb, epochs=c['epochs'],
                clip_eps=c['eps_clip'], clip_eps_vf=c['eps_vf'], **kw)
        else:
            self.link = self.v
            opt = A.LoggedSGD(lr=c['lr']).attach('opt', self.v, self.log)
            self.agent = agents.TRPO(
                self.pi, self.v, opt, max_kl=c['max_kl'],
                vf_epochs=c['epochs'], vf_batch_size=self.mb,
                line_search_max_backtrack=c['backtrack'],
                conjugate_gradient_max_iter=c['cg_iter'],
                conjugate_gradient_damping=c['damping'], **kw)
        self.opt = opt
        self.memory = []
        self.current = [[] for _ in range(self.n_envs)]
        self.values, self.entropies = [], []
        self.n_opt = 0
        self.n_verified = 0
        self.n_moved = 0
        self.multi = False
        self.ev = None

    # ------------------------------------------------------ reference

    def feats(self, xs):
        x = np.stack(xs)
        if self.case['phi']:
            x = x * np.float32(2)
        if self.case['bs']:
            x = x + np.float32(0.25)
        return x.astype('f')

    def normed(self, norm, xs):
        x = self.feats(xs)
        return x if norm is None else norm(x, update=False)

    def collected(self):
        return sum(map(len, self.memory)) + sum(map(len, self.current))

    def append(self, env, step):
        self.current[env].append(step)

    def close_episode(self, env):
        if self.current[env]:
            self.memory.append(self.current[env])
            self.current[env] = []

    def watched(self, f):
        """Call `f`, a call that may update; verify what it did."""
        due = self.collected() >= self.interval
        del self.log[:]
        pi0, v0 = copy.deepcopy(self.pi), copy.deepcopy(self.v)
        norm0 = copy.deepcopy(self.agent.obs_normalizer)
        out = f()
        ups = [e for e in self.log if e[0] == 'update']
        if not due:
            check(not ups, '{} updates with {} of {} steps collected',
                  len(ups), self.collected(), self.interval)
            check(A.same_params(A.params(pi0), A.params(self.pi))
                  and A.same_params(A.params(v0), A.params(self.v)),
                  'parameters changed without an update')
            return out
        check(ups, 'no update with {} of {} steps collected',
              self.collected(), self.interval)
        for e in range(self.n_envs):
            self.close_episode(e)
        eps, self.memory = self.memory, []
        self.multi = self.multi or len(eps) > 1
        self.verify(eps, pi0, v0, norm0)
        return out

    def targets(self, eps, pi0, v0, norm0):
        g, lam = self.case['gamma'], self.case['lambd']
        rp, rv = Ref(pi0, self.cell), Ref(v0, self.cell)
        with chainer.no_backprop_mode():
            for ep in eps:
                xs = self.normed(norm0, [s.obs for s in ep])
                ns = self.normed(norm0, [s.next_obs for s in ep])
                v = rv.unroll(xs, ep[0].v_state).array[:, 0].astype('d')
                nv = rv.unroll(ns, ep[0].next_v_state).array[:, 0] \
                    .astype('d')
                y = rp.unroll(xs, ep[0].pi_state).array
                lp = log_prob_np(self.dist, y, [s.action for s in ep])[0]
                d = [s.reward + g * s.nonterminal * nv[i] - v[i]
                     for i, s in enumerate(ep)]
                for i, s in enumerate(ep):
                    s.adv = sum((g * lam) ** (k - i) * d[k]
                                for k in range(i, len(ep)))
                    s.v_old, s.logp = v[i], lp[i]
                    s.target = s.adv + v[i]
        flat = [s for ep in eps for s in ep]
        self.safe = True
        if self.case['std']:
            a = np.array([s.adv for s in flat])
            if a.std() < 0.05:
                self.safe = False
            else:
                for s in flat:
                    s.sadv = (s.adv - a.mean()) / (a.std() + 1e-8)
        else:
            for s in flat:
                s.sadv = s.adv
        return flat

    def locate(self, row):
        hits = np.flatnonzero(
            np.abs(self.rows - row).max(1) <= 1e-6)
        check(len(hits) > 0, 'trained on a state that was not collected')
        return int(hits[0])

    def verify(self, eps, pi0, v0, norm0):
        flat = self.targets(eps, pi0, v0, norm0)
        ag, c = self.agent, self.case
        N = len(flat)
        if norm0 is not None:
            norm0.experience(self.feats([s.obs for s in flat]))
            close(ag.obs_normalizer.mean, norm0.mean, 'normaliser mean')
            close(ag.obs_normalizer.std, norm0.std, 'normaliser std')
        self.norm1 = norm0
        self.rows = self.normed(norm0, [s.obs for s in flat])
        if len(np.unique(self.rows, axis=0)) < N:
            # clipping merged two observations: rows cannot be told apart
            self.note.label('ambiguous rows')
            self.n_opt = self.opt.t
            self.stats(flat)
            return
        if self.kind == 'TRPO' and self.policy_checks:
            self.verify_policy(flat, eps, pi0)
        # every optimizer step
        uses = []
        before = A.params(_pair(pi0, v0, self.kind))
        fwd = None
        name = 'pi' if self.kind == 'PPO' else 'v'
        for e in self.log:
            if e[0] == 'fwd' and e[1] == name:
                fwd = e
            elif e[0] == 'update':
                check(fwd is not None, 'an update without a training pass')
                seqs = self.sequences(fwd[2], flat)
                uses.append([i for s in seqs for i in s])
                after = rekey(e[2], self.kind)
                self.verify_step(seqs, flat, before, after, pi0, v0)
                before, fwd = after, None
        self.n_opt += len(uses)
        stream = [i for u in uses for i in u]
        if self.cell:
            # the last minibatch of an epoch may be smaller
            total = c['epochs'] * N
            sizes = [self.mb] * (N // self.mb)
            sizes = (sizes + [N % self.mb] * (N % self.mb > 0)) * c['epochs']
        else:
            # the last minibatch goes on into another epoch
            total = -(-c['epochs'] * N // self.mb) * self.mb
            sizes = [self.mb] * (total // self.mb)
        check([len(u) for u in uses] == sizes,
              'minibatches of {} steps, expected {}',
              [len(u) for u in uses], sizes)
        check(len(stream) == total, '{} steps used, expected {} epochs of {} '
              'in minibatches of {}', len(stream), c['epochs'], N, self.mb)
        for k in range(0, total, N):
            part = stream[k:k + N]
            check(len(set(part)) == len(part),
                  'a step used twice in an epoch: {}', part)
        self.stats(flat)

    def stats(self, flat):
        t = np.array([s.target for s in flat])
        y = np.array([s.v_old for s in flat])
        self.ev = (1 - np.var(t - y) / np.var(t)
                   if np.var(t) > 1e-3 else None)

    def sequences(self, arrays, flat):
        """Indices of the rows of a training pass, per sequence."""
        if not self.cell:
            return [[self.locate(row)] for row in arrays[0]]
        out = []
        for a in arrays:
            seq = [self.locate(row) for row in a]
            check(len(seq) > 0, 'empty sequence')
            ml = self.case['max_len']
            check(ml is None or len(seq) <= ml,
                  'sequence of {} steps, at most {}', len(seq), ml)
            for i, j in zip(seq, seq[1:]):
                check(j == i + 1 and flat[i].ep is flat[j].ep,
                      'a sequence is not a piece of an episode: {}', seq)
            out.append(seq)
        return out

    def verify_step(self, seqs, flat, before, after, pi0, v0):
        if not self.safe and self.kind == 'PPO':
            self.note.label('advantages too similar to standardise')
            return
        if max(np.abs(x).max() for x in before.values()) > 30:
            self.note.label('diverged')
            return
        c = self.case
        pi, v = copy.deepcopy(pi0), copy.deepcopy(v0)
        both = _pair(pi, v, self.kind)
        for k, p in both.namedparams():
            p.array[...] = before[k]
        both.cleargrads()
        idx = [i for s in seqs for i in s]
        n = len(idx)
        steps = [flat[i] for i in idx]
        rp, rv = Ref(pi, self.cell), Ref(v, self.cell)
        vs = F.concat([rv.unroll(self.rows[s], flat[s[0]].v_state)
                       for s in seqs], axis=0)
        vs = vs[:, 0]
        va = vs.array.astype('d')
        t = np.array([s.target for s in steps])
        dv = 2 * (va - t) / n
        if self.kind == 'PPO':
            old = np.array([s.v_old for s in steps])
            e = c['eps_vf']
            near = np.zeros(n, bool)
            if e is not None:
                cl = np.clip(va, old - e, old + e)
                out = np.abs(va - old) > e
                worse = (cl - t) ** 2 > (va - t) ** 2
                dv[out & worse] = 0
                near |= (np.abs(np.abs(va - old) - e) < 1e-4)
                near |= out & (np.abs((cl - t) ** 2 - (va - t) ** 2) < 1e-4)
            ys = F.concat([rp.unroll(self.rows[s], flat[s[0]].pi_state)
                           for s in seqs], axis=0)
            lp, ent = log_prob_entropy(self.dist, ys,
                                       [s.action for s in steps])
            ratio = np.exp(lp.array.astype('d')
                           - np.array([s.logp for s in steps]))
            adv = np.array([s.sadv for s in steps])
            ec = c['eps_clip']
            use = ~(((adv > 0) & (ratio > 1 + ec))
                    | ((adv < 0) & (ratio < 1 - ec)))
            near |= np.abs(np.abs(ratio - 1) - ec) < 1e-4
            if near.any():
                self.note.label('on a clipping boundary')
                return
            if not use.all():
                self.note.label('clipped ratio')
            if e is not None and (out & worse).any():
                self.note.label('clipped value')
            dlp = -adv * ratio * use / n
            loss = F.sum(lp * dlp.astype('f')) \
                + F.sum(vs * (c['vcoef'] * dv).astype('f')) \
                - c['ecoef'] * F.sum(ent) / n
        else:
            loss = F.sum(vs * dv.astype('f'))
        loss.backward()
        big = 0.0
        gs = {}
        for k, p in both.namedparams():
            g = np.zeros_like(p.array) if p.grad is None else p.grad
            gs[k] = g
            big = max(big, float(np.abs(g).max()))
        for k in gs:
            close((before[k] - after[k]) / c['lr'], gs[k],
                  '{} step ({})'.format(self.kind, k), rtol=2e-3,
                  atol=2e-5 / c['lr'] * (0.1 + big))
        if big > 1e-4:
            self.n_verified += 1

    def verify_policy(self, flat, eps, pi0):
        """The natural-gradient step of TRPO."""
        c = self.case
        p0, p1 = A.params(pi0), A.params(self.pi)
        kept = A.same_params(p0, p1)
        if kept:
            self.note.label('policy kept')
            if self.cell or not self.safe:
                return

        def raw(pi):
            # sequences as long as the agent may use, from stored states
            ml = c['max_len'] or 10 ** 9
            out, k = [], 0
            r = Ref(pi, self.cell)
            with chainer.no_backprop_mode():
                for ep in eps:
                    for a in range(0, len(ep), ml):
                        m = len(ep[a:a + ml])
                        out.append(r.unroll(self.rows[k:k + m],
                                            ep[a].pi_state).array)
                        k += m
            return np.concatenate(out)
        y0, y1 = raw(pi0), raw(self.pi)
        kl = kl_rows(self.dist, y0, y1).mean()
        check(kl <= c['max_kl'] * 1.002 + 2e-6,
              'KL divergence {} beyond the trust region {}', kl, c['max_kl'])
        if not self.safe:
            return
        acts = [s.action for s in flat]
        old = np.array([s.logp for s in flat])
        adv = np.array([s.sadv for s in flat])

        def gain(y):
            lp, ent = log_prob_np(self.dist, y, acts)
            return (np.exp(lp - old) * adv).mean() + c['ecoef'] * ent.mean()
        g0, g1 = gain(y0), gain(y1)
        check(g1 >= g0 - 1e-5 * (1 + np.abs(adv).max()
                                 * np.exp(log_prob_np(
                                     self.dist, y0, acts)[0] - old).max()),
              'surrogate objective fell from {} to {}', g0, g1)
        self.n_moved += not kept
        self.verify_direction(flat, eps, pi0, p0, p1, adv, old, acts)

    def verify_direction(self, flat, eps, pi0, p0, p1, adv, old, acts):
        """With plain nets, the step is a power of 1/2 times the full one."""
        c = self.case
        if self.cell:
            return
        keys = sorted(p0)
        dim = sum(p0[k].size for k in keys)
        pi = copy.deepcopy(pi0)
        ps = dict(pi.namedparams())

        def grad_of(f):
            pi.cleargrads()
            f().backward()
            return np.concatenate([
                (np.zeros_like(ps[k].array) if ps[k].grad is None
                 else ps[k].grad).ravel() for k in keys]).astype('d')

        def gain():
            lp, ent = log_prob_entropy(self.dist, pi.raw(self.rows), acts)
            w = np.exp(lp.array.astype('d') - old) * adv / len(adv)
            return F.sum(lp * w.astype('f')) \
                + c['ecoef'] * F.sum(ent) / len(adv)
        g = grad_of(gain)
        # Fisher matrix from the Jacobian of the raw outputs
        y = pi.raw(self.rows).array
        n, m = y.shape
        J = np.zeros((n, m, dim))
        for i in range(n):
            for j in range(m):
                J[i, j] = grad_of(lambda: F.sum(
                    pi.raw(self.rows[i:i + 1])[:, j]))
        fim = np.zeros((dim, dim))
        for i in range(n):
            if self.dist == 'softmax':
                z = np.exp(y[i].astype('d') - y[i].max())
                z /= z.sum()
                m_ = np.diag(z) - np.outer(z, z)
            else:
                lv = y[i, ACT:].astype('d')
                m_ = np.diag(np.concatenate([np.exp(-lv),
                                             np.full(ACT, 0.5)]))
            fim += J[i].T @ m_ @ J[i] / n
        Am = fim + c['damping'] * np.eye(dim)
        if c['cg_iter'] > 3 and np.linalg.cond(Am) > 300:
            # float32 conjugate gradients lose their way
            self.note.label('ill-conditioned')
            return
        # conjugate gradient, as many steps as configured
        x = np.zeros(dim)
        r = g.copy()
        p = r.copy()
        for _ in range(c['cg_iter']):
            if np.linalg.norm(r) < 1e-6 * np.linalg.norm(g):
                break
            a = r @ r / (p @ Am @ p)
            x = x + a * p
            r1 = r - a * (Am @ p)
            p = r1 + (r1 @ r1) / (r @ r) * p
            r = r1
        full = x * np.sqrt(2 * c['max_kl'] / (x @ Am @ x + 1e-8))
        d = np.concatenate([(p1[k].astype('d') - p0[k]).ravel()
                            for k in keys])
        if np.linalg.norm(g) < 1e-3:
            self.note.label('tiny step')
            return

        def acceptable(i):
            """Whether the i-th trial surely may be accepted."""
            flat_ = np.concatenate([p0[k].ravel() for k in keys]) \
                + full * 0.5 ** i
            at = 0
            for k in keys:
                ps[k].array[...] = flat_[at:at + p0[k].size].reshape(
                    p0[k].shape)
                at += p0[k].size
            with chainer.no_backprop_mode():
                yi = pi.raw(self.rows).array
            lp, ent = log_prob_np(self.dist, yi, acts)
            lp0, ent0 = log_prob_np(self.dist, y, acts)
            dif = (np.exp(lp - old) * adv).mean() + c['ecoef'] * ent.mean() \
                - (np.exp(lp0 - old) * adv).mean() - c['ecoef'] * ent0.mean()
            return (kl_rows(self.dist, y, yi).mean() < 0.7 * c['max_kl']
                    and dif > 0.2 * (g @ full) * 0.5 ** i and dif > 1e-4)
        n_tried = c['backtrack'] + 1
        if np.linalg.norm(d) >= 1e-4:
            n_tried = int(round(np.log2(
                np.linalg.norm(full) / np.linalg.norm(d))))
        elif d.any():
            self.note.label('tiny step')
            return
        ok = [i for i in range(min(n_tried, c['backtrack'] + 1))
              if acceptable(i)]
        check(not ok, 'step size 2^-{} improves the surrogate within the '
              'trust region, but the policy {}', ok[:1],
              'moved less' if d.any() else 'was not updated')
        if not d.any():
            self.note.label('keeping checked')
            return
        ratio = np.linalg.norm(d) / np.linalg.norm(full)
        cos = d @ full / np.linalg.norm(d) / np.linalg.norm(full)
        check(cos > 0.98, 'policy step is not the natural gradient step: '
              'cosine {}', cos)
        k = np.log2(ratio)
        check(abs(k - round(k)) < 0.1 and -c['backtrack'] - 0.1 <= k < 0.1,
              'policy step is {} times the full step', ratio)
        self.note.label('direction checked')

    # ------------------------------------------------------------ driving

    def record(self, env, obs, action, batch_norm):
        """Reference side of acting in training."""
        x = self.normed(batch_norm, [obs])
        rp, rv = Ref(self.pi, self.cell), Ref(self.v, self.cell)
        st_ = self.states[env]
        with chainer.no_backprop_mode():
            y, ps = rp.step(x, st_[0])
            v, vs = rv.step(x, st_[1])
        _, ent = log_prob_np(self.dist, y.array, [action])
        self.values.append(float(v.array[0, 0]))
        self.entropies.append(float(ent[0]))
        ps, vs = detach(ps), detach(vs)
        s = Step(obs=obs, action=action, pi_state=st_[0], v_state=st_[1],
                 next_pi_state=ps, next_v_state=vs, env=env,
                 ep=self.ep[env])
        self.states[env] = (ps, vs)
        return s

    def new_episode(self, env):
        self.states[env] = (None, None)
        self.ep[env] = object()

    def new_obs(self):
        return self.r.uniform(-1, 1, OBS).astype('f')

    def run(self):
        c, ag = self.case, self.agent
        self.states = [(None, None)] * self.n_envs
        self.ep = [object() for _ in range(self.n_envs)]
        if c['batch']:
            self.run_batch()
        else:
            self.run_serial()
        s = dict(ag.get_statistics())
        close(s['average_value'], np.mean(self.values), 'average_value',
              rtol=1e-3)
        close(s['average_entropy'], np.mean(self.entropies),
              'average_entropy', rtol=1e-3)
        if self.kind == 'PPO':
            check(s['n_updates'] == self.opt.t == self.n_opt,
                  'n_updates {}, {} updates', s['n_updates'], self.n_opt)
        if self.ev is not None:
            close(s['explained_variance'], self.ev, 'explained_variance',
                  rtol=5e-3, atol=5e-3)

    def evaluate(self):
        ag = self.agent
        before = A.params(self.pi)
        n_ev = 2
        for _ in range(n_ev):
            ob = self.new_obs()
            a = ag.batch_act([ob] * self.n_envs)[0] if self.case['batch'] \
                else ag.act(ob)
            if self.case['det'] and not self.cell:
                x = self.normed(ag.obs_normalizer, [ob])
                y = self.pi.raw(x).array[0]
                if self.dist == 'gauss':
                    close(a, y[:ACT], 'deterministic action')
                elif np.sort(y)[-1] - np.sort(y)[-2] > 1e-4:
                    check(int(a) == int(y.argmax()),
                          'deterministic action is not the mode')
        if self.case['batch']:
            ag.batch_observe([ob] * self.n_envs, [0.0] * self.n_envs,
                             [True] * self.n_envs, [False] * self.n_envs)
        else:
            ag.stop_episode()
        check(A.same_params(before, A.params(self.pi)),
              'evaluation changed the policy')

    def run_serial(self):
        ag = self.agent
        obs, reward, pending = self.new_obs(), 0.0, None
        for t, (rew, end) in enumerate(self.case['steps']):
            if t in self.case['evals']:
                self.evaluate()
            if pending is not None:
                pending.reward, pending.next_obs = reward, obs
                pending.nonterminal = 1.0
                self.append(0, pending)
            a = self.watched(lambda: ag.act_and_train(obs, reward))
            pending = self.record(0, obs, a, ag.obs_normalizer)
            reward, obs = rew, self.new_obs()
            if end >= 4:
                pending.reward, pending.next_obs = reward, obs
                pending.nonterminal = 0.0 if end in (4, 6) else 1.0
                self.append(0, pending)
                self.close_episode(0)
                self.watched(lambda: ag.stop_episode_and_train(
                    obs, reward, done=end in (4, 6)))
                pending, reward, obs = None, 0.0, self.new_obs()
                self.new_episode(0)

    def run_batch(self):
        ag, n = self.agent, self.n_envs
        obs = [self.new_obs() for _ in range(n)]
        steps = self.case['steps']
        for t in range(-(-len(steps) // n)):
            if t in self.case['evals']:
                self.evaluate()
            acts = ag.batch_act_and_train(obs)
            pend = [self.record(e, obs[e], acts[e], ag.obs_normalizer)
                    for e in range(n)]
            rews, dones, resets, nxt = [], [], [], []
            for e in range(n):
                rew, end = steps[(t * n + e) % len(steps)]
                rews.append(rew)
                dones.append(end in (4, 6))
                resets.append(end in (5, 6))
                nxt.append(self.new_obs())
                p = pend[e]
                p.reward, p.next_obs = rew, nxt[e]
                p.nonterminal = 0.0 if dones[e] else 1.0
                self.append(e, p)
            for e in range(n):
                if dones[e] or resets[e]:
                    self.close_episode(e)
                    self.new_episode(e)
            self.watched(lambda: ag.batch_observe_and_train(
                nxt, rews, dones, resets))
            obs = [self.new_obs() if dones[e] or resets[e] else nxt[e]
                   for e in range(n)]


def _pair(pi, v, kind):
    c = chainer.Chain()
    with c.init_scope():
        if kind == 'PPO':
            c.pi = pi
        c.v = v
    return c


def rekey(p, kind):
    """Names in the agent's link -> names in our pair."""
    out = {}
    for k, v in p.items():
        if kind == 'PPO':
            check_k = {'/0': '/pi', '/1': '/v'}[k[:2]]
            out[check_k + k[2:]] = v
        else:
            out['/v' + k] = v
    return out
