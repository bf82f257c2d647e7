"""P16: ACER and path consistency learning."""
import copy

import chainer
import numpy as np
from chainer import functions as F
from chainer import links as L
from hypothesis import strategies as st

from chainerrl import action_value, agents, distribution
from chainerrl.agents import acer, pcl
from chainerrl.recurrent import RecurrentChainMixin
from chainerrl.replay_buffer import (EpisodicReplayBuffer,
                                     PrioritizedEpisodicReplayBuffer)

from pbt import agents as A
from pbt import onpolicy as O
from pbt.core import Suite, check, close
from pbt.gen import SEED, floats
from pbt.props import p15
from pbt.props.p15 import (Body, Stream, compare, get_states, put_states,
                           set_params)

suite = Suite(
    'P16',
    'an update with a gradient that is not zero was compared, and the '
    'history contains both terminal and other cuts',
    ['Chainer autodiff of log-probabilities, values and KL divergences is '
     'trusted; importance weights, Retrace targets, projections and path '
     'errors are recomputed'])

LR = 0.05
SAMPLES = []


class LoggedGaussian(distribution.GaussianDistribution):
    """Gaussian that logs its samples."""

    def sample(self):
        y = super().sample()
        SAMPLES.append((self.mean.array.copy(), y.array.copy()))
        return y


def logged_gauss(y):
    m, lv = F.split_axis(y, 2, axis=1)
    return LoggedGaussian(m, F.exp(lv))


class ContModel(chainer.Chain, RecurrentChainMixin):
    """ACER model of a continuous action space without noise in Q."""

    def __init__(self, rec):
        super().__init__()
        with self.init_scope():
            self.pi = Body(O.OBS, 2 * O.ACT, rec, logged_gauss)
            self.v = Body(O.OBS, 1, rec)
            self.adv = L.Linear(O.OBS + O.ACT, 1)

    def q(self, x, v, a):
        return v + self.adv(F.concat((x, a), axis=1))

    def __call__(self, x):
        x = np.asarray(x)
        v = self.v(x)
        return self.pi(x), action_value.SingleActionValue(
            lambda a: self.q(x, v, a)), v


def logged_episodic(log):
    class Logged(EpisodicReplayBuffer):
        def sample_episodes(self, *a, **k):
            out = super().sample_episodes(*a, **k)
            log.append(('episodes', a, k, [list(e) for e in out]))
            return out
    return Logged()


def logged_prioritized(log, c):
    """Episodes drawn by priority, with importance weights."""
    class Logged(PrioritizedEpisodicReplayBuffer):
        def sample_episodes(self, *a, **k):
            out = super().sample_episodes(*a, **k)
            eps, ws = out if isinstance(out, tuple) else (
                out, [1.0] * len(out))
            log.append(('episodes', a, k, [list(e) for e in eps],
                        [float(w) for w in ws]))
            return out
    return Logged(
        default_priority_func=lambda ep: len(ep) + (
            7 * sum(x[0]['reward'] if isinstance(x, list) else x['reward']
                    for x in ep)) ** 2 % 5,
        wait_priority_after_sampling=False, normalize_by_max=c['by_max'],
        return_sample_weights=c['replay'] == 'weighted', beta0=c['beta0'],
        alpha=1.0)


class Offline(Stream):
    """Common parts of ACER and PCL: updates online and from replay."""

    def setup_model(self, model):
        A.randomize(model, self.c['seed'], self.c['scale'])
        self.shared = model
        return A.LoggedSGD(lr=LR).attach('opt', model, self.log)

    def start_ref(self):
        self.link = self.agent.model
        self.ref = copy.deepcopy(self.link)
        self.seg, self.start = [], {}
        self.mu = {}
        self.t = 0

    def before_step(self):
        if self.c['other'] and self.r.rand() < 0.3:
            for p in self.shared.params():
                p.array[...] += self.r.uniform(
                    -0.1, 0.1, p.array.shape).astype('f')

    def alive(self):
        return all(np.abs(p.array).max() < 6 for p in self.shared.params())

    def events(self):
        ev = [e for e in self.log if e[0] in ('update', 'episodes')]
        self.log[:] = []
        return ev


# -------------------------------------------------------------------- ACER

def pi_vars(c, y):
    """Parameters of the distribution, as ACER projects them."""
    if c['dist'] == 'softmax':
        return [y]
    return [y[:, :O.ACT], F.exp(y[:, O.ACT:])]


def lp_ent(c, ps, a):
    if c['dist'] == 'softmax':
        return O.log_prob_entropy('softmax', ps[0], [a])
    return O.log_prob_entropy(
        'gauss', F.concat([ps[0], F.log(ps[1])], axis=1), [a])


def kl_var(c, old, ps):
    """KL(old || ps) as a Variable; old: raw array."""
    if c['dist'] == 'softmax':
        z = old - old.max(1, keepdims=True)
        p = np.exp(z) / np.exp(z).sum(1, keepdims=True)
        return F.sum(p * (np.log(p) - F.log_softmax(ps[0])))
    m, v = old[:, :O.ACT], np.exp(old[:, O.ACT:])
    return F.sum(0.5 * (F.log(ps[1]) - np.log(v)
                        + (v + (m - ps[0]) ** 2) / ps[1] - 1))


class ACERRun(Offline):

    def __init__(self, c, note):
        super().__init__(c, note)
        del SAMPLES[:]
        if c['dist'] == 'gauss':
            m = ContModel(c['rec'])
        elif c['shared']:
            m = acer.ACERSharedModel(
                Body(O.OBS, O.H, c['rec']),
                Body(O.H, O.NACT, False, O.softmax_dist),
                Body(O.H, O.NACT, False, action_value.DiscreteActionValue))
        else:
            m = acer.ACERSeparateModel(
                Body(O.OBS, O.NACT, c['rec'], O.softmax_dist),
                Body(O.OBS, O.NACT, c['rec'],
                     action_value.DiscreteActionValue))
        opt = self.setup_model(m)
        kw = {'phi': O.phi2} if c['phi'] else {}
        self.buf = logged_episodic(self.log) if c['replay'] else None
        self.agent = agents.ACER(
            m, opt, c['t_max'], c['gamma'], self.buf, beta=c['beta'],
            pi_loss_coef=c['pi'], Q_loss_coef=c['q'],
            use_trust_region=c['tr'], trust_region_alpha=c['alpha'],
            trust_region_delta=c['delta'],
            truncation_threshold=c['trunc'],
            disable_online_update=c['offline'], n_times_replay=c['n_replay'],
            replay_start_size=c['start_size'],
            normalize_loss_by_steps=c['norm'],
            act_deterministically=c['det'], use_Q_opc=c['opc'],
            average_value_decay=0.9, average_entropy_decay=0.9, **kw)
        self.start_ref()
        self.avg = copy.deepcopy(m)
        self.mv = self.me = 0.0

    def fwd(self, m, ob):
        """Raw policy output, value function of actions, and v."""
        x = ob[None] * np.float32(2 if self.c['phi'] else 1)
        if self.c['dist'] == 'gauss':
            v = m.v.raw(x)
            return (m.pi.raw(x), lambda a: F.sum(m.q(
                x, v, np.asarray(a, 'f').reshape(1, -1))), v)
        if self.c['shared']:
            x = m[0].raw(x)
            m = m[1]
        y, q = m.pi.raw(x), m.q.raw(x)
        return (y, lambda a: q[0, int(a)], F.sum(F.softmax(y) * q), q)

    def act(self, ob, reward):
        c, ag = self.c, self.agent
        if self.seg:
            self.seg[-1]['r'] = reward
        due = len(self.seg) == c['t_max']
        shared, local = A.params(self.shared), A.params(ag.model)
        self.log[:] = []
        del SAMPLES[:]
        a = ag.act_and_train(ob, reward)
        self.process(shared, local, due, ob)
        if due or not self.seg:
            self.seg = []
            self.start = get_states(self.ref)
        with chainer.no_backprop_mode():
            out = self.fwd(self.ref, ob)
            avg = self.fwd(self.avg, ob)[0].array
        self.mu[ob.tobytes()] = out[0].array
        self.seg.append(dict(ob=ob, a=a, r=None, avg=avg))
        self.mv += 0.1 * (float(F.sum(out[2]).array) - self.mv)
        self.me += 0.1 * (float(O.log_prob_np(
            c['dist'], out[0].array, [a])[1][0]) - self.me)
        s = dict(ag.get_statistics())
        close(s['average_value'], self.mv, 'average_value', rtol=1e-3)
        close(s['average_entropy'], self.me, 'average_entropy', rtol=1e-3)
        if due:
            self.saw.add('rollout')

    def stop(self, ob, reward, done):
        self.seg[-1]['r'] = reward
        shared, local = A.params(self.shared), A.params(self.agent.model)
        self.log[:] = []
        del SAMPLES[:]
        self.agent.stop_episode_and_train(ob, reward, done=done)
        self.process(shared, local, True, None if done else ob)
        put_states(self.ref, {})
        put_states(self.avg, {})
        self.start, self.seg = {}, []

    def process(self, shared, local, due, boot):
        """Check all updates of one call of the agent."""
        c, ag = self.c, self.agent
        ev = self.events()
        if not due:
            check(not ev, 'updated in the middle of a rollout')
            check(A.same_params(local, A.params(ag.model)),
                  'local parameters changed')
            return
        jobs = []
        if not c['offline']:
            jobs.append(('online', None))
        eps = [e for e in ev if e[0] == 'episodes']
        if self.buf is not None and self.t_stored() >= c['start_size']:
            check(len(eps) == c['n_replay'], '{} replays', len(eps))
            for e in eps:
                check(len(e[3]) == 1 and 1 <= len(e[3][0]) <= c['t_max'],
                      'replayed {}', [len(x) for x in e[3]])
                jobs.append(('replay', e[3][0]))
        else:
            check(not eps, 'replay with {} transitions', self.t_stored())
        ups = [e[2] for e in ev if e[0] == 'update']
        check(len(ups) == len(jobs), '{} updates, expected {}', len(ups),
              len(jobs))
        avg_keep = get_states(self.avg)
        for (what, ep), new in zip(jobs, ups):
            if what == 'online':
                m = copy.deepcopy(self.ref)
                set_params(m, local)
                put_states(m, self.start)
                seg = self.seg
                last = boot
                mus = None
                if boot is not None:
                    # state at the end of the rollout, current parameters
                    e = copy.deepcopy(self.ref)
                    with chainer.no_backprop_mode():
                        R = float(F.sum(self.fwd(e, boot)[2]).array)
                else:
                    R = 0.0
            else:
                m = copy.deepcopy(self.ref)
                set_params(m, local)
                put_states(m, {})
                put_states(self.avg, {})
                seg, mus = [], []
                for tr in ep:
                    ob = tr['state']
                    with chainer.no_backprop_mode():
                        avg = self.fwd(self.avg, ob)[0].array
                    seg.append(dict(ob=ob, a=tr['action'], r=tr['reward'],
                                    avg=avg))
                    mus.append(self.mu[ob.tobytes()])
                put_states(self.avg, avg_keep)
                last = None if ep[-1]['is_state_terminal'] \
                    else ep[-1]['next_state']
                R = None
            self.job(m, seg, mus, R, last, shared, new)
            local = shared = new
            for k, p in self.avg.namedparams():
                p.array[...] = c['alpha'] * p.array \
                    + (1 - c['alpha']) * new[k]
        set_params(self.ref, A.params(ag.model))
        if jobs:
            check(A.same_params(A.params(ag.model), A.params(self.shared)),
                  'local parameters differ from the shared ones')
        got = A.params(ag.shared_average_model)
        for k, p in self.avg.namedparams():
            close(got[k], p.array, 'average model ({})'.format(k))

    def t_stored(self):
        return len(self.buf) - self.stored_since if self.buf is not None \
            else 0

    stored_since = 0

    def job(self, m, seg, mus, R, last, before, new):
        c = self.c
        if max(np.abs(p.array).max() for p in m.params()) > 20:
            self.note.label('diverged')
            return
        T = len(seg)
        m.cleargrads()
        outs = [self.fwd(m, s['ob']) for s in seg]
        if R is None:
            R = 0.0
            if last is not None:
                with chainer.no_backprop_mode():
                    R = float(F.sum(self.fwd(m, last)[2]).array)
        scale = 1.0 / T if c['norm'] else 1.0
        q_ret = q_opc = R
        loss = 0
        near = False
        for i in reversed(range(T)):
            s, out = seg[i], outs[i]
            y, q, v = out[0], out[1], out[2]
            va = float(F.sum(v).array)
            ps = pi_vars(c, y)
            lp, ent = lp_ent(c, ps, s['a'])
            rho = 1.0
            if mus is not None:
                rho = float(np.exp(
                    O.log_prob_np(c['dist'], y.array, [s['a']])[0]
                    - O.log_prob_np(c['dist'], mus[i], [s['a']])[0])[0])
                if rho > 1e6:
                    self.note.label('huge importance weight')
                    return
            q_ret = s['r'] + c['gamma'] * q_ret
            q_opc = s['r'] + c['gamma'] * q_opc
            adv = (q_opc if c['opc'] else q_ret) - va
            # (on-policy data have no importance weight to truncate)
            w = rho if c['trunc'] is None or mus is None \
                else min(rho, c['trunc'])
            g = -np.float32(w * adv) * F.sum(lp)
            if mus is not None and c['trunc'] is not None:
                g += self.correction(c, ps, y, q, va, mus[i], out)
            if c['tr']:
                gp = chainer.grad([g], ps)
                kl = kl_var(c, s['avg'], ps)
                kp = chainer.grad([kl], ps)
                gp = [x.array.astype('d') for x in gp]
                kp = [x.array.astype('d') for x in kp]
                # gp descends the objective; kp ascends the divergence
                dot = sum((-a * b).sum() for a, b in zip(gp, kp))
                kk = sum((b * b).sum() for b in kp)
                f = max(0.0, (dot - c['delta']) / kk) if kk > 0 else 0.0
                if 0 < kk < 1e-6:
                    # the projection is ill-conditioned
                    near = near or dot > c['delta'] - 1e-2
                if f > 0:
                    self.note.label('projected')
                g = sum(F.sum(p * (a + f * b).astype('f'))
                        for p, a, b in zip(ps, gp, kp))
            loss += scale * c['pi'] * (g - np.float32(c['beta'])
                                       * F.sum(ent))
            qv = q(s['a'])
            qa = float(qv.array)
            loss += np.float32(scale * c['q'] * (qa - q_ret)) * qv
            if c['dist'] == 'gauss':
                loss += np.float32(scale * c['q'] * -min(1, rho)
                                   * (q_ret - qa)) * F.sum(v)
                tr = min(1, rho ** (1.0 / O.ACT))
            else:
                tr = min(1, rho)
            q_ret = tr * (q_ret - qa) + va
            q_opc = q_opc - qa + va
        if near:
            self.note.label('ill-conditioned projection')
            return
        loss.backward()
        ok = compare(before, new, m, 'ACER gradient ({})'.format(
            'online' if mus is None else 'replay'), LR)
        self.verified += ok
        if mus is not None and ok:
            self.note.label('replay compared')

    def correction(self, c, ps, y, q, va, mu, out):
        t = c['trunc']
        if c['dist'] == 'softmax':
            def lsm(z):
                z = z.astype('d') - z.max()
                return z - np.log(np.exp(z).sum())
            lpi, lmu = lsm(y.array[0]), lsm(mu[0])
            w = np.maximum(0, 1 - t * np.exp(lmu - lpi)) * np.exp(lpi)
            w = w * (out[3].array[0].astype('d') - va)
            return -F.sum(w.astype('f')[None] * F.log_softmax(ps[0]))
        mean = y.array[:, :O.ACT]
        hits = [x for mm, x in SAMPLES if mm.shape == mean.shape
                and np.abs(mm - mean).max() < 1e-6]
        check(hits, 'no action sampled for the bias correction')
        x = hits[-1][0]
        # (several draws of one distribution: the action taken came first)
        lpi = O.log_prob_np('gauss', y.array, [x])[0][0]
        lmu = O.log_prob_np('gauss', mu, [x])[0][0]
        w = max(0.0, 1 - t * np.exp(lmu - lpi))
        adv = float(q(x).array) - va
        lp, _ = lp_ent(c, ps, x)
        return -np.float32(w * adv) * F.sum(lp)


class ACERStored(ACERRun):
    """Counts finished episodes itself (the buffer holds only those)."""

    def t_stored(self):
        return getattr(self, 'n_stored', 0)

    def act(self, ob, reward):
        super().act(ob, reward)
        self.cur = getattr(self, 'cur', 0) + 1

    def stop(self, ob, reward, done):
        super().stop(ob, reward, done)
        self.n_stored = self.t_stored() + self.cur
        self.cur = 0
        if self.buf is not None:
            check(len(self.buf) == self.n_stored,
                  'buffer holds {} of {} transitions', len(self.buf),
                  self.n_stored)


ACER_CASE = dict(
    p15.COMMON, dist=st.sampled_from(['softmax', 'gauss']),
    shared=st.booleans(), replay=st.sampled_from([True, True, False]),
    beta=st.sampled_from([0.0, 0.01, 0.5]), pi=st.sampled_from([1.0, 0.3]),
    q=st.sampled_from([0.5, 1.0]), tr=st.booleans(),
    alpha=st.sampled_from([0.5, 0.99, 0.0]),
    delta=st.sampled_from([0.01, 0.3, 1.0]),
    trunc=st.sampled_from([None, 0.5, 1.0, 10.0]),
    offline=st.booleans(), n_replay=st.integers(1, 2),
    start_size=st.integers(1, 6), norm=st.booleans(), det=st.booleans(),
    opc=st.booleans(), other=st.booleans())
ACER_CASE['bs'] = st.just(False)
suite.add('ACER', st.fixed_dictionaries(ACER_CASE),
          lambda c, n: ACERStored(c, n).drive(), quick=400, shards=6)


# --------------------------------------------------------------------- PCL

class PCLRun(Offline):

    def __init__(self, c, note):
        super().__init__(c, note)
        wrap = O.to_dist(c['dist'])
        n = O.out_size(c['dist'])
        if c['shared']:
            m = pcl.PCLSharedModel(Body(O.OBS, O.H, c['rec']),
                                   Body(O.H, n, False, wrap),
                                   Body(O.H, 1, False))
        else:
            m = pcl.PCLSeparateModel(Body(O.OBS, n, c['rec'], wrap),
                                     Body(O.OBS, 1, c['rec']))
        opt = self.setup_model(m)
        self.buf = (None if not c['replay'] else logged_episodic(self.log)
                    if c['replay'] is True
                    else logged_prioritized(self.log, c))
        ex = None
        if c['explore']:
            ex = A.LoggedExplorer([], lambda: (
                np.int32(self.r.randint(O.NACT)) if c['dist'] == 'softmax'
                else self.r.uniform(-1, 1, O.ACT).astype('f')))
        self.agent = agents.PCL(
            m, opt, self.buf, t_max=c['t_max'], gamma=c['gamma'],
            tau=c['tau'], pi_loss_coef=c['pi'], v_loss_coef=c['v'],
            rollout_len=c['rollout'], batchsize=c['batch'],
            disable_online_update=c['offline'], n_times_replay=c['n_replay'],
            replay_start_size=c['start_size'],
            normalize_loss_by_steps=c['norm'],
            act_deterministically=c['det'], average_value_decay=0.9,
            average_entropy_decay=0.9, explorer=ex,
            backprop_future_values=c['future'], train_async=c['async'],
            **p15.kwargs(c))
        self.start_ref()
        self.pending = []      # segments waiting for a full batch
        self.ep_start = 0
        self.mv = self.me = 0.0
        self.n_stored = self.n_eps = self.cur = 0
        self.history = []      # segments since the last update, one episode

    fwd = p15.A3CRun.fwd

    def before_step(self):
        if self.c['async']:
            super().before_step()

    def act(self, ob, reward):
        c, ag = self.c, self.agent
        if self.seg:
            self.seg[-1][2] = reward
        due = len(self.seg) == c['t_max']
        shared, local = A.params(self.shared), A.params(ag.model)
        self.log[:] = []
        a = ag.act_and_train(ob, reward)
        self.process(shared, local, due, ob, False)
        with chainer.no_backprop_mode():
            y, v = self.fwd(self.ref, ob)
        self.seg.append([ob, a, None])
        self.cur += 1
        self.mv += 0.1 * (float(v.array[0, 0]) - self.mv)
        self.me += 0.1 * (float(O.log_prob_np(
            c['dist'], y.array, [a])[1][0]) - self.me)
        s = dict(ag.get_statistics())
        close(s['average_value'], self.mv, 'average_value', rtol=1e-3)
        close(s['average_entropy'], self.me, 'average_entropy', rtol=1e-3)
        if due:
            self.saw.add('rollout')

    def stop(self, ob, reward, done):
        self.seg[-1][2] = reward
        shared, local = A.params(self.shared), A.params(self.agent.model)
        self.log[:] = []
        self.agent.stop_episode_and_train(ob, reward, done=done)
        self.process(shared, local, True, None if done else ob, True)
        put_states(self.ref, {})
        self.start = {}
        self.n_stored += self.cur
        self.n_eps += 1
        self.cur = 0
        if self.buf is not None:
            check(len(self.buf) == self.n_stored
                  and self.buf.n_episodes == self.n_eps,
                  'buffer holds {} transitions of {}', len(self.buf),
                  self.n_stored)

    def process(self, shared, local, due, boot, end):
        """`self.pending`: [start state, [segments of one episode]]."""
        c, ag = self.c, self.agent
        ev = self.events()
        if not due:
            check(not ev, 'updated in the middle of a rollout')
            check(A.same_params(local, A.params(ag.model)),
                  'parameters changed without an update')
            return
        jobs = []
        if not c['offline']:
            if not self.pending or self.pending[-1][2]:
                self.pending.append([self.start, [], False])
            self.pending[-1][1].append((self.seg, boot))
            self.pending[-1][2] = end
            n = sum(len(p[1]) for p in self.pending)
            if n == c['batch']:
                jobs.append(('online', self.pending))
                self.pending = []
        self.seg = []
        idle = not self.pending
        eps = [e for e in ev if e[0] == 'episodes']
        if self.buf is not None and idle and \
                self.n_stored >= c['start_size'] and \
                self.n_eps >= c['batch']:
            check(len(eps) == c['n_replay'], '{} replays', len(eps))
            for e in eps:
                check(len(e[3]) == c['batch'], 'replayed {} episodes',
                      len(e[3]))
                check(c['t_max'] is None or all(
                    len(x) <= c['t_max'] for x in e[3]),
                    'replayed more than t_max steps')
                jobs.append(('replay', e[3:]))
        else:
            check(not eps, 'replay with {} transitions of {} episodes',
                  self.n_stored, self.n_eps)
        ups = [e[2] for e in ev if e[0] == 'update']
        check(len(ups) == len(jobs), '{} updates, expected {}', len(ups),
              len(jobs))
        online = False
        for (what, data), new in zip(jobs, ups):
            self.job(what, data, local, shared, new)
            local = shared = new
            online = online or what == 'online'
        set_params(self.ref, A.params(ag.model))
        if jobs and c['async']:
            check(A.same_params(A.params(ag.model), A.params(self.shared)),
                  'local parameters differ from the shared ones')
        if online:
            # the graph is cut here
            self.start = get_states(self.ref)
        elif c['offline']:
            self.start = get_states(self.ref)

    def job(self, what, data, local, before, new):
        c = self.c
        if max(np.abs(x).max() for x in local.values()) > 20:
            self.note.label('diverged')
            return
        m = copy.deepcopy(self.ref)
        set_params(m, local)
        m.cleargrads()
        losses = []
        if what == 'online':
            for start, segs, _ in data:
                put_states(m, start)
                flat = [s[0] for seg, _ in segs for s in seg]
                outs = [self.fwd(m, ob) for ob in flat]
                k = 0
                for seg, boot in segs:
                    o = outs[k:k + len(seg)]
                    k += len(seg)
                    if boot is None:
                        last = chainer.Variable(np.zeros((1, 1), 'f'))
                    elif k < len(outs):
                        last = outs[k][1]
                    else:
                        st_ = get_states(m)
                        keep = [(l, l.c, l.h) for l in m.links()
                                if isinstance(l, L.LSTM)]
                        last = self.fwd(m, boot)[1]
                        for l, cc, hh in keep:
                            l.c, l.h = cc, hh
                        del st_
                    vs = [x[1] for x in o]
                    losses.append(self.path_loss(
                        [s[2] for s in seg], [s[1] for s in seg],
                        [x[0] for x in o], vs, vs[1:] + [last]))
            n = len(losses)
        else:
            eps = data[0]
            ws = data[1] if len(data) > 1 else [1.0] * len(eps)
            if len(set(ws)) > 1 and len(set(map(len, eps))) > 1:
                self.note.label('episodes of several weights and lengths')
            for ep, w in zip(eps, ws):
                put_states(m, {})
                obs = [tr['state'] for tr in ep] + [ep[-1]['next_state']]
                outs = [self.fwd(m, ob) for ob in obs]
                vs = [x[1] for x in outs]
                last = vs[-1] * np.float32(
                    1 - bool(ep[-1]['is_state_terminal']))
                losses.append(self.path_loss(
                    [tr['reward'] for tr in ep], [tr['action'] for tr in ep],
                    [x[0] for x in outs[:-1]], vs[:-1], vs[1:-1] + [last])
                    * np.float32(w))
            n = len(eps)
        loss = sum(losses) / np.float32(n)
        loss.backward()
        ok = compare(before, new, m, 'PCL gradient ({})'.format(what), LR)
        self.verified += ok
        if ok and what == 'replay':
            self.note.label('replay compared')

    def path_loss(self, rs, acts, ys, vs, nvs):
        """Squared soft-consistency errors, by explicit gradients."""
        c = self.c
        T = len(rs)
        g = c['gamma']
        lps = [O.log_prob_entropy(c['dist'], y, [a])[0]
               for y, a in zip(ys, acts)]
        lpa = [float(F.sum(x).array) for x in lps]
        scale = 1.0 / T if c['norm'] else 1.0
        loss = 0
        for t in range(T):
            d = min(c['rollout'], T - t)
            C = (-float(vs[t].array[0, 0])
                 + g ** d * float(nvs[t + d - 1].array[0, 0])
                 + sum(g ** i * (rs[t + i] - c['tau'] * lpa[t + i])
                       for i in range(d)))
            for i in range(d):
                loss += np.float32(-scale * c['pi'] * C * g ** i) \
                    * F.sum(lps[t + i])
            loss += np.float32(-scale * c['v'] * C) * F.sum(vs[t])
            if c['future']:
                loss += np.float32(scale * c['v'] * C * g ** d) \
                    * F.sum(nvs[t + d - 1])
        return loss


PCL_CASE = dict(
    p15.COMMON, dist=st.sampled_from(['softmax', 'gauss']),
    shared=st.booleans(),
    replay=st.sampled_from([True, 'weighted', 'weighted', 'drawn', False]),
    beta0=st.sampled_from([0.4, 1.0]), by_max=st.sampled_from(
        [True, False, 'batch']),
    tau=st.sampled_from([0.01, 0.3, 1.0]), pi=st.sampled_from([1.0, 0.3]),
    v=st.sampled_from([0.5, 1.0]), rollout=st.integers(1, 5),
    batch=st.integers(1, 3), offline=st.booleans(),
    n_replay=st.integers(1, 2), start_size=st.integers(1, 6),
    norm=st.booleans(), det=st.booleans(), explore=st.booleans(),
    future=st.booleans(), other=st.booleans())
PCL_CASE['async'] = st.booleans()
PCL_CASE['t_max'] = st.one_of(st.none(), st.integers(1, 6))
suite.add('PCL', st.fixed_dictionaries(PCL_CASE),
          lambda c, n: PCLRun(c, n).drive(), quick=300, shards=6)


# ------------------------------------- stochastic dueling network models

class CountingAdv(chainer.Chain):

    def __init__(self, log):
        super().__init__()
        self.log = log
        with self.init_scope():
            self.l = L.Linear(O.OBS + O.ACT, 1)

    def __call__(self, x, a):
        self.log.append(np.array(getattr(a, 'array', a)))
        return self.l(F.concat((x, a), axis=1))


@suite.facet(st.fixed_dictionaries({
    'n': st.integers(1, 6), 'rows': st.integers(1, 3),
    'shared': st.booleans(), 'seed': SEED}), quick=100)
def stochastic_dueling(case, note):
    """Q(a) = V + A(a) minus the mean of A over n sampled actions."""
    r = np.random.RandomState(case['seed'] % (2 ** 32))
    log = []
    pi = Body(O.OBS, 2 * O.ACT, False, logged_gauss)
    v = Body(O.OBS, 1, False)
    adv = CountingAdv(log)
    if case['shared']:
        sh = L.Linear(O.OBS, O.OBS)
        m = acer.ACERSDNSharedModel(sh, pi, v, adv)
        n = 5
    else:
        m = acer.ACERSDNSeparateModel(pi, v, adv, n=case['n'])
        n = case['n']
    A.randomize(m, case['seed'], 0.7)
    x = r.uniform(-1, 1, (case['rows'], O.OBS)).astype('f')
    a = r.uniform(-1, 1, (case['rows'], O.ACT)).astype('f')
    del SAMPLES[:]
    dist, av, val = m(x)
    h = sh(x).array if case['shared'] else x
    close(val, v.raw(h), 'value')
    y = pi.raw(h).array
    close(dist.mean, y[:, :O.ACT], 'policy mean')
    close(dist.var, np.exp(y[:, O.ACT:]), 'policy variance')
    q = av.evaluate_actions(a).array
    drawn = [s for _, s in SAMPLES]
    check(len(drawn) == n, '{} actions sampled, n={}', len(drawn), n)

    def A_(z):
        return adv.l(np.concatenate([h, z], axis=1)).array
    close(q, val.array + A_(a) - np.mean([A_(s) for s in drawn], axis=0),
          'Q value')
    note.nontrivial(case['rows'] > 1 or n > 1)
