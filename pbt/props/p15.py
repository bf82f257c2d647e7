"""P15: REINFORCE, A3C and n-step Q-learning."""
import copy

import chainer
import numpy as np
from chainer import functions as F
from chainer import links as L
from hypothesis import strategies as st

from chainerrl import action_value, agents
from chainerrl.agents import a3c
from chainerrl.recurrent import RecurrentChainMixin

from pbt import agents as A
from pbt import onpolicy as O
from pbt.core import Suite, check, close
from pbt.gen import SEED, floats, sized

suite = Suite(
    'P15',
    'an update with a gradient that is not zero was compared, and the '
    'history contains both a terminal transition and another cut or full '
    'rollout',
    ['Chainer autodiff of the predicted log-probabilities and values is '
     'trusted; returns, advantages and weights are recomputed',
     'recurrent evaluation is interleaved only between episodes'])

LR = 0.1


class Body(chainer.Chain, RecurrentChainMixin):
    """Maybe-recurrent net: Linear/LSTM -> Linear -> wrapper."""

    def __init__(self, n_in, n_out, rec, wrap=None, top=True):
        super().__init__()
        self.rec, self.wrap = rec, wrap
        with self.init_scope():
            self.a = L.LSTM(n_in, O.H) if rec else L.Linear(n_in, O.H)
            self.b = L.Linear(O.H, n_out)

    def raw(self, x):
        h = self.a(x)
        return self.b(h if self.rec else F.tanh(h))

    def __call__(self, x):
        y = self.raw(x)
        return self.wrap(y) if self.wrap else y


def get_states(link):
    """Arrays of all LSTM states."""
    out = {}
    for n, l in sorted(link.namedlinks()):
        if isinstance(l, L.LSTM):
            out[n] = None if l.h is None else (l.c.array.copy(),
                                               l.h.array.copy())
    return out


def put_states(link, states):
    for n, l in sorted(link.namedlinks()):
        if isinstance(l, L.LSTM):
            s = states.get(n)
            l.c, l.h = (None, None) if s is None else (
                chainer.Variable(s[0]), chainer.Variable(s[1]))


STEPS = sized(st.tuples(floats(-2, 2), st.integers(0, 6)).map(list), 3, 25)
COMMON = {
    'rec': st.booleans(), 'phi': st.booleans(), 'bs': st.booleans(),
    'gamma': st.one_of(st.sampled_from([0.0, 1.0]), floats(0.125, 1)),
    't_max': st.integers(1, 6), 'steps': STEPS, 'seed': SEED,
    'evals': st.lists(st.integers(0, 24), max_size=3),
    'scale': st.sampled_from([0.3, 1.0]),
}


def kwargs(c):
    kw = {}
    if c['phi']:
        kw['phi'] = O.phi2
    if c['bs']:
        kw['batch_states'] = O.shifted
    return kw


def feats(c, ob):
    x = ob[None] * np.float32(2 if c['phi'] else 1)
    return x + np.float32(0.25) if c['bs'] else x


def compare(before, after, link, what, lr=LR):
    big = 0.0
    for k, p in link.namedparams():
        g = np.zeros_like(p.array) if p.grad is None else p.grad
        big = max(big, float(np.abs(g).max()))
    for k, p in link.namedparams():
        g = np.zeros_like(p.array) if p.grad is None else p.grad
        close((before[k] - after[k]) / lr, g, '{} ({})'.format(what, k),
              rtol=2e-3, atol=3e-5 * (1 + big))
    return big > 1e-5


def set_params(link, values):
    for k, p in link.namedparams():
        p.array[...] = values[k]


class Stream(object):
    """Drives an agent over episodes; subclasses say what has to happen."""

    def __init__(self, c, note):
        self.c, self.note = c, note
        self.r = np.random.RandomState(c['seed'] % (2 ** 32))
        self.log = []
        self.verified = 0
        self.saw = set()

    def obs(self):
        return self.r.uniform(-1, 1, O.OBS).astype('f')

    def drive(self):
        ob, reward, fresh = self.obs(), 0.0, True
        for t, (rew, end) in enumerate(self.c['steps']):
            if t in self.c['evals'] and (fresh or not self.c['rec']):
                self.evaluate(fresh)
            if not self.alive():
                self.note.label('diverged')
                break
            self.before_step()
            self.act(ob, reward)
            fresh = False
            reward, ob = rew, self.obs()
            if end >= 4:
                self.saw.add('terminal' if end != 5 else 'cut')
                self.stop(ob, reward, end != 5)
                ob, reward, fresh = self.obs(), 0.0, True
        self.note.nontrivial(self.verified > 0 and len(self.saw) > 1)

    def before_step(self):
        pass

    def alive(self):
        return True

    def evaluate(self, fresh):
        before = A.params(self.link)
        for _ in range(2):
            ob = self.obs()
            a = self.agent.act(ob)
            if not self.c['rec'] and self.c.get('det'):
                with chainer.no_backprop_mode():
                    y = self.fwd(self.link, ob)[0].array[0]
                if self.c['dist'] == 'gauss':
                    close(a, y[:O.ACT], 'deterministic action')
                elif np.sort(y)[-1] - np.sort(y)[-2] > 1e-4:
                    check(int(a) == int(y.argmax()), 'deterministic action')
        if fresh:
            self.agent.stop_episode()
        check(A.same_params(before, A.params(self.link)), 'evaluation trained')

    def ups(self):
        u = [e for e in self.log if e[0] == 'update']
        del self.log[:]
        return len(u)


# --------------------------------------------------------------------- A3C

class A3CRun(Stream):

    def __init__(self, c, note):
        super().__init__(c, note)
        wrap = O.to_dist(c['dist'])
        n = O.out_size(c['dist'])
        if c['shared']:
            m = a3c.A3CSharedModel(Body(O.OBS, O.H, c['rec']),
                                   Body(O.H, n, False, wrap),
                                   Body(O.H, 1, False))
        else:
            m = a3c.A3CSeparateModel(Body(O.OBS, n, c['rec'], wrap),
                                     Body(O.OBS, 1, c['rec']))
        A.randomize(m, c['seed'], c['scale'])
        self.shared = m
        opt = A.LoggedSGD(lr=LR).attach('opt', m, self.log)
        self.agent = agents.A3C(
            m, opt, c['t_max'], c['gamma'], beta=c['beta'],
            pi_loss_coef=c['pi'], v_loss_coef=c['v'],
            keep_loss_scale_same=c['keep'],
            normalize_grad_by_t_max=c['norm'],
            use_average_reward=c['avg'], average_reward_tau=0.1,
            act_deterministically=c['det'], average_value_decay=0.9,
            average_entropy_decay=0.9, process_idx=c['idx'], **kwargs(c))
        self.link = self.agent.model
        self.ref = copy.deepcopy(m)     # carries the recurrent state
        self.seg = []
        self.start = get_states(self.ref)
        self.avg = 0.0
        self.mv = self.me = 0.0

    def fwd(self, link, ob):
        x = feats(self.c, ob)
        if self.c['shared']:
            h = link.shared(x)
            return link.pi.raw(h), link.v.raw(h)
        return link.pi.raw(x), link.v.raw(x)

    def before_step(self):
        if self.c['other'] and self.r.rand() < 0.3:
            # another process updates the shared parameters
            for p in self.shared.params():
                p.array[...] += self.r.uniform(
                    -0.1, 0.1, p.array.shape).astype('f')

    def act(self, ob, reward):
        c = self.c
        if self.seg:
            self.seg[-1][2] = reward
        due = len(self.seg) == c['t_max']
        shared, local = A.params(self.shared), A.params(self.agent.model)
        self.log[:] = []
        a = self.agent.act_and_train(ob, reward)
        if due:
            self.saw.add('rollout')
            self.updated(shared, local, ob)
        else:
            self.not_updated(shared, local)
        set_params(self.ref, A.params(self.agent.model))
        if due or not self.seg:
            self.start = get_states(self.ref)
        with chainer.no_backprop_mode():
            y, v = self.fwd(self.ref, ob)
        self.seg.append([ob, a, None])
        _, ent = O.log_prob_np(c['dist'], y.array, [a])
        self.mv += 0.1 * (float(v.array[0, 0]) - self.mv)
        self.me += 0.1 * (float(ent[0]) - self.me)
        s = dict(self.agent.get_statistics())
        close(s['average_value'], self.mv, 'average_value', rtol=1e-3)
        close(s['average_entropy'], self.me, 'average_entropy', rtol=1e-3)

    def stop(self, ob, reward, done):
        self.seg[-1][2] = reward
        shared, local = A.params(self.shared), A.params(self.agent.model)
        self.log[:] = []
        self.agent.stop_episode_and_train(ob, reward, done=done)
        self.updated(shared, local, None if done else ob)
        put_states(self.ref, {})
        self.start = {}

    def not_updated(self, shared, local):
        check(self.ups() == 0, 'updated in the middle of a rollout')
        check(A.same_params(shared, A.params(self.shared))
              and A.same_params(local, A.params(self.agent.model)),
              'parameters changed without an update')

    def updated(self, shared, local, boot):
        c = self.c
        check(self.ups() == 1, 'not exactly one update')
        new = A.params(self.shared)
        check(A.same_params(new, A.params(self.agent.model)),
              'local parameters differ from the shared ones after an update')
        m = copy.deepcopy(self.ref)
        set_params(m, local)
        put_states(m, self.start)
        m.cleargrads()
        T = len(self.seg)
        outs = [self.fwd(m, s[0]) for s in self.seg]
        R = 0.0
        if boot is not None:
            with chainer.no_backprop_mode():
                R = float(self.fwd(m, boot)[1].array[0, 0])
        scale = 1.0
        if c['keep'] and T < c['t_max']:
            scale *= c['t_max'] / T
        if c['norm']:
            scale /= T
        loss = 0
        for i in reversed(range(T)):
            y, v = outs[i]
            R = self.seg[i][2] + c['gamma'] * R
            if c['avg']:
                R -= self.avg
            adv = R - float(v.array[0, 0])
            if c['avg']:
                self.avg += 0.1 * adv
            lp, ent = O.log_prob_entropy(c['dist'], y, [self.seg[i][1]])
            loss += c['pi'] * scale * F.sum(
                np.float32(-adv) * lp - np.float32(c['beta']) * ent)
            loss += c['v'] * scale * np.float32(-adv) * F.sum(v)
        loss.backward()
        self.verified += compare(shared, new, m, 'A3C gradient')
        self.seg = []


suite.add('A3C', st.fixed_dictionaries(dict(
    COMMON, dist=st.sampled_from(['softmax', 'gauss']), shared=st.booleans(),
    beta=st.sampled_from([0.0, 0.01, 0.5]), pi=st.sampled_from([1.0, 0.3]),
    v=st.sampled_from([0.5, 1.0]), keep=st.booleans(), norm=st.booleans(),
    avg=st.sampled_from([False, False, True]), det=st.booleans(),
    other=st.booleans(), idx=st.integers(0, 1))),
    lambda c, n: A3CRun(c, n).drive(), quick=300, shards=4)


# --------------------------------------------------------------------- NSQ

class NSQRun(Stream):
    gradients = True

    def __init__(self, c, note):
        super().__init__(c, note)
        m = Body(O.OBS, O.NACT, c['rec'], action_value.DiscreteActionValue)
        A.randomize(m, c['seed'], c['scale'])
        self.shared = m
        opt = A.LoggedSGD(lr=LR).attach('opt', m, self.log)
        ex = A.LoggedExplorer(
            self.log, lambda: np.int32(self.r.randint(O.NACT)))
        self.agent = agents.NSQ(m, opt, c['t_max'], c['gamma'],
                                c['i_target'], ex, average_q_decay=0.9,
                                **kwargs(c))
        self.link = self.agent.q_function
        self.ref = copy.deepcopy(m)
        self.tref = copy.deepcopy(m)
        self.seg, self.start = [], {}
        self.t = 0
        self.mq = 0.0

    def before_step(self):
        A3CRun.before_step(self)
        if self.c['other'] and self.r.rand() < 0.3:
            # other processes take steps
            k = int(self.r.randint(1, 4))
            with self.agent.t_global.get_lock():
                self.agent.t_global.value += k
            self.t += k
            self.note.label('steps of others')

    def act(self, ob, reward):
        c = self.c
        if self.seg:
            self.seg[-1][2] = reward
        due = len(self.seg) == c['t_max']
        ag = self.agent
        shared, local = A.params(self.shared), A.params(ag.q_function)
        self.log[:] = []
        a = ag.act_and_train(ob, reward)
        ex = [e for e in self.log if e[0] == 'explore']
        check(len(ex) == 1 and ex[0][1] == self.t,
              'explorer asked at {}, step {}', ex, self.t)
        check(a == ex[0][2], 'action {} instead of {}', a, ex[0][2])
        if due:
            self.saw.add('rollout')
            self.updated(shared, local, ob)
        else:
            A3CRun.not_updated.__get__(_As(self))(shared, local)
        set_params(self.ref, A.params(ag.q_function))
        if due or not self.seg:
            self.start = get_states(self.ref)
        with chainer.no_backprop_mode():
            q = self.ref.raw(feats(c, ob)).array[0]
            self.tref.raw(feats(c, ob))
        if self.t % 3:
            check(q[a] >= q.max() - 1e-5, 'greedy action {} of {}', a, q)
        self.seg.append([ob, a, None])
        self.t += 1
        self.mq += 0.1 * (float(q[a]) - self.mq)
        close(dict(ag.get_statistics())['average_q'], self.mq, 'average_q',
              rtol=1e-3)
        check(ag.t_global.value == self.t, 'global step count')
        if self.t % c['i_target'] == 0:
            set_params(self.tref, A.params(ag.q_function))
            self.note.label('target synchronised')
        check(A.same_params(A.params(self.tref),
                            A.params(ag.target_q_function)),
              'target parameters at step {}', self.t)

    def stop(self, ob, reward, done):
        self.seg[-1][2] = reward
        ag = self.agent
        shared, local = A.params(self.shared), A.params(ag.q_function)
        self.log[:] = []
        ag.stop_episode_and_train(ob, reward, done=done)
        self.updated(shared, local, None if done else ob)
        put_states(self.ref, {})
        put_states(self.tref, {})
        self.start = {}
        check(A.same_params(A.params(self.tref),
                            A.params(ag.target_q_function)),
              'target changed at the end of an episode')

    def updated(self, shared, local, boot):
        c = self.c
        check(self.ups() == 1, 'not exactly one update')
        new = A.params(self.shared)
        check(A.same_params(new, A.params(self.agent.q_function)),
              'local parameters differ from the shared ones after an update')
        m = copy.deepcopy(self.ref)
        set_params(m, local)
        put_states(m, self.start)
        m.cleargrads()
        outs = [m.raw(feats(c, s[0])) for s in self.seg]
        R = 0.0
        if boot is not None:
            with chainer.no_backprop_mode():
                R = float(copy.deepcopy(self.tref).raw(
                    feats(c, boot)).array.max())
        loss = 0
        if not self.gradients:      # only the schedule is asked about (P08)
            self.verified += 1
            self.seg = []
            return
        for i in reversed(range(len(outs))):
            R = self.seg[i][2] + c['gamma'] * R
            q = outs[i][0, int(self.seg[i][1])]
            d = np.clip(float(q.array) - R, -1, 1)
            loss += q * np.float32(d)
        F.sum(loss).backward()
        self.verified += compare(shared, new, m, 'NSQ gradient')
        self.seg = []


class _As(A3CRun):
    """View of an NSQ run for A3CRun.not_updated."""

    def __init__(self, run):
        self.log, self.shared = run.log, run.shared

        class Ag(object):
            model = run.agent.q_function
        self.agent = Ag


NSQ_CONFIG = st.fixed_dictionaries(dict(
    COMMON, i_target=st.integers(1, 8), other=st.booleans()))
suite.add('NSQ', NSQ_CONFIG, lambda c, n: NSQRun(c, n).drive(), quick=240,
          shards=4)


# --------------------------------------------------------------- REINFORCE

class ReinforceRun(Stream):

    def __init__(self, c, note):
        super().__init__(c, note)
        m = Body(O.OBS, O.out_size(c['dist']), c['rec'], O.to_dist(c['dist']))
        A.randomize(m, c['seed'], c['scale'])
        self.link = m
        opt = A.LoggedSGD(lr=LR).attach('opt', m, self.log)
        self.agent = agents.REINFORCE(
            m, opt, beta=c['beta'], batchsize=c['batch'],
            act_deterministically=c['det'],
            backward_separately=c['separately'], average_entropy_decay=0.9,
            **kwargs(c))
        self.ep, self.batch = [], []
        self.me = 0.0
        self.ref = copy.deepcopy(m)

    def fwd(self, link, ob):
        return [link.raw(feats(self.c, ob))]

    def act(self, ob, reward):
        if self.ep:
            self.ep[-1][2] = reward
        p = A.params(self.link)
        self.log[:] = []
        a = self.agent.act_and_train(ob, reward)
        check(self.ups() == 0 and A.same_params(p, A.params(self.link)),
              'updated within an episode')
        self.ep.append([ob, a, None])
        set_params(self.ref, p)
        with chainer.no_backprop_mode():
            y = self.ref.raw(feats(self.c, ob)).array
        self.me += 0.1 * (float(O.log_prob_np(
            self.c['dist'], y, [a])[1][0]) - self.me)
        close(dict(self.agent.get_statistics())['average_entropy'], self.me,
              'average_entropy', rtol=1e-3)

    def stop(self, ob, reward, done):
        self.ep[-1][2] = reward
        before = A.params(self.link)
        self.log[:] = []
        self.agent.stop_episode_and_train(ob, reward, done=done)
        put_states(self.ref, {})
        n = self.ups()
        if done:
            self.batch.append(self.ep)
        self.ep = []
        if len(self.batch) < self.c['batch']:
            check(n == 0 and A.same_params(before, A.params(self.link)),
                  'updated with {} of {} episodes', len(self.batch),
                  self.c['batch'])
            return
        check(n == 1, '{} updates with a full batch', n)
        m = copy.deepcopy(self.ref)
        set_params(m, before)
        m.cleargrads()
        loss = 0
        for ep in self.batch:
            put_states(m, {})
            for i, (o, a, _) in enumerate(ep):
                ret = sum(s[2] for s in ep[i:])
                lp, ent = O.log_prob_entropy(
                    self.c['dist'], m.raw(feats(self.c, o)), [a])
                loss -= F.sum(np.float32(ret) * lp
                              + np.float32(self.c['beta']) * ent)
        (loss / np.float32(self.c['batch'])).backward()
        self.verified += compare(before, A.params(self.link), m,
                                 'REINFORCE gradient')
        self.batch = []
        self.saw.add('rollout')


suite.add('REINFORCE', st.fixed_dictionaries(dict(
    COMMON, dist=st.sampled_from(['softmax', 'gauss']),
    beta=st.sampled_from([0.0, 0.01, 0.5]), batch=st.integers(1, 3),
    separately=st.booleans(), det=st.booleans())),
    lambda c, n: ReinforceRun(c, n).drive(), quick=300, shards=3)
