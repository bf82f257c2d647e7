"""P13: PPO, TRPO's value function and A2C."""
import chainer
import numpy as np
from chainer import functions as F
from chainer import links as L
from hypothesis import strategies as st

from chainerrl import agents
from chainerrl.agents import a2c

from pbt import agents as A
from pbt import onpolicy as O
from pbt.core import Suite, check, close
from pbt.gen import SEED, floats, sized

suite = Suite(
    'P13',
    'at least one optimizer step with a gradient that is not zero was '
    'compared, on a batch with several episodes',
    ['minibatches are recognised by their (unique) rows; updates on a '
     'clipping boundary or with advantages too similar to standardise are '
     'not compared',
     'recurrent updates are only run with minibatch sizes that divide the '
     'number of steps collected (the code requires it)'])


def run(kind, case, note):
    s = O.Session(kind, case, note)
    s.run()
    note.nontrivial(s.n_verified > 0 and s.multi)


for _k in ('PPO', 'TRPO'):
    for _rec in (False, True):
        suite.add(_k + ('_recurrent' if _rec else ''),
                  O.case_strategy(_k, _rec),
                  lambda c, n, _k=_k: run(_k, c, n),
                  quick={('PPO', False): 240, ('PPO', True): 90,
                         ('TRPO', False): 80, ('TRPO', True): 40}[_k, _rec],
                  shards=4)


# --------------------------------------------------------------------- A2C

@suite.facet(st.fixed_dictionaries({
    'dist': st.sampled_from(['softmax', 'gauss']),
    'envs': st.integers(1, 3), 'update_steps': st.integers(1, 5),
    'gamma': st.one_of(st.sampled_from([0.0, 1.0]), floats(0.125, 1)),
    'tau': st.one_of(st.sampled_from([0.0, 1.0]), floats(0.125, 1)),
    'gae': st.booleans(),
    'pi': st.sampled_from([1.0, 0.3]), 'v': st.sampled_from([0.5, 1.0, 0.0]),
    'ent': st.sampled_from([0.0, 0.01, 0.5]),
    'phi': st.booleans(), 'bs': st.booleans(), 'det': st.booleans(),
    'steps': sized(st.tuples(floats(-2, 2), st.integers(0, 5)).map(list),
                   3, 30), 'seed': SEED}), quick=240, shards=2)
def A2C(case, note):
    c = case
    log = []
    r = np.random.RandomState(c['seed'] % (2 ** 32))
    pi = O.Net(O.out_size(c['dist']), 'pi', log, O.to_dist(c['dist']))
    v = O.Net(1, 'v', log)
    A.randomize(pi, c['seed'], 0.7)
    A.randomize(v, c['seed'] + 1, 0.7)
    model = a2c.A2CSeparateModel(pi, v)
    opt = A.LoggedSGD(lr=0.1).attach('opt', model, log)
    kw = {}
    if c['phi']:
        kw['phi'] = O.phi2
    if c['bs']:
        kw['batch_states'] = O.shifted
    n, T = c['envs'], c['update_steps']
    ag = agents.A2C(model, opt, c['gamma'], n, update_steps=T,
                    pi_loss_coef=c['pi'], v_loss_coef=c['v'],
                    entropy_coeff=c['ent'], use_gae=c['gae'], tau=c['tau'],
                    act_deterministically=c['det'], **kw)

    def feats(xs):
        x = np.stack(xs)
        x = x * np.float32(2) if c['phi'] else x
        return x + np.float32(0.25) if c['bs'] else x

    obs = r.uniform(-1, 1, (n, O.OBS)).astype('f')
    hist = []
    n_steps = -(-len(c['steps']) // n)
    n_up = 0
    ended = False
    for t in range(n_steps):
        del log[:]
        acts = ag.batch_act_and_train(list(obs))
        check(not [e for e in log if e[0] == 'update'],
              'acting updated the model')
        if t % 3 == 1:
            p = A.params(model)
            e = ag.act(obs[0])
            ag.stop_episode()
            if c['det']:
                y = pi.raw(feats([obs[0]])).array[0]
                if c['dist'] == 'gauss':
                    close(e, y[:O.ACT], 'deterministic action')
                elif np.sort(y)[-1] - np.sort(y)[-2] > 1e-4:
                    check(int(e) == int(y.argmax()), 'deterministic action')
            check(A.same_params(p, A.params(model)), 'evaluation trained')
        x = feats(list(obs))
        with chainer.no_backprop_mode():
            vp = v.raw(x).array[:, 0].astype('d')
        nxt = r.uniform(-1, 1, (n, O.OBS)).astype('f')
        rew, mask, done, reset = [], [], [], []
        for i in range(n):
            w, end = c['steps'][(t * n + i) % len(c['steps'])]
            rew.append(w)
            done.append(end == 4)
            reset.append(end == 5)
            mask.append(0.0 if end >= 4 else 1.0)
        ended = ended or min(mask) == 0
        hist.append((x, acts, np.array(rew), np.array(mask), vp))
        before = A.params(model)
        del log[:]
        ag.batch_observe_and_train(list(nxt), rew, done, reset)
        ups = [e for e in log if e[0] == 'update']
        if len(hist) < T:
            check(not ups, 'updated after {} of {} steps', len(hist), T)
            check(A.same_params(before, A.params(model)),
                  'parameters changed without an update')
        else:
            check(len(ups) == 1, '{} updates', len(ups))
            n_up += verify(c, hist, feats(list(nxt)), before,
                           A.params(model), pi, v)
            hist = []
        obs = np.array([r.uniform(-1, 1, O.OBS) if mask[i] == 0 else nxt[i]
                        for i in range(n)], 'f')
    note.nontrivial(n_up > 0 and ended)


def verify(c, hist, last, before, after, pi, v):
    T, n = len(hist), len(hist[0][2])
    m = chainer.Chain()
    with m.init_scope():
        m.pi, m.v = copy_of(pi), copy_of(v)
    for k, p in m.namedparams():
        p.array[...] = before[k]
    m.cleargrads()
    x = np.concatenate([h[0] for h in hist])
    acts = np.concatenate([h[1] for h in hist])
    lp, ent = O.log_prob_entropy(c['dist'], m.pi.raw(x), acts)
    vs = m.v.raw(x)[:, 0]
    with chainer.no_backprop_mode():
        last_v = m.v.raw(last).array[:, 0].astype('d')
    g = c['gamma']
    ret = np.zeros((T, n))
    vp = [h[4] for h in hist] + [last_v]
    for i in range(n):
        for t in range(T):
            if c['gae']:
                # lambda-weighted sum of TD errors until the mask
                w, tot = 1.0, 0.0
                for k in range(t, T):
                    msk = hist[k][3][i]
                    tot += w * (hist[k][2][i] + g * msk * vp[k + 1][i]
                                - vp[k][i])
                    w *= g * c['tau'] * msk
                ret[t, i] = tot + vp[t][i]
            else:
                w, tot = 1.0, 0.0
                for k in range(t, T):
                    tot += w * hist[k][2][i]
                    w *= g * hist[k][3][i]
                ret[t, i] = tot + w * last_v[i]
    R = ret.ravel()
    adv = R - vs.array.astype('d')
    N = T * n
    loss = F.sum(lp * (-c['pi'] * adv / N).astype('f')) \
        + F.sum(vs * (-2 * c['v'] * adv / N).astype('f')) \
        - c['ent'] * F.sum(ent) / N
    loss.backward()
    big = 0.0
    for k, p in m.namedparams():
        gr = np.zeros_like(p.array) if p.grad is None else p.grad
        big = max(big, float(np.abs(gr).max()))
        close((before[k] - after[k]) / 0.1, gr, 'A2C step ({})'.format(k),
              rtol=2e-3, atol=3e-5 * (1 + big))
    return big > 1e-4


def copy_of(net):
    import copy
    return copy.deepcopy(net)
