"""P22: isolation of recurrent hidden states."""
import chainer
import numpy as np
from chainer import functions as F
from chainer import links as L
from hypothesis import strategies as st

from chainerrl import agents, policies, q_functions, recurrent, replay_buffer
from chainerrl.agents.ddpg import DDPGModel
from chainerrl.links import (StatelessRecurrentBranched,
                             StatelessRecurrentSequential)
from chainerrl.recurrent import Recurrent, RecurrentChainMixin

from pbt import agents as A
from pbt import onpolicy as O
from pbt.core import Suite, check, close
from pbt.gen import SEED, rng, sized


suite = Suite(
    'P22',
    'histories with a state that is saved, replaced or reset after it has '
    'left its initial value, or with several episodes of two steps or more',
    ['Stateful models are checked through their LSTM links; saves and '
     'restores are nested properly (the stack is common to all models)'])


# ------------------------------------------------------- stateful models

class Counter(chainer.Link, Recurrent):
    """A recurrent link of a user's own."""

    def __init__(self):
        super().__init__()
        self.n = None

    def __call__(self, x):
        self.n = (0.0 if self.n is None else self.n) * 0.5 + \
            float(np.sum(A_(x)))
        return x * 1.0 + np.float32(np.tanh(self.n))

    def get_state(self):
        return self.n

    def set_state(self, state):
        self.n = state

    def reset_state(self):
        self.n = None


def A_(x):
    return x.array if isinstance(x, chainer.Variable) else x


class Rec(chainer.Chain, RecurrentChainMixin):
    pass


class RecList(chainer.ChainList, RecurrentChainMixin):
    pass


D = 2
TREE = st.recursive(
    st.sampled_from(['lstm', 'linear', 'counter', 'lstm']),
    lambda sub: st.tuples(
        st.sampled_from(['rec', 'reclist', 'chain', 'list']),
        st.lists(sub, min_size=1, max_size=3)).map(list), max_leaves=6)


def make(spec, r, leaves):
    """The link of a spec; appends its recurrent leaves to `leaves`."""
    if spec == 'lstm':
        link = L.LSTM(D, D)
        for p in link.params():
            p.array = r.normal(scale=0.7, size=p.shape).astype('f')
        leaves.append(link)
        return link
    if spec == 'counter':
        link = Counter()
        leaves.append(link)
        return link
    if spec == 'linear':
        return L.Linear(D, D)
    kids = [make(s, r, leaves) for s in spec[1]]
    cls = {'rec': Rec, 'reclist': RecList, 'chain': chainer.Chain,
           'list': chainer.ChainList}[spec[0]]
    if spec[0] in ('rec', 'chain'):
        link = cls()
        with link.init_scope():
            for i, k in enumerate(kids):
                setattr(link, 'k{}'.format(i), k)
        return link
    return cls(*kids)


def state_of(leaf):
    if isinstance(leaf, Counter):
        return leaf.n
    return tuple(None if v is None else A_(v).copy()
                 for v in (leaf.c, leaf.h))


def put(leaf, s):
    if isinstance(leaf, Counter):
        leaf.n = s
    elif s[0] is None:
        leaf.reset_state()
    else:
        leaf.set_state(chainer.Variable(s[0].copy()),
                       chainer.Variable(s[1].copy()))


def fresh(leaf):
    return None if isinstance(leaf, Counter) else (None, None)


def equal_state(a, b):
    if isinstance(a, tuple):
        return all((x is None and y is None) or
                   (x is not None and y is not None
                    and np.array_equal(x, y)) for x, y in zip(a, b))
    return a == b


class Boom(Exception):
    pass


OPS = ['call'] * 4 + ['reset', 'unchain', 'get', 'set', 'update_state']
CONTEXTS = ['kept', 'reset_in', 'm_kept', 'm_reset', 'push', 'push_keep',
            'm_plain']
# [op, model, slot / failing (in part)]; 'open' starts a context
PROGRAM = sized(st.tuples(
    st.sampled_from(OPS + CONTEXTS + ['end', 'end', 'end', 'raise']),
    st.integers(0, 1), st.integers(0, 2)).map(list), 4, 30)


def parse(flat):
    """Token list -> nested program."""
    out, stack = [], []
    for kind, m, k in flat:
        if kind in CONTEXTS:
            body = []
            out.append([kind, m, body, k == 2])
            stack.append(out)
            out = body
        elif kind == 'end':
            if stack:
                out = stack.pop()
        elif kind == 'raise':
            out.append(['raise'])
        else:
            out.append([kind, m, k])
    return stack[0] if stack else out


@suite.facet(st.fixed_dictionaries({
    'trees': st.lists(st.tuples(
        st.sampled_from(['rec', 'reclist']),
        st.lists(TREE, min_size=1, max_size=3)
        .map(lambda l: l + ['lstm'])).map(list),
        min_size=2, max_size=2),
    'program': PROGRAM, 'warm': st.booleans(), 'seed': SEED}),
    quick=1600, shards=4)
def stateful(case, note):
    """Programs of saving, replacing and restoring, bodies failing or not."""
    r = rng(case['seed'])
    leaves, models = [], []
    for t in case['trees']:
        ls = []
        models.append(make(t, r, ls))
        leaves.append(ls)
    # the functional model: current states, saved slots of each model
    cur = [[fresh(l) for l in ls] for ls in leaves]
    slots = [{}, {}]
    flags = {'moved': False, 'saved': False}
    plain = L.Linear(D, D)

    def compare(what):
        for m in (0, 1):
            for i, l in enumerate(leaves[m]):
                check(equal_state(state_of(l), cur[m][i]),
                      '{}: leaf {} of model {} has state {}, expected {}',
                      what, i, m, state_of(l), cur[m][i])

    def call(m):
        """Feed every leaf; the reference state comes from the same leaf."""
        x = r.uniform(-1, 1, (1, D)).astype('f')
        for i, l in enumerate(leaves[m]):
            put(l, cur[m][i])
            l(x)
            want = state_of(l)
            cur[m][i] = want
        flags['moved'] = bool(leaves[m]) or flags['moved']

    def run(prog, path):
        for k, op in enumerate(prog):
            what = '{}.{} {}'.format(path, k, op[0])
            kind = op[0]
            if kind == 'raise':
                if path != 'top':
                    raise Boom
                continue
            m = op[1]
            model = models[m]
            if kind == 'call':
                call(m)
            elif kind == 'reset':
                model.reset_state()
                cur[m] = [fresh(l) for l in leaves[m]]
            elif kind == 'unchain':
                model.unchain_backward()
                for l in leaves[m]:
                    if not isinstance(l, Counter) and l.c is not None:
                        check(l.c.creator is None and l.h.creator is None,
                              '{}: state still chained', what)
            elif kind == 'get':
                slots[m][op[2]] = (model.get_state(), list(cur[m]))
            elif kind == 'set':
                if op[2] in slots[m]:
                    s, want = slots[m][op[2]]
                    model.set_state(s)
                    cur[m] = list(want)
                    flags['saved'] = True
            elif kind == 'update_state':
                # as if called
                if leaves[m] and isinstance(leaves[m][0], Counter):
                    x = np.ones((1, D), 'f')
                    leaves[m][0].update_state(x)
                    n = cur[m][0]
                    cur[m][0] = (0.0 if n is None else n) * 0.5 + D
            else:
                body, fails = op[2], op[3]
                before = list(cur[m])
                flags['saved'] = flags['saved'] or flags['moved']

                def inside():
                    compare(what + ' (inside)')
                    run(body, what)
                    if fails:
                        raise Boom
                wipe = kind in ('reset_in', 'm_reset', 'push')
                try:
                    if kind in ('push', 'push_keep'):
                        getattr(model, 'push_state' if wipe else
                                'push_and_keep_state')()
                        if wipe:
                            cur[m] = [fresh(l) for l in leaves[m]]
                        try:
                            inside()
                        finally:
                            model.pop_state()
                    elif kind == 'm_plain':
                        # links without state are ignored
                        before = None
                        with recurrent.state_kept(plain), \
                                recurrent.state_reset(plain):
                            inside()
                    else:
                        ctx = {'kept': model.state_kept,
                               'reset_in': model.state_reset,
                               'm_kept': lambda: recurrent.state_kept(model),
                               'm_reset': lambda: recurrent.state_reset(
                                   model)}[kind]
                        with ctx():
                            if wipe:
                                cur[m] = [fresh(l) for l in leaves[m]]
                            inside()
                        check(not fails, '{}: the failure got lost', what)
                except Boom:
                    if before is not None:
                        cur[m] = before
                    compare(what + ' (failed)')
                    if fails and k % 2:
                        raise
                else:
                    if before is not None:
                        cur[m] = before
            compare(what)

    if case['warm']:
        for m in (0, 1):
            call(m)
    try:
        run(parse(case['program']), 'top')
    except Boom:
        pass
    compare('end')
    for m in (0, 1):
        check({id(l) for l in recurrent.stateful_links(models[m])}
              <= {id(x) for x in models[m].links()}, 'stateful_links')
    note.nontrivial(flags['moved'] and flags['saved'])


# ------------------------------------------------------- agents

STEP = st.tuples(st.integers(0, 9), st.integers(0, 5)).map(list)


def flat(s):
    """All arrays in a recurrent state."""
    if s is None:
        return []
    if isinstance(s, (tuple, list)):
        return [z for x in s for z in flat(x)]
    return [np.asarray(A_(s)).ravel()]


def same_state(got, want, what):
    g, w = flat(got), flat(want)
    if not g or not w:
        check(all(not np.any(z) for z in g + w),
              '{}: state {} where {} is expected', what, g, w)
        return
    close(np.concatenate(g), np.concatenate(w), what, rtol=1e-3, atol=1e-4)


class Drive(object):
    """Drives an agent through episodes, with one reference per stream."""

    def __init__(self, case, envs, note):
        self.case, self.n, self.note = case, envs, note
        self.r = rng(case['seed'])
        self.states = [None] * envs
        self.prev = [None] * envs
        self.len = [0] * envs
        self.lens = set()

    def obs(self):
        return self.r.uniform(-1, 1, A.OBS).astype('f')

    def end(self, e):
        if self.len[e] > 1:
            self.lens.add(self.len[e])
        self.states[e] = None
        self.len[e] = 0

    def acted(self, obs, acts):
        """Steps the references; compares what the agent computed."""
        for e in range(self.n):
            self.prev[e] = self.states[e]
            self.states[e] = self.compare(
                obs[e], self.states[e], acts[e], e,
                'environment {} step {} of its episode'.format(
                    e, self.len[e]))
            self.len[e] += 1

    def evaluate(self, spec):
        """Whole evaluation episodes."""
        n_eval = spec % 3 + 1
        for _ in range(n_eval):
            if not self.case['batch']:
                s = None
                for t in range(1 + spec % 4):
                    o = self.obs()
                    self.begin()
                    a = self.agent.act(o)
                    s = self.compare_eval(o, s, a, 0, 1, 'evaluation')
                self.agent.stop_episode()
            else:
                ss = [None] * self.n
                T = 1 + spec % 4
                for t in range(T):
                    os = [self.obs() for _ in range(self.n)]
                    self.begin()
                    a = self.agent.batch_act(os)
                    ss = [self.compare_eval(os[e], ss[e], a[e], e, self.n,
                                            'batched evaluation')
                          for e in range(self.n)]
                    ends = [t == T - 1 or self.r.rand() < 0.3
                            for _ in range(self.n)]
                    kind = [self.r.rand() < 0.5 for _ in range(self.n)]
                    self.agent.batch_observe(
                        [self.obs() for _ in range(self.n)], [0.0] * self.n,
                        [x and k for x, k in zip(ends, kind)],
                        [x and (not k or t == T - 1)
                         for x, k in zip(ends, kind)])
                    ss = [None if x else s for x, s in zip(ends, ss)]

    def run(self):
        ag = self.agent
        steps = self.case['steps']
        if not self.case['batch']:
            o, rew = self.obs(), 0.0
            for t, (kind, ev) in enumerate(steps):
                if ev == 0:
                    self.evaluate(t)
                self.begin()
                a = ag.act_and_train(o, rew)
                self.recorded(0)
                self.acted([o], [a])
                o, rew = self.obs(), float(self.r.uniform(-1, 1))
                if kind >= 7:
                    self.begin()
                    ag.stop_episode_and_train(o, rew, done=kind >= 8)
                    self.recorded(0, end=True)
                    self.end(0)
                    o, rew = self.obs(), 0.0
        else:
            os = [self.obs() for _ in range(self.n)]
            for t in range(0, len(steps) - self.n + 1):
                if steps[t][1] == 0:
                    self.evaluate(t)
                self.begin()
                acts = ag.batch_act_and_train(os)
                self.acted(os, acts)
                kinds = [steps[(t * 5 + e * 3) % len(steps)][0]
                         for e in range(self.n)]
                nxt = [self.obs() for _ in range(self.n)]
                self.begin()
                ag.batch_observe_and_train(
                    nxt, [float(self.r.uniform(-1, 1)) for _ in kinds],
                    [k >= 8 for k in kinds], [k in (7, 9) for k in kinds])
                self.recorded(None)
                for e, k in enumerate(kinds):
                    if k >= 7:
                        self.end(e)
                os = [self.obs() if k >= 7 else x
                      for x, k in zip(nxt, kinds)]
        self.note.nontrivial(len(self.lens) > 0 and self.trained())

    def begin(self):
        pass

    def recorded(self, env, end=False):
        pass


class DQNDrive(Drive):

    def __init__(self, case, note):
        super().__init__(case, case['envs'] if case['batch'] else 1, note)
        self.kind = case['kind']
        self.log = []
        outer = self
        self.values = []

        class Ex(A.LoggedExplorer):
            def select_action(self, t, greedy_action_func,
                              action_value=None):
                if action_value is not None:
                    outer.values.append(
                        None if outer.kind.endswith('IQN') else
                        np.array(action_value.q_values.array))
                return super().select_action(
                    t, greedy_action_func, action_value)

        buf = A.logged_buffer(replay_buffer.EpisodicReplayBuffer, self.log,
                              50)
        self.b = A.build_q(
            self.kind, buf, self.log, recurrent=True, seed=case['seed'],
            lr=0.05, explorer_=Ex(
                self.log,
                lambda: np.int32(np.random.randint(A.N_ACTIONS))),
            replay_start_size=2, minibatch_size=2,
            update_interval=case['interval'],
            target_update_interval=3, episodic_update_len=case['max_len'])
        self.agent = self.b.agent

    def ref(self, o, s):
        m = self.agent.model
        x = o[None]
        with chainer.no_backprop_mode():
            if self.kind.endswith('IQN'):
                # (quantile fractions are drawn: only the state compares)
                rnn = m.psi[0]
                h, c, _ = rnn(*(s or (None, None)), [x])
                return None, (h, c)
            h, c, y = m[0](*(s or (None, None)), [x])
            y = y[0]
            for f in list(m)[1:]:
                y = f(y)
            return y.q_values.array[0], (h, c)

    def begin(self):
        del self.values[:]
        del self.log[:]

    def compare(self, o, s, a, e, what):
        q, s = self.ref(o, s)
        if q is not None:
            # (SARSA asks in its updates, too, which come before acting)
            check(len(self.values) >= self.n, 'explorer asked {} times',
                  len(self.values))
            close(self.values[e - self.n][0], q, what, rtol=1e-3, atol=1e-4)
        return s

    def compare_eval(self, o, s, a, e, n, what):
        q, s = self.ref(o, s)
        if q is not None:
            top = np.sort(q)[::-1]
            if top[0] - top[1] > 1e-4:
                check(int(a) == int(q.argmax()),
                      '{}: action {} for values {}', what, a, q)
        return s

    def recorded(self, env, end=False):
        """States in the recorded transitions."""
        appended = [x for x in self.log if x[0] == 'append']
        if env is not None:
            if not end and not self.len[0]:
                check(not appended, 'a transition before the first action')
                return
            check(len(appended) == 1, '{} transitions recorded',
                  len(appended))
            envs = [0]
        else:
            check(len(appended) == self.n, '{} transitions recorded',
                  len(appended))
            envs = [x[2].get('env_id', 0) for x in appended]
        for e, x in zip(envs, appended):
            same_state(x[2]['recurrent_state'], self.prev[e],
                       'recorded state of environment {}'.format(e))
            same_state(x[2]['next_recurrent_state'], self.states[e],
                       'recorded next state of environment {}'.format(e))

    def trained(self):
        return self.b.opts['q'].t > 0


COMMON = {
    'steps': sized(STEP, 3, 25), 'batch': st.booleans(),
    'envs': st.integers(1, 3), 'interval': st.integers(1, 4),
    'max_len': st.sampled_from([None, 1, 3]), 'seed': SEED}


@suite.facet(st.fixed_dictionaries(dict(COMMON, kind=st.sampled_from(
    A.REC_KINDS))), quick=260, shards=6)
def q_agents(case, note):
    if case['kind'] == 'SARSA':
        case = dict(case, batch=False)
    DQNDrive(case, note).run()
    note.label(case['kind'])


class PolicyDrive(Drive):

    def __init__(self, case, note):
        super().__init__(case, case['envs'] if case['batch'] else 1, note)
        self.outs = outs = []
        dist = O.to_dist(case['dist'])

        def head(y):
            if not chainer.config.enable_backprop:
                outs.append(y.array.copy())
            return dist(y)

        self.pi = O.rec_net(case['cell'], O.out_size(case['dist']), head,
                            'pi', [])
        self.v = O.rec_net(case['cell'], 1, None, 'v', [])
        A.randomize(self.pi, case['seed'], 1.0)
        A.randomize(self.v, case['seed'] + 1, 1.0)
        n = self.n * (case['interval'] + 1)
        kw = dict(gamma=0.9, lambd=0.9, update_interval=n, recurrent=True,
                  max_recurrent_sequence_len=case['max_len'],
                  act_deterministically=True)
        if case['algo'] == 'PPO':
            link = StatelessRecurrentBranched(self.pi, self.v)
            self.opt = A.LoggedSGD(lr=0.3).attach('opt', link, [])
            self.agent = agents.PPO(link, self.opt, minibatch_size=n,
                                    epochs=1, **kw)
        else:
            self.opt = A.LoggedSGD(lr=0.3).attach('opt', self.v, [])
            self.agent = agents.TRPO(
                self.pi, self.v, self.opt, vf_epochs=1, vf_batch_size=n,
                conjugate_gradient_max_iter=2, **kw)

    def begin(self):
        del self.outs[:]

    def compare_eval(self, o, s, a, e, n, what):
        with chainer.no_backprop_mode():
            y, s = O.Ref(self.pi, self.case['cell']).step(o[None], s)
        rows = [z for z in self.outs if len(z) == n]
        check(rows, '{}: the policy was not called for {} rows', what, n)
        close(rows[-1][e], y.array[0], what, rtol=1e-3, atol=1e-4)
        return O.detach(s)

    def compare(self, o, s, a, e, what):
        return self.compare_eval(o, s, a, e, self.n, what)

    def trained(self):
        return self.opt.t > 0


@suite.facet(st.fixed_dictionaries(dict(
    COMMON, algo=st.sampled_from(['PPO', 'TRPO']),
    dist=st.sampled_from(['softmax', 'gauss']),
    cell=st.sampled_from(['lstm', 'gru', 'rnn']))), quick=160, shards=6)
def policy_agents(case, note):
    PolicyDrive(case, note).run()
    note.label(case['algo'])


@suite.facet(st.fixed_dictionaries(dict(
    COMMON, evals=st.integers(0, 3))), quick=60, shards=2)
def recurrent_ddpg(case, note):
    """The stateful policy: episodes, updates in their middle, evaluation."""
    s = case['seed']
    pol = policies.FCLSTMDeterministicPolicy(
        A.OBS, 1, 3, A.ACT, np.full(A.ACT, -1, 'f'), np.full(A.ACT, 1, 'f'),
        True)
    qf = q_functions.FCLSTMSAQFunction(A.OBS, A.ACT, 3, 1)
    A.randomize(pol, s, 1.0)
    A.randomize(qf, s + 1, 1.0)
    model = DDPGModel(pol, qf)
    ao, co = chainer.optimizers.SGD(lr=0.05), chainer.optimizers.SGD(lr=0.05)
    ao.setup(model['policy'])
    co.setup(model['q_function'])
    log = []
    ag = agents.DDPG(
        model, ao, co, replay_buffer.EpisodicReplayBuffer(50), 0.9,
        A.LoggedExplorer(log), replay_start_size=2, minibatch_size=2,
        update_interval=case['interval'], episodic_update=True,
        target_update_interval=3,
        episodic_update_len=case['max_len'])
    r = rng(s)
    ref = [None]

    def obs():
        return r.uniform(-1, 1, A.OBS).astype('f')

    def expected(o, p):
        """Action for `o` with the state so far and parameters `p`."""
        twin = policies.FCLSTMDeterministicPolicy(
            A.OBS, 1, 3, A.ACT, np.full(A.ACT, -1, 'f'),
            np.full(A.ACT, 1, 'f'), True)
        for n, q in twin.namedparams():
            q.array = p[n].copy()
        lstm = [l for l in twin.links() if isinstance(l, L.LSTM)][0]
        if ref[0] is not None:
            lstm.set_state(*[chainer.Variable(z) for z in ref[0]])
        with chainer.no_backprop_mode():
            a = twin(o[None]).sample().array[0]
        ref[0] = (lstm.c.array, lstm.h.array)
        return a

    o, rew, n, lens = obs(), 0.0, 0, set()
    for t, (kind, ev) in enumerate(case['steps']):
        if n == 0 and ev < 2:
            for _ in range(1 + t % 2):
                ref[0] = None
                for _ in range(1 + t % 3):
                    x = obs()
                    p = A.params(pol)
                    close(ag.act(x), expected(x, p), 'evaluation')
                ag.stop_episode()
            ref[0] = None
        p = A.params(pol)
        a = ag.act_and_train(o, rew)
        close(a, expected(o, p), 'action {} of an episode'.format(n))
        n += 1
        o, rew = obs(), float(r.uniform(-1, 1))
        if kind >= 7:
            ag.stop_episode_and_train(o, rew, done=kind >= 8)
            ref[0] = None
            lens.add(n)
            o, rew, n = obs(), 0.0, 0
    note.nontrivial(ao.t > 0 and any(k > 1 for k in lens))
