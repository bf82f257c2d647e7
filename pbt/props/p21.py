"""P21: stateless recurrent models."""
import chainer
import numpy as np
from chainer import functions as F
from chainer import links as L
from hypothesis import strategies as st

from chainerrl import links as CL

from pbt.core import Suite, check, close
from pbt.gen import SEED, rng, sized

suite = Suite(
    'P21',
    'two sequences or more, of different lengths or histories',
    ['Single steps of Chainer\'s own recurrent links are trusted'])

LEAVES = {'lstm': L.NStepLSTM, 'gru': L.NStepGRU, 'tanh': L.NStepRNNTanh,
          'relu': L.NStepRNNReLU}
LEAF = st.tuples(st.sampled_from(sorted(LEAVES)), st.integers(1, 2),
                 st.integers(1, 3)).map(list)
PLAIN = st.one_of(st.tuples(st.just('linear'), st.integers(1, 3)).map(list),
                  st.just(['fn']))


def trees(depth):
    inner = LEAF if depth == 0 else st.one_of(
        LEAF, st.tuples(st.just('seq'), st.lists(
            st.one_of(trees(depth - 1), PLAIN), min_size=1, max_size=3)
        ).map(list),
        st.tuples(st.just('branch'), st.lists(
            trees(depth - 1), min_size=1, max_size=3)).map(list))
    return inner


TOP = st.tuples(st.just('seq'), st.lists(
    st.one_of(trees(2), PLAIN), min_size=1, max_size=4)).map(list)
OP = st.tuples(
    st.sampled_from(['step', 'step', 'n_step', 'n_step', 'mask', 'mask_many',
                     'select', 'none', 'old', 'subset']),
    st.integers(0, 10 ** 6), st.booleans()).map(list)
OPS = sized(OP, 2, 12)


def merge(*xs):
    return F.concat(xs, axis=1)


class Node(object):
    """A link of the composition and its reference evaluation."""

    def __init__(self, spec, n_in, r):
        self.kind = spec[0]
        self.parts = []
        self.n_out = n_in
        self.tuple = 0
        if self.kind in LEAVES:
            self.n_out = spec[2]
            self.link = LEAVES[self.kind](spec[1], n_in, spec[2], 0.0)
        elif self.kind == 'linear':
            self.n_out = spec[1]
            self.link = L.Linear(n_in, spec[1])
        elif self.kind == 'fn':
            self.link = F.tanh
        elif self.kind == 'merge':
            self.link = merge
        elif self.kind == 'branch':
            for s in spec[1]:
                p = Node(s, n_in, r)
                if p.tuple:
                    # a branch is not a tuple itself
                    p = Node(['seq', [s, ['merge']]], n_in, r)
                self.parts.append(p)
            self.n_out = sum(p.n_out for p in self.parts)
            self.tuple = len(self.parts)
            self.link = CL.StatelessRecurrentBranched(
                *[p.link for p in self.parts])
        else:
            n = n_in
            tup = 0
            for s in spec[1]:
                if tup and s[0] != 'merge':
                    self.parts.append(Node(['merge'], n, r))
                p = Node(s, n, r)
                self.parts.append(p)
                n, tup = p.n_out, p.tuple
            self.n_out, self.tuple = n, tup
            self.link = CL.StatelessRecurrentSequential(
                *[p.link for p in self.parts])

    def init(self):
        if self.kind in ('seq', 'branch'):
            return [p.init() for p in self.parts]
        return None

    def step(self, x, s):
        """One step of one sequence: output (arrays), new state."""
        if self.kind == 'seq':
            new = []
            for p, q in zip(self.parts, s):
                x, q = p.step(x, q)
                new.append(q)
            return x, new
        if self.kind == 'branch':
            out = [p.step(x, q) for p, q in zip(self.parts, s)]
            return tuple(o[0] for o in out), [o[1] for o in out]
        if self.kind == 'lstm':
            h, c = s if s is not None else (None, None)
            h, c, y = self.link(h, c, [x])
            return y[0], (h, c)
        if self.kind in LEAVES:
            h, y = self.link(s, [x])
            return y[0], h
        if isinstance(x, tuple):
            return self.link(*x), s
        return self.link(x), s


def flat(y):
    """Nested tuples of outputs -> list of arrays."""
    if isinstance(y, (tuple, list)):
        return [z for x in y for z in flat(x)]
    return [y.array if isinstance(y, chainer.Variable) else y]


CASE = {
    'tree': TOP, 'n_in': st.integers(1, 3),
    'batch': st.sampled_from([1, 2, 3, 4] * 5 + [20]),
    'ops': OPS, 'tuple_in': st.booleans(), 'seed': SEED}


@suite.facet(st.fixed_dictionaries(CASE), quick=500, shards=6)
def composition(case, note):
    r = rng(case['seed'])
    d = case['n_in']
    spec = case['tree']
    if case['tuple_in']:
        spec = ['seq', [['merge']] + spec[1]]
    # (a sequential of plain layers only is allowed, too)
    top = Node(spec, 2 * d if case['tuple_in'] else d, r)
    link = top.link
    for p in link.params():
        p.array[...] = r.normal(scale=0.6, size=p.shape)
    B = case['batch']
    state, ref = None, [top.init() for _ in range(B)]
    olds = []
    lens = set()
    history = [0] * B

    def rows(n):
        x = r.uniform(-1, 1, size=(n, d)).astype('f')
        if case['tuple_in']:
            return (x, r.uniform(-1, 1, size=(n, d)).astype('f'))
        return x

    def row(x, t):
        if isinstance(x, tuple):
            return tuple(chainer.Variable(z[t:t + 1]) for z in x)
        return chainer.Variable(x[t:t + 1])

    def ref_run(xs, ref):
        """Per sequence, per step outputs and final states."""
        outs, new = [], []
        for x, s in zip(xs, ref):
            n = len(x[0]) if isinstance(x, tuple) else len(x)
            o = []
            for t in range(n):
                y, s = top.step(row(x, t), s)
                o.append(y)
            outs.append(o)
            new.append(s)
        return outs, new

    def same(got, want, what):
        got = flat(got)
        want = [flat(y) for o in want for y in o]
        check(len(got) == len(want[0]), '{}: {} outputs, expected {}', what,
              len(got), len(want[0]))
        for i, g in enumerate(got):
            close(g, np.concatenate([w[i] for w in want]), what, rtol=1e-3)

    def stack(xs):
        if isinstance(xs[0], tuple):
            return tuple(np.concatenate(z) for z in zip(*xs))
        return np.concatenate(xs)

    grads_left, cut = 2, False
    # Known finding: sequences of pairs come out right only when all but the
    # last have two steps (see tuple_sequences).
    pairs = case['tuple_in']
    for k, (op, arg, flag) in enumerate(case['ops']):
        q = rng(arg)
        what = 'op {} ({})'.format(k, op)
        keep = (state, ref, list(history))
        if op == 'step' and pairs and B > 1:
            op = 'n_step'
        if op == 'step':
            xs = [rows(1) for _ in range(B)]
            want, ref = ref_run(xs, ref)
            y, state = link(stack(xs), state)
            same(y, want, what)
            history = [h + 1 for h in history]
        elif op == 'n_step':
            ns = [2 if pairs and i < B - 1 else int(q.randint(1, 5))
                  for i in range(B)]
            xs = [rows(n) for n in ns]
            want, new = ref_run(xs, ref)
            if flag:
                y, new_state = link.n_step_forward(xs, state, 'split')
                check(isinstance(y, list) and len(y) == B,
                      '{}: output {!r}', what, type(y))
                for i in range(B):
                    same(y[i], [want[i]], what)
            else:
                y, new_state = link.n_step_forward(xs, state, 'concat')
                same(y, want, what)
            if grads_left and not cut:
                # the gradient flows through all steps and branches
                grads_left -= 1
                link.cleargrads()
                sum(F.sum(z * z) for z in vars_(y)).backward()
                g = {n: p.grad for n, p in link.namedparams()}
                g = {n: (None if z is None else z.copy())
                     for n, z in g.items()}
                link.cleargrads()
                sum(F.sum(z * z) for z in vars_(want)).backward()
                for n, p in link.namedparams():
                    a = np.zeros(p.shape) if g[n] is None else g[n]
                    b = np.zeros(p.shape) if p.grad is None else p.grad
                    close(a, b, what + ' gradient of ' + n, rtol=1e-2,
                          atol=1e-3)
            state, ref = new_state, new
            history = [h + n for h, n in zip(history, ns)]
            lens.update(ns)
        elif op in ('mask', 'mask_many'):
            if op == 'mask':
                idx = int(q.randint(B))
                hit = [idx]
            else:
                hit = [int(i) for i in range(B) if q.rand() < 0.5]
                idx = np.array(hit, dtype=np.int64) if flag else hit
                if not hit and not flag:
                    idx = np.array([], dtype=np.int64)
            state = link.mask_recurrent_state_at(state, idx)
            ref = [top.init() if i in hit else s for i, s in enumerate(ref)]
            history = [0 if i in hit else h for i, h in enumerate(history)]
        elif op == 'select':
            # one by one, in another order and number
            order = [int(q.randint(B)) for _ in range(q.randint(1, 5))]
            states = [link.get_recurrent_state_at(
                state, i, unwrap_variable=flag) for i in order]
            cut = cut or flag
            if flag:
                for z in walk(states):
                    check(isinstance(z, np.ndarray),
                          '{}: state of type {}', what, type(z))
            # (the initial state may be given as None)
            states = [None if not history[i] and q.rand() < 0.5 else s
                      for i, s in zip(order, states)]
            ref = [ref[i] for i in order]
            history = [history[i] for i in order]
            for j in range(1, len(order)):
                # a sequence that starts anew beside others that go on
                if q.rand() < 0.25:
                    states[j], ref[j], history[j] = None, top.init(), 0
            state = link.concatenate_recurrent_states(states)
            B = len(order)
        elif op == 'subset':
            if state is None:
                continue
            cut = cut or flag
            order = [int(i) for i in q.permutation(B)[:q.randint(1, B + 1)]]
            a = link.get_recurrent_state_at(
                state, np.array(order), unwrap_variable=flag)
            parts = [a]
            if q.rand() < 0.5:
                parts = [a, a]
                order = order + order
            state = link.concatenate_recurrent_states(parts)
            ref = [ref[i] for i in order]
            history = [history[i] for i in order]
            B = len(order)
        elif op == 'none':
            state, ref = None, [top.init() for _ in range(B)]
            history = [0] * B
        elif op == 'old' and olds:
            # states are values: an old one continues as before
            state, ref, history = olds[arg % len(olds)]
            B = len(ref)
        olds.append(keep)
    if pairs and B > 1:
        xs = [rows(2) for _ in range(B)]
        want, _ = ref_run(xs, ref)
        y, _ = link.n_step_forward(xs, state, 'concat')
    else:
        xs = [rows(1) for _ in range(B)]
        want, _ = ref_run(xs, ref)
        y, _ = link(stack(xs), state)
    same(y, want, 'final step')
    note.nontrivial(B > 1 and (len(lens) > 1 or len(set(history)) > 1))


suite.add('long', st.fixed_dictionaries(dict(
    CASE, ops=st.lists(OP, min_size=20, max_size=60))), composition,
    quick=24, shards=2)


def vars_(y):
    if isinstance(y, (tuple, list)):
        return [z for x in y for z in vars_(x)]
    return [y]


def walk(s):
    if isinstance(s, (tuple, list)):
        for x in s:
            for z in walk(x):
                yield z
    elif s is not None:
        yield s


@suite.probe
def tuple_sequences():
    """Two sequences of pairs, of lengths 3 and 1."""
    link = CL.StatelessRecurrentSequential(merge, L.NStepRNNTanh(1, 5, 3, 0))
    xs = [(np.ones((n, 2), 'f'), np.ones((n, 3), 'f')) for n in (3, 1)]
    ys, _ = link.n_step_forward(xs, None, 'split')
    check([len(y) for y in ys] == [3, 1], 'outputs mixed')
