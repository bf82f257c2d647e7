"""P03: prioritized replay."""
import itertools

import numpy as np
from hypothesis import strategies as st

from chainerrl.misc import prioritized
from chainerrl.replay_buffers import PrioritizedReplayBuffer

from pbt.core import Suite, check, close, eq
from pbt.gen import ENV_IDS, chi2_sf, floats, ops, sized
from pbt.props.p01 import WindowModel, clean, ident, transition

suite = Suite(
    'P03',
    'a history with at least one priority update that is followed by another '
    'sample whose weights differ between items',
    ['errors fed back belong to the last sample and no item is dropped '
     'between a sample and its feedback'])

CONF = {
    'n': st.integers(1, 3),
    'cap': st.one_of(st.none(), st.integers(1, 12)),
    'alpha': st.sampled_from([0.0, 0.3, 0.6, 1.0, 1.5]),
    'beta0': st.sampled_from([0.0, 0.4, 0.9, 1.0]),
    'betasteps': st.sampled_from([None, 1, 2, 5, 1000]),
    'eps': st.sampled_from([0.01, 0.5, 1e-3]),
    'norm': st.sampled_from([True, 'batch', 'memory', False]),
    'emin': st.sampled_from([0, None, 0.2]),
    'emax': st.sampled_from([1, None, 3.0, 0.5]),
}


def priority(err, c):
    if c['emin'] is not None:
        err = max(c['emin'], err)
    if c['emax'] is not None:
        err = min(c['emax'], err)
    return (err + c['eps']) ** c['alpha']


def make(c):
    return PrioritizedReplayBuffer(
        capacity=c['cap'], alpha=c['alpha'], beta0=c['beta0'],
        betasteps=c['betasteps'], eps=c['eps'], normalize_by_max=c['norm'],
        error_min=c['emin'], error_max=c['emax'], num_steps=c['n'])


def beta_at(c, n_samples):
    """Beta used by the sample after n_samples earlier ones."""
    if c['betasteps'] is None:
        return c['beta0']
    return min(1.0, c['beta0'] +
               n_samples * (1.0 - c['beta0']) / c['betasteps'])


class Model(object):
    """Windows with priorities, newest last."""

    def __init__(self, c):
        self.c = c
        self.win = WindowModel(c['n'])
        self.items = []        # [window, priority]
        self.max = 1.0
        self.n_samples = 0

    def sync(self):
        # windows completed since the last call get the largest priority
        for w in self.win.out:
            self.items.append([w, self.max])
            cap = self.c['cap']
            if cap is not None and len(self.items) > cap:
                self.items.pop(0)
        self.win.out = []

    def check_sample(self, got, k):
        c = self.c
        eq(len(got), k, 'number of samples')
        by = {ident(w): (w, p) for w, p in self.items}
        ids = [ident(w) for w in got]
        check(len(set(ids)) == k, 'a window is sampled twice: {}', ids)
        pri = []
        for w in got:
            check(ident(w) in by, 'window {} is not stored', ident(w))
            eq(clean(w), by[ident(w)][0], 'window content')
            pri.append(by[ident(w)][1])
        total = sum(p for _, p in self.items)
        beta = beta_at(c, self.n_samples)
        probs = [p / total for p in pri]
        if k:
            if c['norm'] in (True, 'batch'):
                want = [(p / min(probs)) ** -beta for p in probs]
            elif c['norm'] == 'memory':
                m = min(p for _, p in self.items) / total
                want = [(p / m) ** -beta for p in probs]
            else:
                want = [(len(self.items) * p) ** -beta for p in probs]
            close([w[0]['weight'] for w in got], want,
                  'importance weights (beta={})'.format(beta), rtol=1e-6,
                  atol=1e-9)
        self.n_samples += 1
        return ids, max(pri) > min(pri) * (1 + 1e-9) if pri else False

    def feedback(self, ids, errors):
        index = {ident(w): i for i, (w, _) in enumerate(self.items)}
        for i, e in zip(ids, errors):
            p = priority(e, self.c)
            self.items[index[i]][1] = p
            self.max = max(self.max, p)


def error_of(j, arg, c):
    e = ((arg * 7 + j * 13) % 23) / 11.0      # 0 .. 2
    return e


@suite.facet(st.fixed_dictionaries(dict(
    CONF, ops=ops(['a', 't', 's', 'q'], weights=[8, 2, 1, 5],
                  max_size=60))), quick=2000, shards=4)
def weights(case, note):
    """Contents, importance weights, priorities and the beta schedule."""
    c = case
    buf = make(c)
    model = Model(c)
    updates = 0
    for i, (kind, e, arg) in enumerate(case['ops']):
        env = ENV_IDS[e]
        if kind in 'at':
            tr = transition(i, env, kind == 't', arg)
            buf.append(env_id=env, **tr)
            model.win.append(env, tr, kind == 't')
        elif kind == 's':
            buf.stop_current_episode(env_id=env)
            model.win.stop(env)
        model.sync()
        eq(len(buf), len(model.items), 'size')
        if kind == 'q' and model.items:
            k = 1 + arg % len(model.items)
            if arg % 5 == 0:
                k = len(model.items)
            got = buf.sample(k)
            ids, differ = model.check_sample(got, k)
            note.nontrivial(differ and updates > 0)
            if differ and updates:
                note.label('after_update')
            errors = [error_of(j, arg, c) for j in range(k)]
            if arg % 2:
                errors = np.asarray(errors, dtype=np.float32)
            buf.update_errors(errors)
            model.feedback(ids, [float(x) for x in errors])
            updates += 1
    if model.items:
        k = len(model.items)
        model.check_sample(buf.sample(k), k)


@suite.facet(st.fixed_dictionaries({
    'init': st.lists(st.integers(0, 20), min_size=2, max_size=9),
    'drop': st.integers(0, 6),
    'alpha': st.sampled_from([0.5, 1.0]),
    'k': st.integers(1, 2),
    'fresh': st.integers(0, 1),
}), quick=72, shards=6)
def frequencies(case, note):
    """Draws follow the priorities, also within one batch."""
    m = len(case['init'])
    c = {'n': 1, 'cap': m, 'alpha': case['alpha'], 'beta0': 1.0,
         'betasteps': None, 'eps': 0.05, 'norm': False, 'emin': 0,
         'emax': None}
    buf = make(c)
    for i in range(m + case['drop']):
        buf.append(state=i, action=0, reward=0, next_state=i + 1,
                   is_state_terminal=False)
    base = case['drop']
    err = {base + i: x / 10.0 for i, x in enumerate(case['init'])}
    got = buf.sample(m)
    buf.update_errors([err[w[0]['state']] for w in got])
    pri = np.array([priority(err[base + i], c) for i in range(m)])
    if case['fresh']:
        # one new experience replaces the oldest, with the top priority
        buf.append(state=base + m, action=0, reward=0, next_state=-1,
                   is_state_terminal=False)
        top = max(1.0, pri.max())
        pri = np.append(pri[1:], top)
        base += 1
        del err[base - 1]
        # the error which gives this priority again
        err[base + m - 1] = top ** (1 / case['alpha']) - 0.05
    p = pri / pri.sum()
    note.nontrivial(p.max() > 1.5 * p.min())
    k = min(case['k'], m)
    n = 3000
    if k == 1:
        counts = np.zeros(m)
        for _ in range(n):
            w, = buf.sample(1)
            s = w[0]['state']
            check(s in err, 'experience {} is not stored', s)
            counts[s - base] += 1
            buf.update_errors([err[s]])
        probs = p
    else:
        pairs = list(itertools.combinations(range(m), 2))
        index = {q: i for i, q in enumerate(pairs)}
        probs = np.array([p[i] * p[j] / (1 - p[i]) + p[j] * p[i] / (1 - p[j])
                          for i, j in pairs])
        counts = np.zeros(len(pairs))
        for _ in range(n):
            ws = buf.sample(2)
            ss = [w[0]['state'] for w in ws]
            check(len(set(ss)) == 2 and all(s in err for s in ss),
                  'bad sample {}', ss)
            counts[index[tuple(sorted(s - base for s in ss))]] += 1
            buf.update_errors([err[s] for s in ss])
    note.label('k{}'.format(k))
    pv = chi2_sf(counts, probs)
    check(pv > 1e-10, 'frequencies {} do not follow {} (p={})',
          counts.tolist(), (probs * n).round(1).tolist(), pv)


@suite.facet(st.fixed_dictionaries({
    'seed': st.integers(0, 10 ** 6), 'cap': st.integers(3, 40),
    'n_ops': st.integers(50, 300), 'batch': st.integers(1, 8)}),
    quick=60, shards=2)
def churn(case, note):
    run_churn(case, note)


@suite.facet(st.fixed_dictionaries({
    'seed': st.integers(0, 10 ** 6), 'cap': st.integers(200, 3000),
    'n_ops': st.integers(500, 5000), 'batch': st.integers(1, 64)}),
    quick=10, shards=2)
def churn_large(case, note):
    run_churn(case, note, 0.02)


def run_churn(case, note, rate=0.4):
    """Long runs with constant eviction keep exact weights."""
    c = {'n': 1, 'cap': case['cap'], 'alpha': 0.7, 'beta0': 0.5,
         'betasteps': 40, 'eps': 0.01, 'norm': 'memory', 'emin': 0,
         'emax': 1}
    r = np.random.RandomState(case['seed'])
    buf, model = make(c), Model(c)
    for i in range(case['n_ops']):
        tr = transition(i, 0, bool(r.rand() < 0.1), 1)
        buf.append(**tr)
        model.win.append(0, tr, tr['is_state_terminal'])
        model.sync()
        if r.rand() < rate and len(model.items) >= case['batch']:
            k = case['batch']
            ids, differ = model.check_sample(buf.sample(k), k)
            errors = r.rand(k) * 1.2
            buf.update_errors(list(errors))
            model.feedback(ids, list(errors))
            note.nontrivial(differ)


TREE_OP = st.one_of([
    st.tuples(st.just(k), v).map(list) for k, v in [
        ('set', st.tuples(st.integers(-20, 40), floats(0, 5)).map(list)),
        ('set', st.tuples(st.integers(0, 6), floats(0.125, 5)).map(list)),
        ('del', st.integers(0, 50)), ('sample', st.integers(1, 6)),
        ('remove', st.integers(1, 3)), ('choice', st.just(0))]])


@suite.facet(st.fixed_dictionaries({'ops': sized(TREE_OP, 1, 30)}),
             quick=400)
def sum_tree(case, note):
    """The sum tree on its own: a map of indices to weights."""
    tree, model = prioritized.SumTree(), {}
    big = 0
    for op, arg in case['ops']:
        live = {k: v for k, v in model.items() if v > 0}
        total = sum(live.values())
        if op == 'set':
            tree[arg[0]] = arg[1]
            model[arg[0]] = arg[1]
        elif op == 'del':
            if not model:
                continue
            ix = sorted(model)[arg % len(model)]
            del tree[ix]
            model[ix] = 0.0
        elif op == 'choice' and live:
            ix, p = tree.prioritized_choice()
            check(ix in live, 'chose {}, not one of {}', ix, sorted(live))
            close(p, live[ix] / total, 'probability', rtol=1e-6)
        elif op in ('sample', 'remove') and live:
            n = min(arg, len(live))
            # what is left must not be a matter of rounding
            if min(live.values()) < 1e-6 * total:
                continue
            ixs, ps = tree.prioritized_sample(n, remove=op == 'remove')
            check(len(set(ixs)) == n and set(ixs) <= set(live),
                  'sampled {} from {}', ixs, sorted(live))
            close(ps, [live[i] / total for i in ixs], 'probabilities',
                  rtol=1e-6)
            if op == 'remove':
                model.update({i: 0.0 for i in ixs})
            big += n > 1
        for k, v in model.items():
            close(tree[k], v, 'weight of {}'.format(k), rtol=1e-9)
        if model:
            close(tree.s, sum(model.values()), 'sum of the weights',
                  rtol=1e-6, atol=1e-6)
    note.nontrivial(big and len(model) > 2)


@suite.facet(st.fixed_dictionaries({
    'weights': st.lists(st.tuples(st.integers(-9, 20), st.integers(0, 9)),
                        min_size=2, max_size=8, unique_by=lambda x: x[0]).map(
                            lambda x: [list(y) for y in x]),
    'remove': st.booleans()}), quick=40)
def sum_tree_frequencies(case, note):
    tree = prioritized.SumTree()
    for i, w in case['weights']:
        tree[i] = float(w)
    w = dict(case['weights'])
    if sum(w.values()) == 0:
        return
    n = 1500
    pos = sorted(w)
    p = np.array([w[i] for i in pos], 'd')
    counts = np.zeros(len(pos))
    for k in range(n):
        if k % 2:
            ix = tree.prioritized_choice()[0]
        else:
            (ix,), _ = tree.prioritized_sample(1, remove=case['remove'])
            if case['remove']:
                tree[ix] = float(w[ix])
        counts[pos.index(ix)] += 1
    pv = chi2_sf(counts, p / p.sum())
    check(pv > 1e-10, 'frequencies {} do not follow the weights {}',
          counts.tolist(), p.tolist())
    note.nontrivial((p > 0).sum() > 1)
