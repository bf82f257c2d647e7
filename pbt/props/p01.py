"""P01: n-step replay buffer."""
from hypothesis import strategies as st

from chainerrl.replay_buffers import ReplayBuffer

from pbt.core import Suite, check, eq
from pbt.gen import ENV_IDS, ops

suite = Suite(
    'P01',
    'a history that flushes a partial window, drops windows at capacity or '
    'interleaves environments',
    ['transitions are not mutated by the caller after being appended'])


class WindowModel(object):
    """Windows of length <= n per episode, in completion order."""

    def __init__(self, n):
        self.n = n
        self.cur = {}
        self.out = []

    def _flush(self, env):
        ep, start = self.cur.pop(env, ([], 0))
        flushed = 0
        while start < len(ep):
            self.out.append(ep[start:])
            start += 1
            flushed += 1
        return flushed

    def append(self, env, tr, terminal):
        ep, start = self.cur.get(env, ([], 0))
        ep = ep + [tr]
        if not terminal and len(ep) - start == self.n:
            self.out.append(ep[start:])
            start += 1
        self.cur[env] = (ep, start)
        return self._flush(env) if terminal else 0

    def stop(self, env):
        return self._flush(env)


def ident(window):
    return tuple(t['state'] for t in window)


def transition(i, env, terminal, arg):
    return dict(state=2 * i, action=('a', i), reward=arg * 0.5,
                next_state=2 * i + 1,
                next_action=None if arg % 3 else ('n', i),
                is_state_terminal=terminal)


def drive(buf, n, cap, history, note, on_sample):
    """Run a history on the real buffer and the model; yields after each."""
    model = WindowModel(n)
    used = set()
    for i, (kind, e, arg) in enumerate(history):
        env = ENV_IDS[e]
        if kind in 'at':
            tr = transition(i, env, kind == 't', arg)
            extra = {'extra': i} if arg % 2 else {}
            want = dict(tr, **extra)
            buf.append(env_id=env, **tr, **extra)
            f = model.append(env, want, kind == 't')
            used.add(e)
            if f > 1:
                note.nontrivial()
                note.label('flush_terminal')
            if kind == 'a' and e != history[i - 1][1] and i:
                note.nontrivial(len(used) > 1)
        elif kind == 's':
            buf.stop_current_episode(env_id=env)
            if model.stop(env):
                note.nontrivial()
                note.label('flush_stop')
        stored = model.out if cap is None else \
            (model.out[-cap:] if cap else [])
        if cap is not None and len(model.out) > cap:
            note.nontrivial()
            note.label('evicted')
        eq(len(buf), len(stored), 'size after op {}'.format(i))
        if kind == 'q':
            on_sample(stored, arg)
    return model.out if cap is None else (model.out[-cap:] if cap else [])


CASE = st.fixed_dictionaries({
    'n': st.integers(1, 5),
    'cap': st.one_of(st.none(), st.integers(1, 12)),
    'ops': ops(['a', 't', 's', 'q'], weights=[8, 2, 1, 1]),
})


def clean(w):
    return [{k: v for k, v in t.items() if k != 'weight'} for t in w]


@suite.facet(CASE, quick=1600, shards=4)
def windows(case, note):
    """Contents equal the model's windows after every operation sampled."""
    n, cap = case['n'], case['cap']
    buf = ReplayBuffer(capacity=cap, num_steps=n)

    def compare(k, stored):
        got = buf.sample(k)
        eq(len(got), k, 'number of samples')
        by = {ident(w): w for w in stored}
        ids = [ident(w) for w in got]
        check(len(set(ids)) == k, 'a window is sampled twice: {}', ids)
        for w in got:
            check(ident(w) in by, 'sampled window {} is not stored; '
                  'stored: {}', ident(w), sorted(by))
            eq(clean(w), by[ident(w)], 'window content')

    def on_sample(stored, arg):
        compare(arg % (len(stored) + 1), stored)

    stored = drive(buf, n, cap, case['ops'], note, on_sample)
    compare(len(stored), stored)
    # a following interruption of every environment flushes all the rest
    rest = [['s', e, 0] for e in range(3)]
    stored2 = drive_more(buf, n, cap, case['ops'] + rest, len(case['ops']))
    compare(len(stored2), stored2)


def drive_more(buf, n, cap, history, start):
    model = WindowModel(n)
    for i, (kind, e, arg) in enumerate(history):
        env = ENV_IDS[e]
        if kind in 'at':
            tr = transition(i, env, kind == 't', arg)
            extra = {'extra': i} if arg % 2 else {}
            model.append(env, dict(tr, **extra), kind == 't')
        elif kind == 's':
            if i >= start:
                buf.stop_current_episode(env_id=env)
            model.stop(env)
    stored = model.out if cap is None else model.out[-cap:]
    eq(len(buf), len(stored), 'size after interrupting everything')
    return stored


@suite.facet(st.fixed_dictionaries({
    'n': st.one_of(st.integers(1, 4), st.integers(5, 20)),
    'cap': st.one_of(st.integers(1, 40), st.integers(40, 600)),
    'eps': st.lists(st.tuples(st.one_of(
        st.integers(1, 30), st.integers(30, 120)), st.booleans()).map(list),
                    min_size=2, max_size=12)}), quick=300, shards=2)
def long_runs(case, note):
    """Many episodes in one environment: the newest windows survive."""
    n, cap = case['n'], case['cap']
    buf = ReplayBuffer(capacity=cap, num_steps=n)
    hist = []
    for length, term in case['eps']:
        hist += [['a', 0, 0]] * (length - 1) + \
            ([['t', 0, 0]] if term else [['a', 0, 0], ['s', 0, 0]])
    note.nontrivial(len(hist) > cap)
    stored = drive(buf, n, cap, hist, note, lambda s, a: None)
    got = buf.sample(len(buf))
    eq(sorted(ident(w) for w in got), sorted(ident(w) for w in stored),
       'contents')


@suite.facet(st.fixed_dictionaries({
    'n': st.integers(1, 3), 'size': st.integers(2, 12),
    'k': st.integers(1, 12)}), quick=40)
def uniform(case, note):
    """Every stored window is drawn equally often."""
    from pbt.gen import chi2_sf
    buf = ReplayBuffer(num_steps=case['n'])
    for i in range(case['size']):
        buf.append(state=i, action=0, reward=0, next_state=i + 1,
                   is_state_terminal=i == case['size'] - 1)
    k = min(case['k'], case['size'])
    counts = [0] * case['size']
    n = 1200
    for _ in range(n):
        # the position a window takes in the batch is not asserted
        for w in buf.sample(k):
            counts[w[0]['state']] += 1
    note.nontrivial(k < case['size'])
    # inclusion counts vary less than independent draws: conservative
    p = chi2_sf(counts, [1.0 / case['size']] * case['size'])
    check(p > 1e-10, 'window frequencies {} for k={}', counts, k)
