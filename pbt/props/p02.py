"""P02: episodic replay buffer."""
from hypothesis import strategies as st

from chainerrl.replay_buffers import EpisodicReplayBuffer

from pbt.core import Suite, check, eq
from pbt.gen import ENV_IDS, ops

suite = Suite(
    'P02',
    'a history with several finished episodes where one is dropped, '
    'interleaved with another environment, or sampled partially',
    ['transitions are not mutated by the caller after being appended'])


class EpisodeModel(object):

    def __init__(self, cap):
        self.cap = cap
        self.cur = {}
        self.eps = []
        self.n_evicted = 0

    def append(self, env, tr, terminal):
        self.cur.setdefault(env, []).append(tr)
        return self.stop(env) if terminal else 0

    def stop(self, env):
        ep = self.cur.pop(env, [])
        if not ep:
            return 0
        self.eps.append(ep)
        while self.cap is not None and self.total() > self.cap:
            self.eps.pop(0)
            self.n_evicted += 1
        return len(ep)

    def total(self):
        return sum(len(e) for e in self.eps)


def transition(i, terminal, arg):
    return dict(state=2 * i, action=('a', i), reward=arg * 0.5,
                next_state=2 * i + 1,
                next_action=None if arg % 3 else ('n', i),
                is_state_terminal=terminal)


def ident(ep):
    return tuple(t['state'] for t in ep)


def check_transitions(buf, model, k):
    got = buf.sample(k)
    eq(len(got), k, 'number of sampled transitions')
    want = {t['state']: t for e in model.eps for t in e}
    seen = set()
    for x in got:
        check(isinstance(x, list) and len(x) == 1,
              'sampled experience is not a list of one transition: {!r}', x)
        s = x[0]['state']
        check(s not in seen, 'transition {} sampled twice', s)
        seen.add(s)
        check(s in want, 'transition {} is not of a stored episode {}', s,
              [ident(e) for e in model.eps])
        eq(x[0], want[s], 'sampled transition')


def check_episodes(got, model, k, max_len):
    """Distinct stored episodes, cut to contiguous parts of full length."""
    eq(len(got), k, 'number of sampled episodes')
    owner = {t['state']: i for i, e in enumerate(model.eps) for t in e}
    seen = []
    partial = False
    for ep in got:
        ids = ident(ep)
        check(len(ids) > 0, 'empty episode sampled')
        check(ids[0] in owner, 'sampled episode {} is not stored; stored {}',
              ids, [ident(e) for e in model.eps])
        i = owner[ids[0]]
        check(i not in seen, 'episode {} sampled twice', i)
        seen.append(i)
        full = model.eps[i]
        fid = ident(full)
        want_len = len(full) if max_len is None else min(max_len, len(full))
        eq(len(ids), want_len, 'length of a sampled (sub)episode')
        start = fid.index(ids[0])
        eq(ids, fid[start:start + want_len], 'contiguous subsequence')
        for t, w in zip(ep, full[start:]):
            eq({k_: v for k_, v in t.items() if k_ != 'weight'}, w,
               'transition of a sampled episode')
        partial = partial or want_len < len(full)
    return seen, partial


CASE = st.fixed_dictionaries({
    'cap': st.one_of(st.none(), st.integers(1, 16)),
    'ops': ops(['a', 't', 's', 'q', 'e'], weights=[9, 2, 2, 1, 2]),
})


@suite.facet(CASE, quick=1600, shards=4)
def episodes(case, note):
    cap = case['cap']
    buf = EpisodicReplayBuffer(capacity=cap)
    model = EpisodeModel(cap)
    finished = 0
    envs = set()
    for i, (kind, e, arg) in enumerate(case['ops']):
        env = ENV_IDS[e]
        if kind in 'at':
            tr = transition(i, kind == 't', arg)
            extra = {'recurrent_state': i} if arg % 2 else {}
            buf.append(env_id=env, **tr, **extra)
            finished += bool(model.append(env, dict(tr, **extra),
                                          kind == 't'))
            envs.add(e)
        elif kind == 's':
            buf.stop_current_episode(env_id=env)
            n = model.stop(env)
            finished += bool(n)
            if n:
                note.label('interrupted')
        eq(len(buf), model.total(), 'number of transitions')
        eq(buf.n_episodes, len(model.eps), 'number of episodes')
        if kind == 'q':
            check_transitions(buf, model, arg % (model.total() + 1))
        elif kind == 'e':
            k = arg % (len(model.eps) + 1)
            max_len = None if arg % 4 == 0 else 1 + arg % 5
            got = buf.sample_episodes(k, max_len)
            _, partial = check_episodes(got, model, k, max_len)
            if partial:
                note.label('partial')
                note.nontrivial()
    if model.n_evicted:
        note.label('evicted')
    note.nontrivial(finished > 1 and (model.n_evicted > 0 or len(envs) > 1))
    check_transitions(buf, model, model.total())
    check_episodes(buf.sample_episodes(len(model.eps)), model,
                   len(model.eps), None)
    # transitions come in the order the episodes finished
    for e in range(3):
        buf.stop_current_episode(env_id=ENV_IDS[e])
        model.stop(ENV_IDS[e])
    eq(len(buf), model.total(), 'number of transitions at the end')
    check_transitions(buf, model, model.total())
    check_episodes(buf.sample_episodes(len(model.eps)), model,
                   len(model.eps), None)


@suite.facet(st.fixed_dictionaries({
    'lens': st.lists(st.integers(1, 9), min_size=1, max_size=4),
    'max_len': st.integers(1, 6)}), quick=60)
def starts(case, note):
    """Every start of a sub-episode, and every episode, comes up."""
    buf = EpisodicReplayBuffer()
    model = EpisodeModel(None)
    i = 0
    for length in case['lens']:
        for j in range(length):
            tr = transition(i, j == length - 1, 1)
            buf.append(**tr)
            model.append(0, tr, j == length - 1)
            i += 1
    m = case['max_len']
    want = set()
    for ep in model.eps:
        for s in range(max(1, len(ep) - m + 1)):
            want.add(ident(ep[s:s + m]))
    note.nontrivial(len(want) > len(model.eps))
    seen = set()
    # each one has probability >= 1/36 per draw: missed with p < 1e-18
    for _ in range(1500):
        seen.add(ident(buf.sample_episodes(1, m)[0]))
        if seen == want:
            break
    eq(seen - want, set(), 'impossible subsequences')
    eq(want - seen, set(), 'subsequences never drawn')
