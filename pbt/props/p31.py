"""P31: saving and loading agents."""
import copy
import os
import warnings

import chainer
import numpy as np
from chainer import links as L
from hypothesis import strategies as st

from chainerrl import agent as agent_module

from pbt import agents as A
from pbt import zoo
from pbt.core import Suite, check, eq, scratch_dir, seed_all
from pbt.gen import SEED

suite = Suite(
    'P31',
    'the saved agent was updated at least once, and (for continuations) '
    'parameters changed again after loading',
    ['Networks are tiny; optimizers have momentum-like state in most cases',
     'Replay buffers, step counters, running statistics and unfinished '
     'episodes are not saved and are not compared'])

EXTRA = {'other': SEED, 'dirty': st.integers(0, 8)}


def strategy(kinds, **kw):
    return st.tuples(zoo.case_strategy(kinds, **kw),
                     st.fixed_dictionaries(EXTRA)).map(
        lambda t: dict(t[0], **t[1]))


def trained(case, seed, stream, n):
    """An agent after `n` steps of a stream, and its driver."""
    z = zoo.Zoo(case, seed)
    d = zoo.Driver(z, stream)
    d.play(case['steps'][:n])
    return z, d


def restored(case, folder, may_be_dirty, **kw):
    """Another agent, perhaps trained, loaded from a folder."""
    z = zoo.Zoo(case, case['other'], **kw)
    d = zoo.Driver(z, case['other'] + 1)
    if may_be_dirty and case['dirty'] and not kw:
        d.play([[0.25 * i, i % 5] for i in range(case['dirty'])])
        d.end_all()
    z.agent.load(folder)
    return z, zoo.Driver(z, case['other'] + 2)


def run_restore(case, note):
    n = len(case['steps'])
    seed_all(case['seed'])
    a, da = trained(case, case['seed'], case['seed'] + 1, n)
    updated = all(a.updated().values())
    # a twin that is never saved
    seed_all(case['seed'])
    twin, dt = trained(case, case['seed'], case['seed'] + 1, n)
    with scratch_dir() as folder:
        folder = os.path.join(folder, 'x', 'agent')
        before = a.state()
        seed_all(5)
        a.agent.save(folder)
        r = np.random.rand()
        seed_all(5)
        check(r == np.random.rand(), 'saving draws random numbers')
        diff = zoo.diff_states(before, a.state())
        check(diff is None, 'saving changed {}', diff)
        b, db = restored(case, folder, updated)
        diff = zoo.diff_states(before, b.state())
        check(diff is None, 'saved vs loaded: {}', diff)
        diff = zoo.diff_states(before, a.state())
        check(diff is None, 'loading another agent changed {}', diff)
        # once more through the loaded agent
        again = os.path.join(folder, 'again')
        b.agent.save(again)
        c, _ = restored(case, again, updated)
        diff = zoo.diff_states(before, c.state())
        check(diff is None, 'saved, loaded, saved, loaded: {}', diff)
    # the saved one goes on as its twin
    for agent, driver in ((a, da), (twin, dt)):
        seed_all(case['other'])
        driver.play([[0.5, 0], [1.0, 4], [-1.0, 0]])
        driver.end_all()
    eq(da.actions, dt.actions, 'actions with and without saving')
    diff = zoo.diff_states(a.state(), twin.state())
    check(diff is None, 'saving changed the training: {}', diff)
    same_behaviour(a, da, case)
    note.nontrivial(any(a.updated().values()))


def same_behaviour(a, da, case):
    with scratch_dir() as folder:
        a.agent.save(folder)
        b, db = restored(case, folder, all(a.updated().values()))
    acts = []
    for z, d in ((a, da), (b, db)):
        seed_all(17)
        acts.append(d.evaluate(np.random.RandomState(3), 6))
        if z.batch:
            r = np.random.RandomState(4)
            for _ in range(3):
                obs = [r.uniform(-1, 1, A.OBS).astype('f')
                       for _ in range(z.n_envs)]
                acts[-1].append([np.asarray(x).tolist()
                                 for x in z.agent.batch_act(obs)])
                z.agent.batch_observe(
                    obs, [0.0] * z.n_envs, [False] * z.n_envs,
                    [False] * z.n_envs)
    eq(acts[1], acts[0], 'actions of the loaded agent')


NO_DATA = ['A3C', 'NSQ', 'REINFORCE']     # keep no data between episodes


def clean(case):
    """A configuration whose unsaved parts do not matter."""
    case = dict(case)
    kind = case['kind']
    if kind in zoo.CONTINUOUS or kind == 'ACER':
        case['prio'] = False       # no noise process, no average model
    if kind == 'REINFORCE':
        case['interval'] = 1
    return case


def run_continuation(case, note):
    case = clean(case)
    seed_all(case['seed'])
    a, da = trained(case, case['seed'], case['seed'] + 1,
                    len(case['steps']))
    da.end_all()
    if case['kind'] in ('PPO', 'TRPO', 'A2C'):
        da.boundary()
    rest = [[(i % 3) / 2, 4 if i == 8 else 0] for i in range(14)]
    states, acts = [], []
    with scratch_dir() as folder:
        a.agent.save(folder)
        before = a.state()
        others = []
        for k in range(2):
            kw = {}
            if a.buffer is not None:
                kw['buffer'] = copy.deepcopy(a.buffer)
            z, d = restored(dict(case, other=case['other'] + k), folder,
                            k == 1 and case['kind'] in NO_DATA and
                            all(a.updated().values()), **kw)
            if a.off_policy:
                z.agent.t = a.agent.t
            if case['kind'] == 'NSQ':      # drives the target model
                z.agent.t_global.value = a.agent.t_global.value
            others.append(z)
    for z in [a] + others:
        d = zoo.Driver(z, case['seed'] + 9)
        seed_all(case['seed'] + 5)
        d.play(rest)
        d.end_all()
        states.append(z.state())
        acts.append(d.actions)
    # A2C draws once more when it begins
    pairs = [(1, 2)] if case['kind'] == 'A2C' else [(0, 1), (0, 2)]
    for i, k in pairs:
        eq(acts[k], acts[i], 'actions after loading')
        diff = zoo.diff_states(states[i], states[k])
        check(diff is None, 'the saved and the loaded ones, all trained '
              'further: {}', diff)
    note.nontrivial(zoo.diff_states(before, states[0]) is not None)


SLOW = ['TRPO', 'PPO', 'ACER', 'ACERc', 'PCL']
for kind in SLOW + [k for k in zoo.KINDS if k not in SLOW]:
    suite.add('continuation_' + kind,
              strategy([kind], min_steps=6, max_steps=20),
              run_continuation, quick=4 if kind == 'TRPO' else 7,
              thorough=100)
    suite.add('restore_' + kind, strategy([kind]), run_restore, quick=9,
              thorough=120)


# -------------------------------------------------- trees of saved attributes

NODE = st.deferred(lambda: st.fixed_dictionaries({
    'links': st.lists(st.tuples(st.sampled_from('abcd'), st.integers(0, 3))
                      .map(list), max_size=2, unique_by=lambda x: x[0]),
    'nodes': st.lists(st.tuples(st.sampled_from('efgh'), st.one_of(
        st.none(), NODE)).map(list), max_size=2,
                      unique_by=lambda x: x[0])}))


class Tree(agent_module.AttributeSavingMixin):
    """Saved attributes are links, optimizers, None and such objects."""

    saved_attributes = ()

    def __init__(self, spec, r):
        self.saved_attributes = tuple(
            [k for k, _ in spec['links']] + [k for k, _ in spec['nodes']])
        self.unsaved = r.rand()
        for k, kind in spec['links']:
            if kind == 3:
                setattr(self, k, None)
                continue
            link = L.Linear(2, 3)
            link.W.array[...] = r.uniform(-1, 1, (3, 2))
            if kind == 0:
                setattr(self, k, link)
                continue
            opt = chainer.optimizers.Adam() if kind == 1 else \
                chainer.optimizers.MomentumSGD(0.1)
            opt.setup(link)
            for _ in range(r.randint(1, 4)):
                link.W.grad = r.uniform(-1, 1, (3, 2)).astype('f')
                link.b.grad = r.uniform(-1, 1, 3).astype('f')
                opt.update()
            setattr(self, k, opt)
        for k, sub in spec['nodes']:
            setattr(self, k, None if sub is None else Tree(sub, r))

    def values(self):
        out = {}
        for k in self.saved_attributes:
            v = getattr(self, k)
            if isinstance(v, Tree):
                out.update({(k,) + n: x for n, x in v.values().items()})
            elif isinstance(v, L.Linear):
                out[k, 'W'] = v.W.array.copy()
            elif v is not None:
                out[k, 't'] = v.t
                for n, p in v.target.namedparams():
                    for s, x in p.update_rule.state.items():
                        out[k, n, s] = x.copy()
        return out


@suite.facet(st.fixed_dictionaries(
    {'tree': NODE, 'loop': st.booleans(), 'seed': SEED}), quick=150)
def attribute_trees(case, note):
    """Nested objects come back each with its own values."""
    r = np.random.RandomState(case['seed'] % 2 ** 32)
    a, b = Tree(case['tree'], r), Tree(case['tree'], r)
    want, other = a.values(), b.values()
    mine = b.unsaved
    with scratch_dir() as folder:
        folder = os.path.join(folder, 'x')
        a.save(folder)
        eq(sorted(a.values()), sorted(want), 'names after saving')
        for k, v in a.values().items():
            eq(v, want[k], 'saving changed {}'.format(k))
        b.load(folder)
        for k, v in b.values().items():
            eq(v, want[k], 'loaded {}'.format(k))
        eq(b.unsaved, mine, 'an attribute that is not saved')
        # twice over the same folder
        c = Tree(case['tree'], r)
        c.save(folder)
        b.load(folder)
        for k, v in c.values().items():
            eq(b.values()[k], v, 'saved over {}'.format(k))
        if case['loop']:
            # an object inside itself is refused rather than followed
            down = [b]
            for k, sub in case['tree']['nodes']:
                if sub is not None:
                    down.append(getattr(b, k))
                    break
            down[-1].again = b
            down[-1].saved_attributes += ('again',)
            try:
                b.save(folder)
            except AssertionError:
                pass
            else:
                check(False, 'saved an object within itself')
    note.label('depth > 1' if any(len(k) > 3 for k in want) else 'flat')
    note.nontrivial(len(want) > 1 and any(
        not np.array_equal(other[k], v) for k, v in want.items()))


@suite.facet(st.fixed_dictionaries({
    'tree': NODE, 'drop': st.lists(st.integers(0, 50), min_size=1, max_size=3),
    'seed': SEED}), quick=150)
def incomplete_files(case, note):
    """What a file lacks is reported; all the rest is loaded."""
    r = np.random.RandomState(case['seed'] % 2 ** 32)
    a, b = Tree(case['tree'], r), Tree(case['tree'], r)
    want, old = a.values(), b.values()
    with scratch_dir() as folder:
        a.save(folder)
        files = sorted(os.path.join(d, f) for d, _, fs in os.walk(folder)
                       for f in fs)
        gone = set()
        for k in case['drop']:
            if not files:
                break
            f = files[k % len(files)]
            with np.load(f) as z:
                items = dict(z)
            name = os.path.relpath(f, folder)[:-len('.npz')].split(os.sep)
            names = [n for n in sorted(items) if n.endswith('W')]
            if not names or len(items) < 2:
                continue
            items.pop(names[0])
            np.savez_compressed(f, **items)
            gone.add(tuple(name) + ('W',))
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter('always')
            b.load(folder)
        check(not gone or seen, 'no warning about missing values')
    for k, v in b.values().items():
        eq(v, old[k] if k in gone else want[k], 'value of {}'.format(k))
    note.nontrivial(bool(gone))
