"""P42: an agent sees observations only through phi, exactly once."""
from hypothesis import strategies as st
import numpy as np

from pbt import zoo
from pbt.core import Suite, check, eq, seed_all

suite = Suite(
    'P42',
    'updates took place and the preprocessing changes the observations',
    ['Custom explorers and networks are not handed raw observations by the '
     'agents, so only agents are driven here'])

SHAPES = ['affine', 'pair', 'dict', 'rows', 'object', 'uint8']


class Opaque(object):
    """Nothing can be done with it but to ask for what is inside."""

    __slots__ = ['inside']
    __array__ = None

    def __init__(self, inside):
        self.inside = inside


def pixels(v):
    """The vector of single numbers that bytes stand for."""
    return np.round((v + 1) * 100).astype(np.uint8)


def raw(v, shape):
    """The observation an environment would give for a vector."""
    return {
        'affine': lambda: v,
        'pair': lambda: (v[:1].copy(), v[1:].copy()),
        'dict': lambda: {'x': v[:1].copy(), 'y': v[1:].astype('d')},
        'rows': lambda: v.reshape(1, -1).astype('d'),
        'object': lambda: Opaque(v),
        'uint8': lambda: pixels(v)}[shape]()


def phi(x, shape):
    if shape == 'affine':
        return x * np.float32(2) - np.float32(0.5)
    if shape == 'pair':
        return np.concatenate(x)
    if shape == 'dict':
        return np.concatenate([x['x'], x['y'].astype('f')])
    if shape == 'rows':
        return x[0].astype('f')
    if shape == 'object':
        return x.inside
    return x.astype('f') / np.float32(100)


class Zoo(zoo.Zoo):

    def __init__(self, case, seed, extra):
        self.extra = extra
        super().__init__(case, seed)


class Driver(zoo.Driver):
    """Gives either what the environment says or what phi makes of it."""

    def __init__(self, z, seed, give):
        self.give = give
        super().__init__(z, seed)

    def new(self):
        return self.give(super().new())


def play(case, extra, give):
    seed_all(case['seed'])
    z = Zoo(case, case['seed'], extra)
    d = Driver(z, case['seed'] + 5, give)
    r = np.random.RandomState(case['seed'] % 2 ** 32)
    k = len(case['steps']) // 2
    d.play(case['steps'][:k])
    d.end_all()
    greedy = [np.array(z.agent.act(give(
        r.uniform(-1, 1, zoo.OBS).astype('f')))).tolist() for _ in range(3)]
    z.agent.stop_episode()
    if z.batch and hasattr(z.agent, 'batch_act'):
        greedy.append(np.array(z.agent.batch_act(d.obs)).tolist())
        z.agent.stop_episode()
    d.play(case['steps'][k:])
    d.end_all()
    return z, d, greedy


def same_as_preprocessed(case, note):
    s = case['shape']
    z, d, g = play(case, {'phi': lambda x: phi(x, s)}, lambda v: raw(v, s))
    z2, d2, g2 = play(case, {}, lambda v: phi(raw(v, s), s))
    kind = case['kind']
    eq(d.actions, d2.actions, '{}: actions with phi and with preprocessed '
       'observations'.format(kind))
    eq(g, g2, '{}: evaluation with phi and with preprocessed '
       'observations'.format(kind))
    diff = zoo.diff_states(z.state(), z2.state())
    check(diff is None, '{}: with phi and with preprocessed observations: {}',
          kind, diff)
    note.label(s, 'batch' if z.batch else 'serial')
    if z.rec:
        note.label('recurrent')
    note.nontrivial(any(z.updated().values()))


def strategy(kind):
    return zoo.case_strategy([kind], 4, 20).flatmap(
        lambda c: st.sampled_from(SHAPES).map(lambda s: dict(c, shape=s)))


for _k in zoo.KINDS:
    suite.add('phi_' + _k, strategy(_k), same_as_preprocessed, quick=12)
