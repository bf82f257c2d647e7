"""P32: copying and sharing parameters."""
import copy
import multiprocessing as mp

import chainer
import numpy as np
from chainer import links as L
from hypothesis import strategies as st

from chainerrl.experiments.train_agent_async import (
    extract_shared_objects_from_agent, set_shared_objects)
from chainerrl.misc import async_, copy_param
from chainerrl.optimizers.rmsprop_async import RMSpropAsync

from pbt import zoo
from pbt.core import Suite, check, close, eq, seed_all
from pbt.gen import SEED, floats, rng, sized

suite = Suite(
    'P32',
    'a model of two links or more, a parameter that is not a matrix, or an '
    'optimizer with a state',
    ['float32 and float64 on the CPU; shared memory has no float16',
     'Persistent values that copying is documented to copy are the '
     'statistics of batch normalisation'])


# ------------------------------------------------------------------- models

class Leaf(chainer.Link):
    """Parameters of any shape and persistent values of any kind."""

    def __init__(self, shapes, kinds, dtype):
        super().__init__()
        self.q = 0
        with self.init_scope():
            for i, s in enumerate(shapes):
                setattr(self, 'p{}'.format(i), chainer.Parameter(
                    np.zeros(s, dtype)))
        for i, k in enumerate(kinds):
            v = {'array': np.zeros((2, 2), dtype), 'ints': np.zeros(3, int),
                 'int': 3, 'float': 0.5, 'np': dtype(2)}[k]
            self.add_persistent('s{}'.format(i), v)


SHAPE = st.lists(st.integers(1, 3), min_size=0, max_size=3)
LEAF = st.one_of(
    st.tuples(st.just('linear'), st.integers(1, 3), st.integers(1, 3),
              st.booleans()).map(list),
    st.tuples(st.just('bn'), st.integers(1, 3), st.booleans()).map(list),
    st.just(['embed']), st.just(['conv']), st.just(['lstm']),
    st.just(['scale']),
    st.tuples(st.just('leaf'), st.lists(SHAPE, min_size=1, max_size=3),
              st.lists(st.sampled_from(['array', 'ints', 'int', 'float',
                                        'np']), max_size=3)).map(list))
SPEC = st.recursive(LEAF, lambda c: st.tuples(
    st.sampled_from(['chain', 'list', 'seq']),
    st.lists(c, min_size=1, max_size=3)).map(list), max_leaves=6)
MODEL = {'spec': SPEC, 'double': st.booleans(), 'seed': SEED}


def build(spec, double):
    dtype = np.float64 if double else np.float32
    with chainer.using_config('dtype', dtype):
        return _build(spec, dtype)


def _build(spec, dtype):
    k = spec[0]
    if k == 'linear':
        return L.Linear(spec[1], spec[2], nobias=spec[3])
    if k == 'bn':
        return L.BatchNormalization(spec[1], use_beta=spec[2])
    if k == 'embed':
        return L.EmbedID(4, 2)
    if k == 'conv':
        return L.Convolution2D(2, 1, 3)
    if k == 'lstm':
        return L.LSTM(2, 2)
    if k == 'scale':
        return L.Scale(axis=0, W_shape=(2,))
    if k == 'leaf':
        return Leaf([tuple(s) for s in spec[1]], spec[2], dtype)
    children = [_build(s, dtype) for s in spec[1]]
    if k == 'chain':
        return chainer.Chain(**{'c{}'.format(i): c
                                for i, c in enumerate(children)})
    if k == 'list':
        return chainer.ChainList(*children)
    return chainer.Sequential(*children)


def lay_out(link, seed):
    """The same values, some of them in another memory order."""
    r = rng(seed + 3)
    for _, p in sorted(link.namedparams()):
        if r.rand() < 0.3:
            p.array = np.array(p.array, order='F')


def fill(link, seed, grads=None):
    """Random parameters and persistent values; some gradients."""
    r = rng(seed)
    for i, (_, p) in enumerate(sorted(link.namedparams())):
        p.array[...] = r.uniform(-2, 2, p.shape)
        if grads is not None:
            p.grad = None if grads[i % len(grads)] == 0 else \
                r.uniform(-2, 2, p.shape).astype(p.dtype)
    for owner, name in persistents(link):
        v = getattr(owner, name)
        if isinstance(v, np.ndarray) and v.shape:
            v[...] = r.uniform(0, 9, v.shape)
        else:
            new = r.randint(0, 100) if np.asarray(v).dtype.kind == 'i' \
                else r.uniform(0, 9)
            setattr(owner, name, type(v)(new) if not isinstance(
                v, np.ndarray) else np.asarray(new, v.dtype))
    return link


def persistents(link):
    """(owner, name) of all persistent values, in a fixed order."""
    return [(l, n) for _, l in sorted(link.namedlinks())
            for n in sorted(getattr(l, '_persistent', ()))]


def values(link, bn_only=False):
    """Arrays of parameters and of persistent values, copied."""
    out = {n: p.array.copy() for n, p in link.namedparams()}
    for ln, l in link.namedlinks():
        if isinstance(l, L.BatchNormalization) and bn_only:
            out[ln + ' mean'] = l.avg_mean.copy()
            out[ln + ' var'] = l.avg_var.copy()
    if not bn_only:
        for i, (o, n) in enumerate(persistents(link)):
            out['persistent {} {}'.format(i, n)] = np.array(
                getattr(o, n), copy=True)
    return out


def same_values(got, want, msg):
    eq(sorted(got), sorted(want), msg)
    for k in want:
        check(got[k].dtype == want[k].dtype and got[k].shape ==
              want[k].shape and np.array_equal(got[k], want[k]),
              '{}: {}: got {!r} want {!r}', msg, k, got[k], want[k])


def rich(case, note):
    s = case['spec']
    note.nontrivial(s[0] in ('chain', 'list', 'seq') or s[0] in (
        'leaf', 'bn', 'conv', 'lstm'))
    note.label(s[0])


def grads(link):
    return {n: None if p.grad is None else p.grad.copy()
            for n, p in link.namedparams()}


# ------------------------------------------------------------------ copying

TAU = st.one_of(st.sampled_from([0.0, 1.0, 0.5]), floats(0, 1))


@suite.facet(st.fixed_dictionaries(dict(
    MODEL, tau=TAU, more=st.booleans(), mixed=st.booleans(),
    via=st.sampled_from(['direct', 'synchronize']),
    method=st.sampled_from(['hard', 'soft', 'soft']),
    grads=sized(st.integers(0, 1), 1, 5))), quick=3000, shards=3)
def copying(case, note):
    src = fill(build(case['spec'], case['double']), case['seed'],
               case['grads'])
    other_dtype = case['double'] != case['mixed']
    dst = fill(build(case['spec'], other_dtype), case['seed'] + 1,
               case['grads'][::-1])
    if case['more']:
        # the target has parameters of its own
        src, dst = chainer.Chain(a=src), chainer.Chain(
            a=dst, zz=fill(L.Linear(2, 2), 5, [1, 0]))
    before, old = values(src, True), values(dst, True)
    all_src = values(src)
    g_src, g_dst = grads(src), grads(dst)
    tau, method = case['tau'], case['method']
    if case['via'] == 'synchronize':
        copy_param.synchronize_parameters(src, dst, method, tau)
    elif method == 'hard':
        copy_param.copy_param(dst, src)
    else:
        copy_param.soft_copy_param(dst, src, tau)
    same_values(values(src), all_src, 'source')
    eq(grads(src), g_src, 'gradients of the source')
    eq(grads(dst), g_dst, 'gradients of the target')
    got = values(dst, True)
    for k in got:
        check(got[k].dtype == old[k].dtype, '{}: dtype changed', k)
        if k not in before:
            check(np.array_equal(got[k], old[k]), '{} changed', k)
        elif method == 'hard':
            check(np.array_equal(got[k], before[k].astype(old[k].dtype)),
                  '{}: got {} want {}', k, got[k], before[k])
        else:
            close(got[k], (1 - tau) * old[k].astype(np.float64)
                  + tau * before[k].astype(np.float64), k, rtol=1e-5,
                  atol=1e-5)
    # no aliasing in either direction
    snapshot = values(dst, True)
    for p in src.params():
        p.array[...] += 1
    for l in src.links():
        if isinstance(l, L.BatchNormalization):
            l.avg_mean[...] += 1
            l.avg_var[...] += 1
    same_values(values(dst, True), snapshot, 'target after the source '
                                             'changed')
    rich(case, note)


@suite.facet(st.fixed_dictionaries(dict(
    MODEL, g1=sized(st.integers(0, 1), 1, 5),
    g2=sized(st.integers(0, 1), 1, 5), twice=st.booleans())), quick=2000,
    shards=2)
def gradients(case, note):
    src = fill(build(case['spec'], case['double']), case['seed'],
               case['g1'])
    dst = fill(build(case['spec'], case['double']), case['seed'] + 1,
               case['g2'])
    want, params = grads(src), values(dst)
    for _ in range(2 if case['twice'] else 1):
        copy_param.copy_grad(dst, src)
    eq(grads(dst), want, 'gradients')
    eq(grads(src), want, 'gradients of the source')
    same_values(values(dst), params, 'parameters of the target')
    for p in src.params():
        if p.grad is not None:
            p.grad[...] += 1
    eq(grads(dst), want, 'gradients after those of the source changed')
    rich(case, note)


@suite.facet(st.fixed_dictionaries(dict(
    MODEL, method=st.one_of(
        st.text(max_size=6), st.none(), st.integers(0, 3),
        st.sampled_from(['Hard', 'SOFT', 'hard ', 'hardd', '', 'polyak'])))),
    quick=500)
def unknown_methods(case, note):
    m = case['method']
    if m in ('hard', 'soft'):
        return
    src = fill(build(case['spec'], case['double']), 1)
    dst = fill(build(case['spec'], case['double']), 2)
    old = values(dst)
    try:
        copy_param.synchronize_parameters(src, dst, m, 0.5)
    except Exception:
        pass
    else:
        check(False, 'method {!r} was accepted', m)
    same_values(values(dst), old, 'target after {!r}'.format(m))
    note.nontrivial(isinstance(m, str))


@suite.facet(st.fixed_dictionaries({
    'which': st.sampled_from(['target', 'both']),
    'method': st.sampled_from(['hard', 'soft']), 'tau': floats(0.125, 0.875),
    'n': st.integers(1, 3)}), quick=60)
def uninitialised(case, note):
    """A parameter without an array is an error, not silently skipped."""
    def mk(lazy):
        return chainer.ChainList(*[
            L.Linear(None if lazy and i == case['n'] - 1 else 2, 2)
            for i in range(case['n'])])
    dst = mk(case['which'] in ('target', 'both'))
    src = mk(case['which'] in ('source', 'both'))
    try:
        copy_param.synchronize_parameters(src, dst, case['method'],
                                          case['tau'])
    except TypeError:
        pass
    else:
        check(False, 'copied an uninitialised parameter')
    note.nontrivial(case['n'] > 1)


# ------------------------------------------------------------------ sharing

def write(link, seed):
    """In-place writes to everything shared."""
    r = rng(seed)
    for _, p in sorted(link.namedparams()):
        p.array[...] += r.uniform(1, 2, p.shape).astype(p.dtype)
    for o, n in persistents(link):
        v = getattr(o, n)
        v += np.asarray(r.randint(1, 5)).astype(v.dtype)
        setattr(o, n, v)


@suite.facet(st.fixed_dictionaries(dict(
    MODEL, seeds=sized(SEED, 1, 4), reshare=st.booleans())), quick=1500,
    shards=2)
def sharing(case, note):
    spec, double = case['spec'], case['double']
    a = fill(build(spec, double), case['seed'])
    lay_out(a, case['seed'])
    want = values(a)
    if case['reshare']:
        arrays = async_.extract_params_as_shared_arrays(a)
        same_values(values(a), want, 'after extraction')
        async_.set_shared_params(a, arrays)
    else:
        arrays = async_.share_params_as_shared_arrays(a)
    same_values(values(a), want, 'after sharing')
    eq(sorted(arrays), sorted(
        [n for n, _ in a.namedparams()] +
        [(ln if ln != '/' else '') + '/' + n for ln, l in a.namedlinks()
         for n in getattr(l, '_persistent', ())]), 'names')
    b = fill(build(spec, double), case['seed'] + 7)
    private = fill(build(spec, double), case['seed'] + 8)
    mine = values(private)
    async_.set_shared_params(b, arrays)
    same_values(values(b), want, 'another model')
    for k, s in enumerate(case['seeds']):
        src, dst = ((a, b), (b, a))[k % 2]
        before = values(src)
        write(src, s)
        check(any(not np.array_equal(before[n], x)
                  for n, x in values(src).items()), 'nothing written')
        same_values(values(dst), values(src), 'after a write')
    # private copies
    c = copy.deepcopy(a)
    async_.set_shared_params(c, arrays)
    for (_, p), (_, q) in zip(a.namedparams(), c.namedparams()):
        check(p.array.size == 0 or np.shares_memory(p.array, q.array),
              'not shared')
    async_.make_params_not_shared(c)
    snap = {n: p.array.copy() for n, p in c.namedparams()}
    same_values(snap, {n: p.array for n, p in a.namedparams()}, 'copy')
    async_.assert_params_not_shared(a, c)
    for p in a.params():
        p.array[...] += 1
    same_values({n: p.array for n, p in c.namedparams()}, snap,
                'private parameters')
    same_values(values(private), mine, 'an unrelated model')
    try:
        async_.assert_params_not_shared(a, b)
    except AssertionError:
        pass
    else:
        check(not list(a.params()), 'shared parameters were not noticed')
    rich(case, note)


@suite.facet(st.fixed_dictionaries(dict(MODEL, other=SEED)), quick=60,
             shards=4)
def processes(case, note):
    """What another process writes is seen here and the other way round."""
    a = fill(build(case['spec'], case['double']), case['seed'])
    arrays = async_.share_params_as_shared_arrays(a)
    b = fill(build(case['spec'], case['double']), case['seed'] + 1)
    go, done = mp.Event(), mp.Event()
    r, w = mp.Pipe(False)

    def child():
        async_.set_shared_params(b, arrays)
        go.wait(60)
        w.send(values(b))
        write(b, case['other'])
        w.send(values(b))
        done.set()

    p = mp.Process(target=child)
    p.start()
    write(a, case['other'] + 3)
    mine = values(a)
    go.set()
    check(done.wait(60), 'the child did not finish')
    same_values(r.recv(), mine, 'in the child')
    same_values(values(a), r.recv(), 'in the parent')
    p.join(60)
    rich(case, note)


# --------------------------------------------------------- optimizer states

OPTS = {
    'SGD': lambda: chainer.optimizers.SGD(0.1),
    'MomentumSGD': lambda: chainer.optimizers.MomentumSGD(0.1),
    'NesterovAG': lambda: chainer.optimizers.NesterovAG(0.1),
    'AdaGrad': lambda: chainer.optimizers.AdaGrad(0.1),
    'AdaDelta': lambda: chainer.optimizers.AdaDelta(),
    'Adam': lambda: chainer.optimizers.Adam(0.1),
    'AMSGrad': lambda: chainer.optimizers.Adam(0.1, amsgrad=True),
    'RMSprop': lambda: chainer.optimizers.RMSprop(0.1),
    'RMSpropGraves': lambda: chainer.optimizers.RMSpropGraves(0.1),
    'RMSpropAsync': lambda: RMSpropAsync(0.1, alpha=0.7, eps=0.2)}


def states(opt):
    return {(n, k): v.copy() for n, p in opt.target.namedparams()
            for k, v in (p.update_rule.state or {}).items()}


def keeps_arrays(name):
    """Whether updates are in place (not so with some of Chainer's)."""
    opt = OPTS[name]()
    opt.setup(L.Linear(2, 2))
    step(opt, 0)
    old = state_arrays(opt)
    step(opt, 1)
    return all(x is y for x, y in zip(old, state_arrays(opt)))


def state_arrays(opt):
    return [v for _, p in sorted(opt.target.namedparams())
            for _, v in sorted((p.update_rule.state or {}).items())]


def same_states(got, want, msg):
    eq(sorted(got), sorted(want), msg)
    for k in want:
        check(got[k].dtype == want[k].dtype and
              got[k].shape == want[k].shape and
              np.array_equal(got[k], want[k]),
              '{}: {}: got {!r} want {!r}', msg, k, got[k], want[k])


def step(opt, seed):
    r = rng(seed)
    for _, p in sorted(opt.target.namedparams()):
        p.grad = r.uniform(-1, 1, p.shape).astype(p.dtype)
    opt.update()


@suite.facet(st.fixed_dictionaries(dict(
    MODEL, opt=st.sampled_from(sorted(OPTS)), before=st.integers(0, 3),
    after=sized(SEED, 1, 4))), quick=1500, shards=3)
def optimizer_states(case, note):
    spec, double = case['spec'], case['double']

    def mk():
        m = fill(build(spec, double), case['seed'])
        o = OPTS[case['opt']]()
        o.setup(m)
        return m, o

    a, oa = mk()
    twin, ot = mk()
    for i in range(case['before']):
        step(oa, case['seed'] + i)
        step(ot, case['seed'] + i)
    want = states(oa)
    arrays = async_.share_params_as_shared_arrays(a)
    shared = async_.share_states_as_shared_arrays(oa)
    if case['before']:
        same_states(states(oa), want, 'after sharing')
    b, ob = mk()
    async_.set_shared_params(b, arrays)
    async_.set_shared_states(ob, shared)
    same_states(states(ob), states(oa), 'another optimizer')
    inplace = case['opt'] == 'RMSpropAsync' or keeps_arrays(case['opt'])
    for k, s in enumerate(case['after']):
        step(oa, s)
        step(ot, s)
        same_states(states(oa), states(ot), 'update with a shared and an '
                                            'unshared state')
        same_values({n: p.array for n, p in a.namedparams()},
                    {n: p.array for n, p in twin.namedparams()},
                    'parameters with a shared and an unshared state')
        if inplace:
            same_states(states(ob), states(oa), 'seen by the other')
    step(ob, 1)
    if inplace:
        same_states(states(oa), states(ob), 'update by the other')
    same_values(values(a), values(b), 'update by the other')
    note.nontrivial(case['opt'] != 'SGD')
    note.label(case['opt'])


# -------------------------------------------------------------- async agents

ASYNC = ['A3C', 'NSQ', 'ACER', 'ACERc', 'PCL']


@suite.facet(zoo.case_strategy(ASYNC, min_steps=4, max_steps=20), quick=48,
             shards=4)
def agents_share(case, note):
    """Two agents with shared objects, taking turns."""
    case = dict(case, method='soft')     # PCL in its asynchronous form
    if case['opt'] == 'smorms3':         # replaces its arrays
        case['opt'] = 'rmsprop_async'
    seed_all(case['seed'])
    a = zoo.Zoo(case, case['seed'])
    da = zoo.Driver(a, 1)
    da.play(case['steps'][:4])
    da.end_all()
    names = {'A3C': ['model'], 'NSQ': ['model', 'target'],
             'ACER': ['model'], 'ACERc': ['model'], 'PCL': ['shared']}
    names = names[case['kind']] + ['optimizer']

    def shared(z):
        s = z.state()
        out = {n: dict(s[n]) for n in names}
        for k in [k for k in out['optimizer'] if ':t' in k] + ['t', 'epoch']:
            del out['optimizer'][k]
        return out

    before = shared(a)
    objs = extract_shared_objects_from_agent(a.agent)
    set_shared_objects(a.agent, objs)
    diff = zoo.diff_states(shared(a), before)
    check(diff is None, 'sharing changed {}', diff)
    b = zoo.Zoo(case, case['seed'] + 5)
    set_shared_objects(b.agent, objs)
    db = zoo.Driver(b, 2)
    if any(a.updated().values()):
        # count as many updates: shared state shows only then
        step_names = [n for n in names if n == 'optimizer']
        for n in step_names:
            b.parts[n].t = a.parts[n].t
    diff = zoo.diff_states(shared(a), shared(b))
    check(diff is None, 'another agent has {}', diff)
    for k, (z, d, o) in enumerate([(b, db, a), (a, da, b), (b, db, a)]):
        old = shared(z)
        d.play(case['steps'])
        d.end_all()
        for n in ('optimizer',):
            o.parts[n].t = max(o.parts[n].t, 1)
        new = shared(z)
        diff = zoo.diff_states(shared(o), new)
        check(diff is None, 'turn {}: the other agent has {}', k, diff)
        note.nontrivial(zoo.diff_states(old, new) is not None)
    note.label(case['kind'])
