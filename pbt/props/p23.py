"""P23: observation normalisation."""
import copy
import io

import chainer
import numpy as np
from hypothesis import strategies as st

from chainerrl.links import EmpiricalNormalization

from pbt.core import Suite, check, close
from pbt.gen import SEED, floats, rng, sized

suite = Suite(
    'P23',
    'two batches or more learnt, of different sizes or distributions',
    ['Statistics are compared within float32 error of the data\'s scale'])

OP = st.tuples(
    st.sampled_from(['experience', 'experience', 'call', 'call', 'look',
                     'look', 'inverse', 'save', 'load_used', 'deepcopy',
                     'empty']),
    st.integers(0, 8), floats(-100, 100), floats(0.0078125, 64),
    st.booleans()).map(list)


def shape_of(shape, axis, n):
    s = list(shape)
    s.insert(axis, n)
    return tuple(s)


class Ref(object):
    """All data learnt so far, in double precision."""

    def __init__(self, case, shape, axis):
        self.case, self.shape, self.axis = case, shape, axis
        self.rows = []
        self.batches = 0
        self.scale = 1.0

    def copy(self):
        r = copy.copy(self)
        r.rows = list(self.rows)
        return r

    def learn(self, x):
        until = self.case['until']
        if until is not None and len(self.rows) >= until:
            return
        y = np.moveaxis(x.astype('d'), self.axis, 0)
        self.rows += list(y)
        if len(y):
            self.batches += 1
            self.scale = max(self.scale, float(np.abs(y).max()))

    @property
    def mean(self):
        if not self.rows:
            return np.zeros(self.shape)
        return np.mean(self.rows, axis=0)

    @property
    def var(self):
        if not self.rows:
            return np.ones(self.shape)
        return np.var(self.rows, axis=0)


@suite.facet(st.fixed_dictionaries({
    'shape': st.lists(st.integers(1, 3), max_size=2), 'axis': st.integers(
        0, 2), 'eps': st.sampled_from([1e-2, 1e-4, 1.0]),
    'until': st.one_of(st.none(), st.integers(0, 20)),
    'clip': st.one_of(st.none(), floats(0.125, 8)),
    'double': st.booleans(), 'ops': sized(OP, 1, 16), 'seed': SEED}),
    quick=2500, shards=4)
def histories(case, note):
    shape = tuple(case['shape'])
    axis = min(case['axis'], len(shape))
    dtype = np.dtype('d' if case['double'] else 'f')
    r = rng(case['seed'])

    def new():
        return EmpiricalNormalization(
            shape[0] if len(shape) == 1 and case['seed'] % 2 else shape,
            batch_axis=axis, eps=case['eps'], dtype=dtype,
            until=case['until'], clip_threshold=case['clip'])

    norm, ref = new(), Ref(case, shape, axis)
    tol = 1e-9 if case['double'] else 2e-5

    def compare(n, f, what):
        m, v = f.mean, f.var
        close(n.mean, m, what + ': mean', rtol=10 * tol,
              atol=tol * f.scale)
        spread = np.sqrt(v.max()) + 1e-6
        close(n.std ** 2, v, what + ': variance', rtol=50 * tol,
              atol=tol * f.scale * spread + 1e-7 * f.scale ** 2
              * (0.01 if not case['double'] else 1e-6)
              # (the variance is 1 to begin with)
              + (2e-7 if not case['double'] else 1e-15))
        check(int(n.count) == len(f.rows), '{}: count {} of {}', what,
              n.count, len(f.rows))
        check(n.mean.dtype == dtype and n.mean.shape == shape
              and n.std.shape == shape, '{}: mean {} {}', what,
              n.mean.dtype, n.mean.shape)

    def bc(z):
        return np.expand_dims(z, axis)

    def expected(n, x):
        """From the link's own statistics, which were compared."""
        y = (x.astype('d') - bc(n.mean.astype('d'))) / np.sqrt(
            bc(n.std.astype('d')) ** 2 + case['eps'])
        if case['clip'] is not None:
            y = np.clip(y, -case['clip'], case['clip'])
        return y

    sizes = set()
    for k, (op, n, loc, sc, var) in enumerate(case['ops']):
        what = 'op {} ({})'.format(k, op)
        x = (loc + sc * r.normal(size=shape_of(shape, axis, n))).astype(dtype)
        x0 = x.copy()
        arg = chainer.Variable(x) if var else x
        if op == 'experience':
            norm.experience(chainer.Variable(x) if var else x)
            ref.learn(x0)
            sizes.add(n)
        elif op == 'empty':
            norm.experience(x[:0] if axis == 0 else np.zeros(
                shape_of(shape, axis, 0), dtype))
        elif op in ('call', 'look'):
            if n == 0:
                continue
            up = op == 'call'
            before = [z.copy() for z in (norm.mean, norm.std)]
            out = norm(arg) if up else norm(arg, update=False)
            if up:
                ref.learn(x0)
                sizes.add(n)
            else:
                check(all(np.array_equal(a, b) for a, b in zip(
                    before, (norm.mean, norm.std))),
                    '{}: statistics changed without an update', what)
            if arg is not x:
                check(isinstance(out, chainer.Variable),
                      '{}: a Variable in, {} out', what, type(out))
                out.grad = np.ones_like(x)
                out.backward()
                slope = np.broadcast_to(1 / np.sqrt(bc(
                    norm.std.astype('d')) ** 2 + case['eps']), x.shape)
                free = np.ones(x.shape, bool)
                if case['clip'] is not None:
                    free = np.abs(out.array) < case['clip'] * (1 - 1e-6)
                close(arg.grad[free], slope[free], what + ': gradient',
                      rtol=1e-3)
                out = out.array
            check(out.dtype == dtype, '{}: dtype {}', what, out.dtype)
            s = np.abs(x0).max() + ref.scale
            lim = float(np.sqrt(norm.std.min() ** 2 + case['eps']))
            close(out, expected(norm, x0), what, rtol=1e-3 if dtype == 'f'
                  else 1e-8, atol=1e-6 + tol * s / lim)
        elif op == 'inverse':
            if n == 0:
                continue
            y = ((x0 - loc) / sc).astype(dtype)
            if case['clip'] is not None:
                y = np.clip(y, -case['clip'], case['clip'])
            back = norm.inverse(y)
            std = np.sqrt(bc(norm.std.astype('d')) ** 2 + case['eps'])
            close(back, y * std + bc(norm.mean.astype('d')), what,
                  rtol=1e-3 if dtype == 'f' else 1e-8,
                  atol=tol * ref.scale)
            # it undoes the normalisation
            close(norm(back, update=False), y, what + ': round trip',
                  rtol=1e-2 if dtype == 'f' else 1e-6,
                  atol=1e-4 + 10 * tol * ref.scale / float(std.min()))
        elif op in ('save', 'load_used'):
            b = io.BytesIO()
            chainer.serializers.save_npz(b, norm)
            compare(norm, ref, what + ': after saving')
            b.seek(0)
            other = new()
            if op == 'load_used':
                z = r.normal(
                    loc=5, size=shape_of(shape, axis, 4)).astype(dtype)
                other.experience(z)
                other(z)
            chainer.serializers.load_npz(b, other)
            old, norm = norm, other
            # the two do not share anything
            old.experience(np.full(shape_of(shape, axis, 3), 50, dtype))
        elif op == 'deepcopy':
            old, oref = norm, ref
            norm, ref = copy.deepcopy(norm), ref.copy()
            if var:
                norm, old = old, norm
            z = np.full(shape_of(shape, axis, 2), 7, dtype)
            old.experience(z)
            oref = oref.copy()
            oref.learn(z)
            compare(old, oref, what + ': the other copy')
        check(np.array_equal(x, x0), '{}: changed its input', what)
        compare(norm, ref, what)
        m = norm.mean
        m += 1
    compare(norm, ref, 'end')
    note.nontrivial(ref.batches > 1 and len(sizes) > 1)
    if case['until'] is not None and len(ref.rows) >= case['until'] and \
            ref.rows:
        note.label('stopped')


@suite.facet(st.fixed_dictionaries({
    'n': st.integers(2, 60), 'cuts': st.lists(st.integers(0, 60),
                                              max_size=8),
    'loc': floats(-1000, 1000), 'seed': SEED}), quick=1000)
def splits(case, note):
    """How data is split into batches does not matter."""
    r = rng(case['seed'])
    n = case['n']
    x = (case['loc'] + r.normal(size=(n, 2)) * [1.0, 10.0]).astype('f')
    one = EmpiricalNormalization(2)
    one.experience(x)
    many = EmpiricalNormalization(2)
    cuts = sorted(c % (n + 1) for c in case['cuts'])
    for part in np.split(x, cuts):
        many.experience(part)
    s = np.abs(x).max()
    close(many.mean, one.mean, 'mean', atol=1e-5 * s)
    close(many.mean, x.astype('d').mean(0), 'mean', atol=1e-5 * s)
    close(many.std ** 2, x.astype('d').var(0), 'variance', rtol=1e-3,
          atol=1e-5 * s * 10 + 1e-8 * s * s)
    note.nontrivial(len(set(cuts) - {0, n}) > 0)
