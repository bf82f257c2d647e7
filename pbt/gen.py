"""Shared generators and small helpers for the properties."""
import numpy as np
from hypothesis import strategies as st

SEED = st.integers(0, 2 ** 31 - 1)


def ops(kinds, n_envs=3, min_size=1, max_size=60, weights=None, arg=20):
    """Histories: lists of [kind, env, argument], interpreted modulo state."""
    pool = []
    for i, k in enumerate(kinds):
        pool.extend([k] * (weights[i] if weights else 1))
    op = st.tuples(st.sampled_from(pool), st.integers(0, n_envs - 1),
                   st.integers(0, arg)).map(list)
    return sized(op, min_size, max_size)


def sized(elem, min_size, max_size):
    """Lists that are long most of the time (plain lists are mostly short)."""
    mid = (min_size + 2 * max_size) // 4
    short = st.lists(elem, min_size=min_size, max_size=max_size)
    long_ = st.lists(elem, min_size=max(min_size, mid), max_size=max_size)
    return st.one_of(short, long_, long_)


def floats(lo, hi, w=32):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=w)


def rows(n_cols, lo=-5, hi=5, min_size=1, max_size=6):
    return st.lists(st.lists(floats(lo, hi), min_size=n_cols,
                             max_size=n_cols),
                    min_size=min_size, max_size=max_size)


def rng(seed):
    return np.random.RandomState(seed % (2 ** 32))


def chi2_sf(observed, probs):
    """P-value of counts against probabilities (chi-square, merged tails)."""
    from scipy import stats
    observed = np.asarray(observed, dtype=np.float64)
    probs = np.asarray(probs, dtype=np.float64)
    n = observed.sum()
    if ((probs <= 0) & (observed > 0)).any():
        return 0.0
    keep = probs > 0
    observed, probs = observed[keep], probs[keep]
    order = np.argsort(probs)
    o, e = [], []
    ao = ae = 0.0
    for i in order:                       # merge cells with expectation < 10
        ao += observed[i]
        ae += probs[i] * n
        if ae >= 10:
            o.append(ao)
            e.append(ae)
            ao = ae = 0.0
    if ae > 0:
        if e:
            o[-1] += ao
            e[-1] += ae
        else:
            return 1.0
    if len(e) < 2:
        return 1.0
    o, e = np.array(o), np.array(e)
    return float(stats.chi2.sf(((o - e) ** 2 / e).sum(), len(e) - 1))


ENV_IDS = [0, 'b', (1, 2), 3]


def binom_ok(k, n, p, alpha=1e-10):
    """Whether k of n is likely enough at rate p."""
    from scipy import stats
    p = min(max(float(p), 0.0), 1.0)
    if p in (0.0, 1.0):
        return k == n * p
    return stats.binomtest(int(k), int(n), p).pvalue > alpha


def wide(lo, hi, *more):
    """Mostly small numbers, now and then one as large as in earnest."""
    return st.sampled_from(list(range(lo, hi + 1)) * 6 + list(more or (33,)))
