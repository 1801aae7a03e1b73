import numpy as np
from hypothesis import strategies as st
from tenkit.decomposition import KruskalTensor
from tkv import gen, ref
from tkv.core import Sub, close, identical, require, as_array, expect_raises

RULE = ('Kruskal tensors of order 2-5 (now and then 6-9), sizes 1-7 (now and then one long mode), rank 1-6 or up to 15 (also above every size), '
        'weights missing, ones, random, integer, zero, negative, given as array or list; factor contents incl. zero, equal and badly '
        'scaled columns, five memory layouts, floats and integers. Non-trivial: rank above one and at least two modes of size above one.')


@st.composite
def case(draw):
    shape = draw(gen.shapes(2, 5, 7, 500, big=True, high=True))
    rank = draw(st.integers(1, 6) | st.integers(1, 15))
    return dict(factors=[gen.array(draw, (n, rank), gen.GENERIC + gen.DEGENERATE, dtypes=('f8', 'f8', 'f8', 'i8'), scales=(1.0, 1.0, 1.0, 1e-6, 1e5)) for n in shape],
                weights=draw(st.sampled_from(['none', 'ones', 'normal', 'normal', 'positive', 'ints', 'with_zero', 'negative', 'list'])),
                wseed=draw(gen.seeds), rank=rank, shape=shape, as_tuple=draw(st.booleans()))


def build(case):
    factors = gen.build_factors(case)
    weights = gen.build_weights(case)
    kept = [f.copy() for f in factors], None if weights is None else np.array(weights, dtype=float)
    return KruskalTensor(tuple(factors) if case['as_tuple'] else factors, weights), factors, kept


def labels(case):
    return (['trivial'] if case['rank'] < 2 or sum(n > 1 for n in case['shape']) < 2 else []) + [
        f'order{len(case["shape"])}', 'weights ' + case['weights']] + (['rank above every size'] if case['rank'] > max(case['shape']) else [])


def run_construct(case):
    T, factors, (f0, w0) = build(case)
    expected = ref.kruskal(f0, w0)
    scale = ref.kruskal_scale(f0, w0) + 1e-300
    require(list(T.shape) == list(case['shape']), 'shape is {}, expected {}', T.shape, case['shape'])
    require(T.rank == case['rank'], 'rank is {}, expected {}', T.rank, case['rank'])
    X = T.construct_tensor()
    close(X, expected, 1e-12, f'array of a Kruskal tensor of shape {tuple(case["shape"])}', scale=scale)
    # reading does not change it, and gives the factors
    again = T.construct_tensor()
    identical(again, X, 'array constructed a second time')
    for i, f in enumerate(f0):
        identical(T[i], f, f'factor {i} after constructing')
        identical(T.factor_matrices[i], f, f'factor matrix {i} after constructing')
    close(T.weights, np.ones(case['rank']) if w0 is None else w0, 1e-15, 'weights')
    return labels(case)


def run_components(case):
    T, factors, (f0, w0) = build(case)
    scale = ref.kruskal_scale(f0, w0) + 1e-300
    total = np.zeros(case['shape'])
    for r in range(case['rank']):
        one = T.get_single_component_decomposition(r)
        require(one.rank == 1, 'a single component has rank {}', one.rank)
        part = one.construct_tensor()
        w = None if w0 is None else w0[r:r + 1]
        close(part, ref.kruskal([f[:, r:r + 1] for f in f0], w), 1e-12, f'component {r}', scale=scale)
        total += part
    close(total, T.construct_tensor(), 1e-11, 'sum of the components', scale=scale)
    for i, f in enumerate(f0):
        identical(T.factor_matrices[i], f, f'factor matrix {i} after extracting components')
    close(T.weights, np.ones(case['rank']) if w0 is None else w0, 1e-15, 'weights after extracting components')
    return labels(case)


def run_reject(case):
    factors, weights = gen.build_factors(case), gen.build_weights(case)
    rng = np.random.default_rng(case['wseed'])
    i = int(rng.integers(len(factors)))
    bad = list(factors)
    bad[i] = np.concatenate([bad[i]] + [np.ones((len(bad[i]), int(rng.integers(1, 3))))], axis=1)
    if rng.integers(2) and case['rank'] > 1:
        bad[i] = factors[i][:, :-1]
    expect_raises((ValueError,), lambda: KruskalTensor(bad, weights), f'factor {i} with another number of columns')
    for n in {case['rank'] + 1, case['rank'] - 1, 0} - {case['rank']}:
        expect_raises((ValueError,), lambda: KruskalTensor(factors, np.ones(n)), f'{n} weights for rank {case["rank"]}')
    return labels(case)


SUBS = [
    Sub('construct', case(), run_construct, 5000),
    Sub('components', case(), run_components, 3000),
    Sub('reject', case(), run_reject, 1500),
]
