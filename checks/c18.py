import numpy as np
from hypothesis import strategies as st
from tkv import gen, ref
from tkv.core import Sub, Violation, close, number, require, as_array
from checks.c16 import component_matrices

RULE = ('Matrices of full column rank (condition number up to 1e4, any layout, badly scaled columns); Kruskal (order 2-9, any weights), evolving and PARAFAC2 tensors '
        'with nonzero components, also collinear and repeated; arrays of order 1-9 with estimates and masks (boolean, integer or float). Oracle: projection by QR, '
        'cosines and sums evaluated directly, invariances. Non-trivial: rank (or number of entries) above one.')


def run_leverage(case):
    from tenkit import metrics
    rng = np.random.default_rng(case['seed'])
    n, r = case['n'], case['r']
    for kind in (case['kind'], 'normal'):
        F = gen.content(rng, (n, r), kind)
        norms = np.linalg.norm(F, axis=0)
        if norms.min() > 0 and np.linalg.cond(F) < 1e5:
            break
    F = F * case['fscale']
    F = gen.layout_as(F, case['layout'])
    q, _ = np.linalg.qr(np.asarray(F))
    want = np.sum(q ** 2, axis=1)
    tol = 1e-13 * np.linalg.cond(F) ** 2 + 1e-12
    got = as_array(metrics.leverage(F), (n,), 'leverage')
    require(np.all(np.abs(got - want) <= tol), 'leverages {}, expected {}', got, want)
    require(np.all(got >= -tol) and np.all(got <= 1 + tol), 'leverages {} are not between 0 and 1', got)
    require(abs(got.sum() - r) <= n * tol, 'leverages add up to {:.12g}, not to the rank {}', got.sum(), r)
    M = gen.content(rng, (r, r), 'orthonormal') * 10.0 ** rng.uniform(-1, 1, r) @ gen.content(rng, (r, r), 'orthonormal')
    got2 = as_array(metrics.leverage(np.asarray(F) @ M), (n,), 'leverage')
    require(np.all(np.abs(got2 - want) <= tol * np.linalg.cond(M) ** 2 * 10), 'leverages change from {} to {} when the columns are recombined', want, got2)
    p = rng.permutation(n)
    got3 = as_array(metrics.leverage(np.asarray(F)[p]), (n,), 'leverage')
    require(np.all(np.abs(got3 - want[p]) <= tol), 'leverages of reordered rows are {}, expected {}', got3, want[p])
    return (['trivial'] if r < 2 else []) + ['square' if n == r else 'tall', case['kind']]


@st.composite
def leverage_cases(draw):
    r = draw(st.sampled_from([2, 3, 1, 4, 6]))
    return dict(fscale=draw(st.sampled_from([1.0, 1e-8, 1e5])), r=r, n=r + draw(st.integers(0, 12)), seed=draw(gen.seeds), layout=draw(gen.layouts),
                kind=draw(st.sampled_from(['normal', 'uniform', 'ints', 'near_collinear', 'scaled_columns', 'sparse', 'shifted', 'orthonormal', 'negative'])))


def cosines(F):
    r = F.shape[1]
    out = np.empty((r, r))
    for i in range(r):
        for j in range(r):
            out[i, j] = F[:, i] @ F[:, j] / np.sqrt((F[:, i] @ F[:, i]) * (F[:, j] @ F[:, j]))
    return out


def run_degeneracy(case):
    from tenkit.decomposition import KruskalTensor, EvolvingTensor, Parafac2Tensor
    rng = np.random.default_rng(case['seed'])
    rank, type_ = case['rank'], case['type']
    if type_ == 'kruskal':
        factors = component_matrices(rng, case['shape'], rank, case['kind'])
        weights = gen.build_weights(dict(rank=rank, weights=case['weights'], wseed=case['seed']))
        make = lambda f: KruskalTensor([x.copy() for x in f], weights)
        full = lambda f: f
    else:
        J = case['J']
        cut = np.cumsum(J)[:-1]
        if type_ == 'parafac2':
            factors = component_matrices(rng, (case['I'], rank, len(J)), rank, case['kind'])
            P = [gen.content(rng, (j, rank), 'orthonormal') for j in J]
            make = lambda f: Parafac2Tensor(f[0], f[1], f[2], P)
            full = lambda f: [f[0], np.concatenate([p @ f[1] for p in P]), f[2]]
        else:
            factors = component_matrices(rng, (case['I'], sum(J), len(J)), rank, case['kind'])
            make = lambda f: EvolvingTensor(f[0], np.split(f[1], cut), f[2])
            full = lambda f: f
    want = np.prod([cosines(f) for f in full(factors)], axis=0)
    T = make(factors)
    got = as_array(T.degeneracy(), (rank, rank), 'degeneracy')
    close(got, want, 1e-10, 'degeneracy', scale=1)
    close(got, got.T, 1e-12, 'degeneracy, compared with its transpose', scale=1)
    close(np.diag(got), np.ones(rank), 1e-10, 'diagonal of the degeneracy', scale=1)
    require(np.all(np.abs(got) <= 1 + 1e-10), 'degeneracy scores {} are not between -1 and 1', got)
    scaled = [f * 10.0 ** rng.uniform(-2, 2, rank) for f in factors]
    close(make(scaled).degeneracy(), want, 1e-10, 'degeneracy after scaling components in every mode', scale=1)
    p = rng.permutation(rank)
    if type_ != 'kruskal' or weights is None:
        close(make([f[:, p] for f in factors]).degeneracy(), want[np.ix_(p, p)], 1e-10, 'degeneracy after reordering the components', scale=1)
    m, signs = rng.integers(3 if type_ != 'kruskal' else len(factors)), rng.choice([-1, 1], rank)
    flipped = [f * signs if i == m else f for i, f in enumerate(factors)]
    close(make(flipped).degeneracy(), want * np.outer(signs, signs), 1e-10, f'degeneracy after flipping components in mode {m}', scale=1)
    return (['trivial'] if rank < 2 else []) + [type_, case['kind']]


@st.composite
def degeneracy_cases(draw):
    rank = draw(st.sampled_from([2, 3, 4, 1, 5]))
    type_ = draw(st.sampled_from(['kruskal', 'evolving', 'parafac2']))
    low = rank if type_ == 'parafac2' else 1
    return dict(type=type_, rank=rank, shape=draw(gen.shapes(2, 5, 7, 300, high=True)), I=draw(st.integers(1, 6)), seed=draw(gen.seeds),
                J=draw(st.lists(st.integers(low, 7), min_size=1, max_size=8)), weights=draw(st.sampled_from(['none', 'positive', 'normal'])),
                kind=draw(st.sampled_from(['normal', 'near_collinear', 'equal_columns', 'uniform', 'ints', 'scaled_columns', 'negative', 'shifted'])))


def run_shares(case):
    from tenkit import metrics
    rng = np.random.default_rng(case['seed'])
    shape = case['shape']
    X = gen.content(rng, shape, case['kind'])
    if np.linalg.norm(X) == 0:
        X = X + 1
    X = X * case['scale']
    Y = {'equal': X.copy(), 'zero': np.zeros(shape), 'perturbed': X + 0.2 * case['scale'] * rng.standard_normal(shape), 'unrelated': case['scale'] * rng.standard_normal(shape),
         'opposite': -X}[case['relation']]
    X, Y = gen.layout_as(X, case['layout']), gen.layout_as(Y, case['layout'])
    norm2 = float(np.sum(X ** 2))
    want = 1 - float(np.sum((X - Y) ** 2)) / norm2
    got = number(metrics.percent_explained(X, Y), 'explained share')
    require(abs(got - want) <= 1e-10 * (1 + abs(want)), 'explained share {:.12g}, expected {:.12g}', got, want)
    # completion: only the missing entries count
    mask = rng.uniform(size=shape) < case['observed']
    missing = ~mask
    if not np.any(X[missing] ** 2 > 0):
        mask.flat[int(np.argmax(np.abs(X)))] = False
        missing = ~mask
    W = {'bool': mask, 'int': mask.astype(int), 'float': mask.astype(float)}[case['mask']]
    W = gen.layout_as(W, case['layout'])
    want = np.sqrt(np.sum((X - Y)[missing] ** 2)) / np.sqrt(np.sum(X[missing] ** 2))
    got = number(metrics.tensor_completion_score(X, Y, W), 'completion score')
    require(abs(got - want) <= 1e-10 * (1 + want), 'completion score {:.12g}, expected {:.12g}', got, want)
    Z = np.where(missing, Y, rng.standard_normal(shape) * case['scale'] * 10)
    got = number(metrics.tensor_completion_score(X, Z, W), 'completion score')
    require(abs(got - want) <= 1e-10 * (1 + want), 'completion score {:.12g} when the estimate of observed entries changes, expected {:.12g}', got, want)
    return (['trivial'] if X.size < 2 or case['relation'] == 'equal' else []) + [case['relation'], 'mask ' + case['mask'], f'order {len(shape)}']


@st.composite
def share_cases(draw):
    shape = draw(gen.shapes(2, 5, 7, 300, high=True))
    if draw(st.integers(0, 5)) == 0:
        shape = shape[:1]
    return dict(shape=shape, seed=draw(gen.seeds), kind=draw(st.sampled_from(['normal', 'uniform', 'ints', 'sparse', 'negative', 'shifted'])),
                scale=draw(st.sampled_from([1.0, 1e-3, 1e5, 1e-9])), relation=draw(st.sampled_from(['perturbed', 'unrelated', 'equal', 'zero', 'opposite'])),
                observed=draw(st.sampled_from([0.5, 0.8, 0.1, 0.0])), mask=draw(st.sampled_from(['float', 'bool', 'int'])), layout=draw(gen.layouts))


SUBS = [
    Sub('leverage', leverage_cases(), run_leverage, 2400),
    Sub('degeneracy', degeneracy_cases(), run_degeneracy, 1600, weight=2),
    Sub('shares', share_cases(), run_shares, 3000),
]
