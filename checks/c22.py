import numpy as np
from hypothesis import strategies as st
from tkv import gen, ref
from tkv.core import Sub, close, require, as_array, expect_raises

RULE = ('create_data, create_non_negative_data, create_random_factors, create_random_uniform_factors for 2-9 modes, ranks 1-7 (also above the dimensions), noise factors 0 to 100 '
        'given as int or float, sizes as tuple or list; KruskalTensor.random_init and Parafac2Tensor.random_init for all methods, widths as one number or a list of equal or '
        'different numbers. Oracle: reference tensor built by explicit sums, norms and Gram matrices. Non-trivial: rank or number of modes above the smallest, more than one entry.')

UNIT = 1e-7     # of unit norms (columns are divided by their norm plus 1e-15)


def check_unit(factors, sizes, rank, what, nonneg):
    require(isinstance(factors, (list, tuple)) and len(factors) == len(sizes), '{}: {} factor matrices for {} modes', what, len(factors), len(sizes))
    for i, (f, n) in enumerate(zip(factors, sizes)):
        as_array(f, (n, rank), f'{what}, factor {i}')
        require(np.all(np.isfinite(f)), '{}: factor {} is not finite', what, i)
        norms = np.linalg.norm(f, axis=0)
        require(np.all(np.abs(norms - 1) < UNIT), '{}: columns of factor {} have norms {}', what, i, norms)
        if nonneg:
            require(np.all(f >= 0), '{}: factor {} has negative entries', what, i)


def is_random(factors, what):
    """Columns of enough entries are not the same all over."""
    cols = np.concatenate([np.ravel(f) for f in factors if f.shape[0] > 1] or [np.zeros(0)])
    if cols.size >= 6:
        require(np.unique(np.round(np.abs(cols), 12)).size > cols.size // 3, '{} is not random: {}', what, cols[:6])


def run_data(case):
    from tenkit import utils
    sizes = tuple(case['sizes']) if case['tuple'] else list(case['sizes'])
    rank, noise_factor = case['rank'], case['noise']
    nonneg = case['nonneg']
    f = utils.create_non_negative_data if nonneg else utils.create_data
    if noise_factor is None:
        tensor, factors, norms, noise = f(sizes, rank)
        noise_factor = 0
    else:
        tensor, factors, norms, noise = f(sizes=sizes, rank=rank, noise_factor=noise_factor)
    what = f.__name__
    check_unit(factors, sizes, rank, what, nonneg)
    is_random(factors, what)
    clean = ref.kruskal([np.asarray(x) for x in factors])
    size = np.linalg.norm(clean)
    as_array(tensor, sizes, f'{what}, tensor')
    as_array(noise, sizes, f'{what}, noise')
    close(np.linalg.norm(noise), size, 1e-9, f'{what}, norm of the noise', scale=size + 1e-3 * ref.kruskal_scale([np.asarray(x) for x in factors]))
    close(tensor, clean + noise_factor * noise, 1e-10, f'{what}, tensor', scale=ref.kruskal_scale([np.asarray(x) for x in factors]) + abs(noise_factor) * size)
    require(len(norms) == len(sizes), '{}: {} norms for {} modes', what, len(norms), len(sizes))
    for n in norms:
        require(np.size(n) == rank and np.all(np.asarray(n) > 0), '{}: the norms of the columns are {}', what, n)
    return (['trivial'] if rank == 1 and len(sizes) == 2 or np.prod(sizes) < 2 else []) + ['non-negative' if nonneg else 'normal', f'order {len(sizes)}']


def run_factors(case):
    from tenkit import utils
    sizes = tuple(case['sizes']) if case['tuple'] else list(case['sizes'])
    f = utils.create_random_uniform_factors if case['nonneg'] else utils.create_random_factors
    factors, norms = f(sizes, case['rank'])
    check_unit(factors, sizes, case['rank'], f.__name__, case['nonneg'])
    is_random(factors, f.__name__)
    require(len(norms) == len(sizes) and all(np.size(n) == case['rank'] and np.all(np.asarray(n) > 0) for n in norms), '{}: norms {}', f.__name__, norms)
    if not case['nonneg'] and sum(sizes) * case['rank'] > 40 and min(sizes) > 1:
        share = np.mean(np.concatenate([np.ravel(x) for x in factors]) < 0)
        require(0.02 < share < 0.98, '{}: a share of {} is negative', f.__name__, share)
    return (['trivial'] if case['rank'] == 1 and np.prod(sizes) < 2 else []) + ['uniform' if case['nonneg'] else 'normal']


def run_kruskal(case):
    from tenkit.decomposition import KruskalTensor
    sizes = tuple(case['sizes']) if case['tuple'] else list(case['sizes'])
    rank, method = case['rank'], case['method']
    if method.lower() not in ('normal', 'uniform'):
        expect_raises((ValueError,), lambda: KruskalTensor.random_init(sizes, rank, random_method=method), f'random_init with method {method!r}')
        return ['refused']
    T = KruskalTensor.random_init(sizes, rank) if case['default'] else KruskalTensor.random_init(sizes, rank, random_method=method)
    uniform = not case['default'] and method.lower() == 'uniform'
    require(type(T) is KruskalTensor, 'random_init returned {}', type(T).__name__)
    check_unit(T.factor_matrices, sizes, rank, 'random_init', uniform)
    is_random(T.factor_matrices, 'random_init')
    require(np.array_equal(np.asarray(T.weights), np.ones(rank)), 'the weights of a random Kruskal tensor are {}', T.weights)
    require(T.rank == rank and list(T.shape) == list(sizes), 'a random Kruskal tensor of sizes {} and rank {} reports {} and {}', sizes, rank, T.shape, T.rank)
    if not uniform and sum(sizes) * rank > 40 and min(sizes) > 1:
        share = np.mean(np.concatenate([np.ravel(x) for x in T.factor_matrices]) < 0)
        require(0.02 < share < 0.98, 'random_init: a share of {} is negative', share)
    return (['trivial'] if rank == 1 and np.prod(sizes) < 2 else []) + ['uniform' if uniform else 'normal']


def run_parafac2(case):
    from tenkit.decomposition import Parafac2Tensor
    I, K, rank = case['I'], case['K'], case['rank']
    widths = case['widths']
    J = [widths] * K if isinstance(widths, int) else widths
    sizes = [I, widths if isinstance(widths, int) or not case['inner_tuple'] else tuple(widths), K]
    if case['tuple']:
        sizes = tuple(sizes)
    if min(J) < rank:       # no orthonormal projections exist
        expect_raises((Exception,), lambda: Parafac2Tensor.random_init(sizes, rank).construct_slices(), f'random_init of rank {rank} with slices of widths {J}')
        return ['too narrow']
    import copy
    given = copy.deepcopy(sizes)
    T = Parafac2Tensor.random_init(sizes, rank)
    require(given == sizes, 'random_init changed the sizes it was given from {} to {}', given, sizes)
    require(type(T) is Parafac2Tensor, 'random_init returned {}', type(T).__name__)
    as_array(T.A, (I, rank), 'A of a random PARAFAC2 tensor')
    as_array(T.C, (K, rank), 'C of a random PARAFAC2 tensor')
    as_array(T.blueprint_B, (rank, rank), 'blueprint of a random PARAFAC2 tensor')
    require(len(T.projection_matrices) == K, '{} projections for {} slices', len(T.projection_matrices), K)
    for k, P in enumerate(T.projection_matrices):
        as_array(P, (J[k], rank), f'projection {k} of a random PARAFAC2 tensor')
        close(P.T @ P, np.identity(rank), 1e-10, f'Gram matrix of projection {k} of a random PARAFAC2 tensor')
    require(T.rank == rank, 'a random PARAFAC2 tensor of rank {} reports {}', rank, T.rank)
    for k in range(K):
        close(T.construct_slice(k), T.A @ np.diag(T.C[k]) @ (T.projection_matrices[k] @ T.blueprint_B).T, 1e-10, f'slice {k}')
        require(np.linalg.norm(T.construct_slice(k)) > 0, 'slice {} of a random PARAFAC2 tensor is zero', k)
    is_random([T.A, T.C], 'random PARAFAC2 tensor')
    if K > 1 and max(J) > 1:
        for k in range(1, K):
            require(T.projection_matrices[k].shape != T.projection_matrices[0].shape or J[k] == 1 or not np.array_equal(T.projection_matrices[k], T.projection_matrices[0]), 'the projections are not random')
    return (['trivial'] if rank == 1 and K == 1 else []) + ['regular' if isinstance(widths, int) else 'widths given']


@st.composite
def data_cases(draw, noise=True):
    return dict(sizes=draw(gen.shapes(2, 5, 8, 400, big=True, high=True)), rank=draw(st.integers(1, 7)), nonneg=draw(st.booleans()), tuple=draw(st.booleans()), np_seed=draw(gen.seeds),
                noise=draw(st.sampled_from([0.5, None, 0, 1, 0.1, 0.33, 2.0, 100, 1e-6])))


@st.composite
def kruskal_cases(draw):
    return dict(sizes=draw(gen.shapes(2, 5, 8, 400, big=True, high=True)), rank=draw(st.integers(1, 7)), tuple=draw(st.booleans()), np_seed=draw(gen.seeds), default=draw(st.integers(0, 3)) == 3,
                method=draw(st.sampled_from(['uniform', 'normal', 'Uniform', 'NORMAL', 'Normal', 'uniform ', '', 'gaussian', 'svd', 'unif'])))


@st.composite
def parafac2_cases(draw):
    rank, K = draw(st.integers(1, 4)), draw(st.integers(1, 13))
    low = rank if draw(st.integers(0, 9)) else 1
    widths = draw(st.one_of(st.integers(low, low + 5), st.lists(st.integers(low, low + 5), min_size=K, max_size=K)))
    return dict(I=draw(st.integers(1, 7)), K=K, rank=rank, widths=widths, tuple=draw(st.booleans()), inner_tuple=draw(st.booleans()), np_seed=draw(gen.seeds))


SUBS = [
    Sub('data', data_cases(), run_data, 2500),
    Sub('factors', data_cases(), run_factors, 1500),
    Sub('kruskal', kruskal_cases(), run_kruskal, 2000),
    Sub('parafac2', parafac2_cases(), run_parafac2, 2000),
]
