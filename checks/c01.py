import numpy as np
from hypothesis import strategies as st
from tenkit import base
from tkv import gen, ref
from tkv.core import Sub, close, identical, require, as_array, expect_raises

RULE = ('Tensors of order 2-9 with sizes 1-9 (orders above 5 with sizes 1-3; now and then one mode up to 64), all modes, five memory layouts, f8/f4/i8; lists of 1-5 matrices. '
        'Non-trivial: the tensor (product) has at least two modes of size above one and more than one component '
        'where components exist.')
DT = ('f8', 'f8', 'f4', 'i8')
KINDS = ['normal', 'ints', 'sparse', 'shifted', 'uniform']


@st.composite
def unfold_case(draw):
    shape = draw(gen.shapes(2, 5, 9, 600, big=True, high=True))
    if draw(st.booleans()):
        shape = [draw(st.integers(1, 400))] if draw(st.integers(0, 9)) == 0 else shape
    return dict(x=gen.array(draw, shape, KINDS, dtypes=DT, scales=(1.0, 1.0, 1e-5, 1e6)), mode=draw(st.integers(-len(shape), len(shape) - 1)),
                as_list=draw(st.booleans()))


def triv(shape):
    return [] if sum(s > 1 for s in shape) >= 2 else ['trivial']


def run_unfold(case):
    X = gen.build(case['x'])
    mode = case['mode']
    before = X.copy()
    M = base.unfold(X, mode)
    expected = ref.unfold(X, mode)
    identical(M, expected, f'unfold(shape {X.shape}, mode {mode})')
    shape = list(X.shape) if case['as_list'] else X.shape
    kept = list(shape)
    back = base.fold(M, mode, shape)
    identical(back, before, f'fold(unfold(X, {mode}), {mode}, {tuple(shape)})')
    require(list(shape) == kept, 'fold changed the shape it was given')
    # any matrix in any layout is folded like that
    back2 = base.fold(np.asfortranarray(expected), mode, shape)
    identical(back2, before, f'fold of a Fortran ordered matrix, mode {mode}, {tuple(shape)}')
    rev = base.fold(gen.layout_as(expected, 'strided'), mode, shape)
    identical(rev, before, f'fold of a strided matrix, mode {mode}, {tuple(shape)}')
    return triv(X.shape) + [f'order{min(X.ndim, 6)}', 'negative mode' if mode < 0 else 'mode', case['x']['layout']]


@st.composite
def matrices_case(draw):
    n = draw(st.integers(1, 5))
    rank = draw(st.integers(1, 6) | st.integers(7, 20))
    rows, room = [], 700
    for i in range(n):
        k = draw(st.integers(1, max(1, min(draw(st.sampled_from([8, 8, 8, 40])), room))))
        rows.append(k)
        room //= k
    return dict(m=[gen.array(draw, (k, rank), KINDS + ['zero_column'], dtypes=DT, scales=(1.0, 1.0, 1e-5, 1e6)) for k in rows],
                skip=draw(st.none() | st.integers(-n, n - 1)), rank=rank)


def run_khatri_rao(case):
    ms = [gen.build(s) for s in case['m']]
    skip = case['skip']
    if len(ms) == 1:
        skip = None
    kept = [m for i, m in enumerate(ms) if skip is None or i != skip % len(ms)]
    expected = ref.khatri_rao(kept)
    out = base.khatri_rao(*ms, skip=skip)
    close(out, expected, 1e-5 if any(m.dtype == np.float32 for m in ms) else 1e-12, f'khatri_rao of {len(ms)} matrices, skip={skip}')
    if len(ms) >= 2 and skip is None:
        # as a tensor: rows are indexed with the first matrix slowest, and folding gives the Kruskal tensor
        T = base.ktensor(*ms)
        close(T, ref.kruskal(ms), 1e-4 if any(m.dtype == np.float32 for m in ms) else 1e-11,
              'ktensor', scale=ref.kruskal_scale(ms) + 1e-300)
        if len(ms) == 2:
            close(base.khatri_rao_binary(ms[0], ms[1]), expected, 1e-5, 'khatri_rao_binary')
    return (['trivial'] if len(kept) < 2 or case['rank'] == 1 else []) + [f'{len(ms)} matrices', 'skip' if skip is not None else 'no skip']


@st.composite
def kron_case(draw):
    n = draw(st.integers(1, 4))
    ms, rooms = [], [120, 120]
    for i in range(n):
        d = [draw(st.integers(1, max(1, min(6, room)))) for room in rooms]
        rooms = [r // k for r, k in zip(rooms, d)]
        ms.append(gen.array(draw, d, KINDS, dtypes=('f8', 'i8'), scales=(1.0, 1.0, 1e-5, 1e6)))
    return dict(m=ms)


def run_kron(case):
    ms = [gen.build(s) for s in case['m']]
    close(base.kron(*ms), ref.kron(*ms), 1e-12, f'kron of shapes {[m.shape for m in ms]}')
    if len(ms) == 2:
        close(base.kron_binary(*ms), ref.kron(*ms), 1e-12, 'kron_binary')
        u, v = ms[0][:, 0], ms[1][:, 0]
        close(base.kron_binary_vectors(u, v), np.outer(u, v).ravel(), 1e-12, 'kron_binary_vectors')
    return ['trivial'] if len(ms) < 2 or all(m.size == 1 for m in ms) else [f'{len(ms)} matrices']


@st.composite
def mttkrp_case(draw):
    shape = draw(gen.shapes(2, 5, 9, 500, big=True, high=True))
    rank = draw(st.integers(1, 6) | st.integers(7, 20))
    return dict(x=gen.array(draw, shape, KINDS, dtypes=DT, scales=(1.0, 1.0, 1e-5, 1e6)),
                f=[gen.array(draw, (n, rank), KINDS + ['zero_column'], dtypes=('f8', 'f8', 'f8', 'i8'), scales=(1.0, 1.0, 1e-5, 1e6)) for n in shape],
                mode=draw(st.integers(-1, len(shape) - 1)), rank=rank)


def run_mttkrp(case):
    X = gen.build(case['x'])
    fs = [gen.build(s) for s in case['f']]
    mode = case['mode']
    if mode == -1 and X.ndim == 2:
        mode = 1
    expected = ref.mttkrp(X, fs, mode)
    scale = np.linalg.norm(X.astype(float)) * np.prod([np.linalg.norm(f.astype(float)) for i, f in enumerate(fs) if i != mode % X.ndim])
    out = base.matrix_khatri_rao_product(X, fs, mode)
    close(out, expected, 1e-5 if X.dtype == np.float32 else 1e-12, f'MTTKRP of {X.shape}, rank {case["rank"]}, mode {mode}', scale=scale + 1e-300)
    return triv(X.shape) + [f'order{min(X.ndim, 6)} mode{mode}', case['x']['layout']]


@st.composite
def flat_case(draw):
    n = draw(st.integers(1, 6))
    rank = draw(st.integers(1, 6))
    return dict(f=[gen.array(draw, (draw(st.integers(1, 9)), rank), KINDS, dtypes=('f8', 'f8', 'f4', 'i8')) for _ in range(n)], rank=rank)


def run_flat(case):
    fs = [gen.build(s) for s in case['f']]
    rank = case['rank']
    v = base.flatten_factors(fs)
    v = as_array(v, (sum(f.size for f in fs),), 'flatten_factors')
    close(v, np.concatenate([[x for row in f for x in row] for f in fs]), 1e-15, 'flatten_factors')
    back = base.unflatten_factors(v, rank, [len(f) for f in fs])
    require(len(back) == len(fs), 'unflatten_factors gives {} matrices, expected {}', len(back), len(fs))
    for i, (b, f) in enumerate(zip(back, fs)):
        identical(b, f, f'unflatten_factors(flatten_factors(...))[{i}]')
    w = np.random.default_rng(case['f'][0]['seed']).standard_normal(v.size)
    again = base.flatten_factors(base.unflatten_factors(w, rank, tuple(len(f) for f in fs)))
    identical(again, w, 'flatten_factors(unflatten_factors(v))')
    return ['trivial'] if len(fs) < 2 else [f'{len(fs)} factors']


SUBS = [
    Sub('unfold_fold', unfold_case(), run_unfold, 4000),
    Sub('khatri_rao', matrices_case(), run_khatri_rao, 4000),
    Sub('kron', kron_case(), run_kron, 1500),
    Sub('mttkrp', mttkrp_case(), run_mttkrp, 4000),
    Sub('flatten', flat_case(), run_flat, 1500),
]
