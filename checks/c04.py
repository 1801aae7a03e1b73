import numpy as np
from hypothesis import strategies as st
from tenkit import utils
from tenkit.decomposition import KruskalTensor
from tkv import gen, ref
from tkv.core import Sub, close, identical, require, as_array

RULE = ('Histories of 1-8 operations (normalise with or without updating weights, reset weights, permute, flip and absorb, extract '
        'norms and absorb) on Kruskal tensors of order 2-5, rank 1-6, any weights, columns of norm 0 or above 1e-4; helper functions on lists '
        'of matrices. Non-trivial: rank above one and an operation that changes some factor.')
OPS = ['normalize', 'normalize', 'normalize_keep_weights', 'reset_weights', 'permute', 'flip', 'norms', 'prepare', 'scale']


@st.composite
def history(draw):
    case = draw(gen.ktensors(2, 5, 6, 300, 6, with_layout=True))
    case['ops'] = draw(st.lists(st.tuples(st.sampled_from(OPS), gen.seeds).map(list), min_size=1, max_size=8))
    case['f4'] = False
    return case


def clamp(f):
    """Scale up columns that are shorter than 1e-3 but not zero, in place: 1e-15 is added to norms by design."""
    norms = np.linalg.norm(f, axis=0)
    f[...] = f * np.where((norms > 0) & (norms < 1e-3), 1 / np.where(norms > 0, norms, 1), 1).astype(f.dtype)
    return f


def run_history(case):
    factors = [clamp(f) for f in gen.build_factors(case)]
    T = KruskalTensor(factors, gen.build_weights(case))
    w = gen.build_weights(case)
    model_f = [f.copy() for f in factors]
    model_w = np.ones(case['rank']) if w is None else np.array(w, dtype=float)
    X = ref.kruskal(model_f, model_w)
    scale = ref.kruskal_scale(model_f, model_w) + 1e-300
    changed = False
    for op, seed in case['ops']:
        rng = np.random.default_rng(seed)
        if op in ('normalize', 'normalize_keep_weights'):
            returned = T.normalize_components(update_weights=(op == 'normalize'))
            require(returned is T, 'normalize_components returned another object')
            for i, f in enumerate(T.factor_matrices):
                norms = np.linalg.norm(f, axis=0)
                old = np.linalg.norm(model_f[i], axis=0)
                close(norms, (old > 0).astype(float), 1e-9, f'column norms of factor {i} after normalising', scale=1)
                model_f[i] = model_f[i] / np.where(old > 0, old, 1)
                if op == 'normalize':
                    model_w = model_w * old
                changed = changed or bool(np.any(np.abs(old - 1) > 1e-6))
            if op == 'normalize_keep_weights':
                X = ref.kruskal(model_f, model_w)
                scale = ref.kruskal_scale(model_f, model_w) + 1e-300
        elif op == 'reset_weights':
            T.reset_weights()
            model_w = np.ones(case['rank'])
            identical(T.weights, model_w, 'weights after reset_weights')
            X = ref.kruskal(model_f, model_w)
            scale = ref.kruskal_scale(model_f, model_w) + 1e-300
        elif op == 'permute':
            perm = rng.permutation(case['rank'])
            perm = [tuple(int(p) for p in perm), [int(p) for p in perm], perm][seed % 3]
            before = [f.copy() for f in T.factor_matrices], T.weights.copy()
            fs, ws = utils.permute_factors_and_weights(perm, T.factor_matrices, T.weights)
            only = utils.permute_factors(perm, T.factor_matrices)
            for i in range(len(fs)):
                for r, p in enumerate(perm):
                    identical(fs[i][:, r], before[0][i][:, p], f'column {r} of permuted factor {i}')
                identical(only[i], fs[i], f'permute_factors, factor {i}')
                identical(T.factor_matrices[i], before[0][i], 'factor given to permute_factors_and_weights')
            identical(T.weights, before[1], 'weights given to permute_factors_and_weights')
            T = KruskalTensor([f.copy() for f in fs], ws)
            model_f = [f[:, list(perm)] for f in model_f]
            model_w = model_w[list(perm)]
            changed = changed or case['rank'] > 1
        elif op == 'flip':
            flipped, signs = utils.flip_factors(T.factor_matrices)
            check_signs(flipped, signs, T.factor_matrices, 'flip_factors')
            T = KruskalTensor(flipped, T.weights * np.prod([np.where(s == 0, 1, s) for s in signs], axis=0))
            model_f = [f * np.where(s == 0, 1, s) for f, s in zip(model_f, signs)]
            model_w = model_w * np.prod([np.where(s == 0, 1, s) for s in signs], axis=0)
            changed = True
        elif op == 'norms':
            fs, norms = utils.normalize_factors(T.factor_matrices)
            check_norms(fs, norms, T.factor_matrices, 'normalize_factors')
            T = KruskalTensor(fs, T.weights * np.prod(np.concatenate(norms), axis=0))
            old = [np.linalg.norm(f, axis=0) for f in model_f]
            model_f = [f / np.where(n > 0, n, 1) for f, n in zip(model_f, old)]
            model_w = model_w * np.prod(old, axis=0)
        elif op == 'prepare':
            given = [f.copy() for f in T.factor_matrices]
            fs, signs, norms = utils.prepare_for_comparison(T.factor_matrices)
            check_norms([f * s for f, s in zip(fs, signs)], norms, given, 'prepare_for_comparison')
            check_signs(fs, signs, [f / np.where(np.linalg.norm(f, axis=0) > 0, np.linalg.norm(f, axis=0), 1) for f in given], 'prepare_for_comparison')
            for f, g in zip(T.factor_matrices, given):
                identical(f, g, 'factor given to prepare_for_comparison')
        elif op == 'scale':
            c = rng.uniform(0.7, 5, case['rank']) * rng.choice([-1, 1], case['rank'])
            i = int(rng.integers(len(T.factor_matrices)))
            T.factor_matrices[i][...] = T.factor_matrices[i] * c
            model_f[i] = model_f[i] * c
            X = ref.kruskal(model_f, model_w)
            scale = ref.kruskal_scale(model_f, model_w) + 1e-300
        close(T.construct_tensor(), X, 1e-9, f'array after {op}', scale=scale)
        close(T.weights, model_w, 1e-9, f'weights after {op}', scale=np.linalg.norm(model_w) + 1e-300)
    return (['trivial'] if not changed or case['rank'] < 2 else []) + [op for op, _ in case['ops']]


def check_norms(normalized, norms, given, what):
    require(len(normalized) == len(norms) == len(given), '{}: wrong number of factors', what)
    for i, (f, n, g) in enumerate(zip(normalized, norms, given)):
        old = np.linalg.norm(g, axis=0)
        n = as_array(n, None, f'{what}: norms {i}')
        require(n.size == old.size, '{}: {} norms for {} columns', what, n.size, old.size)
        close(n.ravel(), old, 1e-12, f'{what}: norms of factor {i}', scale=np.linalg.norm(old) + 1e-300)
        close(np.linalg.norm(f, axis=0), (old > 0).astype(float), 1e-9, f'{what}: norms of normalised factor {i}', scale=1)
        close(np.asarray(f) * n.reshape(1, -1), g, 1e-9, f'{what}: normalised factor {i} times norms', scale=np.linalg.norm(g) + 1e-300)


def check_signs(flipped, signs, given, what):
    require(len(flipped) == len(signs) == len(given), '{}: wrong number of factors', what)
    for i, (f, s, g) in enumerate(zip(flipped, signs, given)):
        s = as_array(s, (g.shape[1],), f'{what}: signs of factor {i}')
        nonzero = np.any(g != 0, axis=0)
        require(np.all(np.abs(s[nonzero]) == 1), '{}: signs {} of factor {}', what, s, i)
        close(np.asarray(f) * s, g, 1e-9, f'{what}: flipped factor {i} times signs', scale=np.linalg.norm(g) + 1e-300)
        for r in range(g.shape[1]):
            column = np.sign(np.asarray(f)[:, r])
            total = column.sum()
            first = column[column != 0][0] if np.any(column) else 1
            require(total > 0 or (total == 0 and first > 0),
                    '{}: column {} of factor {} has {} positive and {} negative entries, the first one {}', what, r, i,
                    int((column > 0).sum()), int((column < 0).sum()), int(first))


@st.composite
def helper_case(draw):
    n, rank = draw(st.integers(1, 5)), draw(st.integers(1, 6))
    return dict(f=[gen.array(draw, (draw(st.integers(1, 9)), rank), gen.GENERIC + gen.DEGENERATE + ['nonneg_ints'], dtypes=('f8', 'f8', 'f4', 'i8')) for _ in range(n)],
                rank=rank, small=draw(st.sampled_from([1e-12, 1e-100, 1e50])))


def run_helpers(case):
    given = [clamp(gen.build(s)) for s in case['f']]
    before = [g.copy() for g in given]
    exact = [g.astype(float) for g in given]
    if not any(g.dtype == np.float32 for g in given):
        fs, norms = utils.normalize_factors(given)
        check_norms(fs, norms, exact, 'normalize_factors')
        f, n = utils.normalize_factor(given[0])
        check_norms([f], [n], exact[:1], 'normalize_factor')
        fs, signs, norms = utils.prepare_for_comparison(given)
        check_norms([f * s for f, s in zip(fs, signs)], norms, exact, 'prepare_for_comparison')
        check_signs(fs, signs, [g / np.where(np.linalg.norm(g, axis=0) > 0, np.linalg.norm(g, axis=0), 1) for g in exact], 'prepare_for_comparison')
        for c in (1.0, case['small']):
            scaled = [g * c for g in exact]
            fs, signs = utils.flip_factors(scaled)
            check_signs(fs, signs, scaled, f'flip_factors (data times {c})')
    else:
        fs, signs = utils.flip_factors([g for g in given if g.dtype != np.int64])
        check_signs(fs, signs, [g for g in given if g.dtype != np.int64], 'flip_factors')
    for g, b in zip(given, before):
        identical(g, b, 'matrix given to a helper')
    return ['trivial'] if case['rank'] < 2 else [f'{len(given)} factors']


SUBS = [
    Sub('history', history(), run_history, 4000),
    Sub('helpers', helper_case(), run_helpers, 3000),
]
