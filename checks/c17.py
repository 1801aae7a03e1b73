import numpy as np
from hypothesis import strategies as st
from tkv import gen, ref
from tkv.core import Sub, Violation, close, number, require, expect_raises

RULE = ('Third order data (fitting exactly, noisy or unrelated; any layout, integer typed) with factors of full column rank (condition number at most 1e2 after normalisation, components of comparable size: at most 1e6 apart), rank 1-5, '
        'any weights, unevenly scaled modes; PARAFAC2 data with equal or different slice widths. Oracle: the core by pseudo-inverses of the rescaled factors, '
        '100 for exact data, invariance under reordering and rescaling, agreement of the PARAFAC2 version with the one on projected data. '
        'Non-trivial: rank above one and data that do not fit exactly.')


def full_rank(rng, sizes, rank, kind):
    """Factors of full column rank after normalisation, or None."""
    out = []
    for n in sizes:
        for kind_ in (kind, 'normal', 'normal', 'orthonormal'):
            f = gen.content(rng, (n, rank), kind_)
            norms = np.linalg.norm(f, axis=0)
            if norms.min() > 1e-4 and np.linalg.cond(f / norms) < 1e2:
                break
        out.append(f)
    return out


def rebalanced(rng, factors, amount=1):
    rank = factors[0].shape[1]
    shift = rng.uniform(-amount, amount, (3, rank))
    shift -= shift.mean(axis=0)
    signs = rng.choice([-1, 1], (3, rank))
    signs[2] = signs[0] * signs[1]
    return [f * s * 10.0 ** a for f, a, s in zip(factors, shift, signs)]


def tolerance(X, factors, value, found):
    norms = [np.linalg.norm(f, axis=0) for f in factors]
    unit = [f / n for f, n in zip(factors, norms)]
    cond = np.prod([np.linalg.cond(f) for f in unit])
    weights = np.prod(norms, axis=0)
    core = np.linalg.norm(X) * cond / weights.min()     # bound on the core, whose rounding errors count
    eps = 1e-15 * 30 / min(n.min() for n in norms)      # 1e-15 is added to norms by design; scale is moved by a factor 10 or so below
    return cond, 100 * eps * (1 + np.linalg.norm(found)) ** 2 + 1e-11 * cond * (1 + core) * (1 + np.linalg.norm(found)) + 1e-7 * abs(value)


def run_kruskal(case):
    from tenkit import metrics
    from tenkit.decomposition import KruskalTensor
    rng = np.random.default_rng(case['seed'])
    rank, shape = case['rank'], case['shape']
    factors = full_rank(rng, shape, rank, case['kind'])
    weights = gen.build_weights(dict(rank=rank, weights=case['weights'], wseed=case['seed']))
    if case['weights'] == 'ints':
        weights = np.where(weights == 0, 2, weights)
    w = np.ones(rank) if weights is None else np.asarray(weights, dtype=float)
    fit = ref.kruskal(factors, w)
    X = {'exact': fit, 'noisy': fit + 0.3 * np.linalg.norm(fit) / np.sqrt(fit.size) * rng.standard_normal(shape),
         'unrelated': rng.standard_normal(shape) * np.linalg.norm(fit), 'zero': np.zeros(shape), 'ints': np.rint(fit + rng.standard_normal(shape))}[case['data']]
    X = gen.layout_as(X.astype('i8') if case['data'] == 'ints' else X, case['layout'])
    absorbed = [factors[0] * w, factors[1], factors[2]]
    want, core = ref.core_consistency(X, *absorbed, normalized=case['normalized'])
    cond, tol = tolerance(np.asarray(X, float), absorbed, want, core)
    if case['normalized']:
        size = np.linalg.norm(core)
        if size < 1e-3:
            return ['trivial', 'core vanishes']
        tol *= max(1, 1 / size ** 4)
    sizes = np.prod([np.linalg.norm(f, axis=0) for f in absorbed], axis=0)
    if tol > 1e-2 * max(1, abs(want)) or sizes.max() > 1e6 * sizes.min():
        return ['trivial', 'badly conditioned']
    T = KruskalTensor([f.copy() for f in factors], weights)
    kwargs = dict(normalized=case['normalized']) if case['normalized'] or case['explicit'] else {}

    def judge(value, what):
        value = number(value, what)
        require(abs(value - want) <= tol, '{}: {:.12g}, expected {:.12g}', what, value, want)
    before = [f.copy() for f in T.factor_matrices] + [np.array(T.weights), np.array(X)]
    judge(T.core_consistency(X, **kwargs), 'core consistency of the Kruskal tensor')
    judge(metrics.core_consistency(X, *absorbed, **kwargs), 'core consistency')
    after = list(T.factor_matrices) + [T.weights, X]
    require(all(np.array_equal(a, b) for a, b in zip(before, after)), 'the tensor or the data were changed')
    if case['data'] == 'exact':
        require(abs(want - 100) < max(tol, 1e-6), 'reference: {}', want)
    p = rng.permutation(rank)
    judge(metrics.core_consistency(X, *[f[:, p] for f in absorbed], **kwargs), 'core consistency after reordering the components')
    judge(metrics.core_consistency(X, *rebalanced(rng, absorbed), **kwargs), 'core consistency after moving scale and signs between modes')
    q = [int(i) for i in rng.permutation(3)]
    judge(metrics.core_consistency(np.transpose(X, q), *[absorbed[i] for i in q], **kwargs), f'core consistency with the modes in order {q}')
    c = 10.0 ** rng.uniform(-1, 1)
    judge(metrics.core_consistency(np.asarray(X) * c, absorbed[0] * c, absorbed[1], absorbed[2], **kwargs), 'core consistency of scaled data and model')
    return (['trivial'] if rank < 2 or case['data'] in ('exact', 'zero') else []) + [case['data'], 'normalised' if case['normalized'] else 'plain', 'weights ' + case['weights']]


@st.composite
def kruskal_cases(draw):
    rank = draw(st.sampled_from([2, 3, 2, 4, 1, 5]))
    return dict(shape=[rank + draw(st.integers(0, 4)) for _ in range(3)], rank=rank, seed=draw(gen.seeds), weights=draw(st.sampled_from(['positive', 'none', 'ones', 'negative', 'ints'])),
                kind=draw(st.sampled_from(['normal', 'uniform', 'scaled_columns', 'ints', 'near_collinear', 'orthonormal', 'shifted'])),
                data=draw(st.sampled_from(['noisy', 'unrelated', 'exact', 'ints', 'zero'])), layout=draw(gen.layouts),
                normalized=draw(st.booleans()), explicit=draw(st.booleans()))


def run_refused(case):
    from tenkit.decomposition import KruskalTensor
    rng = np.random.default_rng(case['seed'])
    factors = full_rank(rng, case['shape'], case['rank'], 'normal')
    T = KruskalTensor(factors)
    X = ref.kruskal(factors)
    expect_raises((ValueError,), lambda: T.core_consistency(X), f'core consistency of a tensor of order {len(case["shape"])}')
    return [f'order {len(case["shape"])}']


@st.composite
def refused(draw):
    return dict(shape=[draw(st.integers(2, 4)) for _ in range(draw(st.sampled_from([2, 4, 5])))], rank=draw(st.integers(1, 2)), seed=draw(gen.seeds))


# -------------------------------------------------------------------------------------- PARAFAC2

def run_pf2(case):
    from tenkit import metrics
    rng = np.random.default_rng(case['seed'])
    rank, I, J, K = case['rank'], case['I'], case['J'], len(case['J'])
    A, D, C = full_rank(rng, (I, rank, K), rank, case['kind'])
    P = [gen.content(rng, (j, rank), 'orthonormal') for j in J]
    fit = [A @ np.diag(C[k]) @ (P[k] @ D).T for k in range(K)]
    size = np.sqrt(sum(np.linalg.norm(x) ** 2 for x in fit) / sum(x.size for x in fit))
    X = [x + {'exact': 0, 'noisy': 0.3, 'unrelated': 3}[case['data']] * size * rng.standard_normal(x.shape) for x in fit]
    Y = np.stack([x @ p for x, p in zip(X, P)], axis=2)
    want, core = ref.core_consistency(Y, A, D, C)
    cond, tol = tolerance(Y, [A, D, C], want, core)
    sizes = np.prod([np.linalg.norm(f, axis=0) for f in (A, D, C)], axis=0)
    if tol > 1e-2 * max(1, abs(want)) or sizes.max() > 1e6 * sizes.min():
        return ['trivial', 'badly conditioned']
    given = [gen.layout_as(x, case['layout']) for x in X]
    if len(set(J)) == 1 and case['as_array']:
        given = np.stack(X)
    before = [np.array(x) for x in given]

    def judge(value, what):
        value = number(value, what)
        require(abs(value - want) <= tol, '{}: {:.12g}, expected {:.12g}', what, value, want)
    judge(metrics.core_consistency_parafac2(given, P, A, D, C), 'PARAFAC2 core consistency')
    judge(metrics.core_consistency(Y, A, D, C), 'core consistency of the projected data')
    require(all(np.array_equal(a, b) for a, b in zip(before, given)), 'the data were changed')
    if case['data'] == 'exact':
        require(abs(want - 100) <= max(tol, 1e-6), 'reference: {}', want)
    p = rng.permutation(rank)
    A2, D2, C2 = rebalanced(rng, [f[:, p] for f in (A, D, C)])
    judge(metrics.core_consistency_parafac2(given, P, A2, D2, C2), 'PARAFAC2 core consistency after reordering and rescaling the components')
    q, _ = np.linalg.qr(rng.standard_normal((rank, rank)))
    judge(metrics.core_consistency_parafac2(given, [p @ q.T for p in P], A, q @ D, C), 'PARAFAC2 core consistency with rotated projections and blueprint')
    return (['trivial'] if rank < 2 or case['data'] == 'exact' else []) + [case['data'], 'regular' if len(set(J)) == 1 else 'irregular']


@st.composite
def pf2_cases(draw):
    rank = draw(st.sampled_from([2, 3, 2, 4, 1]))
    K = draw(st.integers(rank, 8))
    J = [draw(st.integers(rank, 7))] * K if draw(st.booleans()) else draw(st.lists(st.integers(rank, 8), min_size=K, max_size=K))
    return dict(I=rank + draw(st.integers(0, 4)), J=J, rank=rank, seed=draw(gen.seeds), kind=draw(st.sampled_from(['normal', 'uniform', 'scaled_columns', 'near_collinear'])),
                data=draw(st.sampled_from(['noisy', 'unrelated', 'exact'])), layout=draw(gen.layouts), as_array=draw(st.booleans()))


SUBS = [
    Sub('kruskal', kruskal_cases(), run_kruskal, 2400, weight=4),
    Sub('parafac2', pf2_cases(), run_pf2, 1600, weight=4),
    Sub('refused', refused(), run_refused, 60),
]
