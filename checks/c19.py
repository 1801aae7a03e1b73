import numpy as np
from hypothesis import strategies as st
from tkv import gen, ref
from tkv.core import Sub, Violation, close, identical, number, require, as_array
from checks.c16 import component_matrices

RULE = ('Factor matrices (tall, square or wide, rank 1-5, integer, near collinear, badly scaled) with data matrices that fit, nearly fit or do not fit them, or no data; '
        'Kruskal tensors of order 2-9 with any weights; evolving and PARAFAC2 tensors with 1-8 slices of equal or different widths. Oracle: signed squared loadings from '
        'pseudo-inverses, signs by the majority rule, slices and arrays before and after. Judged where the evidence is clearly nonzero. Non-trivial: rank above one '
        'and at least one component flipped.')


def loadings_evidence(F, X):
    """Signed squared least squares loadings, and their accuracy."""
    F = np.asarray(F, float)
    pinv = np.linalg.pinv(F)
    L = pinv @ X
    s = np.linalg.svd(F, compute_uv=False)
    zero = s < 1e-10 * s[0]
    cond = s[0] / s[~zero][-1]
    if np.any(zero & (s > 1e-14 * s[0])):
        cond = np.inf
    w = np.sum(np.sign(L) * L ** 2, axis=1)
    size = np.linalg.norm(X) / s[~zero][-1]
    return w, 1e-12 * cond ** 2 * size ** 2


def data_for(rng, F, n, relation):
    L = rng.standard_normal((F.shape[1], n))
    if relation == 'fits':
        return F @ L
    if relation == 'nearly':
        X = F @ L
        return X + 0.2 * np.linalg.norm(X) / np.sqrt(X.size) * rng.standard_normal(X.shape)
    if relation == 'one signed':
        return F @ (np.abs(L) * rng.choice([-1, 1], (F.shape[1], 1)))
    return rng.standard_normal((len(F), n))


def check_signs(F, X, got, what):
    """Signs and evidence returned for F. Returns the signs, 0 where undecided."""
    rank = F.shape[1]
    signs, weights = as_array(got[0], (rank,), what + ', signs'), as_array(got[1], (rank,), what + ', evidence')
    if X is None:
        w, tol = F.sum(axis=0), 1e-13 * np.abs(F).sum()
        require(np.all(np.abs(signs) == 1), '{}: signs {} are not all plus or minus one', what, signs)
    else:
        w, tol = loadings_evidence(F, X)
        require(np.all(np.abs(weights - w) <= tol + 1e-10 * np.abs(w)), '{}: evidence {}, expected {}', what, weights, w)
    clear = np.abs(w) > 10 * tol
    require(np.all(signs[clear] == np.sign(w[clear])), '{}: signs {}, expected {} for evidence {}', what, signs, np.sign(w), w)
    return np.where(clear, np.sign(w), 0)


def run_matrix(case):
    from tenkit import utils
    rng = np.random.default_rng(case['seed'])
    F = gen.content(rng, (case['n'], case['r']), case['kind']) * case['fscale']
    X = None if case['relation'] == 'no data' else data_for(rng, F, case['m'], case['relation']) * case['scale']
    F = gen.layout_as(F, case['layout'])
    if X is not None:
        X = gen.layout_as(X, case['layout'])
    if np.linalg.norm(F) == 0 or (X is not None and np.linalg.norm(X) == 0):
        return ['trivial', 'zero']
    before = F.copy()
    signs = check_signs(F, X, utils.get_signs(F, X), 'get_signs')
    identical(F, before, 'the factor after the call')
    # flipping a component flips its sign
    flips = rng.choice([-1, 1], case['r'])
    check_signs(np.asarray(F) * flips, X, utils.get_signs(np.asarray(F) * flips, X), 'get_signs of flipped components')
    if X is not None:
        check_signs(np.asarray(F), -X, utils.get_signs(F, -X), 'get_signs for negated data')
    # a pair of factors is fixed together
    G = rng.standard_normal((case['m'], case['r']))
    if case['relation'] != 'no data' or case['n'] > 0:
        Y = rng.standard_normal((case['n'], case['m'], 2)) if X is None else X.reshape(case['n'], case['m'], 1)
        data_driven = X is not None
        A, B = np.array(F), G.copy()
        F2, G2 = utils.signfix_normal_factors(Y, A, B, data_driven=data_driven) if not data_driven or case['explicit'] else utils.signfix_normal_factors(Y, A, B)
        identical(A, F, 'the fixed factor passed in')
        identical(B, G, 'the flipped factor passed in')
        ok = signs != 0
        close(np.asarray(F2)[:, ok], F[:, ok] * signs[ok], 1e-14, 'signs fixed by the data')
        close(np.asarray(G2)[:, ok], G[:, ok] * signs[ok], 1e-14, 'factor flipped along')
    return (['trivial'] if case['r'] < 2 or np.all(signs >= 0) else []) + [case['relation'], 'undecided' if np.any(signs == 0) else 'decided']


@st.composite
def matrix_cases(draw):
    return dict(n=draw(st.integers(1, 9)), fscale=draw(st.sampled_from([1.0, 1e-9, 1e5])), r=draw(st.sampled_from([2, 3, 1, 4, 5])), m=draw(st.integers(1, 9)), seed=draw(gen.seeds), layout=draw(gen.layouts),
                kind=draw(st.sampled_from(['normal', 'uniform', 'ints', 'near_collinear', 'scaled_columns', 'negative', 'equal_columns', 'sparse'])), explicit=draw(st.booleans()),
                scale=draw(st.sampled_from([1.0, 1e-3, 1e4, 1e-9])), relation=draw(st.sampled_from(['nearly', 'fits', 'one signed', 'no fit', 'no data'])))


def run_kruskal(case):
    from tenkit.decomposition import KruskalTensor
    rng = np.random.default_rng(case['seed'])
    rank, shape = case['rank'], case['shape']
    factors = [f * case['scales'][i % 3] for i, f in enumerate(component_matrices(rng, shape, rank, case['kind']))]
    weights = gen.build_weights(dict(rank=rank, weights=case['weights'], wseed=case['seed']))
    fit = ref.kruskal([f * rng.choice([-1, 1], rank) for f in factors], weights)
    X = fit + case['noise'] * np.linalg.norm(fit) / np.sqrt(fit.size) * rng.standard_normal(shape)
    if np.linalg.norm(X) == 0:
        return ['trivial', 'zero']
    X = gen.layout_as(X, case['layout'])
    T = KruskalTensor([f.copy() for f in factors], weights)
    before = T.construct_tensor().copy()
    scores = T.get_sign_scores(X)
    require(len(scores) == len(shape), '{} sign scores for {} modes', len(scores), len(shape))
    evidence, clear = np.empty((len(shape), rank)), np.ones(rank, bool)
    for m, f in enumerate(factors):
        w, tol = loadings_evidence(f, np.moveaxis(np.asarray(X), m, 0).reshape(shape[m], -1))
        got = as_array(scores[m], (rank,), f'sign scores of mode {m}')
        require(np.all(np.abs(got - w) <= tol + 1e-10 * np.abs(w)), 'sign scores {} of mode {}, expected {}', got, m, w)
        evidence[m] = w
        clear &= np.abs(w) > 10 * tol
    signs = T.get_signs(X)
    require(len(signs) == len(shape), 'signs for {} of {} modes', len(signs), len(shape))
    signs = np.stack([as_array(s, (rank,), 'signs').astype(int) for s in signs])
    overruled = False
    for r in range(rank):
        if not clear[r]:
            continue
        want = np.sign(evidence[:, r]).astype(int)
        if np.prod(want) == -1:
            order = np.sort(np.abs(evidence[:, r]))
            overruled = True
            if len(order) > 1 and order[1] - order[0] < 1e-8 * order[1]:
                require(np.prod(signs[:, r]) == 1 and np.sum(signs[:, r] != want) == 1, 'component {}: signs {} for evidence {}', r, signs[:, r], evidence[:, r])
                continue
            want[np.argmin(np.abs(evidence[:, r]))] *= -1
        require(np.array_equal(signs[:, r], want), 'component {}: signs {}, expected {} for evidence {}', r, signs[:, r], want, evidence[:, r])
    if clear.all():
        flipped = KruskalTensor([f * s for f, s in zip(factors, signs)], weights)
        close(flipped.construct_tensor(), before, 1e-12, 'array after flipping by the signs found', scale=ref.kruskal_scale(factors, weights) + 1e-300)
    for a, b in zip(T.factor_matrices, factors):
        identical(a, b, 'a factor after the call')
    return (['trivial'] if rank < 2 or np.all(signs[:, clear] == 1) else []) + [f'order {len(shape)}', 'overruled' if overruled else 'consistent', 'decided' if clear.all() else 'undecided']


@st.composite
def kruskal_cases(draw):
    return dict(shape=draw(gen.shapes(2, 5, 6, 300, high=True)), rank=draw(st.sampled_from([2, 3, 1, 4])), seed=draw(gen.seeds), layout=draw(gen.layouts), scales=[draw(st.sampled_from([1.0, 1e-7, 1e4])) for _ in range(3)],
                weights=draw(st.sampled_from(['none', 'positive', 'normal'])), noise=draw(st.sampled_from([0.1, 0.0, 0.5, 3.0])),
                kind=draw(st.sampled_from(['normal', 'uniform', 'near_collinear', 'negative', 'ints', 'shifted'])))


def run_evolving(case):
    from tenkit import utils
    from tenkit.decomposition import EvolvingTensor, Parafac2Tensor
    rng = np.random.default_rng(case['seed'])
    rank, I, J = case['rank'], case['I'], case['J']
    K = len(J)
    sa, sb, sc = case['scales']
    absent = rng.random((K, rank)) < (0.3 if case['absent'] else 0)     # components that are not in every slice
    if case['parafac2']:
        A, D, C = component_matrices(rng, (I, rank, K), rank, case['kind'])
        A, D, C = A * sa, D * sb, np.where(absent, 0, C * sc)
        P = [gen.content(rng, (j, rank), 'orthonormal') for j in J]
        Bs = [p @ D for p in P]
        T = Parafac2Tensor(A.copy(), D.copy(), C.copy(), P)
    else:
        A, C = component_matrices(rng, (I, K), rank, case['kind'])
        A, C = A * sa, np.where(absent, 0, C * sc)
        Bs = [component_matrices(rng, (j,), rank, case['kind'])[0] * sb for j in J]
        T = EvolvingTensor(A.copy(), np.stack(Bs) if case['as_array'] and len(set(J)) == 1 else [b.copy() for b in Bs], C.copy())
    fit = ref.pf2_slices(A * rng.choice([-1, 1], rank), Bs, C)
    X = [gen.layout_as(x + case['noise'] * (np.linalg.norm(x) / np.sqrt(x.size) + 1e-3 * sa * sb * sc) * rng.standard_normal(x.shape), case['layout']) for x in fit]
    before = [np.array(x) for x in X] + [np.array(T.A), np.array(T.C)] + [np.array(b) for b in T.B]
    slices = ref.pf2_slices(A, Bs, C)
    signs = []
    for b, x in zip(Bs, X):
        w, tol = loadings_evidence(b, x.T)
        signs.append(np.where(np.abs(w) > 10 * tol, np.sign(w), 0))
    if any(np.any(s == 0) for s in signs):
        return ['trivial', 'undecided']
    fixed = utils.fix_signs_evolving_tensor(T, X)
    after = [np.array(x) for x in X] + [np.array(T.A), np.array(T.C)] + [np.array(b) for b in T.B]
    require(all(np.array_equal(a, b) for a, b in zip(before, after)), 'the tensor or the data were changed')
    for k, (x, y) in enumerate(zip(fixed.construct_slices(), slices)):
        close(x, y, 1e-12, f'slice {k} after sign fixing', scale=sum(np.linalg.norm(A[:, r]) * abs(C[k, r]) * np.linalg.norm(Bs[k][:, r]) for r in range(rank)) + 1e-300)
        close(fixed.B[k], Bs[k] * signs[k], 1e-12, f'evolving factor {k} after sign fixing', scale=np.linalg.norm(Bs[k]))
        close(fixed.C[k], C[k] * signs[k], 1e-12, f'row {k} of the last factor after sign fixing', scale=np.linalg.norm(C[k]) + 1e-300)
    # without data
    B2, C2 = utils.signfix_evolving_factors(None, [b.copy() for b in Bs], C.copy(), data_driven=False)
    for k in range(K):
        sums, sizes = np.sum(np.asarray(B2[k]), axis=0), np.abs(Bs[k]).sum(axis=0)
        require(np.all(sums >= -1e-12 * sizes), 'sign fixing without data: column sums {} of evolving factor {}', sums, k)
        close(np.asarray(B2[k]) * C2[k], Bs[k] * C[k], 1e-13, f'slice {k} after sign fixing without data', scale=np.linalg.norm(Bs[k] * C[k]) + 1e-300)
    return (['trivial'] if rank < 2 or all(np.all(s == 1) for s in signs) else []) + ['parafac2' if case['parafac2'] else 'evolving', 'regular' if len(set(J)) == 1 else 'irregular']


@st.composite
def evolving_cases(draw):
    rank = draw(st.sampled_from([2, 3, 1, 4]))
    pf2 = draw(st.booleans())
    low = rank if pf2 else 1
    K = draw(st.integers(1, 8))
    J = [draw(st.integers(low, 7))] * K if draw(st.booleans()) else draw(st.lists(st.integers(low, 7), min_size=K, max_size=K))
    return dict(rank=rank, absent=draw(st.booleans()), parafac2=pf2, I=draw(st.integers(1, 6)), J=J, seed=draw(gen.seeds), as_array=draw(st.booleans()), layout=draw(gen.layouts),
                scales=[draw(st.sampled_from([1.0, 1e-8, 1e5, -1.0])) for _ in range(3)], noise=draw(st.sampled_from([0.2, 0.0, 1.0])), kind=draw(st.sampled_from(['normal', 'uniform', 'negative', 'shifted'])))


SUBS = [
    Sub('matrix', matrix_cases(), run_matrix, 3000),
    Sub('kruskal', kruskal_cases(), run_kruskal, 2400, weight=2),
    Sub('evolving', evolving_cases(), run_evolving, 1600, weight=2),
]
