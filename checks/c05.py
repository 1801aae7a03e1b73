import numpy as np
from hypothesis import strategies as st
from tenkit.decomposition import KruskalTensor, EvolvingTensor, Parafac2Tensor
from tkv import gen, ref
from tkv.core import Sub, close, identical, require, as_array, expect_raises

RULE = ('Evolving and PARAFAC2 tensors with 1-12 slices (now and then 13-130), 1-6 rows, slice widths 1-7 equal or all different, '
        'rank 1-5 (also above the sizes for evolving tensors), evolving factors as list or array, generic, integer, sparse, zero-column '
        'and negative contents; Kruskal tensors to convert. Non-trivial: rank above one and more than one slice.')

SCALES = (1.0, 1.0, 1.0, 1e-9, 1e6)


@st.composite
def evolving(draw, pf2=False, max_rank=5):
    I = draw(st.integers(1, 6))
    K = draw(st.integers(1, 6) | st.integers(1, 12) | st.integers(13, 40) | st.integers(95, 130) if draw(st.integers(0, 5)) == 0 else st.integers(1, 7))
    R = draw(st.integers(1, max_rank if K < 50 else 2))
    lo = R if pf2 else 1
    regular = draw(st.booleans())
    J = [draw(st.integers(lo, lo + 6))] * K if regular else draw(st.lists(st.integers(lo, lo + (6 if K < 50 else 2)), min_size=K, max_size=K))
    kinds = gen.GENERIC + ['zero_column', 'scaled_columns', 'equal_columns']
    case = dict(I=I, J=J, K=K, R=R, A=gen.array(draw, (I, R), kinds, scales=SCALES), C=gen.array(draw, (K, R), kinds, scales=SCALES), bscale=draw(st.sampled_from(SCALES)),
                seed=draw(gen.seeds), kind=draw(st.sampled_from(kinds)), layout=draw(gen.layouts),
                as_array=regular and draw(st.booleans()), warning=draw(st.booleans()),
                shared=draw(st.sampled_from([False, False, False, 'all', 'but the first'])))
    if pf2:
        case['blueprint'] = gen.array(draw, (R, R), kinds, scales=SCALES)
        case['projections'] = draw(st.sampled_from(['orthonormal', 'orthonormal', 'orthonormal', 'normal']))
    return case


def build(case):
    """(tensor, A, list of B_k, C)"""
    A, C = gen.build(case['A']), gen.build(case['C'])
    rng = np.random.default_rng(case['seed'])
    R = case['R']
    if 'blueprint' in case:
        P = [gen.layout_as(gen.content(rng, (j, R), case['projections']), case['layout']) for j in case['J']]
        D = gen.build(case['blueprint'])
        P = share(P, case['shared'])
        if case['shared'] == 'all' and A.shape == C.shape:
            C = A
        return Parafac2Tensor(A, D, C, P, warning=case['warning']), A, [p @ D for p in P], C, (P, D)
    Bs = [gen.content(rng, (j, R), case['kind']) * case['bscale'] for j in case['J']]
    Bs = share(Bs, case['shared'])
    given = gen.layout_as(np.stack(Bs), case['layout']) if case['as_array'] else share([gen.layout_as(b, case['layout']) for b in Bs], case['shared'])
    return EvolvingTensor(A, given, C, warning=case['warning']), A, Bs, C, None


def share(arrays, shared):
    return gen.share(arrays, shared) if shared != 'but the first' else arrays[:1] + gen.share(arrays[1:], True)


def labels(case):
    return (['trivial'] if case['R'] < 2 or case['K'] < 2 else []) + [
        'regular' if len(set(case['J'])) == 1 else 'irregular', 'array' if case['as_array'] else 'list'] + (['same arrays'] if case['shared'] and len(set(case['J'])) < case['K'] else []) + (['many slices'] if case['K'] > 12 else [])


def run_structure(case):
    T, A, Bs, C, pd = build(case)
    I, J, K, R = case['I'], case['J'], case['K'], case['R']
    slices = ref.pf2_slices(A, Bs, C)
    scales = [np.linalg.norm(A, axis=0) * np.abs(C[k]) @ np.linalg.norm(Bs[k], axis=0) + 1e-300 for k in range(K)]
    if pd is not None:
        scales = [np.sum(np.linalg.norm(A, axis=0) * np.abs(C[k])) * np.linalg.norm(pd[0][k]) * np.linalg.norm(pd[1]) + 1e-300 for k in range(K)]
    regular = len(set(J)) == 1
    require(T.rank == R, 'rank {}', T.rank)
    require(list(T.shape) == [I, max(J), K], 'shape is {}, expected {}', T.shape, [I, max(J), K])
    require([tuple(int(x) for x in s) for s in T.slice_shapes] == [(I, j) for j in J], 'slice_shapes is {}', T.slice_shapes)
    require(int(T.num_elements) == I * sum(J), 'num_elements is {}, expected {}', T.num_elements, I * sum(J))
    require(bool(T.all_same_size) == regular, 'all_same_size is {} for widths {}', T.all_same_size, J)

    built = T.construct_slices()
    require(len(built) == K, '{} slices, expected {}', len(built), K)
    for k in range(K):
        close(built[k], slices[k], 1e-12, f'slice {k} of construct_slices', scale=scales[k])
    for k in {0, K - 1, K // 2}:
        close(T[1][k - K], Bs[k], 1e-12, f'T[1][{k - K}]', scale=np.linalg.norm(Bs[k]) + 1e-300 if pd is None else np.linalg.norm(pd[0][k]) * np.linalg.norm(pd[1]) + 1e-300)
        close(T.construct_slice(k), slices[k], 1e-12, f'construct_slice({k})', scale=scales[k])
    if case['warning'] and not regular:
        expect_raises((Warning,), T.construct_tensor, 'constructing an irregular tensor with warnings on')
    else:
        X = as_array(T.construct_tensor(), (I, max(J), K), 'construct_tensor()')
        for k in range(K):
            close(X[:, :J[k], k], slices[k], 1e-12, f'slice {k} of construct_tensor', scale=scales[k])
            require(np.all(X[:, J[k]:, k] == 0), 'padding of slice {} is not zero', k)

    close(T.A, A, 0, 'A')
    close(T.C, C, 0, 'C')
    bscale = [np.linalg.norm(b) + 1e-300 for b in Bs]
    if pd is not None:
        bscale = [np.linalg.norm(p) * np.linalg.norm(pd[1]) + 1e-300 for p in pd[0]]
    require(len(T.B) == K, 'B has {} matrices', len(T.B))
    for k in range(K):
        close(T.B[k], Bs[k], 1e-12, f'B[{k}]', scale=bscale[k])
    close(T.B_unfolded, np.concatenate(Bs, axis=0), 1e-12, 'B_unfolded', scale=sum(bscale))
    close(T[0], A, 0, 'T[0]')
    close(T[2], C, 0, 'T[2]')
    close(T[1][K - 1], Bs[K - 1], 1e-12, 'T[1][-1]', scale=bscale[K - 1])
    expect_raises((IndexError,), lambda: T[3], 'T[3]')
    fms = T.factor_matrices
    close(fms[0], A, 0, 'factor_matrices[0]')
    close(fms[2], C, 0, 'factor_matrices[2]')
    if 'blueprint' not in case:
        T2 = EvolvingTensor.from_factor_matrices([A, Bs, C])
        for k, s in enumerate(T2.construct_slices()):
            close(s, slices[k], 1e-12, 'from_factor_matrices', scale=scales[k])
    return labels(case)


def run_pf2(case):
    T, A, Bs, C, (P, D) = build(case)
    labs = run_structure(case)
    R, K = case['R'], case['K']
    scale = np.linalg.norm(D) ** 2 + 1e-300
    if case['projections'] == 'orthonormal':
        for k in range(K):
            close(T.B[k].T @ T.B[k], D.T @ D, 1e-10, f'cross product of B_{k}', scale=scale)
    rng = np.random.default_rng(case['seed'] + 7)
    k = int(rng.integers(K))
    j, r = int(rng.integers(case['J'][k])), int(rng.integers(R))
    s2 = np.linalg.norm(P[k]) * np.linalg.norm(D) + 1e-300
    for b in (k - K, k):     # negative indices count from the end
        for _ in range(2):
            close(T.B[b], Bs[k], 1e-12, f'B[{b}]', scale=s2)
            close(T.B[b, j - case['J'][k]], Bs[k][j], 1e-12, f'B[{b}, {j - case["J"][k]}]', scale=s2)
    close(T.B[k, j], Bs[k][j], 1e-12, f'B[{k}, {j}]', scale=s2)
    close(T.B[k, j, r], Bs[k][j, r], 1e-12, f'B[{k}, {j}, {r}]', scale=s2)
    close(T.B[k, :, r], Bs[k][:, r], 1e-12, f'B[{k}, :, {r}]', scale=s2)
    as_list = T.B.as_list()
    require(len(as_list) == K, 'as_list gives {} matrices', len(as_list))
    for a, b in zip(as_list, Bs):
        close(a, b, 1e-12, 'B.as_list()', scale=s2 * 100)
    close(T.blueprint_B, D, 0, 'blueprint_B')
    require(len(T.projection_matrices) == K, '{} projection matrices', len(T.projection_matrices))
    for a, b in zip(T.projection_matrices, P):
        close(a, b, 0, 'projection matrix')
    DD = as_array(T.D, (R, K, K), 'D')
    for r in range(R):
        identical(DD[r], np.diag(C[:, r]), f'D[{r}]')
    # components add up
    total = [np.zeros((case['I'], j)) for j in case['J']]
    slices = ref.pf2_slices(A, Bs, C)
    scales = [np.sum(np.linalg.norm(A, axis=0) * np.abs(C[k])) * np.linalg.norm(P[k]) * np.linalg.norm(D) + 1e-300 for k in range(K)]
    for r in range(R):
        one = T.get_single_component_decomposition(r)
        require(one.rank == 1, 'a single component has rank {}', one.rank)
        for k, s in enumerate(one.construct_slices()):
            close(s, np.outer(A[:, r] * C[k, r], Bs[k][:, r]), 1e-12, f'slice {k} of component {r}', scale=scales[k])
            total[k] = total[k] + s
    for k in range(K):
        close(total[k], slices[k], 1e-11, f'sum of components, slice {k}', scale=scales[k])
    # changing the blueprint or a projection changes the evolving factors
    T.projection_matrices[k][...] = -T.projection_matrices[k]
    for i in range(min(K, 5)):
        close(T.B[i], -Bs[i] if i == k else Bs[i], 1e-12, f'B[{i}] after changing the sign of projection {k}', scale=np.linalg.norm(P[i]) * np.linalg.norm(D) + 1e-300)
    T.projection_matrices[k][...] = -T.projection_matrices[k]
    T.blueprint_B[...] = T.blueprint_B * 2
    close(T.B[k], 2 * Bs[k], 1e-12, 'B_k after doubling the blueprint', scale=s2)
    return labs


@st.composite
def convert_case(draw):
    return draw(gen.ktensors(3, 3, 7, 300, 5, weights=('none', 'ones', 'normal', 'ints', 'with_zero', 'negative')))


def run_convert(case):
    T = gen.build_ktensor(case)
    f0, w0 = [f.copy() for f in T.factor_matrices], T.weights.copy()
    expected = ref.kruskal(f0, w0)
    scale = ref.kruskal_scale(f0, w0) + 1e-300
    E = EvolvingTensor.from_kruskaltensor(T)
    close(E.construct_tensor(), expected, 1e-12, 'evolving tensor from a Kruskal tensor', scale=scale)
    for k, s in enumerate(E.construct_slices()):
        close(s, expected[:, :, k], 1e-12, f'slice {k} of an evolving tensor from a Kruskal tensor', scale=scale)
    require(list(E.shape) == list(T.shape), 'shape {} after conversion of {}', E.shape, T.shape)
    same = EvolvingTensor.from_kruskaltensor(E, allow_same_class=True)
    require(same is E, 'from_kruskaltensor(..., allow_same_class=True) copied an evolving tensor')
    for f, g in zip(T.factor_matrices, f0):
        identical(f, g, 'factor after conversion')
    identical(T.weights, w0, 'weights after conversion')
    bad = KruskalTensor(list(f0) + [np.ones((2, case['rank']))])
    expect_raises((ValueError,), lambda: EvolvingTensor.from_kruskaltensor(bad), 'fourth order Kruskal tensor as evolving tensor')
    return ['trivial'] if case['rank'] < 2 or case['shape'][2] < 2 else ['weights ' + case['weights']]


SUBS = [
    Sub('evolving', evolving(), run_structure, 4000),
    Sub('parafac2', evolving(pf2=True), run_pf2, 4000, weight=2),
    Sub('convert', convert_case(), run_convert, 1500),
]
