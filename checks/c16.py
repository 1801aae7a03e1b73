import itertools
import numpy as np
from hypothesis import strategies as st
from tkv import gen, ref
from tkv.core import Sub, Violation, close, number, require, expect_raises

RULE = ('Pairs of decompositions of the same sizes: Kruskal (order 2-9, any weights), evolving and PARAFAC2 tensors (1-8 slices of equal or different widths), '
        'plain factor lists with up to three more estimated components; estimates unrelated, perturbed, permuted, flipped, rescaled or with repeated components; '
        'reductions min and mean, with and without weights. Oracle: maximum over all matchings of a direct evaluation; invariance under gauge changes. '
        'Non-trivial: rank above one.')
TOL = 1e-9


def component_matrices(rng, sizes, rank, kind):
    out = []
    for n in sizes:
        f = gen.content(rng, (n, rank), kind)
        for r in range(rank):
            while np.linalg.norm(f[:, r]) < 1e-4:
                f[:, r] = rng.standard_normal(n)
        out.append(f)
    return out


def estimate(rng, factors, relation, extra):
    rank = factors[0].shape[1]
    sizes = [len(f) for f in factors]
    if relation == 'unrelated':
        est = component_matrices(rng, sizes, rank, 'normal')
    elif relation == 'equal':
        est = [f.copy() for f in factors]
    elif relation == 'perturbed':
        est = [f + 0.3 * np.linalg.norm(f) / np.sqrt(f.size) * rng.standard_normal(f.shape) for f in factors]
    elif relation == 'mixed':       # every mode permuted on its own: the best matchings of the modes differ
        est = [f[:, rng.permutation(rank)] + 0.1 * np.linalg.norm(f) / np.sqrt(f.size) * rng.standard_normal(f.shape) for f in factors]
    elif relation == 'rescaled':
        est = [f * 10.0 ** rng.uniform(-0.5, 0.5, rank) * rng.choice([-1, 1], rank) for f in factors]
    elif relation == 'disjoint':    # the components have no entry in common with those they are compared with: every score is zero
        est = [f.copy() for f in factors]
        for r in range(rank):
            m = rng.choice([i for i, n in enumerate(sizes) if n > 1] or [0])
            half = max(1, sizes[m] // 2)
            est[m][:half, r] = 0
            factors[m][half:, :] = 0
            for s in range(rank):
                if not np.any(factors[m][:, s]):
                    factors[m][0, s] = 1
            if not np.any(est[m][:, r]):
                est[m][-1, r] = 1
    elif relation == 'repeated':
        est = [f[:, rng.integers(0, rank, rank)] + 0.05 * np.linalg.norm(f) / np.sqrt(f.size) * rng.standard_normal(f.shape) for f in factors]
    est = [np.concatenate([f, g * np.linalg.norm(f)], axis=1) for f, g in zip(est, component_matrices(rng, sizes, extra, 'normal'))] if extra else est
    p = rng.permutation(est[0].shape[1])
    est = [f[:, p] for f in est]
    for f in est:
        for r in range(f.shape[1]):
            if np.linalg.norm(f[:, r]) < 1e-4:
                f[:, r] += 1
    return est


def check_score(result, true, est, weighted, reduction, what):
    score, match = result
    score = number(score, what)
    best, values = ref.fms(true, est, weighted, reduction)
    require(-1e-12 <= score <= 1 + 1e-9, '{}: {} is not between 0 and 1', what, score)
    require(abs(score - best) <= TOL, '{}: {:.12g}, the best achievable is {:.12g}', what, score, best)
    match = tuple(int(m) for m in match)
    require(match in values, '{}: {} is not a matching', what, match)
    require(abs(values[match] - score) <= TOL, '{}: the returned matching {} attains {:.12g}, not the score {:.12g}', what, match, values[match], score)
    return score


def check_separate(result, true, est, reduction, what):
    scores, matches = result
    require(len(scores) == len(matches) == len(true), '{}: {} scores and {} matchings for {} modes', what, len(scores), len(matches), len(true))
    for m, (f, g) in enumerate(zip(true, est)):
        check_score((scores[m], matches[m]), [f], [g], False, reduction, f'{what}, mode {m}')
    return [float(s) for s in scores]


def gauge(rng, factors):
    """Another parametrisation of the same components, and the permutation used."""
    rank = factors[0].shape[1]
    p = rng.permutation(rank)
    out = [f[:, p].copy() for f in factors]
    for r in range(rank):
        shift = rng.uniform(-1, 1, len(out))
        shift -= shift.mean()
        signs = rng.choice([-1, 1], len(out))
        for f, a, s in zip(out, shift, signs):
            f[:, r] *= s * 10.0 ** a
    return out, p


def snap(arrays):
    return [np.array(a, copy=True) for a in arrays]


# --------------------------------------------------------------------------------- factor lists

def run_lists(case):
    from tenkit import metrics
    rng = np.random.default_rng(case['seed'])
    true = component_matrices(rng, case['shape'], case['rank'], case['kind'])
    est = estimate(rng, true, case['relation'], case['extra'])
    weighted, reduction = case['weighted'], case['reduction']
    before = snap(true + est)
    kwargs = dict(weight_penalty=weighted) if not weighted or case['explicit'] else {}
    score = check_score(metrics.factor_match_score(true, est, fms_reduction=reduction, **kwargs), true, est, weighted, reduction, 'factor match score')
    check_separate(metrics.separate_mode_factor_match_score(true, est, fms_reduction=reduction), true, est, reduction, 'mode-wise factor match score')
    require(all(np.array_equal(a, b) for a, b in zip(before, true + est)), 'the factors were changed')
    # gauge
    est2, p = gauge(rng, est)
    true2 = gauge(rng, true)[0]
    for name, a, b in (('estimate', true, est2), ('reference', true2, est)):
        s2 = number(metrics.factor_match_score(a, b, weight_penalty=weighted, fms_reduction=reduction)[0], 'score')
        require(abs(s2 - score) <= 1e-8, 'reordering, flipping and rescaling the components of the {} changes the score from {:.12g} to {:.12g}', name, score, s2)
    s3, match = metrics.factor_match_score(true, gauge(rng, true)[0], weight_penalty=weighted, fms_reduction=reduction)
    require(abs(s3 - 1) <= 1e-8, 'the score of a tensor with itself in another parametrisation is {:.12g}', s3)
    for function in (metrics.factor_match_score, metrics.separate_mode_factor_match_score, metrics.factor_match_score_parafac2):
        expect_raises((ValueError,), lambda: function(true, est, fms_reduction='max'), 'an unknown reduction')
    if len(true) == 3:      # for PARAFAC2 factors: of the two modes that do not evolve
        B1, B2 = ([f * k for k in range(1, len(f) + 1)] for f in (true[1], est[1]))
        result = metrics.factor_match_score_parafac2([true[0], B1, true[2]], [est[0], B2, est[2]], fms_reduction=reduction, **kwargs)
        check_score(result, true[::2], est[::2], weighted, reduction, 'factor match score of PARAFAC2 factors')
    return (['trivial'] if case['rank'] < 2 else []) + [case['relation'], reduction, 'weighted' if weighted else 'unweighted', f'{case["extra"]} extra']


@st.composite
def lists(draw):
    rank = draw(st.sampled_from([2, 3, 2, 4, 1, 5]))
    return dict(shape=draw(gen.shapes(2, 5, 7, 400, high=True)), rank=rank, extra=draw(st.integers(0, 3 if rank < 4 else 1)), seed=draw(gen.seeds),
                kind=draw(st.sampled_from(['normal', 'uniform', 'ints', 'sparse', 'scaled_columns', 'near_collinear', 'equal_columns', 'negative'])),
                relation=draw(st.sampled_from(['perturbed', 'unrelated', 'equal', 'mixed', 'rescaled', 'repeated', 'disjoint'])),
                weighted=draw(st.booleans()), reduction=draw(st.sampled_from(['min', 'mean'])), explicit=draw(st.booleans()))


# -------------------------------------------------------------------------------------- tensors

def tensors(case):
    """(tensor, other tensor, factors of the one with weights absorbed, factors of the other, plain factors)"""
    from tenkit.decomposition import KruskalTensor, EvolvingTensor, Parafac2Tensor
    rng = np.random.default_rng(case['seed'])
    rank = case['rank']
    if case['type'] == 'kruskal':
        true = component_matrices(rng, case['shape'], rank, case['kind'])
        est = estimate(rng, true, case['relation'], 0)
        w1 = rng.uniform(0.3, 2, rank) * rng.choice([-1, 1], rank) if case['weights'] != 'ones' else np.ones(rank)
        w2 = {'ones': np.ones(rank), 'own': rng.uniform(0.3, 2, rank), 'same': w1.copy()}[case['weights']]
        a, b = KruskalTensor([f.copy() for f in true], w1.copy()), KruskalTensor([f.copy() for f in est], w2.copy())
        return a, b, [true[0] * w1] + true[1:], [est[0] * w2] + est[1:], true, est
    I, J, K = case['I'], case['J'], len(case['J'])
    if case['type'] == 'parafac2':
        P = [gen.content(rng, (j, rank), 'orthonormal') for j in J]
        A, D, C = component_matrices(rng, (I, rank, K), rank, case['kind'])
        a = Parafac2Tensor(A, D, C, P)
        Bs = [p @ D for p in P]
        e = estimate(rng, [A, D, C], case['relation'], 0)
        P2 = P if case['weights'] == 'same' else [gen.content(rng, (j, rank), 'orthonormal') for j in J]
        b = Parafac2Tensor(*e, P2)
        Bs2 = [p @ e[1] for p in P2]
        true, est = [A, np.concatenate(Bs), C], [e[0], np.concatenate(Bs2), e[2]]
        return a, b, true, est, true, est
    A, B, C = component_matrices(rng, (I, sum(J), K), rank, case['kind'])
    cut = np.cumsum(J)[:-1]
    e = estimate(rng, [A, B, C], case['relation'], 0)
    make = lambda f: EvolvingTensor(f[0], np.split(f[1], cut), f[2]) if case['as_list'] or len(set(J)) > 1 else EvolvingTensor(f[0], np.stack(np.split(f[1], cut)), f[2])
    return make([A, B, C]), make(e), [A, B, C], e, [A, B, C], e


def run_tensors(case):
    a, b, true, est, plain, plain_est = tensors(case)
    weighted, reduction = case['weighted'], case['reduction']
    rng = np.random.default_rng(case['seed'] + 1)
    kwargs = dict(weight_penalty=weighted) if not weighted or case['explicit'] else {}
    score = check_score(a.factor_match_score(b, fms_reduction=reduction, **kwargs), true, est, weighted, reduction, 'factor match score')
    own = number(a.factor_match_score(a, fms_reduction=reduction, **kwargs)[0], 'score')
    require(abs(own - 1) <= 1e-8, 'the score of a tensor with itself is {:.12g}', own)
    separate = a.seperate_mode_factor_match_score if case['type'] == 'kruskal' else a.separate_mode_factor_match_score
    check_separate(separate(b, fms_reduction=reduction), plain, plain_est, reduction, 'mode-wise factor match score')
    for s in separate(a, fms_reduction=reduction)[0]:
        require(abs(s - 1) <= 1e-8, 'a mode-wise score of a tensor with itself is {:.12g}', s)
    if case['type'] == 'kruskal':
        from tenkit.decomposition import KruskalTensor, EvolvingTensor
        # scale may also move between weights and factors
        for _ in range(2):
            other, p = gauge(rng, plain_est)
            w = b.weights[p]
            move = 10.0 ** rng.uniform(-1, 1, len(w)) * rng.choice([-1, 1], len(w))
            other[-1] = other[-1] * move
            s2 = number(a.factor_match_score(KruskalTensor(other, w / move), weight_penalty=weighted, fms_reduction=reduction)[0], 'score')
            require(abs(s2 - score) <= 1e-8, 'another parametrisation of the estimate changes the score from {:.12g} to {:.12g}', score, s2)
        if len(case['shape']) == 3:
            e1, e2 = EvolvingTensor.from_kruskaltensor(a), EvolvingTensor.from_kruskaltensor(b)
            s2 = number(e1.factor_match_score(e2, weight_penalty=False, fms_reduction=reduction)[0], 'score')
            want = ref.fms(plain, plain_est, False, reduction)[0]
            require(abs(s2 - want) <= 1e-8, 'the score of the tensors as evolving tensors is {:.12g}, expected {:.12g}', s2, want)
            scores = e1.separate_mode_factor_match_score(b, fms_reduction=reduction)[0]
            for m in range(3):
                want = ref.fms([plain[m]], [plain_est[m]], False, reduction)[0]
                require(abs(scores[m] - want) <= 1e-8, 'mode {} of an evolving and a Kruskal tensor: score {:.12g}, expected {:.12g}', m, scores[m], want)
    return (['trivial'] if case['rank'] < 2 else []) + [case['type'], case['relation'], reduction, 'weighted' if weighted else 'unweighted']


@st.composite
def tensor_cases(draw):
    rank = draw(st.sampled_from([2, 3, 2, 4, 1]))
    type_ = draw(st.sampled_from(['kruskal', 'evolving', 'parafac2']))
    K = draw(st.integers(1, 8))
    low = rank if type_ == 'parafac2' else 1
    J = [draw(st.integers(low, 6))] * K if draw(st.booleans()) else draw(st.lists(st.integers(low, 7), min_size=K, max_size=K))
    return dict(type=type_, shape=draw(gen.shapes(2, 5, 7, 300, high=True)), I=draw(st.integers(1, 6)), J=J, rank=rank, seed=draw(gen.seeds), as_list=draw(st.booleans()),
                kind=draw(st.sampled_from(['normal', 'uniform', 'ints', 'scaled_columns', 'negative'])), weights=draw(st.sampled_from(['own', 'ones', 'same'])),
                relation=draw(st.sampled_from(['perturbed', 'unrelated', 'equal', 'mixed', 'rescaled', 'repeated'])),
                weighted=draw(st.booleans()), reduction=draw(st.sampled_from(['min', 'mean'])), explicit=draw(st.booleans()))


SUBS = [
    Sub('lists', lists(), run_lists, 2400, weight=10),
    Sub('tensors', tensor_cases(), run_tensors, 2400, weight=10),
]
