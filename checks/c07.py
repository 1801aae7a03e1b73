import numpy as np
from hypothesis import strategies as st
from tkv import gen, ref, fits
from tkv.core import Sub, Violation, close, identical, require, as_array

RULE = ('CP problems of order 2-5, sizes 1-7 (now and then one long mode), rank 1-6, low-rank/noisy/unstructured/integer/sparse data of several '
        'scales and layouts, random, SVD and given starts (generic, badly scaled, collinear, exact), no or per-mode ridge penalties, 1-6 iterations '
        '(a separate check: 100-400). Oracle: loss computed from the recorded states; a reference ALS sweep on the explicit least-squares problems '
        'from each recorded state. Non-trivial: rank above one, two modes of size above one and at least one iteration compared with the reference.')


def check_monotone(X, states, case, first=0):
    """The loss never rises by more than rounding error, unless an update was numerically singular."""
    norm2 = np.linalg.norm(X) ** 2
    losses = [fits.cp_loss(X, s, case['ridge']) for s in states]
    nonneg, orth = [m == 'nonneg' for m in case['modes']], [m == 'orth' for m in case['modes']]
    for t in range(first, len(losses) - 1):
        rise = losses[t + 1] - losses[t]
        if rise > 1e-9 * (norm2 + losses[t] * 1e-3):
            require(ref.murky(X, states[t]['factors'], nonneg, orth, case['ridge'], new=states[t + 1]['factors']),
                    'loss rose from {:.12g} to {:.12g} in iteration {} (squared norm of the data {:.4g})', losses[t], losses[t + 1], t, norm2)
    return losses


def check_sweeps(X, states, case, steps=None):
    """Compare recorded iterations with the reference. Returns the number compared."""
    nonneg = [m == 'nonneg' for m in case['modes']]
    orth = [m == 'orth' for m in case['modes']]
    n = 0
    for t in (range(len(states) - 1) if steps is None else steps):
        expected, well = ref.als_sweep(X, states[t]['factors'], nonneg, orth, case['ridge'])
        if well < 1e-3:
            continue
        n += 1
        scale = max(np.linalg.norm(X), ref.kruskal_scale(expected))
        close(ref.kruskal(states[t + 1]['factors'], states[t + 1]['weights']), ref.kruskal(expected), 1e-6,
              f'reconstruction after iteration {t} compared with one sweep of exact updates', scale=scale)
    return n


def check_weights(states):
    for t, s in enumerate(states[1:]):
        require(np.all(np.isfinite(s['weights'])), 'weights {} after iteration {}', s['weights'], t)
        require(all(np.all(np.isfinite(f)) for f in s['factors']), 'factors are not finite after iteration {}', t)


def labels(case, compared):
    trivial = case['rank'] < 2 or sum(n > 1 for n in case['shape']) < 2 or not compared
    return (['trivial'] if trivial else []) + [f'order{len(case["shape"])}', 'init ' + case['init'], 'ridge' if case['ridge'] else 'no ridge',
                                               'compared with reference' if compared else 'not determined', 'data ' + case['data']]


def run_fit(case):
    X, states, model, start = fits.run_cp(case)
    require(len(states) == case['its'] + 1, '{} iterations were run, expected {}', len(states) - 1, case['its'])
    check_weights(states)
    losses = check_monotone(X, states, case)
    if start is not None and case['ridge'] is None:
        given = np.linalg.norm(X - ref.kruskal(start.factor_matrices, start.weights)) ** 2
        require(losses[1] <= given + 1e-9 * (np.linalg.norm(X) ** 2 + 1e-3 * given), 'loss {:.12g} after one iteration is above that of the given start {:.12g}', losses[1], given)
    check_last_mode(X, states[-1], case)
    return labels(case, check_sweeps(X, states, case))


def check_last_mode(X, state, case):
    """The factor updated last is a stationary point, whatever the conditioning."""
    mode = X.ndim - 1
    fs = [np.asarray(f) for f in state['factors']]
    K = ref.khatri_rao([f for m, f in enumerate(fs) if m != mode])
    lam = 0 if case['ridge'] is None else case['ridge'][mode]
    F = fs[mode] * state['weights']
    G = (F @ K.T - np.moveaxis(X, mode, 0).reshape(X.shape[mode], -1)) @ K + lam * F
    scale = np.linalg.norm(X) * np.sqrt(np.linalg.norm(K, axis=0) ** 2 + lam) + 1e-300
    # The squares of the norms of smaller components underflow
    usable = np.max(np.abs(K), axis=0) > 1e-140
    if lam == 0 and not np.all(usable):
        return
    require(np.all(np.abs(G) <= 1e-6 * scale), 'the last mode is not optimal given the others: relative gradient {:.3e}', float(np.max(np.abs(G) / scale)))


def run_exact(case):
    case = dict(case, init='precomputed', start='exact', start_weights='none', ridge=None)
    X, states, model, start = fits.run_cp(case)
    norm = np.linalg.norm(X)
    _, well = ref.als_sweep(X, start.factor_matrices, [m == 'nonneg' for m in case['modes']], [m == 'orth' for m in case['modes']], None)
    if well < 1e-3:
        return ['trivial']
    for t, s in enumerate(states):
        close(ref.kruskal(s['factors'], s['weights']), X, 1e-6, f'exact start after {t} iterations', scale=max(norm, fits.state_scale(states[0])))
    return labels(case, 1)


def run_long(case):
    X, states, model, start = fits.run_cp(case)
    require(len(states) == case['its'] + 1, '{} iterations were run, expected {}', len(states) - 1, case['its'])
    check_monotone(X, states, case)
    n = len(states) - 2
    return labels(case, check_sweeps(X, states, case, sorted({0, 1, n // 2, n - 1, n, min(99, n), min(100, n)}))) + ['more than 100 iterations'] * (n > 100)


SUBS = [
    Sub('fit', fits.cp_problems(), run_fit, 3200, weight=10),
    Sub('exact_start', fits.cp_problems(inits=('precomputed',), data=('exact',), ridge=False), run_exact, 600, weight=10),
    Sub('long', fits.cp_problems(its=st.integers(100, 400), big=False), run_long, 60, 600, weight=300),
]
