import copy
import numpy as np
from hypothesis import strategies as st
from tkv import gen, ref, fits
from tkv.core import Sub, Violation, close, require, expect_raises
from checks.c07 import check_weights, check_sweeps, check_monotone

RULE = ('CP problems as in C07, with every mode drawn as free, non-negative or orthonormal (never all orthonormal), with and without ridge '
        'vectors, random/SVD/given starts, 1-6 iterations (a separate check: 30-120). Oracle, at every iteration and mode: the recorded factor is '
        'feasible and its objective does not exceed that of a feasible reference solution (scipy NNLS / Procrustes / lstsq on the explicit problem). '
        'Non-trivial: at least one constrained mode, rank above one and at least one constrained update decided (not numerically singular).')


def constraint_lists(case):
    return [m == 'nonneg' for m in case['modes']], [m == 'orth' for m in case['modes']]


def check_update(F, A, B, constraint, ridge, what, zero=1e-13):
    """F is a feasible minimiser of ||F A - B||^2 + ridge ||F||^2. Returns whether this was decided.

    It is not for problems with singular values between zero (relative) and 1e-5, nor where squares underflow.
    """
    if constraint == 'nonneg':
        require(np.all(F >= 0), '{}: negative entry {:.3e} in a non-negative mode', what, float(F.min()))
    best, well = ref.update(A, B, constraint, ridge)
    if best is None:
        return False
    if constraint == 'orth':
        if well < 1e-6:
            return False
        err = np.abs(F.T @ F - np.eye(F.shape[1])).max()
        require(err < 1e-6, '{}: columns of an orthonormal mode are off by {:.3e}', what, float(err))

    def objective(F):
        return np.linalg.norm(F @ A - B) ** 2 + ridge * np.linalg.norm(F) ** 2
    if constraint != 'orth':
        norms = np.linalg.norm(A, axis=1)
        s = np.linalg.svd(A / np.where(norms > 0, norms, 1)[:, None], compute_uv=False) / np.sqrt(len(A))
        if norms.max() < 1e-140 or np.any((s > zero) & (s < 1e-5)) or np.any((norms < 1e-6 * norms.max()) & (norms > 0)):
            return False
    f, g = objective(F), objective(best)
    require(f <= g + 1e-8 * (np.linalg.norm(B) ** 2 + 1e-3 * g), '{}: objective {:.10g}, but {:.10g} can be reached with the same constraints', what, f, g)
    return True


def check_updates(X, states, case):
    nonneg, orth = constraint_lists(case)
    decided = 0
    for t, (old, new) in enumerate(zip(states, states[1:])):
        for mode in range(X.ndim):
            current = new['factors'][:mode] + old['factors'][mode:]
            A, B, ridge = ref.als_problems(X, current, mode, case['ridge'])
            c = ref.constraint_of(mode, nonneg, orth)
            decided += check_update(new['factors'][mode], A, B, c, ridge, f'{c} mode {mode} after iteration {t}') and c != 'free'
    return decided


def feasible(state, case):
    return all((c != 'nonneg' or np.all(f >= 0)) and (c != 'orth' or np.allclose(f.T @ f, np.eye(f.shape[1]), atol=1e-9))
               for f, c in zip(state['factors'], case['modes']))


def labels(case, decided):
    constrained = [m for m in case['modes'] if m != 'free']
    trivial = case['rank'] < 2 or not constrained or not decided
    return (['trivial'] if trivial else []) + ['constraints ' + '+'.join(sorted(set(constrained))), 'ridge' if case['ridge'] else 'no ridge',
                                               'init ' + case['init'], 'decided' if decided else 'undecided']


def run_fit(case):
    X, states, model, start = fits.run_cp(case)
    require(len(states) == case['its'] + 1, '{} iterations were run, expected {}', len(states) - 1, case['its'])
    for s in states[1:]:
        require(np.all(s['weights'] == 1), 'weights {} during a fit', s['weights'])
    check_weights(states)
    decided = check_updates(X, states, case)
    if not any(m == 'orth' for m in case['modes']) or decided:
        check_monotone_orth(X, states, case)
    return labels(case, decided)


def check_monotone_orth(X, states, case):
    """Monotone after the first iteration; from the start if that is feasible."""
    nonneg, orth = constraint_lists(case)
    first = 0 if feasible(states[0], case) else 1
    determined = True
    for t in range(len(states) - 1):
        _, well = ref.als_sweep(X, states[t]['factors'], nonneg, orth, case['ridge'])
        determined = determined and (well > 0 or 'orth' not in case['modes'])
        if not determined:      # an orthonormal mode was not determined by the data: no promise
            return
        if t >= first and all(feasible(s, case) for s in states[t:t + 2]):
            check_monotone(X, states[t:t + 2], case)


def run_refused(case):
    case = copy.deepcopy(case)
    X = fits.cp_data(case)
    model = fits.cp_model(case)
    n = len(case['shape'])
    model.non_negativity_constraints = None
    from tenkit.decomposition import CP_ALS
    nonneg, orth = [m == 'nonneg' for m in case['modes']], [m == 'orth' for m in case['modes']]
    nonneg[case['both'] % n] = orth[case['both'] % n] = True
    np.random.seed(0)
    model = CP_ALS(case['rank'], max_its=2, init='random', non_negativity_constraints=nonneg, orthonormality_constraints=orth,
                   ridge_penalties=case['ridge'])
    expect_raises((ValueError,), lambda: model.fit(X), 'non-negativity and orthonormality in one mode')
    return []


@st.composite
def refused(draw):
    case = draw(fits.cp_problems(constrained=True, inits=('random',)))
    case['both'] = draw(st.integers(0, 4))
    if case['rank'] > min(case['shape']):
        case['rank'] = 1
    case['modes'] = ['free' if m == 'orth' else m for m in case['modes']]
    return case


SUBS = [
    Sub('fit', fits.cp_problems(constrained=True), run_fit, 2600, weight=12),
    Sub('long', fits.cp_problems(constrained=True, its=st.integers(30, 120), big=False), run_fit, 60, 600, weight=150),
    Sub('refused', refused(), run_refused, 120, weight=2),
]
