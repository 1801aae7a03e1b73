import numpy as np
from hypothesis import strategies as st
from tkv import gen, ref, fits
from tkv.core import Sub, Violation, close, require
from checks.c08 import check_update, constraint_lists

RULE = ('PARAFAC2 problems: rank 1-4, 1-14 slices with 1-10 rows and equal or different numbers of columns, as list or array of several layouts, '
        'exact/noisy/unstructured data of several scales, random/SVD/CP/given starts, constraints on every mode, ridge vectors, 1-7 inner updates, '
        '1-4 iterations (a separate check: 40-150). Oracle at every iteration: orthonormality and optimality of each projection, a reference step '
        '(projections, then explicit constrained least squares), optimality of the mode updated last, loss from the recorded factors. Non-trivial: '
        'rank above one, at least two slices and at least one iteration compared with the reference step.')


def check_projections(slices, old, new, t):
    """Each projection is orthonormal and the best one given the factors it was computed from. Returns whether all were determined."""
    A, D, C = old['factors']
    determined = True
    for k, x in enumerate(slices):
        M = x.T @ (A * C[k]) @ D.T
        U, s, Vt = np.linalg.svd(M, full_matrices=False)
        if not s[-1] > 1e-6 * s[0]:
            determined = False
            continue
        P = new['P'][k]
        err = np.abs(P.T @ P - np.eye(P.shape[1])).max()
        require(err < 1e-8, 'projection {} after iteration {}: columns are off orthonormality by {:.3e}', k, t, float(err))
        require(np.sum(P * M) >= s.sum() * (1 - 1e-8), 'projection {} after iteration {} is not the best one: {:.10g} of {:.10g}', k, t, float(np.sum(P * M)), float(s.sum()))
    return determined


def step_is_murky(slices, state, new, case):
    Y = np.stack([x @ p for x, p in zip(slices, new['P'])], axis=2)
    factors = state['factors']
    nonneg, orth = constraint_lists(case)
    for _ in range(case['inner']):
        if ref.murky(Y, factors, nonneg, orth, case['ridge']):
            return True
        factors, w = ref.als_sweep(Y, factors, nonneg, orth, case['ridge'])
        if w == 0 and 'orth' in case['modes']:
            return True
    return False


def feasible(state, case):
    return all((c != 'nonneg' or np.all(f >= 0)) and (c != 'orth' or np.allclose(f.T @ f, np.eye(f.shape[1]), atol=1e-9))
               for f, c in zip(state['factors'], case['modes']))


def orthonormal(state):
    return all(np.allclose(p.T @ p, np.eye(p.shape[1]), atol=1e-7) for p in state['P'])


def check_history(slices, states, case, reference_steps=None):
    norm2 = sum(np.linalg.norm(x) ** 2 for x in slices)
    nonneg, orth = constraint_lists(case)
    compared = 0
    losses = [fits.pf2_loss(slices, s, case['ridge']) for s in states]
    for t, (old, new) in enumerate(zip(states, states[1:])):
        require(all(np.all(np.isfinite(f)) for f in new['factors'] + new['P']), 'factors are not finite after iteration {}', t)
        for name, f, c in zip(['A', 'blueprint', 'C'], new['factors'], case['modes']):
            require(c != 'nonneg' or np.all(f >= 0), '{} has a negative entry after iteration {}, though constrained to be non-negative', name, t)
        determined = check_projections(slices, old, new, t)
        Y = np.stack([x @ p for x, p in zip(slices, new['P'])], axis=2)
        A, B, ridge = ref.als_problems(Y, new['factors'], 2, case['ridge'])
        check_update(new['factors'][2], A, B, case['modes'][2], ridge, f'C after iteration {t}')
        orth_ok = all(c != 'orth' or np.allclose(f.T @ f, np.eye(f.shape[1]), atol=1e-6) for f, c in zip(new['factors'], case['modes']))
        expected, well_p, well = None, 0, 0
        if reference_steps is None or t in reference_steps:
            expected, well_p, well = fits.pf2_step(slices, old, case)
        if well > 1e-3:
            compared += 1
            require(orth_ok, 'orthonormality constraints {} are not kept after iteration {}', case['modes'], t)
            scale = max(np.sqrt(norm2), fits.state_scale(expected))
            for k, (a, b) in enumerate(zip(fits.reconstruct(new), fits.reconstruct(expected))):
                close(a, b, 1e-6, f'slice {k} after iteration {t} compared with the reference step', scale=scale)
        # the loss
        if determined and orthonormal(old) and feasible(old, case) and orth_ok:
            rise = losses[t + 1] - losses[t]
            require(rise <= 1e-9 * (norm2 + 1e-3 * losses[t]) or step_is_murky(slices, old, new, case),
                    'loss rose from {:.12g} to {:.12g} in iteration {} (squared norm of the data {:.4g})', losses[t], losses[t + 1], t, norm2)
    return compared


def labels(case, compared):
    trivial = case['rank'] < 2 or case['K'] < 2 or not compared
    return (['trivial'] if trivial else []) + ['irregular' if len(set(case['J'])) > 1 else 'regular', 'init ' + case['init'],
                                               'constraints ' + '+'.join(sorted(set(case['modes']))), 'ridge' if case['ridge'] else 'no ridge',
                                               'compared with reference' if compared else 'not determined']


def check_structure(model, case):
    d = model.decomposition
    require(tuple(np.shape(d.A)) == (case['I'], case['rank']) and tuple(np.shape(d.C)) == (case['K'], case['rank']), 'factors have shapes {}, {}', np.shape(d.A), np.shape(d.C))
    require([tuple(np.shape(p)) for p in d.projection_matrices] == [(j, case['rank']) for j in case['J']], 'projections have wrong shapes')
    for k, (B, P) in enumerate(zip(d.B, d.projection_matrices)):
        close(B, P @ d.blueprint_B, 1e-10, f'evolving factor {k}', scale=max(np.linalg.norm(d.blueprint_B), 1e-300))


def run_fit(case):
    X, slices, states, model, start = fits.run_pf2(case)
    require(len(states) == case['its'] + 1, '{} iterations were run, expected {}', len(states) - 1, case['its'])
    check_structure(model, case)
    close(np.concatenate([f.ravel() for f in fits.snapshot(model)['factors']]), np.concatenate([f.ravel() for f in states[-1]['factors']]), 1e-12,
          'decomposition after the fit compared with the last iteration')
    return labels(case, check_history(slices, states, case))


def run_long(case):
    X, slices, states, model, start = fits.run_pf2(case)
    require(len(states) == case['its'] + 1, '{} iterations were run, expected {}', len(states) - 1, case['its'])
    n = len(states) - 2
    return labels(case, check_history(slices, states, case, {0, 1, n // 2, n - 1, n}))


def run_exact(case):
    X, slices, states, model, start = fits.run_pf2(case)
    norm = np.sqrt(sum(np.linalg.norm(x) ** 2 for x in slices))
    expected, well_p, well = fits.pf2_step(slices, states[0], case)
    if well < 1e-3:
        return ['trivial']
    for t, s in enumerate(states):
        for k, (a, x) in enumerate(zip(fits.reconstruct(s), slices)):
            close(a, x, 1e-6, f'slice {k} after {t} iterations from an exact start', scale=max(norm, fits.state_scale(states[0])))
    return labels(case, 1)


@st.composite
def exact(draw):
    case = draw(fits.pf2_problems(inits=('precomputed',), ridge=False))
    case['start'] = 'exact'
    return case


SUBS = [
    Sub('fit', fits.pf2_problems(), run_fit, 1700, weight=20),
    Sub('exact_start', exact(), run_exact, 400, weight=20),
    Sub('long', fits.pf2_problems(its=st.integers(40, 150), max_k=5), run_long, 48, 400, weight=300),
]
