import copy
import numpy as np
from hypothesis import strategies as st
from tkv import gen, ref, fits
from tkv.core import Sub, Violation, close, require, as_array
from checks.c08 import check_update, constraint_lists

RULE = ('Tensors of order 2-5 with 0-6 matrices coupled to any modes in any order, several to the same mode included, 1-50 columns, sharing a column space with the tensor or not, '
        'random/SVD/given starts, with and without non-negative and orthonormal modes and ridge vectors, 1-5 or 20-80 iterations plus a continued fit. Oracle: joint loss and constrained least '
        'squares optimality of every update from the recorded states, a reference joint sweep, products of the returned factors. Non-trivial: at least '
        'one coupled matrix, rank above one and at least one update that the data determine, judged by its optimality conditions or a reference sweep.')
DIRECT = 1e-17     # coupled modes are not solved from normal equations: noise can pass for a singular value


def finite(state, t):
    require(all(np.all(np.isfinite(f)) for f in state['factors'] + state['V']) and np.all(np.isfinite(state['weights'])), 'factors are not finite after iteration {}', t)


def check_updates(X, Ys, states, case):
    """Every recorded update is optimal given what came before it."""
    nonneg, orth = constraint_lists(case)
    decided = 0
    for t, (old, new) in enumerate(zip(states, states[1:])):
        coupled = fits.coupling(case, Ys, old['V'])
        for mode in range(X.ndim):
            current = new['factors'][:mode] + old['factors'][mode:]
            A, B, ridge = ref.als_problems(X, current, mode, case['ridge'], coupled)
            decided += check_update(new['factors'][mode], A, B, ref.constraint_of(mode, nonneg, orth), ridge, f'mode {mode} after iteration {t}', DIRECT)
        for i, (mode, Y) in enumerate(zip(case['couple'], Ys)):
            decided += check_update(new['V'][i], new['factors'][mode].T, Y.T, 'nonneg' if nonneg[mode] else 'free', 0,
                         f'own factor of matrix {i} (coupled to mode {mode}) after iteration {t}', DIRECT)
    return decided


def murky(X, Ys, old, new, case):
    nonneg, orth = constraint_lists(case)
    coupled = fits.coupling(case, Ys, old['V'])
    if ref.murky(X, old['factors'], nonneg, orth, case['ridge'], coupled, DIRECT, new['factors']):
        return True
    for mode in case['couple']:
        s = np.linalg.svd(new['factors'][mode], compute_uv=False)
        if np.any((s > DIRECT * s[0]) & (s < 1e-5 * s[0])):
            return True
    return False


def orth_determined(X, Ys, old, new, case):
    coupled = fits.coupling(case, Ys, old['V'])
    for mode, constraint in enumerate(case['modes']):
        if constraint == 'orth':
            A, B, ridge = ref.als_problems(X, new['factors'][:mode] + old['factors'][mode:], mode, case['ridge'], coupled)
            if ref.update(A, B, constraint, ridge)[1] < 1e-6:
                return False
    return True


def check_monotone(X, Ys, states, case, first):
    data = [X] + Ys
    norm2 = sum(np.linalg.norm(x) ** 2 for x in data)
    losses = [fits.cmtf_loss(data, s, case) for s in states]
    for t in range(len(states) - 1):
        if 'orth' in case['modes'] and not orth_determined(X, Ys, states[t], states[t + 1], case):
            return      # an orthonormal mode was not determined by the data
        if t < first:
            continue
        rise = losses[t + 1] - losses[t]
        require(rise <= 1e-9 * (norm2 + 1e-3 * losses[t]) or murky(X, Ys, states[t], states[t + 1], case),
                'joint loss rose from {:.12g} to {:.12g} in iteration {} (squared norm of the data {:.4g})', losses[t], losses[t + 1], t, norm2)


def check_sweeps(X, Ys, states, case):
    compared = 0
    for t, (old, new) in enumerate(zip(states, states[1:])):
        expected, well = fits.cmtf_step(X, Ys, old, case)
        if well < 1e-3:
            continue
        compared += 1
        what = ['tensor'] + [f'matrix {i} (mode {m})' for i, m in enumerate(case['couple'])]
        for name, a, b, x in zip(what, fits.cmtf_reconstructions(new, case), fits.cmtf_reconstructions(expected, case), [X] + Ys):
            scale = max(np.linalg.norm(x), np.linalg.norm(X), ref.kruskal_scale(expected['factors']) if name == 'tensor' else np.linalg.norm(b))
            close(a, b, 1e-6, f'reconstruction of the {name} after iteration {t} compared with a reference sweep', scale=scale)
    return compared


def same_reconstructions(s1, s2, case, tol, what):
    if any(np.linalg.norm(f, axis=0).min() < 1e-5 for f in s2['factors']):
        return      # the library adds 1e-15 to norms when it normalises
    scale = fits.state_scale(s2)
    for i, (a, b) in enumerate(zip(fits.cmtf_reconstructions(s1, case), fits.cmtf_reconstructions(s2, case))):
        close(a, b, tol, f'{what}: reconstruction {"of the tensor" if i == 0 else "of coupled matrix " + str(i - 1)}',
              scale=scale if i == 0 else np.linalg.norm(s2['factors'][case['couple'][i - 1]]) * np.linalg.norm(s2['V'][i - 1]))


def run_fit(case):
    X, Ys = fits.cmtf_data(case)
    start = fits.cp_start(case)[0] if case['init'] == 'precomputed' else None
    its = case['its']
    recorder = fits.Recorder(limit=its + case['more'])
    # the start
    first = fits.cmtf_model(case)
    np.random.seed(case['np_seed'] % 2 ** 32)
    first.fit(X, list(Ys), list(case['couple']), max_its=0, initial_decomposition=copy.deepcopy(start))
    initial = fits.snapshot(first)
    # the fit
    model = fits.cmtf_model(case, loggers=[recorder])
    np.random.seed(case['np_seed'] % 2 ** 32)
    if case['transform']:
        out = model.fit_transform(X, list(Ys), list(case['couple']), max_its=its, initial_decomposition=copy.deepcopy(start))
        require(isinstance(out, tuple) and len(out) == 2, 'fit_transform returned {}', type(out).__name__)
        T, pairs = out
        close(T.construct_tensor(), model.reconstructed_X, 1e-12, 'tensor returned by fit_transform', scale=ref.kruskal_scale(T.factor_matrices, T.weights))
        require(len(pairs) == len(Ys), 'fit_transform returned {} pairs for {} matrices', len(pairs), len(Ys))
        for i, (pair, mode) in enumerate(zip(pairs, case['couple'])):
            close(pair[0], model.decomposition.factor_matrices[mode], 1e-12, f'first factor of matrix {i} returned by fit_transform', scale=1)
            close(pair[1], model.uncoupled_factor_matrices[i], 1e-12, f'second factor of matrix {i} returned by fit_transform', scale=max(1, np.linalg.norm(pair[1])))
    else:
        model.fit(X, list(Ys), list(case['couple']), max_its=its, initial_decomposition=copy.deepcopy(start))
    require(len(recorder.states) == its, '{} iterations were run, expected {}', len(recorder.states), its)
    states = [initial] + recorder.states
    for t, s in enumerate(states):
        finite(s, t)
        require(t == 0 or np.all(s['weights'] == 1), 'weights {} during a fit', s['weights'])
        require(t == 0 or all(c != 'nonneg' or np.all(f >= 0) for f, c in zip(s['factors'], case['modes'])), 'a non-negative mode has a negative entry after iteration {}', t)
    initial = dict(initial, factors=[f * (initial['weights'] if i == scaled_mode(case) else 1) for i, f in enumerate(initial['factors'])], weights=np.ones(case['rank']))
    final = fits.snapshot(model)
    finite(final, its)
    same_reconstructions(final, states[-1], case, 1e-9, 'normalisation at the end of a fit')
    # what the model reports as reconstructions
    R = model.reconstructed_coupled_matrices
    require(len(R) == len(Ys), '{} reconstructed coupled matrices, expected {}', len(R), len(Ys))
    for i, (r, mode) in enumerate(zip(R, case['couple'])):
        close(r, final['factors'][mode] @ final['V'][i].T, 1e-10, f'reconstructed coupled matrix {i}', scale=np.linalg.norm(final['factors'][mode]) * np.linalg.norm(final['V'][i]))
    close(model.reconstructed_X, ref.kruskal(final['factors'], final['weights']), 1e-10, 'reconstructed tensor', scale=fits.state_scale(final))
    decided = 0
    infeasible_start = 'nonneg' in case['modes'] and any(c == 'nonneg' and np.any(f < 0) for f, c in zip(initial['factors'], case['modes']))
    n = check_updates(X, Ys, states[1:], case)
    # where scale lies matters to the penalties, and the fit of no iterations has normalised the start
    known = states[1:] if case['ridge'] else [initial] + states[1:]
    check_monotone(X, Ys, known, case, 1 if infeasible_start and not case['ridge'] else 0)
    compared = check_sweeps(X, Ys, known, case)
    # continue
    if case['more']:
        model.continue_fit(max_its=its + case['more'])
        require(len(recorder.states) == its + case['more'], '{} iterations after continuing, expected {}', len(recorder.states), its + case['more'])
        later = recorder.states[its:]
        for t, s in enumerate(later):
            finite(s, its + t)
        later_too = later if case['ridge'] or any(np.linalg.norm(f, axis=0).min() < 1e-5 for f in states[-1]['factors']) else [absorbed(final, case)] + later
        check_monotone(X, Ys, later_too, case, 0)
        compared += check_sweeps(X, Ys, later_too, case)
        same_reconstructions(fits.snapshot(model), later[-1], case, 1e-9, 'normalisation at the end of a continued fit')
    trivial = case['rank'] < 2 or not Ys or not (compared or n)
    return (['trivial'] if trivial else []) + [f'{len(Ys)} coupled', 'init ' + case['init'], 'constraints ' + '+'.join(sorted(set(case['modes']))),
                                               'compared with a reference sweep' if compared else 'single updates decided' if n else 'not determined'] + ['continued'] * (case['more'] > 0)


def scaled_mode(case):
    return next(i for i, m in enumerate(case['modes']) if m != 'orth')


def absorbed(final, case):
    """The normalised result with weights one: those are put in one mode, and taken out of the factors coupled to it."""
    scaled = scaled_mode(case)
    weights = final['weights']
    old = dict(final, factors=[f.copy() for f in final['factors']], weights=np.ones(case['rank']), V=[v.copy() for v in final['V']])
    old['factors'][scaled] = old['factors'][scaled] * weights
    for i, mode in enumerate(case['couple']):
        if mode == scaled:
            old['V'][i] = old['V'][i] / np.where(weights == 0, 1, weights)
    return old


@st.composite
def problems(draw, **kwargs):
    case = draw(fits.cmtf_problems(orth=True, ridge=True, **kwargs))
    case['more'] = draw(st.sampled_from([0, 0, 1, 2, 3]))
    case['transform'] = draw(st.booleans())
    return case


def run_uncoupled(case):
    """Without coupled matrices the fit is that of a CP model."""
    from tenkit.decomposition import CP_ALS
    case = dict(case, couple=[], widths=[])
    X, _ = fits.cmtf_data(case)
    start = fits.cp_start(case)[0] if case['init'] == 'precomputed' else None
    models = []
    np.random.seed(case['np_seed'] % 2 ** 32)
    m = fits.cmtf_model(case)
    m.fit(X, [], [], max_its=case['its'], initial_decomposition=copy.deepcopy(start))
    np.random.seed(case['np_seed'] % 2 ** 32)
    c = CP_ALS(case['rank'], max_its=case['its'], convergence_tol=0, rel_loss_tol=0, init=case['init'], **fits.constraint_args(case['modes'], None))
    rec = fits.Recorder()
    c.loggers = [rec]
    c.fit(X, initial_decomposition=copy.deepcopy(start))
    well = 1.0
    nonneg, _ = constraint_lists(case)
    if start is not None:
        well = ref.als_sweep(X, start.factor_matrices, nonneg)[1]
    for s in rec.states[:-1]:
        well = min(well, ref.als_sweep(X, s['factors'], nonneg)[1])
    if well < 1e-3:
        return ['trivial', 'not determined']
    close(m.reconstructed_X, c.reconstructed_X, 1e-5, 'CMTF fit without coupled matrices compared with a CP fit', scale=max(np.linalg.norm(X), fits.state_scale(fits.snapshot(c))))
    return ['trivial'] if case['rank'] < 2 else ['constraints ' + '+'.join(sorted(set(case['modes'])))]


@st.composite
def cancelling(draw):
    """Fits with which the elements of a non-negative factor can grow without bound: two components are opposite in the free mode of one row."""
    case = dict(shape=[1, 3, 3], rank=4, modes=['free', 'nonneg', 'nonneg'], ridge=None, init='random', data='noisy', seed=148827, np_seed=19897307, layout='C',
                scale=1000.0, couple=[0, 1], widths=[8, 7], ykind='shared', its=2)
    if not draw(st.booleans()):
        case.update(draw(st.fixed_dictionaries(dict(seed=gen.seeds, np_seed=gen.seeds, rank=st.integers(3, 6), shape=st.sampled_from([[1, 3, 3], [1, 2, 4], [1, 4, 2, 2]]),
                                                    scale=st.sampled_from([1000.0, 1.0, 1e-3]), its=st.integers(1, 4)))))
        case['modes'] = ['free'] + ['nonneg'] * (len(case['shape']) - 1)
    return dict(case, more=0, transform=False)


SUBS = [
    Sub('cancelling', cancelling(), run_fit, 200, weight=16),
    Sub('fit', problems(), run_fit, 2000, weight=16),
    Sub('long', problems(its=st.integers(20, 80)), run_fit, 60, 600, weight=200),
    Sub('uncoupled', fits.cmtf_problems(its=st.integers(1, 3)), run_uncoupled, 400, weight=8),
]
