import copy
import numpy as np
from hypothesis import strategies as st
from tkv import gen, fits
from tkv.core import Sub, close, require
from checks.c11 import model_of
from checks.c14 import conditioning, states_of

RULE = ('CP, PARAFAC2 and coupled fits from a given start, with constraints and (except for scaled data) ridge penalties, fitted twice: to data in two memory layouts, number types or '
        'containers; with the indices of one or all modes (slices and columns within a slice included; those of the rows of coupled matrices along with their mode) reordered; with the components of the start reordered; '
        'with data multiplied by a factor of 1e-3 to 1e4. Oracle: the states of the first fit, transformed accordingly, at every iteration, to 1e-6. Only states that '
        'the problem determines are compared (smallest relative eigenvalue of every least-squares problem on the way above 1e-3). Non-trivial: rank above one, compared, and the transformation is not the identity.')

TOL = 1e-6


def fit_states(case, args, start, its):
    """States after each iteration, for the given start."""
    recorder = fits.Recorder(limit=its)
    model = model_of(dict(case, init='precomputed'), loggers=[recorder])
    np.random.seed(case['np_seed'] % 2 ** 32)
    model.fit(*args, max_its=its, initial_decomposition=copy.deepcopy(start))
    return recorder.states, model


def make(case):
    """(fit arguments, data as list, start)"""
    if case['kind'] == 'pf2':
        slices = fits.pf2_data(case)
        start, slices = fits.pf2_start(case, slices)
        return (slices,), slices, start
    if case['kind'] == 'cp':
        X = np.ascontiguousarray(fits.cp_data(case))
        start, X = fits.cp_start(case, X)
        X = np.ascontiguousarray(X)
        return (X,), [X], start
    X, Ys = fits.cmtf_data(case)
    X, Ys = np.ascontiguousarray(X), [np.ascontiguousarray(y) for y in Ys]
    return (X, Ys, list(case['couple'])), [X] + Ys, fits.cp_start(case)[0]


def compare(case, data, got, want, transform, what):
    """transform maps a list of reconstructed arrays of the first fit to those of the second."""
    norm = np.sqrt(sum(np.linalg.norm(x) ** 2 for x in data))
    require([s['it'] for s in got] == [s['it'] for s in want], '{}: {} iterations rather than {}', what, len(got), len(want))
    for a, b in zip(got, want):
        scale = max(norm, fits.state_scale(b))
        expected = transform(states_of(case, b))
        actual = states_of(case, a)
        require(len(actual) == len(expected), '{}: {} arrays rather than {}', what, len(actual), len(expected))
        for x, y in zip(actual, expected):
            close(x, y, TOL, f'{what}: reconstruction after iteration {b["it"]}', scale=scale * case.get('factor', 1.0))


def determined(case, args, data, states, start):
    """Also of the first step, from the start."""
    if not states:
        return False
    if case['kind'] == 'pf2':
        first = dict(kind='pf2', factors=[np.array(start.A), np.array(start.blueprint_B), np.array(start.C)], P=[np.array(p) for p in start.projection_matrices])
        return conditioning(case, args, data, [first] + states) > 1e-3
    if conditioning(case, args, data, states) <= 1e-3:
        return False
    if case['kind'] == 'cmtf':
        initial = fits.snapshot(fit_states(case, args, start, 0)[1])     # with the random V
        return conditioning(case, args, data, [initial, states[0]]) > 1e-3
    factors = [np.array(f, dtype=float) for f in start.factor_matrices]
    first = dict(kind='cp', factors=factors, weights=np.ones(case['rank']))
    w = np.array(start.weights, dtype=float)
    mode = next((i for i, m in enumerate(case['modes']) if m != 'orth'), 0)
    first['factors'][mode] = first['factors'][mode] * w
    return conditioning(case, args, data, [first] + states) > 1e-3


def finish(case, same):
    return (['trivial'] if case['rank'] < 2 or same or case['its'] < 1 else []) + [case['kind']]


# ------------------------------------------------------------------------------ representations

def run_layout(case):
    args, data, start = make(case)
    other = case['other']
    if other == 'ints':     # integers, large enough to have some resolution
        top = max(np.abs(x).max() for x in data)
        factor = 60 / top if top > 0 else 1
        data = [np.rint(x * factor) for x in data]
        if case['numbers'].startswith('u'):
            data = [np.abs(x) for x in data]
        if not all(np.any(x) for x in data):
            return ['trivial', 'zero']
        second = [x.astype(case['numbers']) for x in data]
        second = [gen.layout_as(x, case['layout2']) for x in second]
    else:
        second = [gen.layout_as(x, case['layout2']) for x in data]
    kept = [x.copy() for x in second]

    def arguments(arrays, container):
        if case['kind'] == 'pf2':
            if container == 'array' and len({x.shape for x in arrays}) == 1:
                return (gen.layout_as(np.stack(arrays, axis=2), case['layout2']),)
            return (list(arrays),)
        if case['kind'] == 'cp':
            return (arrays[0],)
        return (arrays[0], list(arrays[1:]), list(case['couple']))
    first_args = arguments(data, 'list')
    want, _ = fit_states(case, first_args, start, case['its'])
    if not determined(case, first_args, data, want, start):
        return ['trivial', 'not determined', case['kind']]
    got, model = fit_states(case, arguments(second, case['container']), start, case['its'])
    compare(case, data, got, want, lambda xs: xs, f'data as {"integers, " if other == "ints" else ""}{case["layout2"]}'
            + (f', {case["container"]}' if case['kind'] == 'pf2' else ''))
    return finish(case, case['layout2'] == 'C' and other != 'ints' and (case['kind'] != 'pf2' or case['container'] == 'list')) + [other, case['layout2']]


# ------------------------------------------------------------------------------------- indices

def run_indices(case):
    args, data, start = make(case)
    rng = np.random.default_rng(case['pseed'])
    want, _ = fit_states(case, args, start, case['its'])
    if not determined(case, args, data, want, start):
        return ['trivial', 'not determined', case['kind']]
    from tenkit.decomposition import KruskalTensor, Parafac2Tensor
    if case['kind'] == 'pf2':
        pi, pk = rng.permutation(case['I']), rng.permutation(case['K'])
        pj = [rng.permutation(j) for j in case['J']]
        if not case['all_modes']:       # only one kind of index
            which = case['which'] % 3
            if which != 0:
                pi = np.arange(case['I'])
            if which != 1:
                pj = [np.arange(j) for j in case['J']]
            if which != 2:
                pk = np.arange(case['K'])

        def transform(xs):
            return [xs[k][pi][:, pj[k]] for k in pk]
        A, D, C, P = start.A, start.blueprint_B, start.C, start.projection_matrices
        start2 = Parafac2Tensor(A[pi].copy(), D.copy(), C[pk].copy(), [P[k][pj[k]].copy() for k in pk])
        args2 = (transform(list(args[0])),)
        same = np.array_equal(pi, np.arange(case['I'])) and np.array_equal(pk, np.arange(case['K'])) and all(np.array_equal(p, np.arange(len(p))) for p in pj)
    else:
        perms = [rng.permutation(n) for n in case['shape']]
        if not case['all_modes']:
            perms = [p if i == case['which'] % len(perms) else np.arange(len(p)) for i, p in enumerate(perms)]

        def transform(xs):
            out = [xs[0][np.ix_(*perms)]]
            for mode, y in zip(case.get('couple', []), xs[1:]):
                out.append(y[perms[mode]])
            return out
        start2 = KruskalTensor([f[p].copy() for f, p in zip(start.factor_matrices, perms)], np.array(start.weights))
        if case['kind'] == 'cp':
            args2 = (transform([args[0]])[0],)
        else:
            new = transform([args[0]] + list(args[1]))
            args2 = (new[0], new[1:], list(case['couple']))
        same = all(np.array_equal(p, np.arange(len(p))) for p in perms)
    got, _ = fit_states(case, args2, start2, case['its'])
    compare(case, data, got, want, transform, 'reordered indices')
    return finish(case, same)


# ---------------------------------------------------------------------------------- components

def run_components(case):
    args, data, start = make(case)
    p = np.random.default_rng(case['pseed']).permutation(case['rank'])
    from tenkit.decomposition import KruskalTensor, Parafac2Tensor
    want, _ = fit_states(case, args, start, case['its'])
    if not determined(case, args, data, want, start):
        return ['trivial', 'not determined', case['kind']]
    if case['kind'] == 'pf2':
        start2 = Parafac2Tensor(start.A[:, p].copy(), start.blueprint_B[:, p].copy(), start.C[:, p].copy(), [q.copy() for q in start.projection_matrices])
    else:
        start2 = KruskalTensor([f[:, p].copy() for f in start.factor_matrices], np.array(start.weights)[p])
    got, _ = fit_states(case, args, start2, case['its'])
    compare(case, data, got, want, lambda xs: xs, 'components of the start reordered')
    for a, b in zip(got, want):
        for i, (x, y) in enumerate(zip(a['factors'], b['factors'])):
            # the components themselves are as well determined as the systems solved for them
            close(x, y[:, p], 1e-4, f'factor {i} after iteration {b["it"]}, components of the start reordered', scale=np.linalg.norm(y))
    return finish(case, np.array_equal(p, np.arange(case['rank'])))


# -------------------------------------------------------------------------------------- scaling

def run_scale(case):
    args, data, start = make(case)
    want, model = fit_states(case, args, start, case['its'])
    if not determined(case, args, data, want, start):
        return ['trivial', 'not determined', case['kind']]
    c = case['factor']
    if case['kind'] == 'pf2':
        args2 = ([x * c for x in args[0]],)
    elif case['kind'] == 'cp':
        args2 = (args[0] * c,)
    else:
        args2 = (args[0] * c, [y * c for y in args[1]], list(case['couple']))
    if case['start_too'] and case['kind'] == 'cp':
        # scaling the start along changes nothing either (through its weights)
        from tenkit.decomposition import KruskalTensor
        start = KruskalTensor([f.copy() for f in start.factor_matrices], np.array(start.weights) * c)
    got, model2 = fit_states(case, args2, start, case['its'])
    compare(case, data, got, want, lambda xs: [x * c for x in xs], f'data multiplied by {c:g}')
    if case['kind'] != 'cmtf' or not case['couple']:
        a, b = float(model.explained_variance), float(model2.explained_variance)
        require(abs(a - b) < 1e-6 * max(1, abs(a)), 'explained variance {:.10g} for data multiplied by {:g}, {:.10g} before', b, c, a)
    labels = [f'by {c:g}']
    if case['tols'] is not None:
        # The number of iterations until the fit stops by itself does not depend on the unit of the data either
        if case['kind'] != 'cmtf':   # coupled starts are normalised after their loss is taken
            start = make(case)[2]
            if case['kind'] == 'pf2':
                from tenkit.decomposition import Parafac2Tensor
                start2 = Parafac2Tensor(start.A.copy(), start.blueprint_B.copy(), start.C * c, [p.copy() for p in start.projection_matrices])
            else:
                from tenkit.decomposition import KruskalTensor
                start2 = KruskalTensor([f.copy() for f in start.factor_matrices], np.array(start.weights) * c)
            labels += stopping(case, args, args2, start, start2)
    return finish(case, c == 1) + labels


def stopping(case, args, args2, start, start2):
    change_tol, loss_tol = case['tols']
    kwargs = dict(convergence_tol=change_tol)
    if case['kind'] != 'pf2':
        kwargs['rel_loss_tol'] = loss_tol
    its = case['its'] + 4
    counts = []
    for data, first in ((args, start), (args2, start2)):
        recorder = fits.Recorder(limit=its)
        model = model_of(dict(case, init='precomputed'), loggers=[recorder], **kwargs)
        np.random.seed(case['np_seed'] % 2 ** 32)
        model.fit(*data, max_its=its, initial_decomposition=copy.deepcopy(first))
        counts.append(len(recorder.states))
    # What the first fit is stopped by, without tolerances
    sse = []

    class Watcher(fits.Recorder):
        def log(self, decomposer):
            sse.append(float(decomposer.SSE))
            super().log(decomposer)
    model = model_of(dict(case, init='precomputed'), loggers=[Watcher(limit=its)])
    np.random.seed(case['np_seed'] % 2 ** 32)
    model.fit(*args, max_its=0, initial_decomposition=copy.deepcopy(start))
    sse.append(float(model.SSE))
    model.continue_fit(max_its=its)
    if len(sse) != its + 1:
        return ['stop not decided']
    total = float(np.linalg.norm(args[0]) ** 2) if case['kind'] != 'pf2' else sum(float(np.linalg.norm(x) ** 2) for x in args[0])
    if min(sse) < 1e-6 * total:
        return ['stop not decided']
    expected = its
    for t in range(its):
        shares = [(sse[t] / total, loss_tol)] if case['kind'] != 'pf2' else []
        if t:
            shares.append((abs(sse[t - 1] - sse[t]) / sse[t - 1], change_tol))
        if any(abs(value - tol) < 1e-3 * tol + 1e-6 for value, tol in shares if tol):
            return ['stop not decided']
        if any(value < tol for value, tol in shares):
            expected = t
            break
    require(counts[1] == counts[0], 'the fit to data multiplied by {:g} stopped after {} iterations rather than {} (tolerances {})', case['factor'], counts[1], counts[0], case['tols'])
    return ['stopped early' if 0 < expected < its else 'no iterations' if expected == 0 else 'not stopped']


# ------------------------------------------------------------------------------------ generators

@st.composite
def problems(draw, ridge=True, its=st.sampled_from([3, 1, 2, 5]), kinds=('cp', 'pf2', 'cmtf')):
    kind = draw(st.sampled_from(kinds))
    if kind == 'cp':
        case = draw(fits.cp_problems(constrained=draw(st.booleans()), its=its, max_size=120, max_order=5, big=False, max_rank=4, ridge=None if ridge else False, inits=('precomputed',)))
        if case['start'] not in ('normal', 'uniform', 'ints'):
            case['start'] = 'normal'
    elif kind == 'pf2':
        case = draw(fits.pf2_problems(its=its, max_k=5, inits=('precomputed',), ridge=None if ridge else False))
        case['inner'] = min(case['inner'], 3)
        case['start'] = 'normal' if case['start'] == 'exact' else case['start']
    else:
        case = draw(fits.cmtf_problems(its=its, inits=('precomputed',)))
    case['kind'], case['scale'] = kind, 1.0
    return case


@st.composite
def layouts_cases(draw):
    case = draw(problems())
    case.update(other=draw(st.sampled_from(['layout', 'ints'])), layout2=draw(st.sampled_from(['strided', 'F', 'reversed', 'offset', 'C'])), numbers=draw(st.sampled_from(['int64', 'int8', 'uint8', 'int16', 'int32'])), container=draw(st.sampled_from(['array', 'list'])))
    return case


@st.composite
def index_cases(draw):
    case = draw(problems())
    case.update(pseed=draw(gen.seeds), all_modes=draw(st.booleans()), which=draw(st.integers(0, 4)))
    return case


@st.composite
def component_cases(draw):
    case = draw(problems(kinds=['cp', 'pf2']))   # the other factors of coupled matrices start at random
    case.update(pseed=draw(gen.seeds))
    return case


@st.composite
def scale_cases(draw):
    case = draw(problems(ridge=False))
    if case['kind'] == 'cmtf':  # the other factors of coupled matrices start with unit columns, whatever the data
        case['couple'], case['widths'] = [0] * bool(case['couple']), case['widths'][:1]
    case.update(factor=draw(st.sampled_from([10.0, 1e-3, 0.5, 3.7, 1e4, 128.0])), start_too=draw(st.booleans()))
    case['tols'] = draw(st.sampled_from([(0.1, 1e-10), None, (0.02, 0.1), (1e-6, 0.5), (0, 0.05), (1e-3, 0), (0.3, 0)]))
    return case


SUBS = [
    Sub('layout', layouts_cases(), run_layout, 4000, weight=10),
    Sub('indices', index_cases(), run_indices, 4000, weight=10),
    Sub('components', component_cases(), run_components, 3000, weight=10),
    Sub('scale', scale_cases(), run_scale, 3000, weight=10),
]
