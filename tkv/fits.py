"""Fitting problems: generated descriptions, data, model objects and recorded runs."""
import copy
import io
import contextlib
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from .core import Violation, Fault, require, as_array

DATA = ['noisy', 'noisy', 'exact', 'normal', 'ints', 'uniform', 'sparse', 'nonneg_noisy', 'negative', 'shifted']


class Recorder:
    """A logger that copies the state after every iteration."""
    def __init__(self, limit=None, fault_at=None, statistics=False):
        self.states, self.limit, self.fault_at, self.statistics = [], limit, fault_at, statistics

    def log(self, decomposer):
        self.states.append(snapshot(decomposer, self.statistics))
        if self.limit is not None and len(self.states) > self.limit:
            raise Violation(f'more than {self.limit} iterations were run')
        if self.fault_at is not None and decomposer.current_iteration == self.fault_at:
            raise Fault()

    def write_to_hdf5_group(self, group):
        pass


def snapshot(decomposer, statistics=False):
    d = decomposer.decomposition
    if hasattr(d, 'projection_matrices'):
        state = dict(kind='pf2', factors=[np.array(d.A), np.array(d.blueprint_B), np.array(d.C)],
                     P=[np.array(p) for p in d.projection_matrices])
    else:
        state = dict(kind='cp', factors=[np.array(f) for f in d.factor_matrices], weights=np.array(d.weights))
        if hasattr(decomposer, 'uncoupled_factor_matrices'):
            state['V'] = [np.array(v) for v in decomposer.uncoupled_factor_matrices]
    state['it'] = decomposer.current_iteration
    if statistics:
        state['stats'] = read_statistics(decomposer)
    return state


def read_statistics(decomposer):
    return {name: getattr(decomposer, name) for name in ('SSE', 'MSE', 'RMSE', 'explained_variance', 'loss')}


def reconstruct(state):
    """List of arrays: the tensor, or the slices of a PARAFAC2 tensor."""
    if state['kind'] == 'pf2':
        A, D, C = state['factors']
        return [A @ np.diag(C[k]) @ (P @ D).T for k, P in enumerate(state['P'])]
    return [ref.kruskal(state['factors'], state['weights'])]


def state_scale(state):
    if state['kind'] == 'pf2':
        A, D, C = state['factors']
        return ref.kruskal_scale([A, D, C])
    return ref.kruskal_scale(state['factors'], state['weights'])


def distance(s1, s2):
    return np.sqrt(sum(np.linalg.norm(a - b) ** 2 for a, b in zip(reconstruct(s1), reconstruct(s2))))


# ------------------------------------------------------------------------------------------ data

def tensor_data(rng, shape, rank, kind):
    if kind in ('exact', 'noisy'):
        X = ref.kruskal([rng.standard_normal((n, rank)) for n in shape])
        if kind == 'noisy':
            X = X + 0.2 * np.linalg.norm(X) / np.sqrt(X.size) * rng.standard_normal(shape)
    elif kind == 'nonneg_noisy':
        X = ref.kruskal([rng.uniform(0, 1, (n, rank)) for n in shape])
        X = X + 0.1 * np.linalg.norm(X) / np.sqrt(X.size) * rng.standard_normal(shape)
    else:
        X = gen.content(rng, shape, kind)
    if np.linalg.norm(X) == 0:
        X = X + 1.0
    return X


CONSTRAINTS = ['free', 'nonneg', 'orth']


def draw_modes(draw, sizes, rank, allowed):
    """Constraint per mode; orthonormality only where possible and not everywhere."""
    modes = [draw(st.sampled_from([c for c in allowed if c != 'orth' or n >= rank])) for n in sizes]
    if all(m == 'orth' for m in modes):
        modes[draw(st.integers(0, len(modes) - 1))] = 'free'
    return modes


def ridge_vectors(n):
    return st.lists(st.sampled_from([0.0, 1e-3, 0.1, 1.0, 30.0]), min_size=n, max_size=n)


@st.composite
def cp_problems(draw, constrained=False, ridge=None, inits=('random', 'svd', 'precomputed'), min_order=2, max_order=5,
                data=DATA, its=None, max_rank=6, big=True, max_size=300):
    shape = draw(gen.shapes(min_order, max_order, 7, max_size, big=big, high=big and max_order >= 5))
    rank = draw(st.integers(1, 4) | st.integers(1, max_rank))
    modes = draw_modes(draw, shape, rank, ['free', 'nonneg', 'orth', 'nonneg'] if constrained else ['free'])
    inits = [i for i in inits if i != 'svd' or rank <= min(shape)]
    if ridge is None:
        ridge = draw(st.integers(0, 2)) == 0
    init = draw(st.sampled_from(inits))
    case = dict(shape=shape, rank=rank, modes=modes, init=init, data=draw(st.sampled_from(data)), seed=draw(gen.seeds),
                np_seed=draw(gen.seeds), layout=draw(gen.layouts), scale=draw(st.sampled_from([1.0, 1.0, 1.0, 1e-3, 1e4, 1e-7, 1e7])),
                ridge=draw(ridge_vectors(len(shape))) if ridge else None,
                its=draw(its if its is not None else st.integers(1, 6)))
    if init == 'precomputed':
        case['start'] = draw(st.sampled_from(['normal', 'normal', 'uniform', 'exact', 'scaled_columns', 'zero_column', 'ints', 'near_collinear', 'equal_columns']))
        case['start_weights'] = draw(st.sampled_from(['none', 'none', 'positive', 'normal']))
        case['shared'] = draw(st.integers(0, 5)) == 5
    return case


def cp_data(case):
    """(X, true factors or None)"""
    rng = np.random.default_rng(case['seed'])
    X = tensor_data(rng, case['shape'], case['rank'], case['data']) * case['scale']
    return gen.layout_as(X, case['layout'])


def feasible_factors(rng, sizes, rank, modes, kind):
    out = []
    for n, mode in zip(sizes, modes):
        if mode == 'orth':
            out.append(gen.content(rng, (n, rank), 'orthonormal'))
        elif mode == 'nonneg':
            out.append(np.abs(gen.content(rng, (n, rank), kind)))
        else:
            out.append(gen.content(rng, (n, rank), kind))
    return out


def cp_start(case, X=None):
    """(KruskalTensor to start from, X): for an exact start the data are made to fit."""
    from tenkit.decomposition import KruskalTensor
    rng = np.random.default_rng(case['seed'] + 1)
    kind = 'normal' if case['start'] == 'exact' else case['start']
    factors = gen.share(feasible_factors(rng, case['shape'], case['rank'], case['modes'], kind), case.get('shared'), case['modes'])
    weights = gen.build_weights(dict(rank=case['rank'], weights=case['start_weights'], wseed=case['seed']))
    if case['start'] == 'exact':
        X = gen.layout_as(ref.kruskal(factors), case['layout'])
        weights = None
    return KruskalTensor(factors, weights), X


def constraint_args(modes, ridge):
    return dict(
        non_negativity_constraints=[m == 'nonneg' for m in modes] if 'nonneg' in modes else None,
        orthonormality_constraints=[m == 'orth' for m in modes] if 'orth' in modes else None,
        ridge_penalties=None if ridge is None else list(ridge),
    )


def cp_model(case, **kwargs):
    from tenkit.decomposition import CP_ALS
    args = dict(max_its=case['its'], convergence_tol=0, rel_loss_tol=0, init=case['init'], **constraint_args(case['modes'], case['ridge']))
    args.update(kwargs)
    return CP_ALS(case['rank'], **args)


def run_cp(case, max_its=None, statistics=False, **kwargs):
    """Fit and record. Returns (X, states with the start first, model)."""
    its = case['its'] if max_its is None else max_its
    X = cp_data(case)
    start = None
    if case['init'] == 'precomputed':
        start, X = cp_start(case, X)
    np.random.seed(case['np_seed'] % 2 ** 32)
    first = cp_model(case)
    first.fit(X, max_its=0, initial_decomposition=copy.deepcopy(start))
    states = [snapshot(first)]
    recorder = Recorder(limit=its)
    model = cp_model(case, loggers=[recorder], **kwargs)
    np.random.seed(case['np_seed'] % 2 ** 32)
    model.fit(X, max_its=its, initial_decomposition=copy.deepcopy(start))
    return X, states + recorder.states, model, start


def cp_loss(X, state, ridge=None):
    loss = np.linalg.norm(X - ref.kruskal(state['factors'], state['weights'])) ** 2
    if ridge is not None:
        loss += sum(r * np.linalg.norm(f) ** 2 for r, f in zip(ridge, state['factors']))
    return loss


# -------------------------------------------------------------------------------------- PARAFAC2

@st.composite
def pf2_problems(draw, constrained=None, ridge=None, inits=('random', 'svd', 'cp', 'precomputed'), its=None, max_k=8, data=('noisy', 'noisy', 'exact', 'normal', 'uniform', 'ints', 'nonneg_noisy')):
    rank = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    I = draw(st.integers(rank, rank + 5))
    K = draw(st.integers(1, max_k) | (st.integers(9, 14) if draw(st.integers(0, 5)) == 0 else st.integers(2, 5)))
    regular = draw(st.booleans())
    J = [draw(st.integers(rank, rank + 5))] * K if regular else draw(st.lists(st.integers(rank, rank + 6), min_size=K, max_size=K))
    large = draw(st.integers(0, 9))
    if large == 9:      # now and then more components, and larger slices of which some are narrow
        rank = draw(st.integers(2, 8))
        I = draw(st.integers(rank, 40))
        K = min(K, 6)
        J = [draw(st.integers(rank, 60))] * K if regular else draw(st.lists(st.integers(rank, rank + 3) | st.integers(rank, 60), min_size=K, max_size=K))
    if constrained is None:
        constrained = draw(st.booleans())
    modes = draw_modes(draw, [I, rank, K], rank, ['free', 'free', 'nonneg', 'orth'] if constrained else ['free'])
    if ridge is None:
        ridge = draw(st.integers(0, 2)) == 0
    as_array = len(set(J)) == 1 and draw(st.booleans())
    init = draw(st.sampled_from([i for i in inits if i != 'cp' or len(set(J)) == 1]))
    case = dict(I=I, J=J, K=K, rank=rank, modes=modes, init=init, data=draw(st.sampled_from(list(data))), seed=draw(gen.seeds),
                np_seed=draw(gen.seeds), layout=draw(gen.layouts), scale=draw(st.sampled_from([1.0, 1.0, 1e-2, 1e3, 1e-7, 1e6])),
                as_array=as_array, ridge=draw(ridge_vectors(3)) if ridge else None, inner=draw(st.sampled_from([5, 1, 2, 3, 7])),
                its=draw(its if its is not None else st.integers(1, 4)))
    if init == 'precomputed':
        case['start'] = draw(st.sampled_from(['normal', 'normal', 'uniform', 'exact', 'exact']))
        case['shared'] = draw(st.integers(0, 5)) == 5
    return case


def pf2_slices_of(rng, I, J, rank, kind, K):
    if kind in ('exact', 'noisy', 'nonneg_noisy'):
        if kind == 'nonneg_noisy':
            A, D, C = rng.uniform(0.1, 1, (I, rank)), rng.uniform(0, 1, (rank, rank)), rng.uniform(0.1, 1.1, (K, rank))
        else:
            A, D, C = rng.standard_normal((I, rank)), rng.standard_normal((rank, rank)), rng.uniform(0.3, 1.3, (K, rank)) * rng.choice([-1, 1], (K, rank))
        P = [gen.content(rng, (j, rank), 'orthonormal') for j in J]
        X = [A @ np.diag(C[k]) @ (P[k] @ D).T for k in range(K)]
        if kind != 'exact':
            X = [x + 0.2 * np.linalg.norm(x) / np.sqrt(x.size) * rng.standard_normal(x.shape) for x in X]
        return X
    return [gen.content(rng, (I, j), kind) for j in J]


def pf2_container(case, slices):
    if case['as_array']:
        return gen.layout_as(np.stack(slices, axis=2), case['layout'])
    return [gen.layout_as(x, case['layout']) for x in slices]


def pf2_data(case):
    slices = [x * case['scale'] for x in pf2_slices_of(np.random.default_rng(case['seed']), case['I'], case['J'], case['rank'], case['data'], case['K'])]
    for x in slices:
        if np.linalg.norm(x) == 0:
            x += 1.0
    return slices


def pf2_start(case, slices):
    from tenkit.decomposition import Parafac2Tensor
    rng = np.random.default_rng(case['seed'] + 1)
    kind = 'normal' if case['start'] == 'exact' else case['start']
    A, D, C = gen.share(feasible_factors(rng, [case['I'], case['rank'], case['K']], case['rank'], case['modes'], kind), case.get('shared'), case['modes'])
    P = gen.share([gen.content(rng, (j, case['rank']), 'orthonormal') for j in case['J']], case.get('shared'))
    if case['start'] == 'exact':
        slices = [A @ np.diag(C[k]) @ (P[k] @ D).T for k in range(case['K'])]
    return Parafac2Tensor(A, D, C, P), slices


def pf2_model(case, **kwargs):
    from tenkit.decomposition import Parafac2_ALS
    args = dict(max_its=case['its'], convergence_tol=0, init=case['init'], print_frequency=None, cp_updates_per_it=case['inner'],
                **constraint_args(case['modes'], case['ridge']))
    args.update(kwargs)
    return Parafac2_ALS(case['rank'], **args)


def run_pf2(case, max_its=None, **kwargs):
    its = case['its'] if max_its is None else max_its
    slices = pf2_data(case)
    start = None
    if case['init'] == 'precomputed':
        start, slices = pf2_start(case, slices)
    X = pf2_container(case, slices)
    np.random.seed(case['np_seed'] % 2 ** 32)
    first = pf2_model(case)
    first.fit(X, max_its=0, initial_decomposition=copy.deepcopy(start))
    states = [snapshot(first)]
    recorder = Recorder(limit=its)
    model = pf2_model(case, loggers=[recorder], **kwargs)
    np.random.seed(case['np_seed'] % 2 ** 32)
    model.fit(X, max_its=its, initial_decomposition=copy.deepcopy(start))
    return X, slices, states + recorder.states, model, start


def pf2_loss(slices, state, ridge=None):
    loss = sum(np.linalg.norm(x - y) ** 2 for x, y in zip(slices, reconstruct(state)))
    if ridge is not None:
        loss += sum(r * np.linalg.norm(f) ** 2 for r, f in zip(ridge, state['factors']))
    return loss


def pf2_step(slices, state, case):
    """Reference for one PARAFAC2 iteration. Returns new state, well-posedness of the projections, of the whole step."""
    A, D, C = [f.copy() for f in state['factors']]
    P, well_p = [], 1.0
    for k, x in enumerate(slices):
        M = x.T @ (A * C[k]) @ D.T
        U, s, Vt = np.linalg.svd(M, full_matrices=False)
        well_p = min(well_p, s[-1] / s[0] if s[0] > 0 else 0.0)
        P.append(U @ Vt)
    Y = np.stack([x @ p for x, p in zip(slices, P)], axis=2)
    nonneg = [m == 'nonneg' for m in case['modes']]
    orth = [m == 'orth' for m in case['modes']]
    factors, well = [A, D, C], well_p
    for _ in range(case['inner']):
        factors, w = ref.als_sweep(Y, factors, nonneg, orth, case['ridge'])
        well = min(well, w)
    return dict(kind='pf2', factors=factors, P=P), well_p, well


# ------------------------------------------------------------------------------------------ CMTF

@st.composite
def cmtf_problems(draw, its=None, constrained=None, inits=('random', 'svd', 'precomputed'), min_coupled=0, orth=False, ridge=False):
    shape = draw(gen.shapes(3, 4, 6, 250, min_dim=2, big=True) | gen.shapes(3, 4, 6, 160) | gen.shapes(2, 5, 6, 200, big=True))
    rank = draw(st.sampled_from([2, 3, 1, 4, 5, 6]))
    if constrained is None:
        constrained = draw(st.booleans())
    modes = draw_modes(draw, shape, rank, (['free', 'nonneg', 'orth'] if orth else ['free', 'nonneg']) if constrained else ['free'])
    n = draw(st.sampled_from([k for k in (2, 1, 3, 0, 4) if min(min_coupled, len(shape)) <= k <= len(shape)]))
    couple = list(draw(st.permutations(list(range(len(shape))))))[:n]
    if n and draw(st.integers(0, 3)) == 0:     # several matrices for one mode
        couple = list(draw(st.permutations(couple + draw(st.lists(st.sampled_from(couple), min_size=1, max_size=2)))))
    inits = [i for i in inits if i != 'svd' or rank <= min(shape)]
    case = dict(shape=shape, rank=rank, modes=modes, ridge=draw(ridge_vectors(len(shape))) if ridge and draw(st.integers(0, 3)) == 0 else None, init=draw(st.sampled_from(inits)), data=draw(st.sampled_from(DATA)),
                seed=draw(gen.seeds), np_seed=draw(gen.seeds), layout=draw(gen.layouts), scale=draw(st.sampled_from([1.0, 1.0, 1e-2, 1e3])),
                couple=couple, widths=[draw(st.integers(1, 8) if draw(st.integers(0, 7)) < 7 else st.integers(9, 50)) for _ in couple], ykind=draw(st.sampled_from(['normal', 'shared', 'shared', 'uniform', 'ints'])),
                its=draw(its if its is not None else st.integers(1, 5)))
    if case['init'] == 'precomputed':
        case['start'] = draw(st.sampled_from(['normal', 'uniform']))
        case['start_weights'] = 'none'
    return case


def cmtf_data(case):
    rng = np.random.default_rng(case['seed'])
    X = tensor_data(rng, case['shape'], case['rank'], case['data']) * case['scale']
    Ys = []
    for mode, width in zip(case['couple'], case['widths']):
        n = case['shape'][mode]
        if case['ykind'] == 'shared':   # shares a column space with the tensor
            F = np.moveaxis(X, mode, 0).reshape(n, -1)[:, :case['rank']]
            Y = F @ rng.standard_normal((F.shape[1], width)) / max(np.linalg.norm(F), 1e-300) + 0.1 * rng.standard_normal((n, width))
        else:
            Y = gen.content(rng, (n, width), case['ykind'])
        Ys.append(gen.layout_as(Y * case['scale'], case['layout']))
    return gen.layout_as(X, case['layout']), Ys


def cmtf_model(case, **kwargs):
    from tenkit.decomposition.cmtf import CMTF_ALS
    args = dict(max_its=case['its'], convergence_tol=0, rel_loss_tol=0, init=case['init'], **constraint_args(case['modes'], case['ridge']))
    args.update(kwargs)
    return CMTF_ALS(case['rank'], **args)


def cmtf_reconstructions(state, case):
    """Tensor and coupled matrices. While fitting, the weights are one; afterwards the factors are normalised."""
    out = [ref.kruskal(state['factors'], state['weights'])]
    for mode, V in zip(case['couple'], state['V']):
        out.append(state['factors'][mode] @ V.T)
    return out


def cmtf_loss(data, state, case):
    return sum(np.linalg.norm(x - y) ** 2 for x, y in zip(data, cmtf_reconstructions(state, case))) + sum(
        r * np.linalg.norm(f) ** 2 for r, f in zip(case['ridge'] or [], state['factors']))


def coupling(case, Ys, Vs):
    """{mode: (Y, V)} with the matrices coupled to one mode side by side."""
    out = {}
    for mode in set(case['couple']):
        ys = [Y for m, Y in zip(case['couple'], Ys) if m == mode]
        vs = [V for m, V in zip(case['couple'], Vs) if m == mode]
        out[mode] = np.concatenate(ys, axis=1), np.concatenate(vs, axis=0)
    return out


def run_cmtf(case, max_its=None, **kwargs):
    its = case['its'] if max_its is None else max_its
    X, Ys = cmtf_data(case)
    start = cp_start(case)[0] if case['init'] == 'precomputed' else None
    recorder = Recorder(limit=its)
    model = cmtf_model(case, loggers=[recorder], **kwargs)
    np.random.seed(case['np_seed'] % 2 ** 32)
    model.fit(X, list(Ys), list(case['couple']), max_its=its, initial_decomposition=copy.deepcopy(start))
    return X, Ys, recorder.states, model, start


def cmtf_step(X, Ys, state, case):
    nonneg, orth = [m == 'nonneg' for m in case['modes']], [m == 'orth' for m in case['modes']]
    factors = [f * (state['weights'] if i == 0 else 1) for i, f in enumerate(state['factors'])]
    coupled = coupling(case, Ys, state['V'])
    factors, well = ref.als_sweep(X, factors, nonneg, orth, case['ridge'], coupled)
    V = []
    for mode, Y in zip(case['couple'], Ys):
        new, w = ref.update(factors[mode].T, Y.T, 'nonneg' if nonneg[mode] else 'free', 0)
        V.append(new)
        well = min(well, w)
    return dict(kind='cp', factors=factors, weights=np.ones(case['rank']), V=V), well


def as_numbers(case, args, data, numbers):
    """The data as small integers of the given type."""
    top = max(np.abs(x).max() for x in data)
    scaled = [np.rint(x * (60 / top if top > 0 else 1)) for x in data]
    if numbers.startswith('u'):
        scaled = [np.abs(x) for x in scaled]
    if not all(np.any(x) for x in scaled):
        return args, data
    typed = [x.astype(numbers) for x in scaled]
    if case['kind'] == 'pf2':
        return (pf2_container(case, typed),), scaled
    typed = [gen.layout_as(x, case['layout']) for x in typed]
    return (typed[0],) if case['kind'] == 'cp' else (typed[0], typed[1:], *args[2:]), scaled


@contextlib.contextmanager
def silenced():
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out
