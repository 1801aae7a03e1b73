import copy, os, tempfile
import numpy as np
from hypothesis import strategies as st
from tkv import gen, ref, fits
from tkv.core import Sub, Violation, close, identical, require, expect_raises
from checks.c11 import model_of, problem
from checks import c12

RULE = ('CP, PARAFAC2 and coupled models with every kind of start (random, SVD, CP, given, from a checkpoint by argument or by path, in any letter case), '
        'observed by a fit of zero iterations: shapes, unit columns, signs, spans, equality with what was given; all kinds of mismatched, unknown and missing '
        'starts, which must be refused before anything is logged or written. Non-trivial: rank above one, or a refused start.')


def spans_leading(U, M, rank, what):
    """The columns of U span the leading left singular vectors of M. Returns whether these are determined."""
    full, s, _ = np.linalg.svd(M)
    s = np.concatenate([s, np.zeros(max(0, len(full) - len(s)))])
    gap = (s[rank - 1] - (s[rank] if rank < len(s) else 0)) / s[0] if s[0] > 0 else 0
    if rank < len(full) and gap < 1e-4:
        return False
    lead = full[:, :rank]
    norms = np.linalg.norm(U, axis=0)
    if norms.min() < 1e-6 * norms.max():
        return False
    V = U / norms
    close(V - lead @ (lead.T @ V), np.zeros_like(V), 1e-8 / min(1, gap) ** 2 if rank < len(full) else 1e-8, f'{what}: part outside the leading singular vectors', scale=1)
    require(np.linalg.matrix_rank(V, tol=1e-6) == rank, '{}: the columns of the start are linearly dependent', what)
    return True


def start_state(model, case, args, start, **kwargs):
    c12.fit(model, case, args, start, **kwargs)
    return fits.snapshot(model)


def check_sizes(case, state, data):
    if case['kind'] == 'pf2':
        want = [(case['I'], case['rank']), (case['rank'], case['rank']), (case['K'], case['rank'])]
        require([f.shape for f in state['factors']] == want, 'factors of the start have shapes {}, expected {}', [f.shape for f in state['factors']], want)
        want = [(x.shape[1], case['rank']) for x in data]
        require([p.shape for p in state['P']] == want, 'projections of the start have shapes {}, expected {}', [p.shape for p in state['P']], want)
    else:
        want = [(n, case['rank']) for n in case['shape']]
        require([f.shape for f in state['factors']] == want, 'factors of the start have shapes {}, expected {}', [f.shape for f in state['factors']], want)
        if case['kind'] == 'cmtf':
            want = [(w, case['rank']) for w in case['widths']]
            require([v.shape for v in state['V']] == want, 'factors of the coupled matrices have shapes {}, expected {}', [v.shape for v in state['V']], want)
    require(all(np.all(np.isfinite(f)) for f in state['factors']), 'the start is not finite')


def same_directions(factors, expected, what):
    for a, b in zip(factors, expected):
        b = np.array(b, dtype=float)
        n1, n2 = np.linalg.norm(a, axis=0), np.linalg.norm(b, axis=0)
        ok = n2 > 1e-3
        close(a[:, ok] / n1[ok], b[:, ok] / n2[ok], 1e-9, what + ', up to scaling')


def spelled(word, how):
    return [word, word.upper(), word.capitalize(), word.swapcase()[:1] + word[1:]][how % 4]


def run(case):
    args, data, given = problem(case)
    init, rank = case['init'], case['rank']
    if init == 'cp' and case['rank_one']:
        rng = np.random.default_rng(case['seed'])
        X = ref.kruskal([rng.standard_normal((n, 1)) for n in (case['I'], case['J'][0], case['K'])])
        data = [X[:, :, k] for k in range(case['K'])]
        args = (fits.pf2_container(case, data),)
    labels = [case['kind'], 'start ' + case['source']]
    if init == 'svd' and case['numbers'] != 'float64':
        args, data = fits.as_numbers(case, args, data, case['numbers'])
        labels.append(case['numbers'])
    with tempfile.TemporaryDirectory() as folder:
        recorder = fits.Recorder(limit=0)
        path = os.path.join(folder, 'Start.h5')
        stored = None
        if case['source'] in ('argument', 'path'):
            # a checkpoint made by another model, possibly with other settings
            other = model_of(dict(case, init='random'), checkpoint_path=path, checkpoint_frequency=case['freq'])
            c12.fit(other, case, args, None, max_its=case['done'])
            other.load_checkpoint(path)
            stored = fits.snapshot(other)
            given = path if case['source'] == 'argument' else None
            kind = spelled('from_checkpoint', case['spelling']) if case['source'] == 'argument' else path
        else:
            kind = spelled(init, case['spelling'])
        model = model_of(dict(case, init=kind), loggers=[recorder])
        state = start_state(model, case, args, given, max_its=case['done'] if stored else 0)
    require(not recorder.states, 'iterations were run')
    check_sizes(case, state, data)
    feasible = True
    if case['kind'] != 'pf2':
        for m, (f, c) in enumerate(zip(state['factors'], case['modes'])):
            if init == 'random' and c == 'nonneg' and not stored:
                require(np.all(f >= 0), 'random start: mode {} has negative entries', m)
            if c == 'orth':
                s = np.linalg.svd(f, compute_uv=False)
                if not stored and (s.min() > 1e-3 or init == 'random'):
                    close(f.T @ f, np.eye(rank), 1e-8, f'start: cross product of the orthonormal mode {m}')
    if stored:
        require(state['it'] == stored['it'] == case['done'], 'the iteration count is {} at the start from a checkpoint of iteration {}', state['it'], case['done'])
        if any(c == 'orth' and abs(f.T @ f - np.eye(rank)).max() > 1e-12 for f, c in zip(stored['factors'], case['modes'])):
            return ['trivial', 'not feasible']  # an orthonormal mode was not determined by the data: a start is made feasible
        if case['kind'] == 'cmtf':
            same_directions(state['factors'], stored['factors'], 'factor of the start from a checkpoint')
        else:
            for a, b in zip(fits.reconstruct(state), fits.reconstruct(stored)):
                close(a, b, 1e-9, 'tensor described by the start from a checkpoint', scale=fits.state_scale(stored))
            for a, b in zip(state['factors'] + state.get('P', []), stored['factors'] + stored.get('P', [])):
                close(a, b, 1e-9, 'factors of the start from a checkpoint')
    elif init == 'random':
        require(state['it'] == 0, 'the iteration count is {}', state['it'])
        if case['kind'] == 'pf2':
            for k, P in enumerate(state['P']):
                close(P.T @ P, np.eye(rank), 1e-9, f'random start: cross product of projection {k}')
        else:
            close(state['weights'], np.ones(rank), 1e-9, 'weights of a random start')
            for m, f in enumerate(state['factors']):
                close(np.linalg.norm(f, axis=0), np.ones(rank), 1e-9, f'random start: column norms in mode {m}')
            for v, m in zip(state.get('V', []), case['couple'] if case['kind'] == 'cmtf' else []):
                close(np.linalg.norm(v, axis=0), np.ones(rank), 1e-9, 'random start: column norms of the factor of a coupled matrix')
                require(case['modes'][m] != 'nonneg' or np.all(v >= 0), 'random start: the factor of a coupled matrix of a non-negative mode has negative entries')
        # another draw gives another start, the same draw the same
        model = model_of(dict(case, init=kind))
        again = start_state(model, case, args, None, max_its=0)
        c12.same(again, state, 'random start from the same random state')
        again = start_state(model, dict(case, np_seed=case['np_seed'] + 1), args, None, max_its=0)
        sizes = [f.size for f, c in zip(state['factors'], case['modes'] if case['kind'] != 'pf2' else ['free'] * 3) if len(f) > 1]
        if sizes:
            require(not np.array_equal(c12.flat(again), c12.flat(state)), 'the random start does not depend on the random state')
    elif init == 'svd':
        require(state['it'] == 0, 'the iteration count is {}', state['it'])
        determined = True
        if case['kind'] == 'pf2':
            determined = spans_leading(state['factors'][0], np.concatenate(data, axis=1), rank, 'first mode')
            for k, P in enumerate(state['P']):
                M = data[k].T @ (state['factors'][0] * state['factors'][2][k]) @ state['factors'][1].T
                s = np.linalg.svd(M, compute_uv=False)
                if s[-1] > 1e-5 * s[0]:
                    close(P.T @ P, np.eye(rank), 1e-8, f'SVD start: cross product of projection {k}')
        else:
            for m, (f, c) in enumerate(zip(state['factors'], case['modes'])):
                determined = spans_leading(f, np.moveaxis(args[0], m, 0).reshape(args[0].shape[m], -1), rank, f'mode {m}') and determined
                close(f.T @ f, np.eye(rank), 1e-9, f'SVD start: cross product of the factor of mode {m}')
        labels.append('SVD determined' if determined else 'SVD not determined')
        if not determined:
            labels.append('trivial')
    elif init == 'cp':
        for k, P in enumerate(state['P']):
            close(P.T @ P, np.eye(rank), 1e-8, f'CP start: cross product of projection {k}')
            close(P @ state['factors'][1], state['P'][0] @ state['factors'][1], 1e-9, f'CP start: evolving factor {k}, compared with that of slice 0')
        e = sum(np.linalg.norm(x - y) ** 2 for x, y in zip(data, fits.reconstruct(state)))
        norm2 = sum(np.linalg.norm(x) ** 2 for x in data)
        require('orth' in case['modes'] or e <= norm2 * (1 + 1e-6), 'CP start: the squared error {:.6g} exceeds the squared norm {:.6g} of the data', e, norm2)
        if case['rank_one'] and 'orth' not in case['modes']:
            require(e <= 1e-8 * norm2, 'CP start: the squared error is {:.3g} for data of rank one with squared norm {:.3g}', e, norm2)
    else:
        require(state['it'] == 0, 'the iteration count is {}', state['it'])
        scale = fits.state_scale(fits_state(given))
        if case['kind'] != 'pf2' and 'orth' in case['modes'] and (case['kind'] == 'cmtf'):
            feasible = False
        if feasible and case['kind'] != 'cmtf':
            for a, b in zip(fits.reconstruct(state), fits.reconstruct(fits_state(given))):
                close(a, b, 1e-9, 'tensor described by the given start', scale=scale)
            if case['kind'] == 'pf2':
                c12.same(state, fits_state(given), 'given start', exact=False)
                close(c12.flat(state), c12.flat(fits_state(given)), 1e-10, 'given start')
        elif case['kind'] == 'cmtf':
            same_directions(state['factors'], given.factor_matrices, 'factor of the given start')
    return (['trivial'] if rank < 2 else []) + labels


def fits_state(d):
    if hasattr(d, 'projection_matrices'):
        return dict(kind='pf2', factors=[np.array(d.A, float), np.array(d.blueprint_B, float), np.array(d.C, float)], P=[np.array(p) for p in d.projection_matrices])
    return dict(kind='cp', factors=[np.array(f, float) for f in d.factor_matrices], weights=np.array(d.weights, float))


@st.composite
def starts(draw):
    kind = draw(st.sampled_from(['cp', 'pf2', 'cmtf']))
    if kind == 'cp':
        case = draw(fits.cp_problems(constrained=draw(st.booleans()), its=st.just(0), max_size=150))
        if 'orth' in case['modes'] and case['init'] == 'precomputed' and case['start_weights'] == 'normal':
            case['start_weights'] = 'positive'
    elif kind == 'pf2':
        case = draw(fits.pf2_problems(its=st.just(0)))
        if case['init'] == 'precomputed' and 'orth' in case['modes']:
            pass
    else:
        case = draw(fits.cmtf_problems(its=st.just(0)))
    if draw(st.integers(0, 3)) == 1 and case['init'] == 'svd':
        case['scale'] = draw(st.sampled_from([1e-6, 1e-5, 1e6]))
    case['rank_one'] = draw(st.booleans())
    case.update(numbers=draw(st.sampled_from(['float64', 'float64', 'float64', 'uint8', 'int8', 'int16', 'int64'])))
    case.update(kind=kind, spelling=draw(st.integers(0, 3)), source='init ' + case['init'], done=draw(st.integers(1, 4)), freq=draw(st.sampled_from([None, 1, 2, 3])))
    if draw(st.integers(0, 3)) == 0:
        case['source'] = draw(st.sampled_from(['argument', 'path']))
    return case


# ------------------------------------------------------------------------------------- refusals

def run_refused(case):
    """A start that does not fit the data is refused, with a ValueError, before any fitting."""
    args, data, _ = problem(dict(case, init='random'))
    wrong, kind = case['wrong'], case['kind']
    rng = np.random.default_rng(case['seed'])
    rank = case['rank']
    case = dict(case)
    given = init = None
    with tempfile.TemporaryDirectory() as folder:
        path, out = os.path.join(folder, 'a.h5'), os.path.join(folder, 'out.h5')
        if wrong == 'kind':
            init = case['word']
        elif wrong == 'svd rank':
            init = spelled('svd', case['spelling'])
            case['rank'] = rank = min(case['shape']) + 1 + case['delta'] - 1
        elif wrong == 'empty file':
            import h5py
            with h5py.File(path, 'w') as h5:
                h5.create_group('something')
        else:
            if kind == 'pf2':
                from tenkit.decomposition import Parafac2Tensor
                I, J, K, r = case['I'], list(case['J']), case['K'], rank
                if wrong == 'rank':
                    r += case['delta'] if case['up'] or rank == 1 else -1
                elif wrong == 'size':
                    which = case['where'] % 3
                    if which == 0:
                        I += case['delta'] if case['up'] or I == 1 else -1
                    elif which == 1:
                        k = case['which'] % K
                        if case['delta'] == 2 and len(set(J)) > 1:
                            J = [J[k]] * K      # slices of one width for data of several
                        else:
                            J[k] += case['delta'] if case['up'] or J[k] <= rank else -1
                    else:
                        K += case['delta'] if case['up'] or K == 1 else -1
                        J = (J + [J[-1]] * K)[:K]
                P = [np.linalg.qr(rng.standard_normal((max(j, r), r)))[0][:j] for j in J]
                bad = Parafac2Tensor(rng.standard_normal((I, r)), rng.standard_normal((r, r)), rng.standard_normal((K, r)), P)
            else:
                from tenkit.decomposition import KruskalTensor
                shape, r = list(case['shape']), rank
                if wrong == 'rank':
                    r += case['delta'] if case['up'] or rank == 1 else -1
                elif wrong == 'size':
                    m = case['where'] % len(shape)
                    shape[m] += case['delta'] if case['up'] or shape[m] == 1 else -1
                elif wrong == 'order':
                    shape = shape[:-1] if not case['up'] and len(shape) > 2 else shape + [case['delta']]
                bad = KruskalTensor([rng.standard_normal((n, r)) for n in shape])
            given, init = bad, spelled('precomputed', case['spelling'])
            if case['by'] != 'given':
                import h5py
                with h5py.File(path, 'w') as h5:
                    h5.attrs['final_iteration'] = 3
                    h5.attrs['checkpoint_its'] = [3]
                    bad.store_in_hdf5_group(h5.create_group('checkpoint_00003'))
        if wrong == 'empty file' or (wrong in ('rank', 'size', 'order') and case['by'] != 'given'):
            if case['by'] == 'path':
                init, given = path, None
            else:
                init, given = spelled('from_checkpoint', case['spelling']), path
        recorder = fits.Recorder()
        expect = [ValueError]

        if case['by'] == 'load' and wrong in ('rank', 'size', 'order', 'empty file'):
            # a checkpoint loaded into a model that is there already
            model = model_of(dict(case, init='random'), loggers=[recorder])
            model.fit(*args, max_its=1)
            before = fits.snapshot(model)
            expect_raises((ValueError,), lambda: model.load_checkpoint(path), f'loading a checkpoint with a wrong {wrong}')
            after = fits.snapshot(model)
            c12.same(after, before, 'decomposition after a refused checkpoint')
            require(after['it'] == before['it'], 'the iteration count changed from {} to {}', before['it'], after['it'])
            return [kind, 'wrong ' + wrong, 'by load']

        def fit():
            model = model_of(dict(case, init=init), loggers=[recorder], checkpoint_path=out, checkpoint_frequency=1)
            model.fit(*args, max_its=case.get('allowed', 3), initial_decomposition=given)
        expect_raises(tuple(expect), fit, f'a start with a wrong {wrong} (init={init!r})')
        require(not recorder.states, 'a start with a wrong {} was refused only after {} iterations', wrong, len(recorder.states))
        require(not os.path.exists(out), 'a start with a wrong {} was refused only after a checkpoint was written', wrong)
    return [kind, 'wrong ' + wrong, 'by ' + case['by']]


@st.composite
def refusals(draw):
    kind = draw(st.sampled_from(['cp', 'pf2', 'cmtf']))
    if kind == 'cp':
        case = draw(fits.cp_problems(its=st.just(2), max_size=100, max_order=4, max_rank=3, ridge=False, inits=('random',)))
    elif kind == 'pf2':
        case = draw(fits.pf2_problems(its=st.just(2), ridge=False, constrained=False, inits=('random',)))
    else:
        case = draw(fits.cmtf_problems(its=st.just(2), constrained=False, inits=('random',)))
    wrongs = ['size', 'rank', 'kind', 'empty file'] + (['order', 'svd rank'] if kind != 'pf2' else [])
    words = ['', 'randomm', 'rnd', 'sv', 'SVDs', 'precompute', 'checkpoint', 'from checkpoint', 'None', 'no such file.h5', '/nonexistent/file.h5', 'hosvd', '0'] + (['cp'] if kind != 'pf2' else ['cp_als', 'parafac2'])
    case.update(kind=kind, wrong=draw(st.sampled_from(wrongs)), delta=draw(st.integers(1, 3)), up=draw(st.booleans()), where=draw(st.integers(0, 9)),
                which=draw(st.integers(0, 20)), by=draw(st.sampled_from(['given', 'load', 'path', 'argument'])), allowed=draw(st.sampled_from([3, 0, 1])), spelling=draw(st.integers(0, 3)),
                word=draw(st.sampled_from(words)))
    return case


# ------------------------------------------------------------------------------ missing checkpoints

def run_missing(case):
    """Loading a checkpoint that is not there is refused and leaves the model as it was."""
    args, data, start = problem(case)
    n = case['its']
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, 'a.h5')
        model = model_of(case, checkpoint_path=path, checkpoint_frequency=case['freq'])
        c12.fit(model, case, args, start, max_its=n)
        there = c12.expected_checkpoints(0, n - 1, case['freq'], True)
        before = fits.snapshot(model)
        for t in range(n + 2):
            if t not in there:
                expect_raises((ValueError,), lambda: model.load_checkpoint(path, load_it=t), f'loading the checkpoint of iteration {t}, which was not stored')
                after = fits.snapshot(model)
                c12.same(after, before, 'decomposition after a refused checkpoint')
                require(after['it'] == before['it'], 'the iteration count changed from {} to {}', before['it'], after['it'])
    return ([] if case['rank'] > 1 else ['trivial']) + [case['kind'], f'{n + 2 - len(there)} missing']


@st.composite
def missing(draw):
    kind = draw(st.sampled_from(['cp', 'pf2']))
    its = st.integers(1, 5)
    case = draw(fits.cp_problems(its=its, max_size=60, max_order=4, max_rank=3, ridge=False) if kind == 'cp' else fits.pf2_problems(its=its, max_k=4))
    case.update(kind=kind, freq=draw(st.sampled_from([None, 2, 3, -1])))
    return case


SUBS = [
    Sub('starts', starts(), run, 2400, weight=8),
    Sub('refused', refusals(), run_refused, 1600, weight=4),
    Sub('missing', missing(), run_missing, 200, weight=12),
]
