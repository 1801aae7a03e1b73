import contextlib, copy, io, os, tempfile
import h5py
import numpy as np
from hypothesis import strategies as st
from tkv import gen, ref, fits
from tkv.core import Sub, Violation, Fault, close, identical, require
from checks.c11 import model_of, problem

RULE = ('CP and PARAFAC2 fits (and for what is stored also coupled fits) with checkpoint frequencies none, negative, zero and 1-7, up to 12 iterations, '
        '0-2 faults injected after chosen iterations, optionally a file with checkpoints of an older run, then resumed from the latest or a chosen '
        'checkpoint by path or by argument; iteration numbers beyond 10^6. Oracle: states recorded in an uninterrupted run; exact equality for what is stored, 1e-6 for what is '
        'recomputed. Non-trivial: at least two checkpoints or a resumed fit with at least one further iteration.')


@contextlib.contextmanager
def in_empty_folder():
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as folder:
        os.chdir(folder)
        try:
            yield folder
        finally:
            os.chdir(old)


def flat(state):
    arrays = state['factors'] + state.get('P', []) + ([state['weights']] if state['kind'] == 'cp' else [])
    return np.concatenate([np.ravel(a) for a in arrays])


def same(a, b, what, exact=True):
    for key in ('factors', 'P', 'V'):
        if key == 'V' or key not in a:
            continue
        require([x.shape for x in a[key]] == [x.shape for x in b[key]], '{}: shapes {} and {}', what, [x.shape for x in a[key]], [x.shape for x in b[key]])
    if exact:
        identical(flat(a), flat(b), what)


def conditioning(case, data, states):
    """Worst well-posedness of the steps between the states (0: anything can happen)."""
    if case['kind'] == 'pf2':
        return min([1.0] + [fits.pf2_step(data, s, case)[2] for s in states[:-1]])
    nonneg, orth = [m == 'nonneg' for m in case['modes']], [m == 'orth' for m in case['modes']]
    return min([1.0] + [ref.als_sweep(data[0], s['factors'], nonneg, orth, case['ridge'])[1] for s in states[:-1]])


def fit(model, case, args, start, **kwargs):
    np.random.seed(case['np_seed'] % 2 ** 32)
    model.fit(*args, initial_decomposition=copy.deepcopy(start), **kwargs)


def expected_checkpoints(first, last, freq, complete):
    """Iterations (from 0) stored by a run of iterations first..last."""
    its = [t for t in range(first, last + 1) if freq is not None and freq > 0 and (t + 1) % freq == 0]
    if complete and last >= first and last not in its:
        its.append(last)
    return its


def check_file(case, args, path, states, its):
    """The file holds the states of these iterations, and the last of them is the latest."""
    model = model_of(dict(case, init='random'))
    model.fit(*args, max_its=0)
    for t in its:
        try:
            model.load_checkpoint(path, load_it=t)
        except (ValueError, KeyError) as e:
            raise Violation(f'no checkpoint of iteration {t} can be loaded: {e}')
        got = fits.snapshot(model)
        same(got, states[t], f'checkpoint of iteration {t}')
        require(got['it'] == t + 1, 'the iteration count after loading the checkpoint of iteration {} is {}', t, got['it'])
    if its:
        model.load_checkpoint(path)
        got = fits.snapshot(model)
        require(got['it'] == its[-1] + 1, 'the iteration count after loading the latest checkpoint is {}, expected {}', got['it'], its[-1] + 1)
        same(got, states[its[-1]], 'latest checkpoint')


def resume(case, args, path, how, chosen, n, recorder, freq, store):
    """A model that carries on from a checkpoint."""
    kwargs = dict(checkpoint_path=path, checkpoint_frequency=freq) if store else {}
    if how == 'chosen':
        model = model_of(dict(case, init='random'), loggers=[recorder], **kwargs)
        model.fit(*args, max_its=0)
        model.load_checkpoint(path, load_it=chosen)
        model.continue_fit(max_its=n)
    elif how == 'argument':
        model = model_of(dict(case, init=case['spelling']), loggers=[recorder], **kwargs)
        model.fit(*args, max_its=n, initial_decomposition=path)
    elif how == 'latest then continue':
        model = model_of(dict(case, init='from_checkpoint'), loggers=[recorder], **kwargs)
        model.fit(*args, max_its=0, initial_decomposition=path)
        model.continue_fit(max_its=n)
    else:
        model = model_of(dict(case, init=path), loggers=[recorder], **kwargs)
        model.fit(*args, max_its=n)
    return model


def run(case):
    args, data, start = problem(case)
    n, freq = case['its'], case['freq']
    with in_empty_folder() as folder:
        # uninterrupted, nothing stored
        recorder = fits.Recorder(limit=n)
        model = model_of(case, loggers=[recorder], checkpoint_frequency=freq)
        fit(model, case, args, start, max_its=n)
        states = recorder.states
        require(len(states) == n, '{} iterations were run, expected {}', len(states), n)
        require(not os.listdir(folder), 'files {} were written without a checkpoint path', os.listdir(folder))
        path = os.path.join(folder, 'check points.h5')
        if case['older'] is not None:
            older = dict(case, init='random', np_seed=case['np_seed'] + 1)
            model = model_of(older, checkpoint_path=path, checkpoint_frequency=case['older']['freq'])
            fit(model, older, args, None, max_its=case['older']['its'])
        # with faults
        faults = sorted(f for f in case['faults'] if f < n)
        recorder = fits.Recorder(limit=n, fault_at=faults[0] if faults else None)
        model = model_of(case, loggers=[recorder], checkpoint_path=path, checkpoint_frequency=freq)
        try:
            fit(model, case, args, start, max_its=n)
            require(not faults, 'the fit ended before iteration {}', faults[0] if faults else 0)
        except Fault:
            pass
        last = (faults[0] if faults else n) - 1
        for t, s in enumerate(recorder.states[:last + 1]):
            same(s, states[t], f'iteration {t} of a fit with checkpoints', exact=False)
        stored = {t: s for t, s in enumerate(recorder.states)}
        its = expected_checkpoints(0, last, freq, not faults)
        check_file(case, args, path, stored, its)
        if not its and case['older'] is None:
            require(not os.path.exists(path), 'a file was written before the first checkpoint')
        require(set(os.listdir(folder)) <= {'check points.h5'}, 'files {} were written', os.listdir(folder))
        labels = [case['kind'], 'crash' if faults else 'no crash', f'frequency {freq}' if freq is None or freq <= 0 else 'regular checkpoints']
        trivial = len(its) < 2
        compared = True
        if its and case['kind'] != 'cmtf':
            well = conditioning(case, data, states)
            compared = well > 1e-3
            chosen = its[case['choose'] % len(its)]
            how = case['how']
            if faults and how != 'chosen':
                # crash again while resuming, in the same file
                second = [f for f in faults[1:] if f > its[-1] + 1]
                if second:
                    rec = fits.Recorder(limit=n, fault_at=second[0])
                    first_it = its[-1] + 1
                    try:
                        resume(case, args, path, how, None, n, rec, freq, True)
                    except Fault:
                        pass
                    require([s['it'] for s in rec.states] == list(range(first_it, second[0] + 1)), 'resumed iterations are numbered {}', [s['it'] for s in rec.states])
                    stored.update({s['it']: s for s in rec.states})
                    its = sorted(set(its) | set(expected_checkpoints(first_it, second[0] - 1, freq, False)))
                    check_file(case, args, path, stored, its)
                    labels.append('second crash')
            rec = fits.Recorder(limit=n)
            first_it = (chosen if how == 'chosen' else its[-1]) + 1
            store = case['store']
            model = resume(case, args, path, how, chosen, n, rec, freq, store)
            require([s['it'] for s in rec.states] == list(range(first_it, n)), 'iterations {} were run after resuming at {}, expected up to {}',
                    [s['it'] for s in rec.states], first_it, n - 1)
            if compared:
                for s in rec.states:
                    require(s['kind'] == states[0]['kind'], 'decomposition of another kind')
                    scale = max(np.sqrt(sum(np.linalg.norm(x) ** 2 for x in data[:1] if case['kind'] == 'cp') or sum(np.linalg.norm(x) ** 2 for x in data)), fits.state_scale(states[s['it']]))
                    for a, b in zip(fits.reconstruct(s), fits.reconstruct(states[s['it']])):
                        close(a, b, 1e-6, f'iteration {s["it"]}, resumed at {first_it}, compared with an uninterrupted fit', scale=scale)
                    # the factors too: resuming must not move scale between modes or permute components
                    for a, b in zip(s['factors'], states[s['it']]['factors']):
                        close(a, b, 1e-5, f'factor at iteration {s["it"]}, resumed at {first_it}', scale=np.linalg.norm(b) + 1e-300) if well > 1e-2 else None
            if store and rec.states:
                stored.update({s['it']: s for s in rec.states})
                later = expected_checkpoints(first_it, n - 1, freq, True)
                keep = [t for t in its if t < first_it]
                check_file(case, args, path, stored, keep + later)
            if rec.states and compared:
                trivial = False
            labels.append('resumed: ' + how)
            labels.append('compared' if compared else 'not determined')
        if case['kind'] != 'cmtf' and case['tol']:
            # stopped by convergence: the last iteration is stored
            rec = fits.Recorder(limit=60)
            path2 = os.path.join(folder, 'second.h5')
            model = model_of(case, loggers=[rec], checkpoint_path=path2, checkpoint_frequency=freq, convergence_tol=case['tol'])
            fit(model, case, args, start, max_its=60)
            if rec.states:
                k = len(rec.states) - 1
                check_file(case, args, path2, {t: s for t, s in enumerate(rec.states)}, expected_checkpoints(0, k, freq, True))
                labels.append('converged' if k < 59 else 'not converged')
    return (['trivial'] if trivial else []) + labels


@st.composite
def problems(draw):
    kind = draw(st.sampled_from(['cp', 'pf2', 'cp', 'pf2', 'cmtf']))
    its = st.sampled_from([7, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12])      # the first is drawn most often
    if kind == 'cp':
        case = draw(fits.cp_problems(constrained=draw(st.booleans()), its=its, max_size=120, max_order=4, big=False, max_rank=4))
        if case['init'] == 'precomputed' and case['start'] in ('zero_column', 'near_collinear', 'equal_columns', 'scaled_columns'):
            case['start'] = 'normal'
    elif kind == 'pf2':
        case = draw(fits.pf2_problems(its=its, max_k=5))
        case['inner'] = min(case['inner'], 3)
    else:
        case = draw(fits.cmtf_problems(its=its))
    n = case['its']
    case.update(kind=kind, freq=draw(st.sampled_from([2, 1, 3, None, -1, 0, 4, 5, 7])),
                faults=draw(st.lists(st.integers(0, max(n - 1, 0)), max_size=2, unique=True)),
                how=draw(st.sampled_from(['chosen', 'argument', 'path', 'latest then continue'])), choose=draw(st.integers(0, 20)), store=draw(st.booleans()),
                spelling=draw(st.sampled_from(['from_checkpoint', 'from_checkpoint', 'FROM_CHECKPOINT', 'From_Checkpoint'])),
                tol=draw(st.sampled_from([None, None, 1e-2, 1e-4])),
                older=draw(st.none() | st.none() | st.fixed_dictionaries(dict(its=st.integers(1, 14), freq=st.sampled_from([-1, 1, 2, 3])))))
    return case


@st.composite
def many(draw):
    case = draw(problems())
    case.update(its=draw(st.integers(95, 140)), freq=draw(st.sampled_from([1, 9, 10, 50, 100])), tol=None)
    if case['kind'] == 'pf2':
        case['inner'] = 1
    case['faults'] = draw(st.lists(st.integers(90, case['its'] - 1), max_size=2, unique=True))
    return case


# ------------------------------------------------- runs of very many iterations (only parts of them are carried out)

def run_segments(case):
    from tenkit import utils
    from tenkit.decomposition import KruskalTensor, Parafac2Tensor
    import tenkit.decomposition.logging as tl
    args, data, start = problem(case)
    freq = case['freq']
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, 'checkpoints.h5')
        recorder = fits.Recorder()
        loggers = [recorder] + ([tl.LossLogger()] if case['log'] else [])
        model = model_of(dict(case, its=0), loggers=loggers, checkpoint_path=path, checkpoint_frequency=freq)
        fit(model, case, args, start, max_its=0)
        states, stored = {}, []
        for first, n in case['segments']:
            model.current_iteration = first
            recorder.states.clear()
            model.continue_fit(max_its=first + n)
            require(len(recorder.states) == n, '{} iterations were run from iteration {} to {}', len(recorder.states), first, first + n)
            new = expected_checkpoints(first, first + n - 1, freq, True)
            states.update({t: recorder.states[t - first] for t in new})
            stored = [t for t in stored if t not in new] + new
        check_file(case, args, path, states, stored)
        cls = Parafac2Tensor if case['kind'] == 'pf2' else KruskalTensor
        with h5py.File(path, 'r') as h5:
            found = [flat(fits.snapshot(Holder(cls.load_from_hdf5_group(g)))) for g in utils.iter_checkpoints(h5)]
        require(len(found) == len(stored), '{} checkpoints were gone through, {} are stored', len(found), len(stored))
        for got, t in zip(found, sorted(stored)):
            identical(got, flat(states[t]), f'checkpoint of iteration {t} when going through all of {sorted(stored)}')
    return (['trivial'] if len(stored) < 2 else []) + [case['kind'], 'above 100000 iterations' if max(stored) > 99999 else 'up to 100000 iterations',
                                                       'both sides' if min(stored) <= 99999 < max(stored) else 'one side']


class Holder:
    current_iteration = None

    def __init__(self, decomposition):
        self.decomposition = decomposition


@st.composite
def segments(draw):
    case = draw(problems())
    if case['kind'] == 'cmtf':
        case.update(draw(fits.cp_problems(constrained=False, its=st.just(1), max_size=60, max_order=3, big=False, max_rank=3)), kind='cp')
    if case['kind'] == 'cp' and case['init'] == 'precomputed':
        case['start'] = 'normal'
    firsts = st.sampled_from([0, 8, 95, 990, 9996, 99990, 99995, 99999, 100000, 999998, 1000000, 12345678])
    case.update(segments=draw(st.lists(st.tuples(firsts, st.integers(1, 12)).map(list), min_size=1, max_size=4)), log=draw(st.booleans()))
    case['inner'] = 1
    return case


SUBS = [
    Sub('segments', segments(), run_segments, 600, weight=40),
    Sub('checkpoints', problems(), run, 2000, weight=60),
    Sub('many', many(), run, 24, 240, weight=600),
]
