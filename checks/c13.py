import contextlib, copy, io, os, tempfile
import h5py
import numpy as np
from hypothesis import strategies as st
from tkv import gen, ref, fits
from tkv.core import Sub, Violation, Fault, close, identical, require
from checks.c11 import model_of, problem, LOGGERS, NAMES
from checks.c12 import fit, expected_checkpoints

RULE = ('(a) histories of up to 40 log / store / restart-with-new-loggers / go-back-to-an-earlier-iteration operations on 1-5 built-in and user-defined loggers fed by a stand-in model; '
        '(b) CP, PARAFAC2 and coupled fits with checkpoints, faults, continued and resumed fits with new loggers. Oracle: the list of everything '
        'logged up to the last store, compared with the datasets in the file after every store. Non-trivial: at least two stores with values '
        'logged between them.')


class Stand_in:
    def __init__(self, rng_seed):
        self.current_iteration = 0
        self.rng = np.random.default_rng(rng_seed)
        self.step()

    def step(self):
        for name in NAMES:
            setattr(self, name, float(self.rng.standard_normal() * 10.0 ** self.rng.integers(-8, 9)))


def make_loggers(names):
    import tenkit.decomposition.logging as tl

    class NormLogger(tl.logger.BaseLogger):      # user defined
        def _log(self, decomposer):
            self.log_metrics.append(decomposer.loss * 2 + 1)

    class CountLogger(tl.logger.BaseLogger):
        def _log(self, decomposer):
            self.log_metrics.append(decomposer.current_iteration ** 2)
    out = {}
    for name in names:
        out[name] = dict(norm=NormLogger, count=CountLogger)[name]() if name in ('norm', 'count') else getattr(tl, LOGGERS[name])()
    return out


def value_of(name, model):
    if name == 'norm':
        return model.loss * 2 + 1
    if name == 'count':
        return model.current_iteration ** 2
    return getattr(model, name)


def check_group(h5, loggers, expected, what):
    """expected: {name: [(iteration, value)]}"""
    for name, logger in loggers.items():
        group = type(logger).__name__
        want = expected[name]
        if group not in h5:
            require(not want, '{}: nothing is stored for {}', what, group)
            continue
        g = h5[group]
        its, values = list(g['iterations'][...]), list(g['values'][...])
        require(len(its) == len(values), '{}: {} holds {} iterations and {} values', what, group, len(its), len(values))
        require([int(i) for i in its] == [i for i, _ in want], '{}: {} holds iterations {}, expected {}', what, group, [int(i) for i in its][:30], [i for i, _ in want][:30])
        identical(np.array(values, dtype=float), np.array([v for _, v in want], dtype=float), f'{what}: values of {group}')


def run_history(case):
    names = case['loggers']
    model = Stand_in(case['seed'])
    loggers = make_loggers(names)
    stored = {n: [] for n in names}
    pending = {n: [] for n in names}
    stores = changed = 0
    stored_iteration = 0
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, 'log.h5')
        for op in case['ops']:
            if op == 'log' or isinstance(op, int):
                for _ in range(1 if op == 'log' else op):
                    model.step()
                    for n, logger in loggers.items():
                        logger.log(model)
                        pending[n].append((model.current_iteration, value_of(n, model)))
                    model.current_iteration += 1
                for n, logger in loggers.items():
                    require(len(logger.log_metrics) == len(logger.log_iterations), '{} has {} values and {} iterations', n, len(logger.log_metrics), len(logger.log_iterations))
            elif op == 'store':
                with h5py.File(path, 'a') as h5:
                    for logger in loggers.values():
                        logger.write_to_hdf5_group(h5)
                stores += 1
                changed += bool(pending[names[0]])
                for n in names:
                    stored[n] += pending[n]
                    pending[n] = []
                stored_iteration = model.current_iteration
                with h5py.File(path, 'r') as h5:
                    check_group(h5, loggers, stored, f'after store {stores}')
            elif op == 'rewind':    # an earlier checkpoint is loaded, or the model is fitted again, with the same loggers
                model.current_iteration = int(model.rng.integers(model.current_iteration + 1))
            else:       # crash, and resume from the last store
                loggers = make_loggers(names)
                pending = {n: [] for n in names}
                model.current_iteration = stored_iteration
    return (['trivial'] if changed < 2 else []) + [f'{len(names)} loggers', 'restarted' if 'restart' in case['ops'] else 'not restarted']


@st.composite
def histories(draw):
    names = draw(st.lists(st.sampled_from(NAMES + ['norm', 'count']), min_size=1, max_size=5, unique=True))
    op = st.sampled_from(['log', 'log', 'log', 'store', 'store', 'restart', 'rewind'])
    ops = draw(st.lists(op, min_size=4, max_size=40))
    if draw(st.integers(0, 7)) == 6:     # now and then many values between two stores
        ops.insert(draw(st.integers(0, len(ops))), draw(st.integers(20, 300)))
    return dict(loggers=names, ops=ops, seed=draw(gen.seeds))


def run_fits(case):
    args, data, start = problem(case)
    names = case['loggers']
    n, freq = case['its'], case['freq']
    total = n + case['more']
    logged = {}         # iteration -> {name: value}, of the run that got there last

    class Watcher(fits.Recorder):
        def log(self, decomposer):
            logged[decomposer.current_iteration] = {name: float(value_of(name, decomposer)) for name in names}
            super().log(decomposer)

    def check(path, count, what):
        require(os.path.exists(path) or count == 0, '{}: there is no file', what)
        if not os.path.exists(path):
            return
        with h5py.File(path, 'r') as h5:
            check_group(h5, make_loggers(names), {name: [(t, logged[t][name]) for t in range(count)] for name in names}, what)

    def check_memory(loggers, first, last, what):
        for logger in loggers.values():
            require([int(i) for i in logger.log_iterations] == list(range(first, last + 1)), '{}: {} has logged iterations {}, expected {} to {}', what,
                    type(logger).__name__, logger.log_iterations[:30], first, last)
            require(len(logger.log_metrics) == last + 1 - first, '{}: {} has {} values', what, type(logger).__name__, len(logger.log_metrics))
    labels = [case['kind']]
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, 'log.h5')
        loggers = make_loggers(names)
        fault = case['fault'] if case['fault'] is not None and case['fault'] < n else None
        watcher = Watcher(limit=total + 5, fault_at=fault)
        model = model_of(case, loggers=[watcher] + list(loggers.values()), checkpoint_path=path, checkpoint_frequency=freq)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            try:
                fit(model, case, args, start, max_its=n)
            except Fault:
                pass
            done = n if fault is None else fault
            its = expected_checkpoints(0, done - 1, freq, fault is None)
            count = its[-1] + 1 if its else 0
            for t in list(logged):
                if t >= done:
                    del logged[t]
            check(path, count, 'after a crash' if fault is not None else 'after the fit')
            check_memory(loggers, 0, done - 1, 'first fit')
            if fault is None and case['more']:
                model.continue_fit(max_its=total)
                check(path, total, 'after continuing')
                check_memory(loggers, 0, total - 1, 'continued fit')
                labels.append('continued')
                its.append(total - 1)
            elif count and case['kind'] != 'cmtf' and count < total:
                for t in list(logged):
                    if t >= count:
                        del logged[t]
                loggers = make_loggers(names)
                rec = Watcher(limit=total + 5)
                model = model_of(dict(case, init='from_checkpoint'), loggers=[rec] + list(loggers.values()), checkpoint_path=path, checkpoint_frequency=freq)
                model.fit(*args, max_its=total, initial_decomposition=path)
                check_memory(loggers, count, total - 1, 'resumed fit')
                check(path, total, 'after resuming')
                labels.append('resumed')
                its += expected_checkpoints(count, total - 1, freq, True)
        labels.append('crash' if fault is not None else 'no crash')
        if case['again'] is not None and os.path.exists(path):
            # The file is used once more: for a new model, a second fit of the same model, or to go on from an earlier checkpoint
            how, r = case['again']
            with h5py.File(path, 'r') as h5:
                before = {name: [] for name in names}
                for name, logger in make_loggers(names).items():
                    g = h5[type(logger).__name__]
                    before[name] = list(zip([int(i) for i in g['iterations'][...]], [float(v) for v in g['values'][...]]))
                first = sorted(int(i) for i in h5.attrs['checkpoint_its'])[0]
            seen = []

            class Second(fits.Recorder):
                def log(self, decomposer):
                    seen.append((int(decomposer.current_iteration), {name: float(value_of(name, decomposer)) for name in names}))
                    super().log(decomposer)
            if how == 'new' or fault is not None or case['kind'] == 'cmtf' or 'resumed' in labels:
                how = 'new'
                loggers = make_loggers(names)
                args, data, start = problem(case)
                model = model_of(case, loggers=[Second(limit=total + 5)] + list(loggers.values()), checkpoint_path=path, checkpoint_frequency=freq)
                with contextlib.redirect_stdout(out):
                    fit(model, case, args, start, max_its=r)
            else:
                model.loggers[0] = Second(limit=total + 5)
                if how == 'same':
                    args, data, start = problem(case)
                    with contextlib.redirect_stdout(out):
                        fit(model, case, args, start, max_its=r)
                else:
                    with contextlib.redirect_stdout(out):
                        model.load_checkpoint(path, load_it=first)
                        model.continue_fit(max_its=first + 1 + r)
            if case['init'] != 'svd':
                require(len(seen) == r, '{} iterations were asked for, and {} done ({})', r, len(seen), how)
            with h5py.File(path, 'r') as h5:
                check_group(h5, loggers, {name: before[name] + [(t, values[name]) for t, values in seen] for name in names}, f'file used again ({how})')
            labels.append('again: ' + how)
    return (['trivial'] if len(its) < 2 else []) + labels


@st.composite
def fit_cases(draw):
    kind = draw(st.sampled_from(['cp', 'pf2', 'cmtf']))
    its = st.sampled_from([7, 1, 2, 3, 4, 5, 6, 8, 9, 10])
    if kind == 'cp':
        case = draw(fits.cp_problems(constrained=draw(st.booleans()), its=its, max_size=80, max_order=4, big=False, max_rank=3, inits=('random', 'precomputed')))
        if case['init'] == 'precomputed':
            case['start'] = 'normal'
    elif kind == 'pf2':
        case = draw(fits.pf2_problems(its=its, max_k=4))
        case['inner'] = min(case['inner'], 2)
    else:
        case = draw(fits.cmtf_problems(its=its))
    case.update(kind=kind, freq=draw(st.sampled_from([2, 3, 1, None, -1, 0, 4, 5])), fault=draw(st.none() | st.integers(0, case['its'] - 1)),
                more=draw(st.sampled_from([3, 0, 1, 2, 5])), again=draw(st.none() | st.tuples(st.sampled_from(['rewind', 'new', 'same']), st.sampled_from([2, 1, 3, 4]))), loggers=draw(st.lists(st.sampled_from(NAMES + ['norm', 'count']), min_size=1, max_size=4, unique=True)))
    return case


SUBS = [
    Sub('histories', histories(), run_history, 1500, weight=15),
    Sub('fits', fit_cases(), run_fits, 900, weight=30),
]
