import contextlib, copy, io, os, re, tempfile
import numpy as np
from hypothesis import strategies as st
from tkv import gen, ref, fits
from tkv.core import Sub, Violation, close, require, number

RULE = ('CP, PARAFAC2 and coupled problems as in C08-C10 (constraints, ridge vectors except for coupled fits, irregular slices, all starts), read at '
        'the start, at every iteration through the built-in loggers and properties, in the printed lines, after the fit, after fitting other data '
        'with the same model, and after loading a checkpoint. Oracle: direct sums over data and recorded factors. Non-trivial: rank above one, '
        'at least two iterations and a nonzero residual. Data of type float64 and small and large integer types.')

NAMES = ['SSE', 'MSE', 'RMSE', 'explained_variance', 'loss']
LOGGERS = dict(SSE='SSELogger', MSE='MSELogger', RMSE='RMSELogger', explained_variance='ExplainedVarianceLogger', loss='LossLogger')
NUMBER = r'([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf))'
LINE = re.compile(r'^\s*(\d+): The MSE is\s*' + NUMBER + r', f is\s*' + NUMBER + r'(?:, improvement is\s*' + NUMBER + ')?')


def expected_statistics(case, data, state, ridge):
    """{name: (value, tolerance)}"""
    if case['kind'] == 'cmtf':
        approx = fits.cmtf_reconstructions(state, case)
        size = sum(np.linalg.norm(x) ** 2 for x in data) + fits.state_scale(state) ** 2 + sum(
            (np.linalg.norm(state['factors'][m]) * np.linalg.norm(v)) ** 2 for m, v in zip(case['couple'], state['V']))
    else:
        approx = fits.reconstruct(state)
        size = sum(np.linalg.norm(x) ** 2 for x in data) + fits.state_scale(state) ** 2
    sse = sum(np.sum((x - y) ** 2) for x, y in zip(data, approx))
    n = sum(np.asarray(x).size for x in data)
    norm2 = sum(np.sum(x ** 2) for x in data)
    penalty = 0 if ridge is None else sum(r * np.sum(f ** 2) for r, f in zip(ridge, state['factors']))
    tol = 1e-11 * size
    out = dict(SSE=(sse, tol), MSE=(sse / n, tol / n), loss=(sse + penalty, tol + 1e-11 * penalty),
               RMSE=(np.sqrt(sse / n), min(np.sqrt(tol / n), tol / n / max(2 * np.sqrt(sse / n), 1e-300) * 4 + 1e-14 * np.sqrt(size / n))))
    if case['kind'] != 'cmtf' or len(data) == 1:
        out['explained_variance'] = (1 - sse / norm2, tol / norm2 + 1e-14)
    return out


def check_statistics(values, expected, what):
    for name, (value, tol) in expected.items():
        got = number(values[name], name)
        require(abs(got - value) <= tol, '{}: {} is {:.12g}, but {:.12g} according to the data and the decomposition', what, name, got, value)


def model_of(case, **kwargs):
    return dict(cp=fits.cp_model, pf2=fits.pf2_model, cmtf=fits.cmtf_model)[case['kind']](case, **kwargs)


def problem(case):
    """(arguments of fit, data as list of arrays, start)"""
    start = None
    if case['kind'] == 'cp':
        X = fits.cp_data(case)
        if case['init'] == 'precomputed':
            start, X = fits.cp_start(case, X)
        args, data = (X,), [X]
    elif case['kind'] == 'pf2':
        data = fits.pf2_data(case)
        if case['init'] == 'precomputed':
            start, data = fits.pf2_start(case, data)
        args = (fits.pf2_container(case, data),)
    else:
        X, Ys = fits.cmtf_data(case)
        start = fits.cp_start(case)[0] if case['init'] == 'precomputed' else None
        args, data = (X, Ys, list(case['couple'])), [X] + Ys
    if case.get('integers', 'float64') != 'float64':
        args, data = fits.as_numbers(case, args, data, case['integers'])
    return args, data, start


def run(case):
    import tenkit.decomposition.logging as tl
    args, data, start = problem(case)
    its, freq = case['its'], case['print']
    recorder = fits.Recorder(limit=2 * its + 2, statistics=True)
    loggers = {name: getattr(tl, cls)() for name, cls in LOGGERS.items()}
    ridge = case['ridge']

    def expected(state):
        return expected_statistics(case, data, state, ridge)
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, 'checkpoints.h5')
        kwargs = dict(checkpoint_path=path, checkpoint_frequency=case['checkpoint']) if case['kind'] != 'cmtf' else {}
        model = model_of(case, loggers=[loggers[n] for n in case['order'][:3]] + [recorder] + [loggers[n] for n in case['order'][3:]],
                         print_frequency=freq, **kwargs)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            np.random.seed(case['np_seed'] % 2 ** 32)
            model.fit(*args, max_its=0, initial_decomposition=copy.deepcopy(start))
            check_statistics(fits.read_statistics(model), expected(fits.snapshot(model)), 'before the first iteration')
            np.random.seed(case['np_seed'] % 2 ** 32)
            model.fit(*args, max_its=its, initial_decomposition=copy.deepcopy(start))
        states = recorder.states
        require(len(states) == its, '{} iterations were run, expected {}', len(states), its)
        values = [expected(s) for s in states]
        for t, s in enumerate(states):
            check_statistics(s['stats'], values[t], f'at iteration {t}')
        for name, logger in loggers.items():
            require(list(logger.log_iterations) == list(range(its)), '{} has iterations {}, expected 0 to {}', type(logger).__name__, logger.log_iterations[:20], its - 1)
            require(len(logger.log_metrics) == its, '{} has {} values for {} iterations', type(logger).__name__, len(logger.log_metrics), its)
            for t in range(its):
                if name in values[t]:
                    check_statistics({name: logger.log_metrics[t]}, {name: values[t][name]}, f'{type(logger).__name__} at iteration {t}')
        # printed lines
        lines = [LINE.match(line) for line in out.getvalue().splitlines()]
        lines = [m for m in lines if m]
        want = [t for t in range(its) if freq > 0 and t % freq == 0] if freq is not None else []
        require([int(m.group(1)) for m in lines] == want, 'iterations {} were printed, expected {}', [int(m.group(1)) for m in lines][:20], want[:20])
        for m, t in zip(lines, want):
            for name, text in zip(['MSE', 'loss'], m.groups()[1:3]):
                value, tol = values[t][name]
                require(abs(float(text) - value) <= tol + 1e-5 * abs(value), 'printed {} of iteration {} is {}, but it was {:.8g}', name, t, text, value)
            name = 'loss' if case['kind'] == 'pf2' else 'SSE'
            if t and m.group(4) is not None:
                (old, tol), (new, _) = values[t - 1][name], values[t][name]
                if old > 1e4 * tol:
                    require(abs(float(m.group(4)) - (old - new) / old) <= 4 * tol / old + 1e-5 * abs(old - new) / old,
                            'printed improvement of iteration {} is {}, but the {} went from {:.8g} to {:.8g}', t, m.group(4), name, old, new)
        # afterwards
        final = fits.snapshot(model)
        if its:
            check_statistics(fits.read_statistics(model), expected(final), 'after the fit')
        # after loading a checkpoint, with the decomposition of a different run in place
        if case['kind'] != 'cmtf' and its:
            other = model_of(dict(case, init='random'))
            with contextlib.redirect_stdout(out):
                other.fit(*args, max_its=case['before'])
                other.load_checkpoint(path)
            check_statistics(fits.read_statistics(other), expected(states[-1]), 'after loading a checkpoint in a model fitted before')
            with contextlib.redirect_stdout(out):
                other = model_of(dict(case, init='from_checkpoint'))
                other.fit(*args, max_its=0, initial_decomposition=path)
            check_statistics(fits.read_statistics(other), expected(fits.snapshot(other)), 'after starting from a checkpoint')
    # other data, same model
    case2 = dict(case, seed=case['seed'] + 17, data='normal', scale=case['scale'] * 3)
    args2, data2, _ = problem(case2)
    model = model_of(dict(case2, init='random'), loggers=[])
    with contextlib.redirect_stdout(out):
        model.fit(*args, max_its=min(its, 1))
        model.fit(*args2, max_its=min(its, 2))
    check_statistics(fits.read_statistics(model), expected_statistics(case2, data2, fits.snapshot(model), ridge), 'after fitting other data')
    trivial = case['rank'] < 2 or its < 2 or not values or values[-1]['SSE'][0] <= 10 * values[-1]['SSE'][1]
    return (['trivial'] if trivial else []) + [case['kind'], 'ridge' if ridge else 'no ridge', 'init ' + case['init'], 'printed' if want else 'not printed', case['integers'],
                                               'constraints ' + '+'.join(sorted(set(case['modes'])))]


@st.composite
def problems(draw):
    kind = draw(st.sampled_from(['cp', 'pf2', 'cmtf', 'pf2']))
    its = st.integers(1, 7)
    if kind == 'cp':
        case = draw(fits.cp_problems(constrained=draw(st.booleans()), its=its))
        if case['init'] == 'precomputed' and case['start'] in ('zero_column', 'near_collinear', 'equal_columns'):
            case['start'] = 'normal'
        case['print'] = draw(st.sampled_from([None, -1, 0, 1, 2, 3]))
    elif kind == 'pf2':
        case = draw(fits.pf2_problems(its=its))
        case['print'] = draw(st.sampled_from([None, -1, 0, 1, 2, 3]))
    else:
        case = draw(fits.cmtf_problems(its=its))
        case['print'] = draw(st.sampled_from([None, -1, 0, 1, 2, 3]))
    case.update(kind=kind, order=list(draw(st.permutations(NAMES))), checkpoint=draw(st.sampled_from([-1, 1, 2, 3])), before=draw(st.integers(0, 2)),
                integers=draw(st.sampled_from(['float64', 'float64', 'float64', 'int8', 'uint8', 'int16', 'int64'])))
    return case


SUBS = [Sub('statistics', problems(), run, 2000, weight=20)]
