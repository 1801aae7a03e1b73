import os, tempfile
import h5py
import numpy as np
from hypothesis import strategies as st
from tkv import gen
from tkv.core import Sub, Violation, close, identical, require, expect_raises

RULE = ('(a) Histories of up to 20 operations (open for a new experiment, log, save, abandon and reopen to continue, possibly with another store frequency) on 1-3 '
        'experiments with 1-4 targets each in one file, values incl. negative, huge, nan and infinite; (b) Experiment objects with attributes, metadata, parameters, '
        'outputs of several shapes, logged values and final evaluations, run once or several times, continued or beside one another. Oracle: a model of what has been '
        'saved, compared with the file after every operation. Non-trivial: at least two saves with values logged between them / a continued run.')

FUNCTIONS = [lambda p, a, b: p, lambda p, a, b: a * p, lambda p, a, b: p + b, lambda p, a, b: a - b * p]
VALUES = st.sampled_from([1.0, 0.5, -2.25, 1e-3, 3.0, 1e30, -1e300, 0.0, float('nan'), float('inf'), 16777217.0]) | st.integers(-5, 5) | st.floats(-100, 100)


class Model:
    def __init__(self, n):
        self.disk = [[] for _ in range(n)]
        self.pending = [[] for _ in range(n)]

    def save(self):
        for d, p in zip(self.disk, self.pending):
            d.extend(p)
            del p[:]


def run_logger(case):
    from tenkit.log import HDF5Logger
    args = tuple(case['args'])
    experiments = case['experiments']     # list of number of targets
    models, loggers, frequency, memory = {}, {}, {}, {}
    saves = logged_between = 0
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, 'log.h5')
        if case['older']:
            with h5py.File(path, 'w') as h5:
                h5['something'] = np.arange(4)

        def targets(e):
            return {f't{i}': FUNCTIONS[(i + e) % 4] for i in range(experiments[e])}
        for op in case['ops']:
            e = op['ex'] % len(experiments)
            name = case['study'] + f'experiment {e}'
            n = experiments[e]
            if op['op'] == 'log' or op['op'] == 'save':
                if e not in loggers:
                    loggers[e] = HDF5Logger(path, name, op['freq'], args, **targets(e))
                    models[e], frequency[e], memory[e] = Model(n), op['freq'], [[] for _ in range(n)]
                model = models[e]
                if op['op'] == 'log':
                    for v in op['values']:
                        loggers[e].log(v)
                        for i in range(n):
                            x = FUNCTIONS[(i + e) % 4](v, *args)
                            model.pending[i].append(x)
                            memory[e][i].append(x)
                        if (len(model.disk[0]) + len(model.pending[0])) % frequency[e] == 0:
                            saves += 1
                            logged_between += 1
                            model.save()
                else:
                    saves += 1
                    model.save()
                    loggers[e].save_logs()
            elif op['op'] == 'reopen' and e in loggers:     # whatever was not saved is gone
                loggers[e] = HDF5Logger(path, name, op['freq'], args, continue_old=True, **targets(e))
                frequency[e] = op['freq']
                models[e].pending = [[] for _ in range(n)]
                memory[e] = [[] for _ in range(n)]
            elif op['op'] == 'again' and e in loggers and case['refuse']:
                # starting afresh does not silently drop what is there
                try:
                    HDF5Logger(path, name, op['freq'], args, **targets(e))
                except (ValueError, OSError, RuntimeError):
                    pass
            # the file is as the model says
            if loggers:
                with h5py.File(path, 'r') as h5:
                    if case['older']:
                        identical(h5['something'][...], np.arange(4), 'dataset that was in the file before')
                    for f, model in models.items():
                        group = h5[case['study'] + f'experiment {f}']
                        require(set(group) == {f't{i}' for i in range(experiments[f])}, 'experiment {} holds {}', f, list(group))
                        for i in range(experiments[f]):
                            identical(group[f't{i}'][...], np.array(model.disk[i], dtype=float).astype(np.float32), f'values of target t{i} of experiment {f} in the file')
            for f, logger in loggers.items():
                for i in range(experiments[f]):
                    identical(np.array(logger.target_values[f't{i}'], dtype=float), np.array(memory[f][i], dtype=float), f'values of target t{i} of experiment {f} in memory')
    return (['trivial'] if saves < 2 or logged_between < 1 else []) + [f'{len(loggers)} experiments', 'reopened' if any(o['op'] == 'reopen' for o in case['ops']) else 'one session']


@st.composite
def logger_cases(draw):
    freqs = st.sampled_from([2, 1, 3, 4, 7])
    ops = draw(st.lists(st.fixed_dictionaries(dict(op=st.sampled_from(['log', 'log', 'reopen', 'save', 'again']), ex=st.integers(0, 5), freq=freqs,
                                                  values=st.lists(VALUES, min_size=1, max_size=4))), min_size=1, max_size=20))
    if ops and draw(st.integers(0, 9)) == 8:     # now and then many values
        op = ops[draw(st.integers(0, len(ops) - 1))]
        op['values'] = [float(i % 7) - 3 for i in range(draw(st.integers(20, 300)))]
        op['freq'] = draw(st.sampled_from([100, 7, 128, 250]))
    return dict(experiments=draw(st.lists(st.integers(1, 4), min_size=1, max_size=3)), args=[draw(st.integers(-3, 3)), draw(st.sampled_from([0.5, 1.0, -2.0]))],
                ops=ops, older=draw(st.booleans()), refuse=draw(st.booleans()), study=draw(st.sampled_from(['', 'study/'])))


# ---------------------------------------------------------------------------------- experiments

def make_outputs(case, run):
    rng = np.random.default_rng([case['seed'], run])
    kind = case['runs'][run]['content']
    out = {}
    for i, shape in enumerate(case['outputs']):
        value = dict(normal=rng.standard_normal(shape), zeros=np.zeros(shape), ones=np.ones(shape), tiny=np.full(shape, -1e-300), nan=np.full(shape, np.nan))[kind]
        out[case['names'][i] if 'names' in case else f'output {i}'] = value if shape else float(value)
    return out


def run_experiments(case):
    from tenkit.log import Experiment, HDF5Logger
    rng = np.random.default_rng(case['seed'])
    X = rng.standard_normal((2, 3, 2))
    expected = {}           # name -> dict(attrs, data, logs)
    metadata = {}
    with tempfile.TemporaryDirectory() as folder:
        path = os.path.join(folder, 'experiments.h5')
        done = {}
        for number, step in enumerate(case['runs']):
            name = case['study'] + f'run {step["ex"]}'
            continued = name in done
            attributes = dict(step['attributes']) if step['attributes'] is not None else None
            meta = dict(step['metadata']) if step['metadata'] is not None else None
            experiment = Experiment(path, name, attributes=attributes, metadata=meta)
            record = expected.setdefault(name, dict(attrs={}, data={}, log=[]))
            record['attrs'].update(attributes or {})
            metadata.update(meta or {})
            logger = HDF5Logger(path, name, step['freq'], (2.0,), continue_old=continued, value=lambda p, a: a * p) if case['logger'] else None
            params = dict(step['params'])
            outputs = make_outputs(case, number)
            calls = []

            def function(data, h5_group=None, logger=None, load_old=None, **given):
                calls.append((np.array_equal(data, X), given, load_old, h5_group.name))
                for v in step['log']:
                    if logger is not None:
                        logger.log(v)
                if logger is not None:
                    logger.save_logs()
                return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in outputs.items()}

            def evaluate(data, given, out):
                require(np.array_equal(data, X) and given == params and set(out) == set(outputs), 'the final evaluation received {} and {}', given, list(out))
                return {'score': sum(float(np.sum(v)) for v in out.values()), 'curve': np.arange(3) * number}
            experiment.run_experiment(X, function, dict(params), evaluate, logger=logger, continue_old=continued)
            require(calls == [(True, params, continued, '/' + name)], 'the experiment function was called with {}, expected {}', calls, [(True, params, continued, '/' + name)])
            record['attrs'].update({k: v for k, v in params.items() if k != 'init'})
            record['data'].update(outputs)
            record['data'].update({'score': sum(float(np.sum(v)) for v in outputs.values()), 'curve': np.arange(3) * number})
            if case['logger']:
                record['log'].extend(2.0 * v for v in step['log'])
            done[name] = True
            with h5py.File(path, 'r') as h5:
                top = {case['study'][:-1]} if case['study'] else set(expected)
                require(not case['study'] or {case['study'] + n for n in h5[case['study'][:-1]]} == set(expected), 'the group of experiments holds {}', list(h5[case['study'] or '/']))
                require(set(h5) == top | ({'metadata'} if any(s['metadata'] is not None for s in case['runs'][:number + 1]) else set()), 'the file holds {}', list(h5))
                for k, v in metadata.items():
                    identical(h5['metadata'][k][()], v, f'metadata {k}')
                for other, r in expected.items():
                    group = h5[other]
                    require(set(group.attrs) == set(r['attrs']), 'experiment {} has attributes {}, expected {}', other, sorted(group.attrs), sorted(r['attrs']))
                    for k, v in r['attrs'].items():
                        require(np.array_equal(group.attrs[k], v), 'attribute {} of {} is {}, expected {}', k, other, group.attrs[k], v)
                    want = set(r['data']) | ({'value'} if case['logger'] else set())
                    require(set(group) == want, 'experiment {} holds {}, expected {}', other, sorted(group), sorted(want))
                    for k, v in r['data'].items():
                        identical(group[k][()], v, f'{k} of {other}')
                    if case['logger']:
                        identical(group['value'][...], np.array(r['log'], dtype=np.float32), f'values logged by {other}')
    return (['trivial'] if len(case['runs']) < 2 else []) + ['continued' if len(done) < len(case['runs']) else 'fresh', 'logger' if case['logger'] else 'no logger']


@st.composite
def experiment_cases(draw):
    value = st.sampled_from([1.5, 2, -3.25, 'text', 0, True, [1, 2, 3], [0.5, -1.0], ''])
    steps = st.fixed_dictionaries(dict(
        ex=st.integers(0, 2), content=st.sampled_from(['normal', 'zeros', 'normal', 'ones', 'tiny', 'nan']), freq=st.integers(1, 4), log=st.lists(st.integers(-4, 4), max_size=5),
        attributes=st.none() | st.dictionaries(st.sampled_from(['a', 'b', 'c']), value, max_size=3),
        metadata=st.none() | st.dictionaries(st.sampled_from(['m', 'n', 'init', 'score', 'a']), st.sampled_from([1.0, 2.5, -1.0, 7, [1.5, -2.0], [1, 2, 3], 0.0]), max_size=2),
        params=st.dictionaries(st.sampled_from(['rank', 'init', 'max_its', 'tol', 'init_scale', 'initial', 'INIT', 'score', 'x', 'reinit', 'm']), value, max_size=5)))
    return dict(runs=draw(st.lists(steps, min_size=1, max_size=4)), outputs=draw(st.lists(st.sampled_from([[2, 3], [], [4], [1, 2, 2]]), max_size=3)),
                names=draw(st.permutations(['output', 'A', 'init', 'rank', 'loss'])),
                seed=draw(gen.seeds), logger=draw(st.booleans()), study=draw(st.sampled_from(['', 'study/'])))


SUBS = [
    Sub('logger', logger_cases(), run_logger, 1200, weight=20),
    Sub('experiments', experiment_cases(), run_experiments, 800, weight=15),
]
