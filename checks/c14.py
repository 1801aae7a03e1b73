import contextlib, copy, io, os, tempfile
import numpy as np
from hypothesis import strategies as st
from tkv import gen, ref, fits
from tkv.core import Sub, Violation, close, require, identical, number
from checks.c11 import model_of, problem, LOGGERS, NAMES
from checks import c12

RULE = ('CP, PARAFAC2 and coupled fits: (a) with convergence tolerances 1e-1 to 1e-6 and relative error tolerances, up to 60 iterations; (b) the same '
        'fit cut in up to four parts by iteration limits, also lower ones than before, after an early stop or from a loaded checkpoint; (c) a model fitted to other data first; (d) with and without printing, logging and '
        'checkpointing. Oracle: errors computed from recorded states and the stop rule applied to them; the recorded states of one uninterrupted fit '
        'by a fresh model. Non-trivial: rank above one and a fit that stopped by itself after at least two iterations / a comparison of at least two iterations.')


def conditioning(case, args, data, states):
    if case['kind'] != 'cmtf':
        return c12.conditioning(case, data, states)
    return min([1.0] + [fits.cmtf_step(args[0], args[1], s, case)[1] for s in states[:-1]])


def compare(case, data, got, want, what):
    require([s['it'] for s in got] == [s['it'] for s in want], '{}: iterations {} were run, expected {}', what, [s['it'] for s in got], [s['it'] for s in want])
    norm = np.sqrt(sum(np.linalg.norm(x) ** 2 for x in data))
    for a, b in zip(got, want):
        for x, y in zip(states_of(case, a), states_of(case, b)):
            close(x, y, 1e-6, f'{what}: reconstruction at iteration {a["it"]}', scale=max(norm, fits.state_scale(b)))


def states_of(case, state):
    return fits.cmtf_reconstructions(state, case) if case['kind'] == 'cmtf' else fits.reconstruct(state)


def first_fit(case, args, start, its, **kwargs):
    recorder = fits.Recorder(limit=its)
    model = model_of(case, loggers=[recorder], **kwargs)
    c12.fit(model, case, args, start, max_its=its)
    return recorder.states, model


# ------------------------------------------------------------------------------------- stop rule

def errors(case, data, states):
    out = []
    for s in states:
        e = sum(np.linalg.norm(x - y) ** 2 for x, y in zip(data, states_of(case, s)))
        if case['kind'] == 'pf2' and case['ridge']:
            e += sum(r * np.linalg.norm(f) ** 2 for r, f in zip(case['ridge'], s['factors']))
        out.append(e)
    return np.array(out)


def run_stop(case):
    args, data, start = problem(case)
    n, tol, rel = case['its'], case['tol'], case['rel']
    kwargs = dict(convergence_tol=tol)
    if case['kind'] != 'pf2':
        kwargs['rel_loss_tol'] = rel
    np.random.seed(case['np_seed'] % 2 ** 32)
    model = model_of(case)
    c12.fit(model, case, args, start, max_its=0)
    initial = fits.snapshot(model)
    states, model = first_fit(case, args, start, n, **kwargs)
    require(len(states) <= n, '{} iterations were run, at most {} were asked for', len(states), n)
    require([s['it'] for s in states] == list(range(len(states))), 'iterations are numbered {}', [s['it'] for s in states])
    require(model.current_iteration == len(states), 'the iteration count is {} after {} iterations', model.current_iteration, len(states))
    e = errors(case, data, [initial] + states)
    norm2 = np.linalg.norm(args[0]) ** 2 if case['kind'] != 'pf2' else sum(np.linalg.norm(x) ** 2 for x in data)
    size = sum(np.linalg.norm(x) ** 2 for x in data) + max(fits.state_scale(s) for s in [initial] + states) ** 2
    done = len(states)
    both = [e]      # "the error" may or may not be meant to include the penalty
    if case['kind'] == 'cp' and case['ridge']:
        both.append(e + np.array([sum(r * np.linalg.norm(f) ** 2 for r, f in zip(case['ridge'], s['factors'])) for s in [initial] + states]))
        size += both[1].max() * 1e-3
    noise = 1e-11 * size
    for t in range(done + 1):       # before iteration t, with errors e[0..t]
        must = may = False
        if case['kind'] != 'pf2' and rel > 0:
            must = must or e[t] + noise < rel * norm2 * 0.999
            may = may or e[t] - noise < rel * norm2 * 1.001
        if t == 1 and case['kind'] == 'pf2' and 'orth' in case['modes']:
            must, may = False, True     # the start is made feasible first
        elif t > 0:
            changes = [(abs(f[t - 1] - f[t]) / max(f[t - 1], 1e-300), 2 * noise / max(min(f[t - 1], f[t]), 1e-300)) for f in both]
            must = must or all(change + slack < tol * (1 - 1.5 * tol) for change, slack in changes)
            may = may or any(change - slack < tol * (1 + 1.5 * tol) for change, slack in changes)
        if t == done:
            require(may or done == n, 'the fit stopped after {} of {} iterations, though the last relative change was {:.4g} (tolerance {:g}) and the '
                    'relative error {:.4g} (tolerance {:g})', done, n, abs(e[t - 1] - e[t]) / e[t - 1] if t else np.inf, tol, e[t] / norm2, rel)
        else:
            require(not must, 'the fit went on after {} iterations, though the last relative change was {:.4g} (tolerance {:g}) and the relative '
                    'error {:.4g} (tolerance {:g})', t, abs(e[t - 1] - e[t]) / e[t - 1] if t else np.inf, tol, e[t] / norm2, rel)
    stopped = done < n
    return (['trivial'] if not stopped or done < 2 or case['rank'] < 2 else []) + [case['kind'], 'stopped' if stopped else 'limit reached',
                                                                                  'by relative error' if stopped and case['kind'] != 'pf2' and e[-1] < rel * norm2 else 'other']


# -------------------------------------------------------------------------------------- histories

def run_continue(case):
    args, data, start = problem(case)
    parts = np.cumsum(case['parts'])
    n = int(parts[-1])
    kwargs = dict(convergence_tol=case['tol'])
    want, whole = first_fit(case, args, start, n, **kwargs)
    if case['tol'] == 0:
        require(len(want) == n, '{} iterations were run, expected {}', len(want), n)
    recorder = fits.Recorder(limit=n)
    model = model_of(case, loggers=[recorder], **kwargs)
    c12.fit(model, case, args, start, max_its=int(parts[0]))
    for k, limit in enumerate(parts[1:]):
        if case['smaller'] and k == 0:
            before = len(recorder.states)
            model.continue_fit(max_its=max(int(parts[0]) - 1, 0))
            require(len(recorder.states) == before, 'iterations were added by a continued fit with a lower limit')
        model.continue_fit(max_its=int(limit))
        require(len(recorder.states) <= limit, '{} iterations were run in total, at most {} were asked for', len(recorder.states), int(limit))
    well = conditioning(case, args, data, want)
    if case['kind'] == 'cmtf' and any(np.linalg.norm(f, axis=0).min() < 1e-5 for s in want + recorder.states for f in s['factors']):
        well = 0    # normalisation at the end of each fit loses the other modes of components that vanish
    if case['kind'] == 'cmtf' and min(abs(m.weights).min() for m in (model, whole)) < 1e-8:
        well = 0    # these become the norms of a factor when the fit is continued
    if case['tol']:
        # where to stop must not be a matter of rounding errors
        e = errors(case, data, want)
        change = abs(np.diff(e)) / np.maximum(e[:-1], 1e-300)
        if np.any(e < 1e-9 * sum(np.linalg.norm(x) ** 2 for x in data)) or np.any(abs(change - case['tol']) < 1e-4 * case['tol']):
            well = 0
    if well < 1e-3:
        return ['trivial', 'not determined', case['kind']]
    compare(case, data, recorder.states, want, f'fit in parts that end at {[int(p) for p in parts]}')
    a, b = fits.snapshot(model), fits.snapshot(whole)
    compare(case, data, [a], [b], 'final decomposition of a fit in parts')
    require(model.current_iteration == whole.current_iteration, 'iteration count {} after a fit in parts, {} after one fit', model.current_iteration, whole.current_iteration)
    return (['trivial'] if len(want) < 2 or case['rank'] < 2 or parts[0] >= len(want) else []) + [case['kind'], f'{len(parts)} parts']


def run_limits(case):
    """Each limit given counts for the fit it is given to, whatever limit was in force before."""
    args, data, start = problem(case)
    recorder = fits.Recorder(limit=200)
    model = model_of(case, loggers=[recorder], max_its=case['own'], convergence_tol=case['tol'])
    with contextlib.ExitStack() as stack:
        path = None
        if case['via'] == 'checkpoint':
            path = os.path.join(stack.enter_context(tempfile.TemporaryDirectory(prefix='tkv')), 'c.h5')
            model.checkpoint_path, model.checkpoint_frequency = path, 1
        c12.fit(model, case, args, start, max_its=case['first'])
        limit = case['own'] if case['first'] is None else case['first']
        done = len(recorder.states)
        require(done <= limit, '{} iterations were run, at most {} were asked for', done, limit)
        require(done == limit or case['tol'] > 0 or case['kind'] != 'pf2' and not finite_errors(case, data, recorder.states), 'the fit stopped after {} of {} iterations without any tolerance', done, limit)
        model.convergence_tol = 0
        at = done
        if case['via'] == 'checkpoint' and done:
            at = 1 + case['load'] % done
            model.load_checkpoint(path, load_it=at - 1)
            require(model.current_iteration == at, 'iteration {} after loading checkpoint {}', model.current_iteration, at - 1)
        for more in case['more']:
            before = len(recorder.states)
            model.continue_fit(max_its=at + more)
            extra = len(recorder.states) - before
            limit = at + more
            require(extra <= max(more, 0), '{} iterations were added to {}, at most {} in total were asked for', extra, at, limit)
            if extra < more:
                require(not finite_errors(case, data, recorder.states), 'the fit continued for {} of {} iterations without any tolerance', extra, more)
                return ['trivial', 'exact fit', case['kind']]
            at += extra
            require(model.current_iteration == at, 'iteration count {}, expected {}', model.current_iteration, at)
        if case['unlimited']:
            before = len(recorder.states)
            model.continue_fit()    # the last limit stays in force
            require(len(recorder.states) - before <= max(limit - at, 0), '{} iterations were added by continuing without a new limit', len(recorder.states) - before)
    return (['trivial'] if done < 1 or max(case['more']) < 1 else []) + [case['kind'], case['via'], 'stopped early' if done < (case['own'] if case['first'] is None else case['first']) else 'limit reached']


def finite_errors(case, data, states):
    """Whether the error stays clear of zero, where a fit may stop even without a tolerance."""
    e = errors(case, data, states)
    return bool(np.all(np.isfinite(e)) and np.all(e > 1e-9 * sum(np.linalg.norm(x) ** 2 for x in data)) and np.all(abs(np.diff(e)) > 1e-13 * e[:-1]))


def run_refit(case):
    args, data, start = problem(case)
    n = case['its']
    want, fresh = first_fit(case, args, start, n, convergence_tol=case['tol'])
    other = dict(case, seed=case['seed'] + 5, scale=case['scale'] * 7, np_seed=case['np_seed'] + 3)
    if case['resize'] and case['init'] != 'precomputed':
        # other sizes, same order
        rng = np.random.default_rng(case['seed'])
        if case['kind'] == 'pf2':
            other['I'] = case['rank'] + int(rng.integers(0, 5))
            other['K'] = int(rng.integers(max(1, case['rank'] if case['modes'][2] == 'orth' else 1), case['rank'] + 4))
            other['J'] = [case['rank'] + int(j) for j in rng.integers(0, 5, other['K'])] if case['init'] != 'cp' else [case['rank'] + 2] * other['K']
            other['as_array'] = False
        else:
            other['shape'] = [max(case['rank'], int(m)) if case['init'] == 'svd' or c == 'orth' else int(m) for m, c in zip(rng.integers(1, 6, len(case['shape'])), case['modes'])]
    args2, data2, start2 = problem(other)
    recorder = fits.Recorder(limit=2 * n + 9)
    model = model_of(case, loggers=[recorder], convergence_tol=case['tol'])
    c12.fit(model, other, args2, start2, max_its=case['first'])
    if case['and_continue']:
        model.continue_fit(max_its=case['first'] + 1)
    del recorder.states[:]
    kept = copy.deepcopy(model.decomposition)
    earlier = model.decomposition
    c12.fit(model, case, args, start, max_its=n)
    if conditioning(case, args, data, want) < 1e-3:
        return ['trivial', 'not determined', case['kind']]
    compare(case, data, recorder.states, want, 'model fitted before to other data')
    compare(case, data, [fits.snapshot(model)], [fits.snapshot(fresh)], 'model fitted before to other data, final decomposition')
    return (['trivial'] if len(want) < 2 or case['rank'] < 2 else []) + [case['kind'], 'resized' if case['resize'] else 'same sizes', 'init ' + case['init']]


class Returned:
    current_iteration = None

    def __init__(self, decomposition):
        self.decomposition = decomposition


def run_observers(case):
    import tenkit.decomposition.logging as tl
    args, data, start = problem(case)
    n = case['its']
    model = model_of(case, convergence_tol=case['tol'])
    c12.fit(model, case, args, start, max_its=n)
    want = fits.snapshot(model)
    recorder = fits.Recorder(limit=n)
    with tempfile.TemporaryDirectory() as folder:
        loggers = [getattr(tl, LOGGERS[name])() for name in case['loggers']]
        watched = model_of(case, convergence_tol=case['tol'], loggers=loggers + [recorder], print_frequency=case['print'],
                           checkpoint_path=os.path.join(folder, 'c.h5') if case['store'] else None, checkpoint_frequency=case['freq'])
        with contextlib.redirect_stdout(io.StringIO()):
            if case['transform']:
                np.random.seed(case['np_seed'] % 2 ** 32)
                result = watched.fit_transform(*args, initial_decomposition=copy.deepcopy(start), max_its=n)
                returned = result[0] if case['kind'] == 'cmtf' else result
                require(type(returned) is type(watched.decomposition), 'fit_transform returned a {}', type(returned))
                for a, b in zip(fits.reconstruct(fits.snapshot(Returned(returned))), fits.reconstruct(fits.snapshot(watched))):
                    identical(a, b, 'tensor returned by fit_transform, compared with that of the model')
            else:
                c12.fit(watched, case, args, start, max_its=n)
    if conditioning(case, args, data, recorder.states) < 1e-3:
        return ['trivial', 'not determined', case['kind']]
    got = fits.snapshot(watched)
    require(got['it'] == want['it'], '{} iterations with logging, {} without', got['it'], want['it'])
    compare(case, data, [got], [want], 'result with printing, logging and checkpointing, compared with the result without')
    for a, b in zip(got['factors'], want['factors']):
        close(a, b, 1e-5, 'factor with printing, logging and checkpointing', scale=np.linalg.norm(b) + 1e-300)
    return (['trivial'] if want['it'] < 2 or case['rank'] < 2 else []) + [case['kind'], 'stored' if case['store'] else 'not stored']


@st.composite
def problems(draw, its, ridge=True):
    kind = draw(st.sampled_from(['cp', 'pf2', 'cmtf']))
    if kind == 'cp':
        case = draw(fits.cp_problems(constrained=draw(st.booleans()), its=its, max_size=100, max_order=4, big=False, max_rank=4, ridge=None if ridge else False))
        if case['init'] == 'precomputed' and case['start'] in ('zero_column', 'near_collinear', 'equal_columns', 'scaled_columns'):
            case['start'] = 'normal'
    elif kind == 'pf2':
        case = draw(fits.pf2_problems(its=its, max_k=5))
        case['inner'] = min(case['inner'], 3)
    else:
        case = draw(fits.cmtf_problems(its=its))
    case['kind'] = kind
    return case


@st.composite
def stops(draw):
    case = draw(problems(st.sampled_from([40, 3, 10, 20, 60])))
    case.update(tol=draw(st.sampled_from([1e-2, 1e-1, 3e-2, 1e-3, 1e-4, 1e-6, 0.0])), rel=draw(st.sampled_from([0.0, 1e-10, 1e-3, 0.05, 0.2])))
    return case


@st.composite
def continued(draw):
    case = draw(problems(st.just(0)))
    case.update(parts=draw(st.lists(st.sampled_from([2, 1, 3, 0, 4]), min_size=2, max_size=4)), tol=draw(st.sampled_from([0.0, 0.0, 1e-2, 1e-4])), smaller=draw(st.booleans()))
    return case


@st.composite
def limits(draw):
    case = draw(problems(st.just(0)))
    case.update(own=draw(st.sampled_from([30, 6, 12, 100])), first=draw(st.sampled_from([None, 3, 2, 5, 0])), tol=draw(st.sampled_from([0.3, 0.0, 0.9, 1e-2])),
                via=draw(st.sampled_from(['continue', 'checkpoint'])), load=draw(st.integers(0, 9)), more=draw(st.lists(st.sampled_from([2, 1, 3, 0, -1]), min_size=1, max_size=3)),
                unlimited=draw(st.booleans()))
    if case['tol'] == 0 and case['first'] is None:
        case['own'] = min(case['own'], 12)
    return case


@st.composite
def refits(draw):
    case = draw(problems(st.sampled_from([3, 1, 2, 4, 5])))
    case.update(first=draw(st.sampled_from([2, 0, 1, 3])), and_continue=draw(st.booleans()), resize=draw(st.booleans()), tol=draw(st.sampled_from([0.0, 1e-2])))
    return case


@st.composite
def observed(draw):
    case = draw(problems(st.sampled_from([4, 1, 2, 3, 8])))
    case.update(loggers=draw(st.lists(st.sampled_from(NAMES), max_size=5, unique=True)), print=draw(st.sampled_from([1, 2, 3, None, -1, 0])),
                store=draw(st.booleans()), transform=draw(st.booleans()), freq=draw(st.sampled_from([2, 1, None, -1, 3])), tol=draw(st.sampled_from([0.0, 1e-2])))
    return case


SUBS = [
    Sub('stop', stops(), run_stop, 900, weight=40),
    Sub('continue', continued(), run_continue, 1000, weight=25),
    Sub('limits', limits(), run_limits, 700, weight=20),
    Sub('refit', refits(), run_refit, 800, weight=20),
    Sub('observers', observed(), run_observers, 500, weight=20),
]
