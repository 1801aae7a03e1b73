import contextlib, copy, io, os, tempfile
import numpy as np
from hypothesis import strategies as st
from tkv import gen, fits
from tkv.core import Sub, Violation, require
from checks.c11 import model_of, problem, LOGGERS
from checks import c12

RULE = ('(a) Every public function of base, utils and metrics with random matrices, lists, masks and weights in five memory layouts, integer or floating; (b) every '
        'reading method of Kruskal, evolving and PARAFAC2 tensors, with the tensors, data and files they are given; (c) CP, PARAFAC2 and coupled fits with '
        'constraint, penalty, coupling and logger lists, continued and repeated, with and without storing. Oracle: deep copies taken before the call, compared exactly '
        '(values, types, lengths, identities of list entries). Non-trivial: at least one argument with more than one entry; for fits, at least one iteration.')


# ---------------------------------------------------------------------------------- comparisons

def freeze(x):
    """A deep copy that can be compared."""
    if isinstance(x, np.ndarray):
        return ('array', x.dtype.str, x.shape, x.strides, x.copy())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [id(y) for y in x], [freeze(y) for y in x])
    if hasattr(x, '__dict__') and not isinstance(x, type):
        return ('object', sorted(x.__dict__), [freeze(x.__dict__[k]) for k in sorted(x.__dict__)])
    return ('value', copy.deepcopy(x))


def frozen_equal(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'array':
        return a[1:4] == b[1:4] and np.array_equal(a[4], b[4], equal_nan=True)
    if a[0] in ('list', 'tuple', 'object'):
        return a[1] == b[1] and len(a[2]) == len(b[2]) and all(frozen_equal(x, y) for x, y in zip(a[2], b[2]))
    return type(a[1]) is type(b[1]) and (a[1] == b[1] or a[1] != a[1])


def values_only(f):
    """Without identities and memory layout, e.g. for decompositions whose arrays may be replaced by equal ones."""
    if f[0] == 'array':
        return ('array', f[1], f[2], (), f[4])
    if f[0] in ('list', 'tuple', 'object'):
        return (f[0], f[1] if f[0] == 'object' else [], [values_only(x) for x in f[2]])
    return f


class Watch:
    def __init__(self, **things):
        self.things = things
        self.before = {k: freeze(v) for k, v in things.items()}

    def check(self, what):
        for k, v in self.things.items():
            now = freeze(v)
            a, b = self.before[k], now
            if a[0] == 'object':
                a, b = values_only(a), values_only(b)
            require(frozen_equal(a, b), '{} changed its argument {}', what, k)


# ------------------------------------------------------------------------------------- functions

def arr(rng, case, *shape, kind=None):
    a = gen.content(rng, shape, kind or case['kind'])
    if case['ints']:
        a = np.rint(2 * a).astype(int)
    return gen.layout_as(a, case['layout'])


def nonzero(a):
    a[np.abs(a).sum(axis=tuple(range(1, a.ndim))) == 0] = 1
    for r in range(a.shape[-1]):
        if not np.any(a[..., r]):
            a[..., r] = 1
    return a


def full_rank(rng, case, n, r):
    a = arr(rng, case, n, r, kind='normal')
    a[:r, :r] += 9 * np.identity(r, dtype=a.dtype)
    return a


def functions():
    """name -> (builder of arguments)"""
    from tenkit import base, utils, metrics

    def factors(rng, c, n=3, same=None):
        return [nonzero(arr(rng, c, m, c['rank'])) for m in (c['shape'] if same is None else same)]

    def solver(f):
        def make(rng, c):
            A = full_rank(rng, c, c['rank'] + 4, c['rank']).T
            return f, dict(A=A, B=arr(rng, c, c['m'], c['rank'] + 4))
        return make

    def ridge(f):
        def make(rng, c):
            A = full_rank(rng, c, c['rank'] + 4, c['rank']).T
            return base.add_rightsolve_ridge(f, 0.5), dict(A=A, B=arr(rng, c, c['m'], c['rank'] + 4))
        return make

    def starred(f, **kw):
        def make(rng, c):
            fs = factors(rng, c)
            return (lambda fs: f(*fs, **{k: v(c) for k, v in kw.items()})), dict(fs=fs)
        return make

    def on_list(f, *extra):
        def make(rng, c):
            fs = factors(rng, c)
            return (lambda fs: f(fs)), dict(fs=fs)
        return make

    table = {
        'rightsolve': solver(base.rightsolve),
        'non_negative_rightsolve': solver(base.non_negative_rightsolve),
        'orthogonal_rightsolve': lambda rng, c: (base.orthogonal_rightsolve, dict(A=arr(rng, c, c['rank'], c['m'] + 3), B=arr(rng, c, c['rank'] + 2, c['m'] + 3))),
        'orthogonal_solve': lambda rng, c: (base.orthogonal_solve, dict(A=arr(rng, c, c['m'] + 3, c['rank']), B=arr(rng, c, c['m'] + 3, c['rank'] + 2))),
        'ridge rightsolve': ridge(base.rightsolve),
        'ridge non_negative_rightsolve': ridge(base.non_negative_rightsolve),
        'kron_binary_vectors': lambda rng, c: (base.kron_binary_vectors, dict(u=arr(rng, c, c['m']), v=arr(rng, c, c['rank']))),
        'khatri_rao_binary': lambda rng, c: (base.khatri_rao_binary, dict(A=arr(rng, c, c['m'], c['rank']), B=arr(rng, c, 3, c['rank']))),
        'kron_binary': lambda rng, c: (base.kron_binary, dict(A=arr(rng, c, c['m'], c['rank']), B=arr(rng, c, 3, 2))),
        'khatri_rao': starred(base.khatri_rao),
        'khatri_rao with skip': starred(base.khatri_rao, skip=lambda c: c['mode']),
        'kron': lambda rng, c: ((lambda fs: base.kron(*fs)), dict(fs=factors(rng, c, same=[2, 3, 2]))),
        'ktensor': starred(base.ktensor),
        'matrix_khatri_rao_product': lambda rng, c: ((lambda X, factors: base.matrix_khatri_rao_product(X, factors, c['mode'])), dict(X=arr(rng, c, *c['shape']), factors=factors(rng, c))),
        'unfold': lambda rng, c: ((lambda A: base.unfold(A, c['mode'])), dict(A=arr(rng, c, *c['shape']))),
        'fold': lambda rng, c: ((lambda M, shape: base.fold(M, c['mode'], shape)),
                                dict(M=arr(rng, c, c['shape'][c['mode']], int(np.prod(c['shape'])) // c['shape'][c['mode']]), shape=list(c['shape']))),
        'flatten_factors': on_list(base.flatten_factors),
        'unflatten_factors': lambda rng, c: ((lambda v, sizes: base.unflatten_factors(v, c['rank'], sizes)), dict(v=arr(rng, c, sum(c['shape']) * c['rank']), sizes=list(c['shape']))),
        'flip_factors': lambda rng, c: (utils.flip_factors, dict(factor_matrices=factors(rng, dict(c, ints=False)))),
        'permute_factors': lambda rng, c: (utils.permute_factors, dict(permutation=list(map(int, rng.permutation(c['rank']))), factors=factors(rng, c))),
        'permute_factors_and_weights': lambda rng, c: (utils.permute_factors_and_weights, dict(permutation=list(map(int, rng.permutation(c['rank']))), factors=factors(rng, c), weights=arr(rng, c, c['rank']))),
        'normalize_factor': lambda rng, c: (utils.normalize_factor, dict(factor=arr(rng, c, c['m'], c['rank']))),
        'normalize_factors': on_list(utils.normalize_factors),
        'prepare_for_comparison': on_list(utils.prepare_for_comparison),
        'get_signs': lambda rng, c: ((lambda F, X: utils.get_signs(F, X)), dict(F=full_rank(rng, c, c['rank'] + 3, c['rank']), X=arr(rng, c, c['rank'] + 3, c['m']))),
        'get_signs without data': lambda rng, c: ((lambda F: utils.get_signs(F, None)), dict(F=arr(rng, c, c['m'], c['rank']))),
        'get_pca_loadings': lambda rng, c: ((lambda Y: utils.get_pca_loadings(Y, c['rank'])), dict(Y=arr(rng, c, 6, 6))),
        'create_data': lambda rng, c: ((lambda sizes: utils.create_data(sizes, c['rank'], 0.3)), dict(sizes=list(c['shape']))),
        'create_non_negative_data': lambda rng, c: ((lambda sizes: utils.create_non_negative_data(sizes, c['rank'], 0.3)), dict(sizes=list(c['shape']))),
        'factor_match_score': lambda rng, c: ((lambda t, e: metrics.factor_match_score(t, e, weight_penalty=c['flag'])), dict(t=factors(rng, c), e=factors(rng, dict(c, rank=c['rank'] + c['extra'])))),
        'separate_mode_factor_match_score': lambda rng, c: (metrics.separate_mode_factor_match_score, dict(true_factors=factors(rng, c), estimated_factors=factors(rng, dict(c, rank=c['rank'] + c['extra'])))),
        'tensor_completion_score': lambda rng, c: (metrics.tensor_completion_score, dict(X=arr(rng, c, *c['shape']), X_hat=arr(rng, c, *c['shape']), W=gen.layout_as(rng.integers(0, 2, c['shape']), c['layout']))),
        'percent_explained': lambda rng, c: (metrics.percent_explained, dict(true_tensor=arr(rng, c, *c['shape']), estimated_tensor=arr(rng, c, *c['shape']))),
        'leverage': lambda rng, c: (metrics.leverage, dict(factor_matrix=full_rank(rng, c, c['rank'] + c['m'], c['rank']))),
    }

    def cc(rng, c):
        r = c['rank']
        ABC = [full_rank(rng, c, r + k, r) for k in (1, 2, 0)]
        return (lambda X, ABC: metrics.core_consistency(X, *ABC, normalized=c['flag'])), dict(X=arr(rng, c, r + 1, r + 2, r), ABC=ABC)

    def cc2(rng, c):
        r, K = c['rank'], c['m'] + c['rank']
        P = [gen.layout_as(gen.content(rng, (r + k % 3, r), 'orthonormal'), c['layout']) for k in range(K)]
        X = [arr(rng, c, r + 2, r + k % 3) for k in range(K)]
        return metrics.core_consistency_parafac2, dict(X=X, P_k=P, A=full_rank(rng, c, r + 2, r), F=full_rank(rng, c, r, r), C=full_rank(rng, c, K, r))

    def signs_evolving(rng, c):
        from tenkit.decomposition import EvolvingTensor
        r = c['rank']
        B = [full_rank(rng, dict(c, ints=False), r + k, r) for k in range(c['m'])]
        T = EvolvingTensor(arr(rng, dict(c, ints=False), 5, r), B, arr(rng, dict(c, ints=False), c['m'], r), warning=False)
        return utils.fix_signs_evolving_tensor, dict(evolving_tensor=T, data_tensor=[arr(rng, c, 5, r + k) for k in range(c['m'])])

    def signs_evolving_lists(rng, c):
        r = c['rank']
        B = [full_rank(rng, dict(c, ints=False), r + k, r) for k in range(c['m'])]
        return utils.signfix_evolving_factors, dict(data_tensor=[arr(rng, c, 5, r + k) for k in range(c['m'])], evolving_factor=B, evolve_over_factor=arr(rng, dict(c, ints=False), c['m'], r))

    def signs_normal(rng, c):
        r = c['rank']
        return utils.signfix_normal_factors, dict(data_tensor=arr(rng, c, r + 2, 3, c['m']), fixing_factors=full_rank(rng, c, r + 2, r), flipping_factors=arr(rng, c, c['m'], r))
    from tenkit.decomposition import KruskalTensor, Parafac2Tensor

    def random_parafac2(rng, c):
        K, r = c['m'] + 1, c['rank']
        widths = [r + 1 + (k * c['flag']) % 3 for k in range(K)] if c['extra'] else r + 2
        return (lambda sizes: Parafac2Tensor.random_init(sizes, r)), dict(sizes=[4, widths, K])

    def fms_parafac2(rng, c):
        r, K = c['rank'], c['m'] + 1
        make = lambda r: [full_rank(rng, c, r + 2, r), [full_rank(rng, c, r + k, r) for k in range(K)], full_rank(rng, c, K + r, r)]
        t = make(r)
        e = [full_rank(rng, c, r + 2, r), t[1], full_rank(rng, c, K + r, r)]
        return (lambda t, e: metrics.factor_match_score_parafac2(t, e, weight_penalty=c['flag'])), dict(t=t, e=e)
    table.update({
        'KruskalTensor.random_init': lambda rng, c: ((lambda sizes: KruskalTensor.random_init(sizes, c['rank'], random_method='uniform' if c['flag'] else 'normal')), dict(sizes=list(c['shape']))),
        'Parafac2Tensor.random_init': random_parafac2,
        'create_random_factors': lambda rng, c: ((lambda sizes: utils.create_random_factors(sizes, c['rank'])), dict(sizes=list(c['shape']))),
        'create_random_uniform_factors': lambda rng, c: ((lambda sizes: utils.create_random_uniform_factors(sizes, c['rank'])), dict(sizes=list(c['shape']))),
        'factor_match_score_parafac2': fms_parafac2,
    })
    table.update({'core_consistency': cc, 'core_consistency_parafac2': cc2, 'fix_signs_evolving_tensor': signs_evolving,
                  'signfix_evolving_factors': signs_evolving_lists, 'signfix_normal_factors': signs_normal})
    return table


NAMES = ['rightsolve', 'non_negative_rightsolve', 'orthogonal_rightsolve', 'orthogonal_solve', 'ridge rightsolve', 'ridge non_negative_rightsolve',
         'kron_binary_vectors', 'khatri_rao_binary', 'kron_binary', 'khatri_rao', 'khatri_rao with skip', 'kron', 'ktensor', 'matrix_khatri_rao_product', 'unfold', 'fold',
         'flatten_factors', 'unflatten_factors', 'flip_factors', 'permute_factors', 'permute_factors_and_weights', 'normalize_factor', 'normalize_factors',
         'prepare_for_comparison', 'get_signs', 'get_signs without data', 'get_pca_loadings', 'create_data', 'create_non_negative_data', 'factor_match_score',
         'separate_mode_factor_match_score', 'tensor_completion_score', 'percent_explained', 'leverage', 'core_consistency', 'core_consistency_parafac2',
         'fix_signs_evolving_tensor', 'signfix_evolving_factors', 'signfix_normal_factors', 'KruskalTensor.random_init', 'Parafac2Tensor.random_init',
         'create_random_factors', 'create_random_uniform_factors', 'factor_match_score_parafac2']


def run_functions(case):
    name = NAMES[case['function'] % len(NAMES)]
    case = dict(case, mode=case['mode'] % len(case['shape']))
    function, args = functions()[name](np.random.default_rng(case['seed']), case)
    watch = Watch(**args)
    function(*args.values())
    watch.check(name)
    return [name]


@st.composite
def function_cases(draw):
    return dict(function=draw(st.integers(0, 10 ** 6)), seed=draw(gen.seeds), np_seed=draw(gen.seeds), rank=draw(st.integers(1, 3)), m=draw(st.integers(1, 4)), mode=draw(st.integers(0, 4)),
                extra=draw(st.integers(0, 2)), flag=draw(st.booleans()), shape=draw(gen.shapes(3, 4, 5, 80)), layout=draw(gen.layouts), ints=draw(st.booleans()),
                kind=draw(st.sampled_from(['normal', 'uniform', 'ints', 'negative'])))


# --------------------------------------------------------------------------------------- methods

def run_methods(case):
    """Reading a decomposition changes neither it nor what it is given."""
    from tenkit.decomposition import KruskalTensor, EvolvingTensor, Parafac2Tensor
    rng = np.random.default_rng(case['seed'])
    r, K = case['rank'], case['K']
    c = dict(case, ints=False)
    J = [r + int(j) for j in rng.integers(0, 4, K)] if not case['regular'] else [r + 1] * K
    X = None
    given = {}
    if case['type'] == 'kruskal':
        shape = [r + 1, r + 2, K + r]
        fs = [nonzero(full_rank(rng, c, n, r)) for n in shape]
        w = rng.uniform(0.3, 2, r) * rng.choice([-1, 1], r)
        fs2, w2 = [nonzero(full_rank(rng, c, n, r)) for n in shape], rng.uniform(0.5, 2, r)
        given = dict(factors=fs, weights=w)
        watch = Watch(**given)
        T, other = KruskalTensor(fs, w), KruskalTensor(fs2, w2)
        watch.check('KruskalTensor')
        X = arr(rng, case, *shape, kind='normal')
        ops = dict(construct=lambda: T.construct_tensor(), shape=lambda: T.shape, item=lambda: [T[i] for i in (0, 1, 2)], fms=lambda: T.factor_match_score(other, weight_penalty=case['flag']),
                   separate=lambda: T.seperate_mode_factor_match_score(other), scores=lambda: T.get_sign_scores(X), signs=lambda: T.get_signs(X),
                   single=lambda: [T.get_single_component_decomposition(i) for i in range(r)], degeneracy=lambda: T.degeneracy(), cc=lambda: T.core_consistency(X, normalized=case['flag']),
                   convert=lambda: EvolvingTensor.from_kruskaltensor(T, allow_same_class=True), store=lambda: store(T), normal=None)
    elif case['type'] == 'evolving':
        A, C = nonzero(full_rank(rng, c, r + 2, r)), nonzero(full_rank(rng, c, K, r) if K >= r else arr(rng, c, K, r, kind='uniform') + 1)
        Bs = [nonzero(full_rank(rng, c, j, r)) for j in J]
        given = dict(A=A, B=Bs, C=C)
        watch = Watch(**given)
        T, other = EvolvingTensor(A, Bs, C, warning=False), EvolvingTensor(A[::-1].copy(), [b + 1 for b in Bs], C + 2, warning=False)
        watch.check('EvolvingTensor')
        ops = dict(construct=lambda: T.construct_tensor(), shape=lambda: T.shape, slices=lambda: (T.construct_slices(), [T.construct_slice(k) for k in range(K)]), item=lambda: [T[0], T[1], T[2], T.B[-1], T.B[-1][0], T.B[0]],
                   factors=lambda: (T.factor_matrices, T.B_unfolded), degeneracy=(lambda: T.degeneracy()), fms=lambda: T.factor_match_score(other),
                   separate=lambda: T.separate_mode_factor_match_score(other), store=lambda: store(T))
    else:
        A, C = nonzero(full_rank(rng, c, r + 2, r)), nonzero(full_rank(rng, c, K, r) if K >= r else arr(rng, c, K, r, kind='uniform') + 1)
        D = nonzero(full_rank(rng, c, r, r))
        P = [gen.layout_as(gen.content(rng, (j, r), 'orthonormal'), case['layout']) for j in J]
        given = dict(A=A, D=D, C=C, P=P)
        watch = Watch(**given)
        T, other = Parafac2Tensor(A, D, C, P, warning=False), Parafac2Tensor(A[::-1].copy(), D + 1, C + 2, [p.copy() for p in P], warning=False)
        watch.check('Parafac2Tensor')
        ops = dict(construct=lambda: T.construct_tensor(), shape=lambda: T.shape, slices=lambda: (T.construct_slices(), [T.construct_slice(k) for k in range(K)]), item=lambda: [T[0], T[1], T[2], T.B[-1], T.B[-1][0], T.B[0]],
                   factors=lambda: (T.factor_matrices, T.B_unfolded), degeneracy=lambda: T.degeneracy(), single=lambda: [T.get_single_component_decomposition(i) for i in range(r)],
                   fms=lambda: T.factor_match_score(other, weight_penalty=False), separate=lambda: T.separate_mode_factor_match_score(other), store=lambda: store(T))

    def store(T):
        with tempfile.TemporaryDirectory() as folder:
            T.store(os.path.join(folder, 't.h5'))
            return type(T).from_file(os.path.join(folder, 't.h5'))
    names = [n for n in sorted(ops) if ops[n] is not None]
    state, state2 = values_only(freeze(T)), values_only(freeze(other))
    watch = Watch(**given, **({} if X is None else dict(X=X)))
    done = []
    for i in case['ops']:
        name = names[i % len(names)]
        ops[name]()
        watch.check(f'{type(T).__name__}, {name}')
        require(frozen_equal(state, values_only(freeze(T))), 'the {} was changed by {}', type(T).__name__, name)
        require(frozen_equal(state2, values_only(freeze(other))), 'the {} that another was compared with was changed by {}', type(T).__name__, name)
        done.append(name)
    return [case['type']] + [f'{case["type"]}: {n}' for n in set(done)]


@st.composite
def method_cases(draw):
    return dict(type=draw(st.sampled_from(['kruskal', 'evolving', 'parafac2'])), seed=draw(gen.seeds), rank=draw(st.integers(1, 3)), K=draw(st.integers(1, 4)), regular=draw(st.booleans()),
                layout=draw(gen.layouts), flag=draw(st.booleans()), ints=draw(st.booleans()), kind='normal', ops=draw(st.lists(st.integers(0, 100), min_size=1, max_size=6)))


# ------------------------------------------------------------------------------------------ fits

def run_fits(case):
    import tenkit.decomposition.logging as tl
    args, data, start = problem(case)
    loggers = [getattr(tl, LOGGERS[n])() for n in case['loggers']]
    lists = dict(fits.constraint_args(case['modes'], case['ridge']), loggers=loggers)
    watch = Watch(**{f'{k}': v for k, v in lists.items() if v is not None and k != 'loggers'}, **{f'argument {i} of fit': a for i, a in enumerate(args)})
    with tempfile.TemporaryDirectory() as folder, contextlib.redirect_stdout(io.StringIO()):
        kwargs = dict(lists)
        if case['store']:
            kwargs.update(checkpoint_path=os.path.join(folder, 'c.h5'), checkpoint_frequency=2)
        model = model_of(case, print_frequency=case['print'], **kwargs)
        np.random.seed(case['np_seed'] % 2 ** 32)
        if case['transform']:
            result = model.fit_transform(*args, max_its=case['its'], initial_decomposition=copy.deepcopy(start))
            if case['kind'] == 'cmtf' and isinstance(result, tuple):
                result = list(result)
        else:
            model.fit(*args, max_its=case['its'], initial_decomposition=copy.deepcopy(start))
            result = model.decomposition
        watch.check('fit')
        require(len(lists['loggers']) == len(case['loggers']) and all(a is b for a, b in zip(lists['loggers'], loggers)), 'fit changed the list of loggers')
        for name in ('SSE', 'MSE', 'RMSE', 'explained_variance', 'loss'):
            getattr(model, name)
        model.reconstructed_X
        watch.check('reading the statistics')
        if case['again'] == 'continue':
            model.continue_fit(max_its=case['its'] + 2)
            watch.check('continue_fit')
        elif case['again'] == 'fit':
            kept = values_only(freeze(result))
            other = dict(case, seed=case['seed'] + 9, np_seed=case['np_seed'] + 1, scale=case['scale'] * 3)
            args2, _, start2 = problem(other)
            if case['same_data']:
                args2 = args
            np.random.seed(other['np_seed'] % 2 ** 32)
            model.fit(*args2, max_its=case['its'] + 1, initial_decomposition=copy.deepcopy(start2))
            require(frozen_equal(kept, values_only(freeze(result))), 'the result of an earlier fit changed when the model was fitted again')
            watch.check('another fit')
        elif case['again'] == 'load' and case['store'] and case['its'] > 0 and case['kind'] != 'cmtf':
            kept = values_only(freeze(result))
            model.load_checkpoint(os.path.join(folder, 'c.h5'))
            model.continue_fit(max_its=case['its'] + 2)
            require(frozen_equal(kept, values_only(freeze(result))), 'the result of an earlier fit changed when a checkpoint was loaded and continued')
            watch.check('load_checkpoint')
    return (['trivial'] if case['its'] < 1 else []) + [case['kind'], case['again'], 'init ' + case['init']]


@st.composite
def fit_cases(draw):
    from checks.c14 import problems
    case = draw(problems(st.sampled_from([2, 1, 3, 4, 0])))
    case.update(store=draw(st.booleans()), print=draw(st.sampled_from([None, 1, 2])), transform=draw(st.booleans()), again=draw(st.sampled_from(['fit', 'continue', 'load', 'no'])),
                same_data=draw(st.booleans()), loggers=draw(st.lists(st.sampled_from(sorted(LOGGERS)), max_size=3, unique=True)))
    return case


SUBS = [
    Sub('functions', function_cases(), run_functions, 3000, weight=1),
    Sub('methods', method_cases(), run_methods, 1500, weight=3),
    Sub('fits', fit_cases(), run_fits, 1200, weight=8),
]
