import os
import pathlib
import shutil
import tempfile
import h5py
import numpy as np
from hypothesis import strategies as st
from tenkit.decomposition import KruskalTensor, EvolvingTensor, Parafac2Tensor
from tkv import gen
from tkv.core import Sub, Violation, identical, require, as_array, expect_raises
from checks.c05 import evolving, build as build_evolving

RULE = ('Histories of 1-7 operations on a directory with two files: store a tensor (overwriting), store tensors in groups, load them, load '
        'as another type. Tensors: Kruskal of order 2-14, evolving and PARAFAC2 with 1-130 equal or different slices (and now and then a thousand modes or slices), contents incl. subnormal, '
        'huge, nan and infinite values, single precision. Non-trivial: at least one tensor of rank above one is loaded back.')
TYPES = dict(kruskal=KruskalTensor, evolving=EvolvingTensor, parafac2=Parafac2Tensor)


@st.composite
def tensor(draw):
    kind = draw(st.sampled_from(['kruskal', 'evolving', 'parafac2']))
    if kind == 'kruskal':
        rank = draw(st.integers(1, 5))
        order = draw(st.integers(2, 5) | st.integers(2, 14))
        shape = draw(st.lists(st.integers(1, 6), min_size=order, max_size=order))
        spec = dict(factors=[gen.array(draw, (n, rank), gen.GENERIC + ['zero_column'], dtypes=('f8', 'f8', 'f4')) for n in shape],
                    weights=draw(st.sampled_from(['none', 'normal', 'ints', 'with_zero'])), wseed=draw(gen.seeds), rank=rank)
    else:
        spec = draw(evolving(pf2=kind == 'parafac2'))
        rank = spec['R']
    return dict(type=kind, spec=spec, special=draw(st.sampled_from([None, None, None, 'nan', 'inf', 'tiny', 'huge'])), rank=rank)


def parts(T):
    """All stored pieces of a tensor, as copies."""
    if isinstance(T, KruskalTensor):
        return dict({f'factor {i}': f.copy() for i, f in enumerate(T.factor_matrices)}, weights=np.array(T.weights))
    if isinstance(T, Parafac2Tensor):
        out = {f'projection {k}': p.copy() for k, p in enumerate(T.projection_matrices)}
        out.update(A=T.A.copy(), C=T.C.copy(), blueprint=T.blueprint_B.copy())
    else:
        out = {f'B {k}': np.array(b) for k, b in enumerate(T.B)}
        out.update(A=T.A.copy(), C=T.C.copy())
    out['warning'] = np.array(bool(T.warning))
    out['all_same_size'] = np.array(bool(T.all_same_size))
    return out


def make(t):
    if t['type'] == 'kruskal':
        T = gen.build_ktensor(t['spec'])
        target = T.factor_matrices[-1]
    else:
        T = build_evolving(t['spec'])[0]
        target = T.C
    if t['special']:
        value = dict(nan=np.nan, inf=-np.inf, tiny=5e-324, huge=1.7e308)[t['special']]
        target[-1, 0] = np.array(value).astype(target.dtype)
    return T


def compare(T, expected, cls, what):
    require(type(T) is cls, '{}: loaded a {}, expected {}', what, type(T).__name__, cls.__name__)
    got = parts(T)
    require(set(got) == set(expected), '{}: pieces {} rather than {}', what, sorted(got), sorted(expected))
    for name in expected:
        identical(got[name], expected[name], f'{what}: {name}')
        if name not in ('warning', 'all_same_size'):
            require(got[name].dtype == expected[name].dtype, '{}: {} has type {}', what, name, got[name].dtype)


@st.composite
def history(draw):
    tensors = draw(st.lists(tensor(), min_size=1, max_size=4))
    n = len(tensors)
    op = st.tuples(st.sampled_from(['store', 'store', 'group', 'group', 'load', 'load', 'wrong']), st.integers(0, n - 1),
                   st.integers(0, 1), st.integers(0, 3)).map(list)
    return dict(tensors=tensors, ops=draw(st.lists(op, min_size=1, max_size=7)), path=draw(st.booleans()))


def run_history(case):
    folder = tempfile.mkdtemp()
    try:
        return history_in(case, folder)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def history_in(case, folder):
    tensors = [make(t) for t in case['tensors']]
    kept = [parts(T) for T in tensors]
    model = {0: {}, 1: {}}    # file -> group -> index of the tensor
    loads = 0
    names = ['', 'a', 'nested/b', 'checkpoint_00001']
    labels = []
    for op, i, f, g in case['ops']:
        path = os.path.join(folder, f'file{f}.h5')
        path = pathlib.Path(path) if case['path'] else path
        T = tensors[i]
        if op == 'store':
            T.store(path)
            model[f] = {'': i}
        elif op == 'group':
            group = names[1 + g % 3]
            if group in model[f]:
                continue
            with h5py.File(path, 'a') as h5:
                T.store_in_hdf5_group(h5.create_group(group))
            model[f][group] = i
        for name in kept[i]:
            identical(parts(T)[name], kept[i][name], f'{name} of the tensor after {op}')
        if op in ('load', 'wrong'):
            for group, j in sorted(model[f].items()):
                cls = TYPES[case['tensors'][j]['type']]
                if op == 'wrong':
                    for other in TYPES.values():
                        if other is not cls:
                            if group == '':
                                expect_raises((Exception,), lambda: other.from_file(path), f'{cls.__name__} loaded as {other.__name__}')
                            else:
                                with h5py.File(path, 'r') as h5:
                                    expect_raises((Exception,), lambda: other.load_from_hdf5_group(h5[group]), f'{cls.__name__} loaded as {other.__name__}')
                    continue
                check_load(path, group, cls, kept[j])
                loads += case['tensors'][j]['rank'] > 1
                labels.append('loaded ' + cls.__name__)
    for f in model:      # everything is still there in the end
        for group, j in model[f].items():
            check_load(os.path.join(folder, f'file{f}.h5'), group, TYPES[case['tensors'][j]['type']], kept[j])
            loads += case['tensors'][j]['rank'] > 1
        if '' in model[f]:  # a stored tensor replaces the file
            with h5py.File(os.path.join(folder, f'file{f}.h5'), 'r') as h5:
                for group in names[1:]:
                    require((group in h5) == (group in model[f]), 'group {} {} after overwriting the file', group, 'left' if group in h5 else 'lost')
    return labels + ([] if loads else ['trivial'])


def check_load(path, group, cls, expected):
    if group == '':
        T = cls.from_file(path)
    else:
        with h5py.File(path, 'r') as h5:
            T = cls.load_from_hdf5_group(h5[group])
    compare(T, expected, cls, f'{cls.__name__} loaded from {"a file" if group == "" else "group " + group}')


@st.composite
def single(draw):
    return dict(t=draw(tensor()), name=draw(st.sampled_from(['My{}', '{}2', '_{}', 'Other', 'Tensor', '{}Tensor'])))


def run_subclass(cls, name, T, kept):
    """A type with the same contents but another name is another type, in both directions."""
    other = type(name, (cls,), {})
    folder = tempfile.mkdtemp()
    try:
        for stored_as, read_as in ((cls, other), (other, cls)):
            path = os.path.join(folder, stored_as.__name__ + '.h5')
            copy = cls.__new__(stored_as)
            copy.__dict__.update(T.__dict__)
            copy.store(path)
            check_load(path, '', stored_as, kept)
            expect_raises((Exception,), lambda: read_as.from_file(path), f'{stored_as.__name__} loaded as {read_as.__name__}')
            with h5py.File(path, 'r') as h5:
                expect_raises((Exception,), lambda: read_as.load_from_hdf5_group(h5), f'{stored_as.__name__} loaded as {read_as.__name__}')
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def run_single(case):
    folder = tempfile.mkdtemp()
    try:
        T = make(case['t'])
        kept = parts(T)
        cls = TYPES[case['t']['type']]
        path = os.path.join(folder, 'x.h5')
        T.store(path)
        check_load(path, '', cls, kept)
        # the loaded tensor is independent of the file and can be stored again
        loaded = cls.from_file(path)
        loaded.store(os.path.join(folder, 'y.h5'))
        os.remove(path)
        compare(loaded, kept, cls, 'after removing the file')
        check_load(os.path.join(folder, 'y.h5'), '', cls, kept)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    run_subclass(cls, case['name'].format(cls.__name__), T, kept)
    many = case['t']['type'] != 'kruskal' and case['t']['spec']['K'] > 10 or case['t']['type'] == 'kruskal' and len(case['t']['spec']['factors']) > 9
    return (['trivial'] if case['t']['rank'] < 2 else []) + [case['t']['type']] + (['many modes or slices'] if many else [])


@st.composite
def thousands(draw):
    return dict(type=draw(st.sampled_from(['evolving', 'parafac2', 'kruskal'])), n=draw(st.integers(995, 1030)), rank=draw(st.integers(1, 2)), seed=draw(gen.seeds))


def run_thousands(case):
    """Numbers of modes or slices that do not fit the three digits of the names in the file."""
    rng, n, rank = np.random.default_rng(case['seed']), case['n'], case['rank']
    widths = rng.integers(rank, 4, n)
    A, C = rng.standard_normal((2, rank)), rng.standard_normal((n, rank))
    many = [rng.standard_normal((w, rank)) for w in widths]
    if case['type'] == 'kruskal':
        T = KruskalTensor(many)
    elif case['type'] == 'evolving':
        T = EvolvingTensor(A, many, C)
    else:
        T = Parafac2Tensor(A, rng.standard_normal((rank, rank)), C, many)
    kept = parts(T)
    folder = tempfile.mkdtemp()
    try:
        path = os.path.join(folder, 'x.h5')
        T.store(path)
        check_load(path, '', TYPES[case['type']], kept)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    return [case['type'], 'more than 1000' if n > 1000 else 'at most 1000'] + (['trivial'] if rank < 2 else [])


SUBS = [
    Sub('thousands', thousands(), run_thousands, 12, 100, weight=400),
    Sub('round_trip', single(), run_single, 1200, weight=5),
    Sub('history', history(), run_history, 1200, weight=6),
]
