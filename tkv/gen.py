"""Generators: JSON-serialisable descriptions of inputs, and the arrays they stand for.

Hypothesis draws the description (sizes, kinds of content, memory layout, seeds); build() is a pure
function of it. Array contents come from a generator seeded by a drawn integer.
"""
import numpy as np
from hypothesis import strategies as st

seeds = st.integers(0, 2 ** 31 - 1)
LAYOUTS = ['C', 'F', 'strided', 'reversed', 'offset']
layouts = st.sampled_from(LAYOUTS)


@st.composite
def shapes(draw, min_order=2, max_order=5, max_dim=7, max_size=400, min_dim=1, big=False, high=False):
    if high and draw(st.integers(0, 11)) == 0:  # now and then many small modes
        order = draw(st.integers(6, 9))
        return draw(st.permutations([max(min_dim, n) for n in draw(st.lists(st.integers(1, 2), min_size=order - 2, max_size=order - 2)) + draw(st.lists(st.integers(1, 3), min_size=2, max_size=2))]))
    order = draw(st.sampled_from([o for o in (3, 3, 3, 2, 4, 4, 5) if min_order <= o <= max_order] or [min_order]))
    shape, room = [], max_size
    for i in range(order):
        left = min_dim ** (order - 1 - i)
        top = max(min_dim, min(max_dim, room // left))
        n = draw(st.integers(min_dim, top))
        shape.append(n)
        room = max(1, room // n)
    if big and draw(st.integers(0, 7)) == 0:  # now and then one long mode
        shape[0] = draw(st.integers(max_dim + 1, 6 * max_dim + 10))
    return draw(st.permutations(shape))


def layout_as(a, layout):
    """The same array in another memory layout."""
    if layout == 'C':
        return np.ascontiguousarray(a)
    if layout == 'F':
        return np.asfortranarray(a)
    if layout == 'reversed':
        out = np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])
        return out[tuple(slice(None, None, -1) for _ in a.shape)]
    if layout == 'strided':
        big = np.full(tuple(2 * s for s in a.shape), 7, dtype=a.dtype)
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if layout == 'offset':
        big = np.full(tuple(s + 2 for s in a.shape), -5 if a.dtype.kind != "u" else 5, dtype=a.dtype)
        view = big[tuple(slice(1, s + 1) for s in a.shape)]
        view[...] = a
        return view
    raise ValueError(layout)


def content(rng, shape, kind):
    shape = tuple(shape)
    if kind == 'normal':
        return rng.standard_normal(shape)
    if kind == 'uniform':
        return rng.uniform(0, 1, shape)
    if kind == 'ints':
        return rng.integers(-3, 4, shape).astype(float)
    if kind == 'nonneg_ints':
        return rng.integers(0, 4, shape).astype(float)
    if kind == 'sparse':
        return rng.standard_normal(shape) * (rng.uniform(size=shape) < 0.4)
    if kind == 'sparse_uniform':
        return rng.uniform(0, 1, shape) * (rng.uniform(size=shape) < 0.5)
    if kind == 'shifted':
        return rng.standard_normal(shape) + 3
    if kind == 'negative':
        return -rng.uniform(0.1, 1, shape)
    if kind == 'ones':
        return np.ones(shape)
    if kind == 'zeros':
        return np.zeros(shape)
    if kind == 'scaled_columns':
        return rng.standard_normal(shape) * 10.0 ** rng.integers(-3, 4, shape[-1:])
    if kind == 'scaled_rows':
        return rng.standard_normal(shape) * 10.0 ** rng.integers(-3, 4, (shape[0],) + (1,) * (len(shape) - 1))
    if kind == 'zero_column':
        a = rng.standard_normal(shape)
        a[..., rng.integers(shape[-1])] = 0
        return a
    if kind == 'equal_columns':
        a = rng.standard_normal(shape)
        a[..., -1] = a[..., 0]
        return a
    if kind == 'near_collinear':
        a = rng.standard_normal(shape)
        a[..., -1] = a[..., 0] + 0.05 * a[..., -1]
        return a
    if kind == 'low_rank':
        n, m = shape
        r = max(1, min(n, m) - 1)
        return rng.standard_normal((n, r)) @ rng.standard_normal((r, m))
    if kind == 'orthonormal':
        q, _ = np.linalg.qr(rng.standard_normal((max(shape), min(shape))))
        return q if shape[0] >= shape[1] else q.T
    raise ValueError(kind)


def array(draw, shape, kinds, with_layout=True, dtypes=('f8',), scales=(1.0,)):
    """Draw the description of an array. Use inside composites."""
    spec = dict(shape=[int(s) for s in shape], kind=draw(st.sampled_from(list(kinds))), seed=draw(seeds))
    if with_layout:
        spec['layout'] = draw(layouts)
    if len(dtypes) > 1:
        spec['dtype'] = draw(st.sampled_from(list(dtypes)))
    if len(scales) > 1:
        spec['scale'] = draw(st.sampled_from(list(scales)))
    return spec


def build(spec):
    dtype = spec.get('dtype', 'f8')
    a = content(np.random.default_rng(spec['seed']), spec['shape'], spec['kind']) * (spec.get('scale', 1.0) if dtype.startswith('f') else 1)
    if dtype.startswith('i'):
        a = np.rint(a * 2)
    a = a.astype(dtype)
    return layout_as(a, spec.get('layout', 'C'))


GENERIC = ['normal', 'normal', 'uniform', 'ints', 'sparse', 'shifted', 'negative']
DEGENERATE = ['zero_column', 'equal_columns', 'scaled_columns', 'near_collinear', 'zeros', 'ones']


@st.composite
def ktensors(draw, min_order=2, max_order=5, max_dim=6, max_size=400, max_rank=5, kinds=GENERIC + DEGENERATE,
             weights=('none', 'ones', 'normal', 'positive', 'ints', 'with_zero', 'negative'), min_dim=1, with_layout=True):
    shape = draw(shapes(min_order, max_order, max_dim, max_size, min_dim))
    rank = draw(st.integers(1, max_rank))
    return dict(factors=[array(draw, (n, rank), kinds, with_layout) for n in shape],
                weights=draw(st.sampled_from(list(weights))), wseed=draw(seeds), rank=rank, shape=shape, shared=draw(st.integers(0, 5)) == 5)


def build_weights(spec):
    rng = np.random.default_rng(spec['wseed'])
    r, kind = spec['rank'], spec['weights']
    if kind == 'none':
        return None
    if kind == 'ones':
        return np.ones(r)
    if kind == 'normal':
        return rng.standard_normal(r)
    if kind == 'positive':
        return rng.uniform(0.2, 3, r)
    if kind == 'ints':
        return rng.integers(-3, 5, r)
    if kind == 'list':
        return [float(x) for x in rng.standard_normal(r)]
    if kind == 'with_zero':
        w = rng.standard_normal(r)
        w[rng.integers(r)] = 0
        return w
    if kind == 'negative':
        return -rng.uniform(0.2, 3, r)
    raise ValueError(kind)


def build_factors(spec):
    return share([build(f) for f in spec['factors']], spec.get('shared'))


def share(arrays, shared, groups=None):
    """If shared: the very same array wherever sizes (and groups) are equal."""
    if not shared:
        return arrays
    out = []
    for i, a in enumerate(arrays):
        same = [j for j in range(i) if out[j].shape == a.shape and out[j].dtype == a.dtype and (groups is None or groups[i] == groups[j])]
        out.append(out[same[0]] if same else a)
    return out


def build_ktensor(spec):
    from tenkit.decomposition import KruskalTensor
    return KruskalTensor(build_factors(spec), build_weights(spec))


def permutation(seed, n):
    return np.random.default_rng(seed).permutation(n)
