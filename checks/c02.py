from itertools import combinations

import numpy as np
from hypothesis import strategies as st
from tenkit import base
from tkv import gen, ref
from tkv.core import Sub, Violation, close, require, as_array, short

RULE = ('Systems X*A = B (or A*X = B) with 1-8 unknowns per row, 1-30 equations and 1-12 right hand sides: wide, '
        'tall, rank deficient, zero, badly scaled rows, collinear; consistent or not. Oracle: first order optimality '
        'conditions (KKT), which are sufficient for these convex problems, and the trace bound (nuclear norm) for the '
        'orthogonal ones. Non-trivial: more than one unknown and a nonzero right hand side.')
KA = ['normal', 'normal', 'ints', 'uniform', 'sparse', 'shifted', 'scaled_rows', 'zero_column', 'equal_columns',
      'near_collinear', 'low_rank', 'zeros', 'ones', 'nonneg_ints']
KB = ['normal', 'normal', 'ints', 'uniform', 'negative', 'zeros', 'sparse']


@st.composite
def system(draw, full_rank=False, min_rhs=1):
    r = draw(st.integers(1, 8))
    m = draw(st.integers(1, 30))
    n = draw(st.integers(min_rhs, 12))
    transpose = draw(st.booleans())
    ints = draw(st.sampled_from([('f8',), ('f8',), ('f8',), ('i8', 'i4', 'f4')]))
    return dict(a=gen.array(draw, (m, r) if transpose else (r, m), KA, dtypes=ints[:1] if ints[0] == 'f8' else ('f8', 'i8', 'i4')), transpose=transpose,
                b=gen.array(draw, (n, m), KB, scales=(1.0, 1.0, 1e-4, 1e4), dtypes=ints[:2]), consistent=draw(st.integers(0, 3)) == 0,
                ridge=draw(st.sampled_from([None, None, 0.0, 1e-3, 0.5, 1.0, 20.0])), vector=draw(st.integers(0, 9)) == 0,
                scale=draw(st.sampled_from([1.0, 1.0, 1e-4, 1e4])))


def build(case):
    A = gen.build(case['a'])
    A = A * case['scale'] if A.dtype.kind == 'f' else A
    A = A.T if case['transpose'] else A
    B = gen.build(case['b'])
    if case['consistent']:
        x = np.random.default_rng(case['b']['seed'] + 1).uniform(0, 1, (len(B), len(A)))
        B = x @ A
    return A, B


def well_posed(A, ridge):
    """Exactly rank deficient or reasonably conditioned (in the row-scaled sense)."""
    norms = np.linalg.norm(A, axis=1)
    keep = norms > 0
    if not keep.any():
        return True
    s = np.linalg.svd(A[keep] / norms[keep, None], compute_uv=False)
    s = s / s[0]
    return not np.any((s < 1e-7) & (s > 1e-13))


def determined(A, ridge):
    """Full rank apart from zero rows, so that the active set method meets no singular subproblem."""
    if ridge:
        A = np.concatenate([A, np.sqrt(ridge) * np.eye(len(A))], axis=1)
    norms = np.linalg.norm(A, axis=1)
    keep = norms > 0
    if not keep.any():
        return True
    An = A[keep] / norms[keep, None]
    # more unknowns than equations: every subproblem the active set method can meet is part of one of these
    subsets = An[np.array(list(combinations(range(len(An)), min(An.shape))))]
    s = np.linalg.svd(subsets, compute_uv=False)
    return bool(np.all(s[:, -1] > 1e-4 * s[:, 0]))


def check_minimiser(X, A, B, ridge, nonneg, what):
    lam = ridge or 0.0
    X = as_array(X, (B.shape[0], A.shape[0]), what)
    require(np.all(np.isfinite(X)), '{}: not finite: {}', what, short(X))
    if nonneg:
        require(np.all(X >= 0), '{}: negative entry {:.3e}', what, X.min())
    G = (X @ A - B) @ A.T + lam * X
    # scale of rows: the gradient with respect to X[:, r] is an inner product with row r of A
    row = np.sqrt(np.linalg.norm(A, axis=1) ** 2 + lam)
    scale = np.maximum(np.linalg.norm(B, axis=1, keepdims=True), 1e-300) * row
    tol = 1e-7
    if nonneg:
        # scipy's nnls stops when the gradient is below an absolute tolerance that does not depend on B
        scale = scale + (1e4 * max(A.shape) * 2.3e-16 * np.abs(A).sum(axis=1).max() + 1e-300) / tol
        require(np.all(G >= -tol * scale), '{}: increasing an entry of X would lower the residual (gradient {:.3e})', what,
                float((G / np.where(scale > 0, scale, 1)).min()))
        xs = X * row / np.maximum(np.linalg.norm(B, axis=1, keepdims=True), 1e-300)
        ok = (np.abs(G) <= tol * scale) | (xs <= 1e-10)
        require(np.all(ok), '{}: decreasing a positive entry of X would lower the residual', what)
    else:
        require(np.all(np.abs(G) <= tol * scale), '{}: gradient {:.3e} is not zero', what,
                float(np.max(np.abs(G) / np.where(scale > 0, scale, 1))))


def run_ls(case):
    A, B = build(case)
    ridge = case['ridge']
    if not well_posed(A, ridge):
        return ['trivial', 'between singular and regular']
    A0, B0 = A.copy(), B.copy()
    labels = []
    for nonneg, solve in ((False, base.rightsolve), (True, base.non_negative_rightsolve)):
        name = ('non_negative_' if nonneg else '') + 'rightsolve'
        if nonneg and not determined(A, ridge):
            labels.append('not determined: non-negative solver skipped')
            continue
        if ridge is not None:
            X = base.add_rightsolve_ridge(solve, ridge)(A, B)
            name += f' with ridge {ridge}'
        else:
            X = solve(A, B)
        check_minimiser(X, A, B, ridge, nonneg, f'{name}, A {A.shape}, B {B.shape}')
        if ridge is None and case['vector']:
            x = solve(A, B[0])
            x = np.asarray(x).reshape(-1)
            check_minimiser(x[None], A, B[:1], None, nonneg, f'{name} of a vector')
    require(np.array_equal(A, A0) and np.array_equal(B, B0), 'a solver changed its arguments')
    s = np.linalg.svd(A, compute_uv=False)
    labels += ['rank deficient' if (s[-1] < 1e-10 * max(s[0], 1e-300) or A.shape[1] < A.shape[0]) else 'full rank',
              'ridge' if ridge else 'plain']
    return labels + (['trivial'] if A.shape[0] < 2 or not np.any(B) else [])


@st.composite
def orth_case(draw):
    r = draw(st.integers(1, 6))
    n = draw(st.integers(r, 14))
    m = draw(st.integers(1, 25))
    return dict(a=gen.array(draw, (r, m), ['normal', 'ints', 'uniform', 'shifted', 'sparse', 'scaled_rows'], scales=(1.0, 1e-10, 1e8)),
                b=gen.array(draw, (n, m), ['normal', 'ints', 'uniform', 'sparse'], scales=(1.0, 1e-6, 1e6, 1e-12)),
                mix=draw(gen.seeds), consistent=draw(st.integers(0, 3)) == 0, ridge=draw(st.sampled_from([None, None, 0.0, 0.7])))


def run_orth(case):
    A, B = gen.build(case['a']), gen.build(case['b'])
    r, n = A.shape[0], B.shape[0]
    if case['consistent']:
        Q = gen.content(np.random.default_rng(case['mix']), (n, r), 'orthonormal')
        B = Q @ A
    M = B @ A.T
    s = np.linalg.svd(M, compute_uv=False)
    if s[0] == 0 or s[-1] < 1e-7 * s[0]:
        return ['trivial', 'not determined']
    if case['ridge'] is not None:
        X = base.add_rightsolve_ridge(base.orthogonal_rightsolve, case['ridge'])(A, B)
    else:
        X = base.orthogonal_rightsolve(A, B)
    X = as_array(X, (n, r), 'orthogonal_rightsolve')
    close(X.T @ X, np.eye(r), 1e-8, 'X^T X of orthogonal_rightsolve')
    close(np.trace(X.T @ M), s.sum(), 1e-8, 'orthogonal_rightsolve: attained trace (the residual is larger than possible)')
    # the same problem from the other side
    Y = as_array(base.orthogonal_solve(A.T, B.T), (r, n), 'orthogonal_solve')
    close(Y @ Y.T, np.eye(r), 1e-8, 'X X^T of orthogonal_solve')
    close(np.trace(Y @ M), s.sum(), 1e-8, 'orthogonal_solve: attained trace (the residual is larger than possible)')
    # nearest matrix with orthonormal columns
    Z = as_array(base.orthogonal_solve(np.identity(n), M), (n, r), 'orthogonal_solve')
    close(Z.T @ Z, np.eye(r), 1e-8, 'X^T X of orthogonal_solve with A = I')
    close(np.trace(Z.T @ M), s.sum(), 1e-8, 'orthogonal_solve with A = I: attained trace')
    # competitors
    rng = np.random.default_rng(case['mix'] + 1)
    best = np.linalg.norm(X @ A - B)
    for _ in range(3):
        Q = gen.content(rng, (n, r), 'orthonormal')
        require(best <= np.linalg.norm(Q @ A - B) * (1 + 1e-9) + 1e-9 * np.linalg.norm(B), 'orthogonal_rightsolve: a random orthonormal matrix is better')
    return ['trivial'] if r < 2 else ['square' if n == r else 'tall', 'ridge' if case['ridge'] else 'plain']


# ---------------------------------------------------------------------------- coupled systems

# Of a coupled fit in which the components differ much in size: active set methods need many steps for it
COUPLED = ([[77694.827, -25541.421, 1116324.116, -366980.741, 0, 0, 0], [-49926.337, 2566.229, -368553.337, 18943.752, 0, 0, 0],
            [-0.0147138, -7.54e-06, 3.16071, 0.00162, 0.161973, 3.568001, 0], [175065.397, 17620.849, 2562769.625, 257950.333, 0, 0, 0],
            [0.00263198, -1.1164e-05, -0.226959, 0.00096264, 0, 0, 1.311115]], [0, 0, 226.27, 0, 12.2424, 269.6788, 75.0646])


@st.composite
def coupled_systems(draw):
    return dict(known=draw(st.booleans()), r=draw(st.integers(2, 7)), k=draw(st.integers(1, 6)), blocks=draw(st.lists(st.integers(1, 3), max_size=3)), seed=draw(gen.seeds),
                spread=draw(st.sampled_from([4, 1, 2, 6])), noise=draw(st.sampled_from([0, 1e-9, 1e-6])), scale=draw(st.sampled_from([1.0, 1e-3, 1e3])), n=draw(st.integers(1, 4)))


def run_coupled(case):
    """The system for a factor that is shared by a tensor and matrices: [Khatri-Rao product; V1; V2; ...]."""
    rng = np.random.default_rng(case['seed'])
    if case['known']:
        A, b = np.array(COUPLED[0]), np.array(COUPLED[1])
        A = A * (1 + case['noise'] * rng.standard_normal(A.shape)) * case['scale']
        p, q = rng.permutation(A.shape[0]), rng.permutation(A.shape[1])
        A, B = A[p][:, q], np.stack([b[q] * c for c in rng.uniform(0.1, 10, case['n'])])
    else:
        r = case['r']
        sizes = 10.0 ** rng.uniform(-case['spread'], case['spread'], r)
        parts = [rng.standard_normal((r, case['k'])) * sizes[:, None]] + [rng.standard_normal((r, m)) * (rng.random((r, m)) < 0.5) for m in case['blocks']]
        A = np.concatenate(parts, axis=1) * case['scale']
        B = rng.uniform(0, 100, (case['n'], A.shape[1])) * (rng.random((case['n'], A.shape[1])) < 0.7)
    if not determined(A, None):
        return ['trivial', 'not determined']
    A0, B0 = A.copy(), B.copy()
    check_minimiser(base.non_negative_rightsolve(A, B), A, B, None, True, f'non_negative_rightsolve, A {A.shape}, B {B.shape}')
    require(np.array_equal(A, A0) and np.array_equal(B, B0), 'a solver changed its arguments')
    return ['known' if case['known'] else 'random'] + ([] if np.any(B) else ['trivial'])


SUBS = [
    Sub('least_squares', system(), run_ls, 8000),
    Sub('orthogonal', orth_case(), run_orth, 4000),
    Sub('coupled', coupled_systems(), run_coupled, 2000),
]
