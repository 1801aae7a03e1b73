"""Reference implementations: slow, direct transcriptions of the definitions."""
import itertools
import numpy as np


def kruskal(factors, weights=None):
    """sum_r w_r a_r o b_r o ..."""
    factors = [np.asarray(f, dtype=float) for f in factors]
    rank = factors[0].shape[1]
    weights = np.ones(rank) if weights is None else np.asarray(weights, dtype=float)
    out = np.zeros([f.shape[0] for f in factors])
    for r in range(rank):
        term = np.array(weights[r])
        for f in factors:
            term = np.multiply.outer(term, f[:, r])
        out += term
    return out


def kruskal_scale(factors, weights=None):
    """Upper bound on the size of the terms that are added up: the scale of rounding errors."""
    factors = [np.asarray(f, dtype=float) for f in factors]
    rank = factors[0].shape[1]
    weights = np.ones(rank) if weights is None else np.abs(np.asarray(weights, dtype=float))
    return float(sum(weights[r] * np.prod([np.linalg.norm(f[:, r]) for f in factors]) for r in range(rank)))


def unfold(x, mode):
    order = x.ndim
    mode %= order
    others = [m for m in range(order) if m != mode]
    out = np.empty((x.shape[mode], int(np.prod([x.shape[m] for m in others]))), dtype=x.dtype)
    for col, index in enumerate(itertools.product(*[range(x.shape[m]) for m in others])):
        full = [slice(None)] * order
        for m, i in zip(others, index):
            full[m] = i
        out[:, col] = x[tuple(full)]
    return out


def kron(*matrices):
    out = np.asarray(matrices[0], dtype=float)
    for m in matrices[1:]:
        m = np.asarray(m, dtype=float)
        new = np.empty((out.shape[0] * m.shape[0], out.shape[1] * m.shape[1]))
        for i in range(out.shape[0]):
            for j in range(out.shape[1]):
                new[i * m.shape[0]:(i + 1) * m.shape[0], j * m.shape[1]:(j + 1) * m.shape[1]] = out[i, j] * m
        out = new
    return out


def khatri_rao(matrices):
    matrices = [np.asarray(m, dtype=float) for m in matrices]
    rank = matrices[0].shape[1]
    columns = []
    for r in range(rank):
        col = np.ones(1)
        for m in matrices:
            col = np.outer(col, m[:, r]).ravel()
        columns.append(col)
    return np.stack(columns, axis=1)


def mttkrp(x, factors, mode):
    """sum over all indices but i of x[...i...] * prod of the other factors."""
    x = np.asarray(x, dtype=float)
    order = x.ndim
    mode %= order
    rank = factors[0].shape[1]
    out = np.empty((x.shape[mode], rank))
    for r in range(rank):
        y = x
        for m in range(order - 1, -1, -1):
            if m != mode:
                y = np.tensordot(y, np.asarray(factors[m], dtype=float)[:, r], axes=([m], [0]))
        out[:, r] = y
    return out


def pf2_slices(A, Bs, C):
    return [np.asarray(A) @ np.diag(np.asarray(C)[k]) @ np.asarray(Bs[k]).T for k in range(len(Bs))]


def fms(true_factors, estimated_factors, weight_penalty, reduction):
    """Brute force factor match score. Returns the best value and {matching: value}."""
    rank, est_rank = true_factors[0].shape[1], estimated_factors[0].shape[1]

    def norms(factors):
        return [np.linalg.norm(f, axis=0) for f in factors]
    tn, en = norms(true_factors), norms(estimated_factors)
    table = np.ones((rank, est_rank))
    for r in range(rank):
        for s in range(est_rank):
            if weight_penalty:
                w1, w2 = np.prod([n[r] for n in tn]), np.prod([n[s] for n in en])
                table[r, s] *= 1 - abs(w1 - w2) / max(w1, w2)
            for f, g, nf, ng in zip(true_factors, estimated_factors, tn, en):
                table[r, s] *= abs(f[:, r] @ g[:, s]) / (nf[r] * ng[s])
    values = {}
    for p in itertools.permutations(range(est_rank), r=rank):
        v = [table[r, p[r]] for r in range(rank)]
        values[p] = min(v) if reduction == 'min' else float(np.mean(v))
    return max(values.values()), values


def core_consistency(X, A, B, C, normalized=False):
    rank = A.shape[1]
    factors = [np.asarray(A, float), np.asarray(B, float), np.asarray(C, float)]
    norms = [np.linalg.norm(f, axis=0) for f in factors]
    w = np.prod(norms, axis=0) ** (1 / 3)
    A, B, C = [f / n * w for f, n in zip(factors, norms)]
    pa, pb, pc = [np.linalg.pinv(f) for f in (A, B, C)]
    G = np.einsum('ijk,pi,qj,rk->pqr', np.asarray(X, float), pa, pb, pc)
    T = np.zeros((rank,) * 3)
    T[range(rank), range(rank), range(rank)] = 1
    denom = np.sum(G ** 2) if normalized else rank
    return 100 * (1 - np.sum((G - T) ** 2) / denom), G


# ------------------------------------------------------------------------ constrained least squares

def least_squares(A, B):
    """argmin_X ||X A - B||, the minimum norm one if the rows of A have equal norms; directions of rounding error are left out."""
    norms = np.linalg.norm(A, axis=1)
    scale = np.where(norms > 0, norms, 1)
    return np.linalg.lstsq((A / scale[:, None]).T, B.T, rcond=1e-12)[0].T / scale


def nnls_rows(A, B):
    from scipy.optimize import nnls, lsq_linear
    out = []
    for b in B:
        x = nnls(A.T, b, maxiter=100 * max(3, A.shape[0]))[0]
        if np.any(np.abs(x * (A @ (A.T @ x - b))) > 1e-10 * (b @ b)):     # scipy's nnls is wrong for some degenerate problems
            x = np.maximum(lsq_linear(A.T, b, bounds=(0, np.inf), method='bvls').x, 0)
        out.append(x)
    return np.stack(out)


def procrustes_columns(A, B):
    """argmin ||X A - B|| over X with orthonormal columns; also returns the smallest singular value ratio."""
    U, s, Vt = np.linalg.svd(B @ A.T, full_matrices=False)
    return U @ Vt, (s[-1] / s[0] if s[0] > 0 else 0.0)


def update(A, B, constraint, ridge):
    """argmin_X ||X A - B||^2 + ridge ||X||^2 over the constraint set. Returns X, well-posedness in [0, 1]."""
    n = A.shape[0]
    collapsed = False
    if ridge:
        # a component the penalties have all but removed: what is left of it is rounding error
        collapsed = np.min(np.linalg.norm(A, axis=1)) < 1e-4 * np.sqrt(ridge)
        A = np.concatenate([A, np.sqrt(ridge) * np.eye(n)], axis=1)
        B = np.concatenate([B, np.zeros((B.shape[0], n))], axis=1)
    if constraint == 'orth':
        if B.shape[0] < n:
            return None, 0.0
        return procrustes_columns(A, B)
    s = np.linalg.svd(A, compute_uv=False)
    well = 0.0 if A.shape[1] < n or s[0] < 1e-140 or collapsed else s[-1] / s[0]
    if constraint == 'nonneg':
        return nnls_rows(A, B), well
    return least_squares(A, B), well


def constraint_of(mode, nonneg, orth):
    if orth is not None and orth[mode]:
        return 'orth'
    if nonneg is not None and nonneg[mode]:
        return 'nonneg'
    return 'free'


def als_problems(X, factors, mode, ridges=None, coupled=None):
    """The least squares problem X A = B for one mode, and its ridge penalty."""
    kr = khatri_rao([f for m, f in enumerate(factors) if m != mode])
    A, B = kr.T, np.moveaxis(X, mode, 0).reshape(X.shape[mode], -1)
    if coupled and mode in coupled:
        Y, V = coupled[mode]
        A = np.concatenate([A, V.T], axis=1)
        B = np.concatenate([B, Y], axis=1)
    return A, B, 0 if ridges is None else ridges[mode]


def als_sweep(X, factors, nonneg=None, orth=None, ridges=None, coupled=None):
    """One ALS sweep. coupled: {mode: (Y, V)}.

    Returns factors and the well-posedness: that of the worst update, or less if several are badly conditioned
    (each amplifies the rounding errors of those before it).
    """
    factors = [np.array(f, dtype=float) for f in factors]
    well, product = 1.0, 1.0
    for mode in range(X.ndim):
        A, B, ridge = als_problems(X, factors, mode, ridges, coupled)
        new, w = update(A, B, constraint_of(mode, nonneg, orth), ridge)
        well, product = min(well, w), product * w
        if new is None:
            return factors, 0.0
        factors[mode] = new
    return factors, min(well, 100 * product)


def murky(X, factors, nonneg=None, orth=None, ridges=None, coupled=None, zero=1e-13, new=None):
    """Whether some update in a sweep has singular values that are neither clearly nonzero nor clearly zero.

    Such an update cannot be computed accurately from the normal equations, which the code (by design) uses.
    new: the factors after the sweep, if known (else those of a reference sweep are used).
    """
    factors = [np.array(f, dtype=float) for f in factors]
    for mode in range(X.ndim):
        A, B, ridge = als_problems(X, factors, mode, ridges, coupled)
        norms = np.linalg.norm(A, axis=1)
        size = np.max(norms)
        if size < 1e-140:     # squares underflow
            return True
        s = np.linalg.svd(A / np.where(norms > 0, norms, 1)[:, None], compute_uv=False) / np.sqrt(len(A))
        if np.any((s > zero) & (s < 1e-5)) or np.any((norms < 1e-6 * size) & (norms > 0)):
            return True
        updated = new[mode] if new is not None else update(A, B, constraint_of(mode, nonneg, orth), ridge)[0]
        if updated is None:
            return True
        factors[mode] = updated
    return False
