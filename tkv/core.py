"""Violations, tolerant comparisons and case bookkeeping shared by all checks."""
import numpy as np


class Violation(Exception):
    """The property does not hold for this case."""


class Fault(Exception):
    """Injected by the harness, to interrupt the code under test."""


class KnownFinding(Exception):
    """Raised by a check when a recorded defect shows; the engine looks the key up."""
    def __init__(self, key, message):
        super().__init__(message)
        self.key = key


def require(condition, message, *args):
    if not condition:
        raise Violation(message.format(*args) if args else message)


def as_array(x, shape=None, what='result'):
    """Check that x is a finite numeric array (of the given shape)."""
    try:
        a = np.asarray(x)
    except Exception as e:
        raise Violation(f'{what} is not an array: {e}')
    if a.dtype.kind not in 'fiub':
        raise Violation(f'{what} is not a real numeric array (dtype {a.dtype}, type {type(x).__name__})')
    if shape is not None and tuple(a.shape) != tuple(int(s) for s in shape):
        raise Violation(f'{what} has shape {tuple(a.shape)}, expected {tuple(shape)}')
    return a


def close(actual, expected, tol, what, scale=None):
    """|actual - expected| <= tol*scale in the Frobenius norm; scale defaults to |expected|."""
    expected = np.asarray(expected, dtype=float)
    actual = as_array(actual, expected.shape, what).astype(float)
    if scale is None:
        scale = np.linalg.norm(expected)
    err = np.linalg.norm((actual - expected).ravel())
    if not err <= tol * scale:
        raise Violation(f'{what}: off by {err:.3e} (allowed {tol*scale:.3e}); '
                        f'got {short(actual)}, expected {short(expected)}')


def identical(actual, expected, what):
    expected = np.asarray(expected)
    actual = as_array(actual, expected.shape, what)
    if not np.array_equal(actual, expected, equal_nan=True):
        raise Violation(f'{what}: got {short(actual)}, expected exactly {short(expected)}')


def number(x, what):
    try:
        v = float(np.asarray(x).reshape(()))
    except Exception:
        raise Violation(f'{what} is not a number: {type(x).__name__} {str(x)[:80]}')
    return v


def short(a):
    a = np.asarray(a)
    if a.size <= 12:
        return np.array2string(a, precision=6, threshold=20).replace('\n', ' ')
    return f'array{a.shape} starting {np.array2string(a.ravel()[:4], precision=6)}'


def expect_raises(exception_types, function, what):
    try:
        function()
    except exception_types:
        return
    except Exception as e:
        raise Violation(f'{what}: raised {type(e).__name__} ({str(e)[:100]}) rather than '
                        f'{"/".join(t.__name__ for t in exception_types)}')
    raise Violation(f'{what}: was accepted')


QUICK, THOROUGH = 2.5, 2.5      # factors of the case counts given in SUBS


class Sub:
    """One executable check: a strategy for cases, and run(case) that raises Violation.

    run returns a list of labels; the label 'trivial' marks a case that is not counted as
    non-trivial. Labels are counted and reported in the evidence file.
    """
    def __init__(self, name, strategy, run, quick, thorough=None, weight=1.0):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = int(quick * QUICK), int((thorough if thorough is not None else quick * 12) * THOROUGH)
        self.weight = weight
