import numpy as np

from .core import Violation


def compare(name, got, want, rtol=1e-6, atol=1e-9, note=None):
    """|got - want| <= rtol |want| + atol max|want|, same shape, same non-finite entries."""
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Violation(f'{name}: shape {got.shape}, expected {want.shape}')
    if got.size == 0:
        return
    if got.dtype == object:
        raise Violation(f'{name}: not a numeric array')
    fin = np.isfinite(want)
    if not np.array_equal(np.isfinite(got), fin):
        raise Violation(f'{name}: non-finite values {got[np.isfinite(got) != fin][:4]} where {want[np.isfinite(got) != fin][:4]} expected')
    if note is not None:
        note(name.split('[')[0], int(fin.sum()))
    if not fin.any():
        return
    w, g = want[fin], got[fin]
    err = np.abs(g - w)
    tol = rtol * np.abs(w) + atol * np.max(np.abs(w))
    if (err > tol).any():
        j = int(np.argmax(err / np.where(tol > 0, tol, 1e-300)))
        idx = tuple(int(x[j]) for x in np.nonzero(fin)) if want.ndim else ()
        raise Violation(f'{name}: {g[j]!r} at {idx}, expected {w[j]!r} (relative error {err[j] / max(abs(w[j]), 1e-300):.3g}, '
                        f'{int((err > tol).sum())} of {w.size} values differ)')


def same(name, got, want, note=None):
    """Identical, up to the rounding of a repeated computation."""
    compare(name, got, want, rtol=1e-9, atol=1e-12, note=note)
