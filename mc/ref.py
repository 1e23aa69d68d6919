"""Reference functions written from the properties, independent of the library."""
import numpy as np


def measured(z):
    z = np.asarray(z, dtype=float)
    return z[~np.isnan(z)]


def monomials(shape, degree):
    """Columns spanning the polynomials of the given total degree on the grid (Chebyshev products, own scaling)."""
    if len(shape) == 1:
        x = 2 * (np.arange(shape[0]) + 0.5) / shape[0] - 1
        return np.stack([np.cos(k * np.arccos(x)) for k in range(degree + 1)], axis=1)
    v = 2 * (np.arange(shape[0]) + 0.5) / shape[0] - 1
    u = 2 * (np.arange(shape[1]) + 0.5) / shape[1] - 1
    cu = [np.cos(k * np.arccos(u)) for k in range(degree + 1)]
    cv = [np.cos(k * np.arccos(v)) for k in range(degree + 1)]
    return np.stack([np.outer(cv[j], cu[i]).ravel() for i in range(degree + 1) for j in range(degree + 1 - i)], axis=1)


def detrended(z, degree):
    """(residual, trend or None if the trend is not determined at all points) of the least-squares polynomial."""
    z = np.asarray(z, dtype=float)
    full = monomials(z.shape, degree)
    ok = ~np.isnan(z.ravel())
    a, b = full[ok], z.ravel()[ok]
    u, s, vt = np.linalg.svd(a, full_matrices=False)
    rank = int((s > s[0] * 1e-10).sum())
    projection = u[:, :rank] @ (u[:, :rank].T @ b)
    residual = np.full(z.size, np.nan)
    residual[ok] = b - projection
    # the continuation of the trend is unique if the measured points determine it as well as all points would
    s_full = np.linalg.svd(full, compute_uv=False)
    rank_full = int((s_full > s_full[0] * 1e-10).sum())
    trend = None
    if rank == rank_full:
        coefficients = vt[:rank].T @ ((u[:, :rank].T @ b) / s[:rank])
        trend = (full @ coefficients).reshape(z.shape)
    condition = s[0] / s[rank - 1]
    return residual.reshape(z.shape), trend, condition


def outliers(z, n, method):
    """(mask of points to drop, smallest relative distance of a point to the decision limit)"""
    m = measured(z)
    centre = m.mean() if method == 'mean' else np.sort(m)[(m.size - 1) // 2: m.size // 2 + 1].mean()
    dist = np.abs(np.asarray(z, dtype=float) - centre)
    d = np.abs(m - centre)
    if method == 'mean':
        limit = n * np.sqrt(((m - m.mean()) ** 2).mean())
    else:
        d = np.sort(d)
        limit = n * d[(d.size - 1) // 2: d.size // 2 + 1].mean()
    with np.errstate(invalid='ignore'):
        drop = dist > limit
    scale = max(np.ptp(m), 1e-300)
    margin = float(np.min(np.abs(d - limit)) / scale)
    return drop, margin


def thresholded(z, upper, lower):
    """All admissible sets of dropped points (several if two material ratios are equally close)."""
    m = np.sort(measured(z))[::-1]
    ratio = (np.arange(m.size) + 1) * 100.0 / m.size

    def candidates(p):
        d = np.abs(ratio - p)
        return sorted({float(m[i]) for i in np.flatnonzero(d <= d.min() + 1e-9)})
    out = []
    z = np.asarray(z, dtype=float)
    for hi in candidates(upper):
        for lo in candidates(100 - lower):
            with np.errstate(invalid='ignore'):
                out.append((z > hi) | (z < lo))
    return out


def nearest_values(z):
    """For every non-measured point the set of heights of its nearest measured points (distance in points)."""
    z = np.asarray(z, dtype=float)
    ok = np.argwhere(~np.isnan(z))
    out = {}
    for p in np.argwhere(np.isnan(z)):
        d = ((ok - p) ** 2).sum(axis=1)
        out[tuple(p)] = {float(z[tuple(i)]) for i in ok[d == d.min()]}
    return out
