"""Input alphabets and comparison helpers shared by the checks."""
import itertools
import math

import numpy as np


# -- input alphabet ----------------------------------------------------------------------------------------------------

def lcg(seed, n):
    """Fixed pseudo random numbers in (0, 1) that do not depend on the numpy version."""
    x = (seed * 2654435761 + 12345) & 0xffffffff
    out = np.empty(n)
    for i in range(n):
        x = (1664525 * x + 1013904223) & 0xffffffff
        out[i] = (x + 0.5) / 2 ** 32
    return out


def generic(ny, nx=None, seed=1, scale=1.0, offset=0.0):
    """Tie-free, asymmetric heights: no two heights, height differences or neighbouring sums coincide."""
    n = ny if nx is None else ny * nx
    z = lcg(seed, n) ** 1.5
    z = z + 0.01 * np.sin(np.arange(n) * 1.7 + seed)
    z = (z - z.mean()) * scale + offset
    return z if nx is None else z.reshape(ny, nx)


def grooves(ny, nx, step_x, step_y, period, angle=0.0, amplitude=1.0, noise=0.05, seed=3, offset=0.0, phase=0.4):
    y, x = np.mgrid[:ny, :nx].astype(float)
    t = np.deg2rad(angle)
    u = x * step_x * np.cos(t) + y * step_y * np.sin(t)
    z = amplitude * np.sin(2 * np.pi * u / period + phase) + offset
    if noise:
        z = z + noise * (lcg(seed, ny * nx).reshape(ny, nx) - 0.5)
    return z


def relayout(a, layout):
    """The same values in a different memory layout."""
    if layout == 'C':
        return np.ascontiguousarray(a).copy()
    if layout == 'F':
        return np.asfortranarray(a.copy())
    if layout == 'strided':
        big = np.full(tuple(2 * s for s in a.shape), np.pi, dtype=a.dtype)
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if layout == 'reversed':
        return a[tuple(slice(None, None, -1) for _ in a.shape)].copy()[tuple(slice(None, None, -1) for _ in a.shape)]
    if layout == 'readonly':
        b = a.copy()
        b.flags.writeable = False
        return b
    raise ValueError(layout)


def masks(shape, max_missing=None, cells=None):
    """All subsets (as boolean masks) of the given cells, smallest first."""
    n = int(np.prod(shape))
    cells = list(range(n)) if cells is None else list(cells)
    top = len(cells) if max_missing is None else max_missing
    for k in range(top + 1):
        for c in itertools.combinations(cells, k):
            m = np.zeros(n, bool)
            m[list(c)] = True
            yield m.reshape(shape)


# -- observation -------------------------------------------------------------------------------------------------------

class Err:
    """Outcome of a call that raised."""

    def __init__(self, exc):
        self.kind = type(exc).__name__
        self.text = str(exc)[:200]

    def __repr__(self):
        return f'raised {self.kind}({self.text!r})'


def attempt(func, *args, **kwargs):
    try:
        return func(*args, **kwargs)
    except Exception as exc:
        return Err(exc)


def is_topography(x):
    return hasattr(x, 'has_missing_points') and hasattr(x, 'data')


def view(x):
    """Plain, comparable picture of a result."""
    if isinstance(x, Err):
        return ('raised', x.kind)
    if is_topography(x):
        return ('topography', np.array(x.data, dtype=float), geometry(x))
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (list, tuple)):
        return tuple(view(v) for v in x)
    if isinstance(x, dict):
        return tuple((k, view(v)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0])))
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return float(x)
    return x


def geometry(t):
    if t.data.ndim == 2:
        return (int(t.data.shape[0]), int(t.data.shape[1]), float(t.step_y), float(t.step_x), float(t.height_um),
                float(t.width_um))
    return (int(t.data.shape[0]), float(t.step), float(t.length_um))


def same(a, b, rtol=1e-9, atol=0.0):
    """Recursive comparison; NaN equals NaN, arrays are compared relative to their largest magnitude."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return False
        if a.size == 0:
            return True
        if a.dtype.kind not in 'fiub' or b.dtype.kind not in 'fiub':
            return bool(np.all(a == b))
        a = a.astype(float)
        b = b.astype(float)
        if not np.array_equal(np.isnan(a), np.isnan(b)):
            return False
        ok = ~np.isnan(a)
        if not ok.any():
            return True
        x, y = a[ok], b[ok]
        inf = np.isinf(x) | np.isinf(y)
        if inf.any() and not np.array_equal(x[inf], y[inf]):
            return False
        x, y = x[~inf], y[~inf]
        if x.size == 0:
            return True
        scale = max(np.max(np.abs(x)), np.max(np.abs(y)))
        return bool(np.max(np.abs(x - y)) <= rtol * scale + atol)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return close(a, b, rtol, atol)
    return type(a) is type(b) and a == b


def close(a, b, rtol=1e-9, atol=0.0):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= rtol * max(abs(a), abs(b)) + atol


def call(obj, spec):
    """spec = (method name, args, kwargs)"""
    name, args, kwargs = spec
    return getattr(obj, name)(*args, **kwargs)


def text(spec):
    name, args, kwargs = spec
    inner = ', '.join([repr(a) for a in args] + [f'{k}={v!r}' for k, v in kwargs.items()])
    return f'{name}({inner})'


def fresh(t):
    """An independently constructed object with the same heights and step sizes and no history."""
    from surfalize import Profile, Surface
    data = t.data.copy(order='K')
    if data.ndim == 2:
        return Surface(data, t.step_x, t.step_y)
    return Profile(data, t.step)


def q(name, *args, **kwargs):
    return (name, args, kwargs)


SURFACE_QUERIES_FAST = [
    q('Sa'), q('Sq'), q('Sp'), q('Sv'), q('Sz'), q('Ssk'), q('Sku'), q('height_parameters'),
    q('Sdr'), q('Sdq'), q('projected_area'), q('surface_area'),
    q('Sal'), q('Sal', 0.5), q('Sal', s=0.3), q('Str'), q('Str', 0.5), q('Str', s=0.3),
    q('Ssw'), q('Std'), q('Std', 2), q('period'), q('period_x_y'), q('orientation', 'fft'), q('orientation'),
    q('orientation', method='fft'),
    q('stepheight'), q('cavity_volume'), q('cavity_volume', 0.3), q('cavity_volume', threshold=0.7),
    q('min'), q('max'), q('mean'), q('median'), q('std'),
]
CURVE_QUERIES = [
    q('{S}k'), q('{S}pk'), q('{S}vk'), q('{S}pkx'), q('{S}vkx'), q('{S}ak1'), q('{S}ak2'), q('{S}mr1'), q('{S}mr2'),
    q('{S}mr', 0.1), q('{S}mr', -0.2), q('{S}mc', 10), q('{S}mc', 60), q('{S}xp'), q('{S}xp', 5, 40),
    q('{S}xp', p=1, q=30), q('{S}dc'), q('{S}dc', 20, 70), q('Vmp'), q('Vmp', 25), q('Vmp', p=5), q('Vmc'),
    q('Vmc', 20, 60), q('Vmc', p=5, q=90), q('Vvv'), q('Vvv', 60), q('Vvv', q=90), q('Vvc'), q('Vvc', 20, 60),
    q('Vvc', p=5, q=90), q('Vm', 30), q('Vv', 30), q('Vm', p=60), q('Vv', p=60),
]
SURFACE_CURVE = [(n.format(S='S'), a, k) for n, a, k in CURVE_QUERIES]
PROFILE_CURVE = [(n.format(S='R'), a, k) for n, a, k in CURVE_QUERIES]
SURFACE_QUERIES_SLOW = [q('homogeneity', ('Sa', 'Sq'), 4.0), q('homogeneity', parameters=('Sz',), period=5.0),
                        q('homogeneity', ('Sa', 'Sdr'), period=6.0),
                        q('depth', 5), q('depth', nprofiles=4, sampling_width=0.4), q('aspect_ratio')]
PROFILE_QUERIES_FAST = [
    q('Ra'), q('Rq'), q('Rp'), q('Rp', 1), q('Rp', n_sections=3), q('Rv'), q('Rv', 1), q('Rv', n_sections=3),
    q('Rz'), q('Rz', 1), q('Rz', n_sections=3), q('Rt'), q('Rsk'), q('Rku'), q('Rdq'), q('period'),
    q('min'), q('max'), q('mean'), q('median'), q('std'),
]
