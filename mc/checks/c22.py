"""C22: Gaussian filtering has the promised wavelength response."""
import itertools
import math

import numpy as np

from mc import ops
from mc.util import Err, attempt, call, close, generic, geometry, relayout, same, text

PROPERTY = 'C22'
LEVEL = 'model_checking'
RULE = ('unit impulses at every position of small surfaces and profiles (which determines a linear filter) and generic '
        'heights of all number types and layouts x filter types x cutoffs x treatments of edges x step sizes, as copy, '
        'in place and through the filter object; sinusoids of every integer frequency for the transmission; filtering '
        'after every other in-place operation')
ASSUMPTIONS = ['Gaussian weights are compared with tolerance 5e-4, which allows the truncation of the kernel at four '
               'standard deviations']

MODES = ('reflect', 'constant', 'nearest', 'mirror', 'wrap')
SHAPES = {'quick': [(1, 4), (4, 1), (3, 4), (5, 3)], 'thorough': [(1, 1), (1, 6), (6, 1), (2, 2), (3, 4), (5, 3), (4, 7)]}
LENGTHS = {'quick': [1, 2, 7], 'thorough': [1, 2, 3, 7, 12]}
STEPS = [(0.5, 0.5), (0.3, 1.25), (2, 1)]
CUTOFFS = {'quick': (0.1, 0.7, 1.5, 4.0), 'thorough': (0.05, 0.3, 0.7, 1.0, 1.5, 2.3, 4.0, 9.0)}
TOL = 5e-4


def make(z, steps):
    from surfalize import Profile, Surface
    return Surface(z, *steps) if z.ndim == 2 else Profile(z, steps[0])


def tasks(tier):
    out = []
    for shape in SHAPES[tier] + [(n,) for n in LENGTHS[tier]]:
        for i in range(len(STEPS)):
            if len(shape) == 1 and i == 1 and tier == 'quick':
                continue
            out.append((f'impulses {shape} {STEPS[i]}', ('impulses', shape, STEPS[i], tier)))
            out.append((f'heights {shape} {STEPS[i]}', ('heights', shape, STEPS[i], tier)))
    for shape in [(12, 15), (15, 10), (16,)]:
        for steps in STEPS:
            out.append((f'transmission {shape} {steps}', ('transmission', shape, steps, tier)))
    out += [(f'history {kind} {i}', ('history', kind, i, tier)) for kind, table in
            (('surface', ops.surfaces()), ('profile', ops.profiles())) for i in range(len(table))]
    out.append(('rejected', ('rejected', tier)))
    return out


def run(rec, name, args):
    globals()['task_' + args[0]](rec, *args[1:])


# -- reference ---------------------------------------------------------------------------------------------------------

def extend(i, n, mode):
    """Index of the point that stands for position i outside 0..n-1, None for a zero."""
    if 0 <= i < n:
        return i
    if mode == 'constant':
        return None
    if mode == 'nearest':
        return 0 if i < 0 else n - 1
    if mode == 'wrap':
        return i % n
    if mode == 'reflect':
        i %= 2 * n
        return i if i < n else 2 * n - 1 - i
    if n == 1:
        return 0
    i %= 2 * (n - 1)
    return i if i < n else 2 * (n - 1) - i


MATRICES = {}


def matrix(n, cutoff, step, mode):
    """Weights of the lowpass along one axis: transmission exp(-ln 2 (cutoff / wavelength)^2)."""
    key = (n, float(cutoff), float(step), mode)
    if key not in MATRICES:
        sigma = cutoff / step * math.sqrt(math.log(2) / 2) / math.pi
        reach = int(math.ceil(4.5 * sigma)) + 1
        w = {j: math.exp(-j * j / (2 * sigma * sigma)) for j in range(-reach, reach + 1)}
        total = sum(w.values())
        m = np.zeros((n, n))
        for i in range(n):
            for j, v in w.items():
                p = extend(i + j, n, mode)
                if p is not None:
                    m[i, p] += v / total
        MATRICES[key] = m
    return MATRICES[key]


def lowpass(z, cutoff, steps, mode):
    z = np.asarray(z, dtype=float)
    if z.ndim == 1:
        return matrix(z.size, cutoff, steps[0], mode) @ z
    return matrix(z.shape[0], cutoff, steps[1], mode) @ z @ matrix(z.shape[1], cutoff, steps[0], mode).T


def reference(z, kind, cutoff, cutoff2, steps, mode):
    z = np.asarray(z, dtype=float)
    low = lowpass(z, cutoff, steps, mode)
    if kind == 'lowpass':
        return low
    if kind == 'highpass':
        return z - low
    return low - lowpass(low, cutoff2, steps, mode)


# -- comparison --------------------------------------------------------------------------------------------------------

def verify(rec, k, r, want, t0, size, tol=TOL):
    if isinstance(r, Err):
        rec.fail(k + ':rejected', f'{k}: {r!r}', k)
        return False
    got = np.array(r.data, dtype=float)
    rec.outcome(np.round(got, 6))
    rec.check(type(r) is type(t0) and geometry(r) == geometry(t0), k + ':geometry',
              f'{k}: geometry {geometry(r)}, was {geometry(t0)}', k)
    return rec.check(same(got, want, 0, tol * size), k, lambda: f'{k}: {got.tolist()}, expected {want.tolist()}', k)


def configurations(tier, step):
    c = [f * step for f in CUTOFFS[tier]]
    for kind in ('lowpass', 'highpass'):
        for cutoff in c:
            yield kind, cutoff, None
    for a, b in itertools.combinations(c, 2):
        if tier == 'thorough' or b <= 3 * a or a == c[0]:
            yield 'bandpass', a, b


def filtered(t, kind, cutoff, cutoff2, mode, inplace):
    args = (kind, cutoff) if cutoff2 is None else (kind, cutoff, cutoff2)
    kwargs = {} if mode == 'reflect' else dict(endeffect_mode=mode)
    return t.filter(*args, inplace=inplace, **kwargs)


def task_impulses(rec, shape, steps, tier):
    base = max(steps) if len(shape) == 2 else steps[0]
    for i in range(int(np.prod(shape))):
        z = np.zeros(shape)
        z.ravel()[i] = 1.0
        rec.state(shape, steps, i)
        for mode in MODES:
            for kind, cutoff, cutoff2 in configurations(tier, base):
                k = f'{shape} steps {steps} impulse {i}: {kind} {cutoff} {cutoff2} {mode}'
                with rec.guard(k):
                    t = make(z, steps)
                    r = attempt(filtered, t, kind, cutoff, cutoff2, mode, False)
                    rec.step()
                    verify(rec, k, r, reference(z, kind, cutoff, cutoff2, steps, mode), t, 1.0)
                rec.execution(k)


def heights(shape):
    z = generic(*shape, seed=sum(shape) + 70) if len(shape) == 2 else generic(shape[0], seed=71 + shape[0])
    yield 'generic', z * 2, 1e-9
    yield 'offset', z + 1e4, 1e-9
    yield 'constant', z * 0 + 3.5, 1e-9
    yield 'small', z * 1e-6, 1e-9
    yield 'fortran', relayout(z * 3, 'F'), 1e-9
    yield 'strided', relayout(z * 3, 'strided'), 1e-9
    yield 'readonly', relayout(z * 3, 'readonly'), 1e-9
    yield 'float32', z.astype('float32'), 1e-5
    yield 'int', (z * 1000).astype('int64'), 1e-9
    yield 'int16', (z * 20).astype('int16'), 1e-5


def task_heights(rec, shape, steps, tier):
    """All variants of applying a filter agree; lowpass and highpass add up to the original."""
    from surfalize.filter import GaussianFilter
    base = max(steps) if len(shape) == 2 else steps[0]
    for label, z, tol in heights(shape):
        zf = np.array(z, dtype=float)
        size = max(np.abs(zf).max(), 1e-300)
        span = max(np.ptp(zf), 1e-12 * size)
        for mode in MODES:
            for kind, cutoff, cutoff2 in configurations(tier, base):
                k = f'{shape} steps {steps} {label}: {kind} {cutoff} {cutoff2} {mode}'
                rec.state(k)
                with rec.guard(k):
                    want = reference(zf, kind, cutoff, cutoff2, steps, mode)
                    scale = size if mode == 'constant' else span + size * tol / TOL
                    t = make(z, steps)
                    r = attempt(filtered, t, kind, cutoff, cutoff2, mode, False)
                    rec.step()
                    if not verify(rec, k, r, want, t, scale):
                        continue
                    rec.check(np.array_equal(t.data, z), k + ':source', f'{k}: source changed', k)
                    u = make(z.copy(), steps)
                    v = attempt(filtered, u, kind, cutoff, cutoff2, mode, True)
                    rec.step()
                    rec.check(v is u, k + ':inplace', f'{k}: in place returned {v!r}', k)
                    verify(rec, k + ' in place', u, np.array(r.data, float), t, size, tol)
                    if kind == 'bandpass':
                        low = filtered(make(z, steps), 'lowpass', cutoff, None, mode, False)
                        high = filtered(low, 'highpass', cutoff2, None, mode, False)
                        verify(rec, k + ' stepwise', high, np.array(r.data, float), t, size, tol)
                        rec.step(2)
                        continue
                    for inplace in (False, True):
                        u = make(z.copy(), steps)
                        f = GaussianFilter(cutoff, kind, mode)
                        v = attempt(f.apply if inplace else f, u, inplace=inplace)
                        rec.step()
                        verify(rec, k + f' filter object inplace={inplace}', v, np.array(r.data, float), t, size, tol)
                        rec.check((v is u) == inplace, k + ':object', f'{k}: identity', k)
                    if kind == 'lowpass':
                        both = attempt(make(z, steps).filter, 'both', cutoff, endeffect_mode=mode)
                        rec.step()
                        if isinstance(both, Err) or len(both) != 2:
                            rec.fail(k + ':both', f'{k}: both gave {both!r}', k)
                            continue
                        high = filtered(make(z, steps), 'highpass', cutoff, None, mode, False)
                        verify(rec, k + ' both, lowpass', both[1], np.array(r.data, float), t, size, tol)
                        verify(rec, k + ' both, highpass', both[0], np.array(high.data, float), t, size, tol)
                        total = np.array(both[0].data, float) + np.array(both[1].data, float)
                        rec.check(same(total, zf, 0, tol * size), k + ':sum', f'{k}: parts do not add up', k)
                rec.execution(k)


def task_transmission(rec, shape, steps, tier):
    """Sinusoids of every integer frequency; with periodic continuation the amplitude factor is exact."""
    y, x = np.mgrid[:shape[0], :shape[1]] if len(shape) == 2 else (None, np.arange(shape[0]))
    n = (shape[1], shape[0]) if len(shape) == 2 else (shape[0],)
    axes = [(0, x), (1, y)] if len(shape) == 2 else [(0, x)]
    for axis, coordinate in axes:
        for f in range(1, n[axis] // 2 + (1 if n[axis] % 2 else 0)):
            wavelength = n[axis] * steps[axis] / f
            z = np.cos(2 * np.pi * f * coordinate / n[axis] + 0.3)
            for ratio in (0.25, 0.5, 0.8, 1.0, 1.3, 2.0):
                for kind in ('lowpass', 'highpass'):
                    k = f'{shape} steps {steps} axis {axis} wavelength {wavelength}: {kind} {ratio * wavelength}'
                    # the kernel must be sampled finely enough for the discrete sum to follow the integral
                    sigma = ratio * wavelength / steps[axis] * math.sqrt(math.log(2) / 2) / math.pi
                    if sigma < 0.95:
                        continue
                    with rec.guard(k):
                        t = make(z, steps)
                        r = attempt(t.filter, kind, ratio * wavelength, endeffect_mode='wrap')
                        rec.step()
                        low = 0.5 ** (ratio ** 2)
                        factor = low if kind == 'lowpass' else 1 - low
                        verify(rec, k, r, factor * z, t, 1.0, 3e-3)
                        rec.state(k)
                    rec.execution(k)


def task_history(rec, kind, index, tier):
    """Cutoffs are related to the current step sizes."""
    entry = (ops.surfaces if kind == 'surface' else ops.profiles)()[index]
    for spec in [None] + (ops.SURFACE_OPS if kind == 'surface' else ops.PROFILE_OPS):
        key = f'{kind} {entry[0]}: {text(spec) if spec else "nothing"}'
        with rec.guard(key):
            t = ops.build(kind, entry)
            attempt(t.filter, 'lowpass', 2.0)
            r = attempt(call, t, (spec[0], spec[1], dict(spec[2], inplace=True))) if spec else t
            if spec and not isinstance(r, Err) and kind == 'surface' and t.data.shape[0] > 2:
                r = t = t[::2, ::-1]
            rec.step(2)
            if isinstance(r, Err) or t.has_missing_points:
                continue
            z = np.array(t.data, dtype=float)
            steps = (t.step_x, t.step_y) if kind == 'surface' else (t.step,)
            tol = max(TOL, 1e-5 * np.abs(z).max() / max(np.ptp(z), 1e-9))
            for which, c1, c2 in (('lowpass', 2.0, None), ('highpass', 3.0, None), ('bandpass', 1.0, 4.0)):
                r = attempt(filtered, t, which, c1, c2, 'reflect', False)
                rec.step()
                verify(rec, f'{key} then {which}', r, reference(z, which, c1, c2, steps, 'reflect'), t,
                       max(np.ptp(z), 1e-9), tol)
        rec.state(key)
        rec.execution(key)


def task_rejected(rec, tier):
    for z in (generic(5, 6, seed=80), generic(9, seed=81)):
        for args, kwargs in itertools.product(
                [('unknown', 2.0), ('', 2.0), (None, 2.0), ('Lowpass', 2.0), ('bandpass', 2.0), ('bandpass', 2.0, None),
                 ('bandpass', 2.0, 2.0), ('bandpass', 2.0, 1.0), ('bandpass', 1e-9, 0.0), ('bandpass', 3, 2),
                 ('lowpass', 2.0, None, False, 'unknown'), ('both', 2.0, None, True)],
                [{}, dict(inplace=True), dict(inplace=False)]):
            if len(args) > 3 and kwargs:
                continue
            k = f'{z.ndim}D: filter{args} {kwargs}'
            t = make(z, STEPS[0])
            r = attempt(t.filter, *args, **kwargs)
            rec.step()
            rec.check(isinstance(r, Err) and r.kind in ('ValueError', 'RuntimeError'), k + ':accepted', f'{k}: {r!r}', k)
            rec.check(np.array_equal(t.data, z), k + ':changed', f'{k}: the heights changed', k)
            rec.execution(k)
        for kind in ('unknown', 'both', 'bandpass', None):
            from surfalize.filter import GaussianFilter
            r = attempt(GaussianFilter, 2.0, kind)
            rec.check(isinstance(r, Err) and r.kind == 'ValueError', f'GaussianFilter {kind}', f'{kind}: {r!r}', str(kind))
            rec.execution(str(kind))
