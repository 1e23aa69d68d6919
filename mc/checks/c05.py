"""C05: non-measured points are never treated as heights."""
import numpy as np

from mc import ref
from mc.util import (Err, PROFILE_CURVE, PROFILE_QUERIES_FAST, SURFACE_CURVE, SURFACE_QUERIES_FAST,
                     SURFACE_QUERIES_SLOW, attempt, call, close, generic, grooves, masks, q, same, text)

PROPERTY = 'C05'
LEVEL = 'model_checking'
RULE = ('every non-empty subset of non-measured points of a small surface and profile, and every position of a single '
        'or pair of non-measured points of a larger surface, combined with every parameter and operation')

TOLERANT = ('min', 'max', 'mean', 'median', 'std', 'projected_area')
SURFACE_GUARDED = [s for s in SURFACE_QUERIES_FAST + SURFACE_CURVE + SURFACE_QUERIES_SLOW if s[0] not in TOLERANT] + [
    q('roughness_parameters'), q('roughness_parameters', ['Sa']), q('get_abbott_firestone_curve'),
    q('get_autocorrelation_function'), q('get_fourier_transform'), q('Smrk1'), q('Smrk2'),
    q('filter', 'lowpass', 2.0), q('filter', 'highpass', 2.0), q('filter', 'bandpass', 1.0, 3.0),
    q('filter', 'both', 2.0), q('filter', 'lowpass', 2.0, inplace=True), q('rotate', 10), q('rotate', 0),
    q('rotate', 90, inplace=True), q('align'), q('align', 'x', 'fft', inplace=True), q('stepheight_level'),
    q('stepheight_level', inplace=True),
]
PROFILE_GUARDED = [s for s in PROFILE_QUERIES_FAST + PROFILE_CURVE if s[0] not in TOLERANT] + [
    q('roughness_parameters'), q('roughness_parameters', ['Ra']), q('get_abbott_firestone_curve'), q('Rmrk1'),
    q('Rmrk2'), q('filter', 'lowpass', 2.0), q('filter', 'highpass', 2.0), q('filter', 'bandpass', 1.0, 3.0),
    q('filter', 'both', 2.0), q('filter', 'highpass', 2.0, inplace=True),
]
BOUNDS = {'quick': dict(grid=(3, 3), line=8, pairs=False), 'thorough': dict(grid=(3, 4), line=11, pairs=True)}


def make(z, step=(0.5, 0.5)):
    from surfalize import Profile, Surface
    return Surface(z, *step) if z.ndim == 2 else Profile(z, step[0])


def tasks(tier):
    b = BOUNDS[tier]
    out = []
    n = b['grid'][0] * b['grid'][1]
    parts = 16 if tier == 'quick' else 64
    for part in range(parts):
        out.append((f'surface masks {part}', ('masks', b['grid'], part, parts)))
        out.append((f'profile masks {part}', ('masks', (b['line'],), part, parts)))
    for part in range(16):
        out.append((f'position {part}', ('position', part, 16, b['pairs'])))
    return out


def run(rec, name, args):
    if args[0] == 'masks':
        _, shape, part, parts = args
        z0 = generic(*shape, seed=31, scale=2.0, offset=1.5) if len(shape) == 2 else generic(shape[0], seed=32,
                                                                                         scale=2.0, offset=-0.5)
        for i, mask in enumerate(masks(shape)):
            if i % parts != part or not mask.any():
                continue
            z = z0.copy()
            z[mask] = np.nan
            key = f'{"x".join(map(str, shape))} missing {np.flatnonzero(mask).tolist()}'
            rec.state(mask)
            guarded(rec, key, z)
            if not mask.all():
                tolerant(rec, key, z)
    else:
        _, part, parts, pairs = args
        z0 = grooves(16, 18, 0.5, 0.5, 3.0, angle=14.0, noise=0.2, offset=0.4)
        z0[4:9, 5:11] -= 6
        if part == 0:
            # the arguments are valid: without non-measured points the queries succeed
            s = make(z0.copy())
            for spec in SURFACE_GUARDED:
                if spec[0] in ('homogeneity', 'depth', 'aspect_ratio', 'align', 'orientation'):
                    continue
                r = attempt(call, make(z0.copy()), spec)
                rec.step()
                rec.check(not isinstance(r, Err), f'measured: {text(spec)}', f'{text(spec)} without non-measured '
                          f'points {r!r}', text(spec))
            rec.execution('surface without non-measured points')
        for i in range(z0.size):
            if i % parts != part:
                continue
            z = z0.copy()
            z.ravel()[i] = np.nan
            key = f'16x18 missing {i}'
            rec.state('position', i)
            guarded(rec, key, z)
            later(rec, key, z0, i)
            if pairs or i % 7 == 0:
                tolerant(rec, key, z)
        if pairs:
            for i in range(0, z0.size):
                for j in (0, 17, z0.size - 1, z0.size // 2 + 3):
                    if (i + j) % parts != part or i == j:
                        continue
                    z = z0.copy()
                    z.ravel()[[i, j]] = np.nan
                    rec.state('pair', i, j)
                    guarded(rec, f'16x18 missing {i},{j}', z)


def guarded(rec, key, z):
    """Every guarded call raises and leaves the heights alone."""
    t = make(z.copy())
    for spec in SURFACE_GUARDED if z.ndim == 2 else PROFILE_GUARDED:
        k = f'{key}: {text(spec)}'
        with rec.guard(k):
            r = attempt(call, t, spec)
            rec.step()
            rec.check(isinstance(r, Err), k + ':accepted', f'{k}: no error, returned {r!r}', k)
            if not np.array_equal(t.data, z, equal_nan=True):
                rec.fail(k + ':changed', f'{k}: the heights changed', k)
                t = make(z.copy())
    rec.execution(key)


def later(rec, key, z0, i):
    """The point becomes non-measured after everything has been evaluated."""
    from surfalize import Surface
    t = Surface(z0.copy(), 0.5, 0.5)
    specs = [q('Sa'), q('height_parameters'), q('Sdq'), q('Sdr'), q('surface_area'), q('stepheight'),
             q('cavity_volume'), q('Ssw'), q('period'), q('orientation', 'fft')]
    for spec in specs:
        attempt(call, t, spec)
    t[np.unravel_index(i, z0.shape)] = np.nan
    for spec in specs:
        k = f'{key} after evaluation: {text(spec)}'
        r = attempt(call, t, spec)
        rec.step(2)
        rec.check(isinstance(r, Err), k + ':accepted', f'{k}: no error, returned {r!r}', k)
    rec.execution(key)


def tolerant(rec, key, z):
    m = ref.measured(z)
    nan = np.isnan(z)
    span = max(np.ptp(m), np.abs(m).max(), 1e-12)

    def expect(name, want, *args, **kwargs):
        k = f'{key}: {name}{args or ""}{kwargs or ""}'
        with rec.guard(k):
            for inplace in (False, True):
                t = make(z.copy())
                r = attempt(getattr(t, name), *args, inplace=inplace, **kwargs)
                rec.step()
                if isinstance(r, Err):
                    rec.fail(k + ':rejected', f'{k}: {r!r}', k)
                    return
                got = np.array(r.data)
                rec.check(same(got, want, 0, 1e-9 * span), k, lambda: f'{k} inplace={inplace}: {got.tolist()}, '
                          f'expected {want.tolist()}', k)
                if not inplace:
                    rec.check(np.array_equal(t.data, z, equal_nan=True), k + ':source', f'{k}: source changed', k)
        rec.execution(k)

    t = make(z.copy())
    s = np.sort(m)
    stats = dict(min=s[0], max=s[-1], mean=m.sum() / m.size, median=(s[(m.size - 1) // 2] + s[m.size // 2]) / 2,
                 std=np.sqrt(((m - m.mean()) ** 2).sum() / m.size))
    for name, want in stats.items():
        r = attempt(getattr(t, name))
        rec.step()
        rec.check(not isinstance(r, Err) and close(r, want, 1e-9, 1e-12), f'{key}: {name}',
                  f'{key}: {name}() = {r!r}, expected {want}', key)
    rec.check(bool(t.has_missing_points) == bool(nan.any()), f'{key}: has_missing_points', key, key)
    expect('center', z - m.mean())
    expect('zero', z - m.min())
    expect('invert', m.max() + m.min() - z)
    for degree in (1, 2):
        residual, _, condition = ref.detrended(z, degree)
        if condition < 1e5:
            expect('detrend_polynomial', residual, degree)
            if degree == 1:
                expect('level', residual)
    for n, method in ((1.2, 'mean'), (1.5, 'median'), (3, 'mean')):
        drop, margin = ref.outliers(z, n, method)
        if margin > 1e-9:
            expect('remove_outliers', np.where(drop, np.nan, z), n, method=method)
    for threshold in (0, 20, (10, 30)):
        upper, lower = threshold if isinstance(threshold, tuple) else (threshold, threshold)
        sets = ref.thresholded(z, upper, lower)
        if len(sets) == 1:
            expect('threshold', np.where(sets[0], np.nan, z), threshold)
    fill(rec, key, z, nan)


def fill(rec, key, z, nan):
    admissible = ref.nearest_values(z)
    for inplace in (False, True):
        k = f'{key}: fill_nonmeasured(inplace={inplace})'
        with rec.guard(k):
            t = make(z.copy())
            r = attempt(t.fill_nonmeasured, inplace=inplace)
            rec.step()
            if isinstance(r, Err):
                rec.fail(k + ':rejected', f'{k}: {r!r}', k)
                continue
            got = np.array(r.data)
            rec.check(got.shape == z.shape and np.array_equal(got[~nan], z[~nan]), k + ':measured',
                      lambda: f'{k}: measured points changed to {got.tolist()}', k)
            for p, values in admissible.items():
                rec.check(float(got[p]) in values, k + f':{p}', lambda: f'{k}: point {p} became {got[p]}, the nearest '
                          f'measured points have {values}', k)
        rec.execution(k)
    for method in ('linear', 'cubic'):
        k = f'{key}: fill_nonmeasured({method!r})'
        r = attempt(make(z.copy()).fill_nonmeasured, method)
        rec.step()
        if not isinstance(r, Err):
            got = np.array(r.data)
            rec.check(same(got[~nan], z[~nan], 1e-9), k, lambda: f'{k}: measured points changed', k)
        rec.execution(k)
