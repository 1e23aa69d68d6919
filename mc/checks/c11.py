"""C11: periodic parameters recover the texture of sinusoidal grooves."""
import itertools
import math

import numpy as np

from mc.util import Err, attempt, lcg

PROPERTY = 'C11'
LEVEL = 'model_checking'
RULE = ('all integer wave vectors up to the frequency bound x shapes x equal and unequal step sizes x phases, '
        'amplitudes and offsets x (pure, with weaker textures and noise); number of profiles and sampling widths of '
        'the depth; all frequencies for profiles; depths that differ from profile to profile')
ASSUMPTIONS = ['the library relates n intervals to n-1 step sizes, lengths are compared up to that factor']
TASK_LIMIT = 900

SHAPES = {'quick': [(40, 40), (36, 48), (59, 44)], 'thorough': [(40, 40), (36, 48), (59, 44), (61, 33), (48, 80), (96, 96)]}
STEPS = [(1.0, 1.0), (0.4, 0.4), (0.5, 0.8), (1.3, 0.7)]
KMAX = {'quick': 6, 'thorough': 11}
VARIANTS = {'quick': [(0.3, 1.0, 0.0), (2.2, 0.02, 40.0), (4.4, 25.0, -3.0)],
            'thorough': [(0.3, 1.0, 0.0), (2.2, 0.02, 40.0), (4.4, 25.0, -3.0), (1.1, 3.0, 5e3), (5.7, 1e-3, 0.0),
                         (3.3, 0.7, -1.0)]}
VARYING = {'quick': [7, 11, 12, 13, 21], 'thorough': list(range(5, 32))}
PROFILES = {'quick': [40, 41, 64, 127], 'thorough': [30, 40, 41, 64, 81, 100, 127, 200, 333]}


def vectors(shape, kmax):
    for ky in range(-kmax, kmax + 1):
        for kx in range(0, kmax + 1):
            if (kx, ky) != (0, 0) and not (kx == 0 and ky < 0) and kx < shape[1] / 2 and abs(ky) < shape[0] / 2:
                yield kx, ky


def tasks(tier):
    out = []
    for shape in SHAPES[tier]:
        for i, steps in enumerate(STEPS):
            for part in range(4):
                out.append((f'{shape} steps {steps} part {part}', ('surface', shape, steps, part, tier)))
    out += [(f'depth of the profiles {n}', ('varying', n, None, None, tier)) for n in VARYING[tier]]
    out += [(f'profile {n}', ('profile', n, None, None, tier)) for n in PROFILES[tier]]
    return out


def wave(shape, kx, ky, phase):
    y, x = np.mgrid[:shape[0], :shape[1]]
    return np.sin(2 * np.pi * (kx * x / shape[1] + ky * y / shape[0]) + phase)


def mod180(a):
    return (a + 90) % 180 - 90


def run(rec, name, args):
    kind, shape, steps, part, tier = args
    if kind == 'profile':
        return profile(rec, shape, tier)
    if kind == 'varying':
        return varying(rec, shape, tier)
    from surfalize import Surface
    sx, sy = steps
    for i, (kx, ky) in enumerate(vectors(shape, KMAX[tier])):
        if i % 4 != part:
            continue
        for j, (phase, amplitude, offset) in enumerate(VARIANTS[tier]):
            for dirt in ('pure', 'noisy'):
                if dirt == 'noisy' and j and tier == 'quick':
                    continue
                z = wave(shape, kx, ky, phase)
                if dirt == 'noisy':
                    z = z + 0.02 * (lcg(kx * 31 + ky + 99, z.size).reshape(shape) - 0.5)
                    z = z + 0.3 * wave(shape, shape[1] // 3, 1, 1.0) + 0.25 * wave(shape, 0, shape[0] // 3, 2.0)
                z = amplitude * z + offset
                key = f'{shape} steps {steps} k=({kx},{ky}) phase {phase} amplitude {amplitude} offset {offset} {dirt}'
                rec.state(z, sx, sy)
                with rec.guard(key):
                    spectrum(rec, key, Surface(z, sx, sy), shape, sx, sy, kx, ky)
                with rec.guard(key):
                    if dirt == 'pure':
                        if min(shape) < 100 and ((i + j) % 3 == 0 or tier == 'thorough'):
                            fits(rec, key, Surface(z, sx, sy), shape, sx, sy, kx, ky, amplitude)


def spectrum(rec, key, t, shape, sx, sy, kx, ky):
    ny, nx = shape
    fx, fy = kx / (nx * sx), ky / (ny * sy)
    tol = 1.5 / min(nx, ny)
    period = 1 / math.hypot(fx, fy)
    got = attempt(t.period)
    rec.check(near(got, period, tol), key + ': period', f'{key}: period {got!r}, expected {period}', key)
    got = attempt(t.Ssw)
    rec.check(near(got, period, tol), key + ': Ssw', f'{key}: Ssw {got!r}, expected {period}', key)
    got = attempt(t.period_x_y)
    expected = (1 / fx if kx else math.inf, 1 / abs(fy) if ky else math.inf)
    ok = not isinstance(got, Err) and len(got) == 2 and near(got[0], expected[0], 1.5 / nx) and near(
        got[1], expected[1], 1.5 / ny)
    rec.check(ok, key + ': period_x_y', f'{key}: period_x_y {got!r}, expected {expected}', key)
    # angles: the factors (n-1)/n of both axes distort them slightly
    distortion = math.degrees(abs(1 / nx - 1 / ny)) / 2 * 1.2 + 1e-6
    angle = math.degrees(math.atan2(-fy, fx)) if kx else 90.0
    got = attempt(t.orientation, 'fft')
    ok = not isinstance(got, Err) and -90 <= got <= 90 and abs(mod180(got - angle)) <= distortion
    rec.check(ok, key + ': orientation', f'{key}: orientation {got!r}, expected {angle}', key)
    direction = math.degrees(math.atan2(fy, fx)) % 180
    for args, kwargs, width in [((), {}, 0.5), ((1,), {}, 1), ((), dict(angle_step=5), 5)]:
        got = attempt(t.Std, *args, **kwargs)
        ok = not isinstance(got, Err) and 0 <= got < 180 and \
            -distortion <= (direction - got + distortion) % 180 - distortion <= width + distortion
        rec.check(ok, f'{key}: Std {width}', f'{key}: Std({args}, {kwargs}) = {got!r}, expected {direction}', key)
        rec.outcome(repr(got))
    rec.step(7)
    rec.execution(key)


def near(got, expected, tol):
    if isinstance(got, Err):
        return False
    if math.isinf(expected):
        return math.isinf(got)
    return abs(got - expected) <= tol * expected


def fits(rec, key, t, shape, sx, sy, kx, ky, amplitude):
    ny, nx = shape
    fx, fy = kx / (nx * sx), ky / (ny * sy)
    angle = math.degrees(math.atan2(-fy, fx)) if kx else 90.0
    # the refined orientation samples along the axis of the shorter period
    along_x = (not ky) or (kx and fx > abs(fy))
    n, k = (nx, kx) if along_x else (ny, abs(ky))
    across = ny if along_x else nx
    if k >= 2 and n / k >= 6:
        for args, kwargs in [((), {}), ((), dict(method='fft_refined'))]:
            got = attempt(t.orientation, *args, **kwargs)
            ok = not isinstance(got, Err) and -90 <= got <= 90 and abs(mod180(got - angle)) <= 0.5
            rec.check(ok, key + ': refined orientation', f'{key}: orientation({args}, {kwargs}) {got!r}, expected {angle}',
                      key)
            rec.step()
    # the depth samples along x if the texture is closer to the vertical axis
    distortion = math.degrees(abs(1 / nx - 1 / ny)) + 0.01
    if abs(abs(angle) - 45) <= distortion:
        return
    along_x = abs(angle) < 45
    n, k = (nx, kx) if along_x else (ny, abs(ky))
    across = ny if along_x else nx
    if not (k >= 3 and n / k >= 6):  # two periods may have no complete pair of a peak and a valley
        return
    p = n / k
    for nprofiles, width in [(30, 0.2), (2, 0.2), (7, 0.3), (5, 0.2), (across, 0.25)]:
        if nprofiles > across:
            got = attempt(t.depth, nprofiles, width)
            rec.check(isinstance(got, Err) and got.kind == 'ValueError', f'{key}: depth {nprofiles}',
                      f'{key}: depth({nprofiles}) of {across} profiles: {got!r}', key)
            continue
        got = attempt(t.depth, nprofiles, sampling_width=width) if nprofiles != 30 else attempt(t.depth)
        low, high = median_range(p, width)
        low, high = 2 * amplitude * low, 2 * amplitude * high
        slack = 2e-3 * amplitude
        ok = not isinstance(got, Err) and len(got) == 2 and low - slack <= got[0] <= high + slack and \
            0 <= got[1] <= (high - low) / 2 + slack
        rec.check(ok, f'{key}: depth {nprofiles},{width}',
                  f'{key}: depth({nprofiles}, {width}) = {got!r}, expected {low} ... {high}', key)
        rec.step()
        if nprofiles == 30:
            ratio = attempt(t.aspect_ratio)
            period = 1 / math.hypot(fx, fy)
            tol = 1.5 / min(nx, ny)
            ok = not isinstance(ratio, Err) and (low - slack) / period * (1 - tol) <= ratio <= \
                (high + slack) / period * (1 + 2 * tol)
            rec.check(ok, key + ': aspect_ratio', f'{key}: aspect_ratio {ratio!r}, expected {low / period} ... '
                      f'{high / period}', key)
            rec.step()
    rec.execution(key)


_ranges = {}


def median_range(p, width):
    """Smallest and largest median of a cosine over the sampled interval, whose centre is known up to one point."""
    if (p, width) not in _ranges:
        half = int(p * width / 2 + 1e-9), int(p * width / 2 - 1e-3)
        values = [np.median(np.cos(2 * np.pi * (np.arange(-h, h + 1) + d) / p))
                  for h in half for d in np.linspace(-1, 1, 201)]
        _ranges[(p, width)] = (min(values), max(values))
    return _ranges[(p, width)]


def profile(rec, n, tier):
    from surfalize import Profile
    for k in range(2, n // 3):
        for step in (1.0, 0.35):
            for phase, amplitude, offset in VARIANTS[tier]:
                for noise in (0.0, 0.05):
                    x = np.arange(n)
                    z = np.sin(2 * np.pi * k * x / n + phase) + noise * (lcg(k + n, n) - 0.5)
                    z = amplitude * z + offset
                    key = f'profile n={n} step {step} k={k} phase {phase} amplitude {amplitude} offset {offset} ' \
                          f'noise {noise}'
                    rec.state(z, step)
                    with rec.guard(key):
                        got = attempt(Profile(z, step).period)
                        expected = n * step / k
                        rec.check(near(got, expected, 1e-9), key, f'{key}: period {got!r}, expected {expected}', key)
                        rec.step()
                        rec.execution(key)
                        rec.outcome(repr(got))


def varying(rec, across, tier):
    """Textures whose depth differs from profile to profile: the sampled profiles are equally spaced from first to last"""
    from surfalize import Surface
    counts = [n for n in range(2, across + 1) if (across - 1) % (n - 1) == 0]
    for n, periods, along_x, (sx, sy), (phase, amplitude, offset) in itertools.product(
            (80, 120), (4, 5), (True, False), STEPS, VARIANTS[tier]):
        p = n / periods
        for shape in ('rising', 'falling', 'peak'):
            u = np.arange(across) / (across - 1)
            depths = {'rising': 1 + 9 * u ** 2, 'falling': 1 + 9 * (1 - u) ** 2, 'peak': 10 - 36 * (u - 0.5) ** 2}[shape]
            z = amplitude * np.sin(2 * np.pi * np.arange(n) / p + phase) * depths[:, None] + offset
            z = z if along_x else z.T.copy()
            for count, width in itertools.product(counts, (0.13, 0.24)):
                key = f'{across} profiles of {n} points, {periods} periods, along x {along_x}, steps {sx, sy}, phase {phase}, ' \
                      f'amplitude {amplitude} {shape}: depth({count}, {width})'
                got = attempt(Surface(z, sx, sy).depth, count, sampling_width=width)
                chosen = 2 * amplitude * depths[np.arange(count) * ((across - 1) // (count - 1))]
                low, high = median_range(p, width)
                slack = 2e-3 * chosen.max()
                ok = not isinstance(got, Err) and low * chosen.mean() - slack <= got[0] <= high * chosen.mean() + slack and \
                    abs(got[1] - chosen.std()) <= (high - low) * chosen.max() + (1 - low) * chosen.std() + slack
                rec.check(ok, key, lambda: f'{key} = {got!r}, expected {chosen.mean()}, {chosen.std()} ({low}...{high})', key)
                rec.execution(key)
                rec.step()
                rec.state(key)
                rec.outcome(repr(got))
