"""C07: height parameters follow their definitions for every input."""
import itertools
import math
from fractions import Fraction

import numpy as np

from mc.util import Err, attempt, close, generic, relayout

PROPERTY = 'C07'
LEVEL = 'model_checking'
RULE = ('all height matrices over the alphabet {0, 1, 3} up to the size bound (as surfaces of every shape and as '
        'profiles) x offsets and scales x number types and memory layouts, every number of sections, all sets of '
        'non-measured points for the statistics')

SHAPES = {'quick': [(1, 1), (1, 3), (2, 2), (1, 4), (4, 1), (2, 3), (3, 2), (1, 6), (1, 7)],
          'thorough': [(1, 1), (1, 3), (2, 2), (1, 4), (4, 1), (2, 3), (3, 2), (1, 6), (1, 7), (2, 4), (4, 2), (3, 3),
                       (1, 9)]}
TRANSFORMS = [(1.0, 0.0), (1.0, -7.25), (2.5e-3, 1.0), (1e5, 12345.0), (-1.0, 0.0), (1e-7, 0.0)]
KINDS = [('float64', 'C'), ('float64', 'F'), ('float64', 'strided'), ('float64', 'reversed'), ('float64', 'readonly'),
         ('float32', 'C'), ('int64', 'C'), ('int32', 'F'), ('int16', 'strided'), ('uint8', 'C'), ('uint16', 'C'),
         ('>f8', 'C')]
LARGE = [(30, 41), (7, 100), (100, 7), (64, 64)]


def tasks(tier):
    out = []
    for shape in SHAPES[tier]:
        n = 3 ** (shape[0] * shape[1])
        parts = max(1, n // 400)
        out += [(f'matrices {shape} {p}', ('matrices', shape, p, parts, tier)) for p in range(parts)]
    out += [(f'large {shape}', ('large', shape, 0, 1, tier)) for shape in LARGE]
    out += [(f'profile {n}', ('profile', (n,), 0, 1, tier)) for n in (2, 3, 5, 6, 7, 11, 23, 100, 1001)]
    out += [('statistics', ('statistics', (2, 4) if tier == 'quick' else (3, 4), 0, 1, tier))]
    return out


def exact(values):
    """The parameters as floats, computed with exact rational arithmetic."""
    v = [Fraction(float(x)) for x in values]
    n = len(v)
    mean = sum(v) / n
    d = [x - mean for x in v]
    m1 = sum(abs(x) for x in d) / n
    m2 = sum(x * x for x in d) / n
    m3 = sum(x ** 3 for x in d) / n
    m4 = sum(x ** 4 for x in d) / n
    out = dict(a=float(m1), q=root(m2), p=float(max(d)), v=float(-min(d)), z=float(max(d) - min(d)))
    if m2 > 0:
        out['ku'] = float(m4 / (m2 * m2))
        # sign and square of the skewness are rational
        sk2 = m3 * m3 / m2 ** 3
        out['sk'] = math.copysign(root(sk2), m3) if m3 else 0.0
    return out, mean, d


def root(x):
    """Square root of a fraction that may be outside the range in which float(x) is accurate."""
    return math.sqrt(x.numerator / x.denominator) if x else 0.0


def compare(rec, key, name, got, want, rtol, scale):
    rec.outcome(name, round(want, 12))
    ok = not isinstance(got, Err) and close(got, want, rtol, rtol * scale)
    rec.check(ok, f'{key}: {name}', lambda: f'{key}: {name} = {got!r}, expected {want}', key)


def surface(rec, key, z, values=None, light=False):
    from surfalize import Surface
    want, mean, _ = exact(z.ravel() if values is None else values)
    amplitude = max(want['z'], 1e-300)
    noise = max(abs(float(mean)), amplitude) / amplitude   # loss of significance by the offset
    rtol = 1e-10 * max(1.0, noise * 1e-3) if z.dtype.itemsize == 8 or z.dtype.kind in 'iu' else 3e-6 * noise
    flat = want['q'] == 0
    if flat and z.dtype == np.float32:
        return
    with rec.guard(key):
        s = Surface(z, 0.5, 0.7)
        names = dict(Sa='a', Sq='q', Sp='p', Sv='v', Sz='z', Ssk='sk', Sku='ku')
        together = attempt(Surface(z, 0.5, 0.7).height_parameters)
        rec.step()
        for name, item in names.items():
            if item not in want:
                continue
            got = attempt(getattr(s, name))
            rec.step()
            tol = rtol * (10 if item in ('sk', 'ku') else 1)
            scale = 1.0 if item in ('sk', 'ku') else (amplitude if not flat else abs(float(mean)) or 1.0)
            compare(rec, key, name, got, want[item], tol, scale)
            rec.check(isinstance(together, dict) and close(together.get(name, math.nan), got if not isinstance(
                got, Err) else math.nan, 1e-12), f'{key}: height_parameters {name}', f'{key}: {together!r}', key)
        rec.execution(key)


def run(rec, name, args):
    mode, shape, part, parts, tier = args
    if mode == 'matrices':
        n = shape[0] * shape[1]
        for i, values in enumerate(itertools.product((0, 1, 3), repeat=n)):
            if i % parts != part:
                continue
            base = np.array(values, dtype=float).reshape(shape)
            rec.state(base)
            for a, b in TRANSFORMS:
                surface(rec, f'{base.tolist()} * {a} + {b}', base * a + b)
                if shape[0] == 1:
                    profile(rec, f'{list(values)} * {a} + {b}', base[0] * a + b)
            for dtype, layout in KINDS[1:]:
                if i % len(KINDS) and tier == 'quick' and n > 4:
                    continue
                z = relayout((base * 2 + 1).astype(dtype), layout)
                surface(rec, f'{base.tolist()} {dtype} {layout}', z)
                if shape[0] == 1:
                    profile(rec, f'{list(values)} {dtype} {layout}', relayout((base[0] * 2 + 1).astype(dtype), layout))
    elif mode == 'large':
        for (a, b), (dtype, layout) in itertools.product(TRANSFORMS, KINDS):
            z = generic(*shape, seed=shape[0]) * 3
            if np.dtype(dtype).kind in 'iu':
                z = (z - z.min()) * 40
            elif dtype != 'float32':
                z = z * a + b
            z = relayout(z.astype(dtype), layout)
            surface(rec, f'{shape} * {a} + {b} {dtype} {layout}', z)
            rec.state(shape, a, b, dtype, layout)
    elif mode == 'profile':
        n = shape[0]
        for (a, b), (dtype, layout) in itertools.product(TRANSFORMS, KINDS):
            z = generic(n, seed=n) * 3
            if np.dtype(dtype).kind in 'iu':
                z = (z - z.min()) * 40
            elif dtype != 'float32':
                z = z * a + b
            z = relayout(z.astype(dtype), layout)
            profile(rec, f'{n} * {a} + {b} {dtype} {layout}', z)
            rec.state(n, a, b, dtype, layout)
    else:
        statistics(rec, shape)


def sections(n, k):
    """Consecutive sections of n points: sizes differ by at most one, the longer ones come first."""
    bounds, start = [], 0
    for i in range(k):
        length = n // k + (1 if i < n % k else 0)
        bounds.append((start, start + length))
        start += length
    return bounds


def profile(rec, key, z):
    from surfalize import Profile
    n = z.size
    want, mean, d = exact(z)
    amplitude = max(want['z'], 1e-300)
    noise = max(abs(float(mean)), amplitude) / amplitude
    rtol = 1e-10 * max(1.0, noise * 1e-3) if z.dtype.itemsize == 8 or z.dtype.kind in 'iu' else 3e-6 * noise
    if want['q'] == 0 and z.dtype == np.float32:
        return
    scale = amplitude if want['q'] else abs(float(mean)) or 1.0
    key = 'profile ' + key
    with rec.guard(key):
        p = Profile(z, 0.5)
        for name, item in dict(Ra='a', Rq='q', Rt='z', Rsk='sk', Rku='ku').items():
            if item in want:
                rec.step()
                compare(rec, key, name, attempt(getattr(p, name)), want[item],
                        rtol * (10 if item in ('sk', 'ku') else 1), 1.0 if item in ('sk', 'ku') else scale)
        counts = range(1, n + 1) if n <= 12 else [1, 2, 3, 4, 5, 7, n - 1, n]
        for k in counts:
            parts = [d[a:b] for a, b in sections(n, k)]
            for name, value in (('Rp', sum(max(x) for x in parts) / k), ('Rv', sum(abs(min(x)) for x in parts) / k),
                                ('Rz', sum(max(x) - min(x) for x in parts) / k)):
                for args, kwargs in (((k,), {}), ((), dict(n_sections=k))) if n < 30 else (((k,), {}),):
                    got = attempt(getattr(p, name), *args, **kwargs)
                    rec.step()
                    compare(rec, key, f'{name}({args or kwargs})', got, float(value), rtol, scale)
                if k == 5:
                    compare(rec, key, f'{name}()', attempt(getattr(p, name)), float(value), rtol, scale)
        for k in (0, -1, n + 1):
            for name in ('Rp', 'Rv', 'Rz'):
                r = attempt(getattr(p, name), k)
                rec.check(isinstance(r, Err) and r.kind == 'ValueError', f'{key}: {name}({k})', f'{key}: {name}({k}) '
                          f'gave {r!r}', key)
        rec.execution(key)


def statistics(rec, shape):
    from surfalize import Profile, Surface
    n = int(np.prod(shape))
    for scale, offset in TRANSFORMS[:4]:
        base = generic(*shape, seed=77) * scale + offset
        for bits in range(2 ** n - 1):
            mask = np.array([bool(bits >> i & 1) for i in range(n)]).reshape(shape)
            z = np.where(mask, np.nan, base)
            m = sorted(Fraction(float(x)) for x in z[~mask])
            k = len(m)
            mean = sum(m) / k
            want = dict(min=m[0], max=m[-1], mean=mean, median=(m[(k - 1) // 2] + m[k // 2]) / 2)
            std = root(sum((x - mean) ** 2 for x in m) / k)
            key = f'{shape} * {scale} + {offset} missing {np.flatnonzero(mask).tolist()}'
            rec.state(key)
            for t in (Surface(z, 1.0, 1.0), Profile(z.ravel().copy(), 1.0)):
                for name, value in list(want.items()) + [('std', std)]:
                    rec.step()
                    # the differences to the offset are subject to rounding of the offset
                    compare(rec, key, name, attempt(getattr(t, name)), float(value), 1e-11,
                            max(abs(offset), scale))
            rec.execution(key)
