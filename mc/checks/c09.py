"""C09: functional parameters are read off one consistent material ratio curve."""
import numpy as np

from mc.util import Err, attempt, generic, grooves, relayout

PROPERTY = 'C09'
LEVEL = 'model_checking'
RULE = ('an alphabet of height distributions (generic, plateaus, skewed, discrete, two-level, uniform, sinusoidal) x '
        'sizes, offsets, scales and layouts x surface or profile, every functional parameter on a grid of ratios and '
        'heights, by position and by keyword')
ASSUMPTIONS = ['the material ratio curve is sampled at 10000 equally spaced ratios, as documented by the library']

N = 10000
RATIOS = {'quick': [0, 0.5, 2.5, 10, 10.6, 33, 50, 63.7, 80, 80.4, 90, 99.5, 100],
          'thorough': [0, 0.01, 0.5, 1, 2.5, 5, 7.77, 10, 10.6, 15, 20, 25, 33, 40, 45.5, 50, 55, 60, 63.7, 70, 75,
                       80, 80.4, 85, 90, 95, 97.5, 99.5, 99.99, 100]}
PAIRS = {'quick': [(10, 80), (5, 90), (20.5, 60.25), (0, 100)],
         'thorough': [(10, 80), (5, 90), (20.5, 60.25), (0, 100), (2.5, 50), (30, 40), (1, 99), (45, 95.5)]}


def distributions(tier):
    out = []
    for n, seed in ((2, 1), (3, 2), (5, 3), (12, 4), (40, 5), (200, 6), (1500, 7)):
        out.append((f'generic {n}', generic(n, seed=seed)))
    u = generic(600, seed=8)
    u = (np.argsort(np.argsort(u)) + 0.5) / u.size
    g = np.sqrt(2) * inverse_erf(2 * u - 1)
    out += [('normal', g), ('plateau', -np.maximum(g - 0.5, 0) + 0.01 * g), ('hills', np.maximum(g - 0.5, 0) + 0.01 * g),
            ('skewed', np.exp(g)), ('valleys', -np.exp(g)), ('heavy', np.sign(g) * g ** 2),
            ('bimodal', np.where(u > 0.35, 1, 0) + 0.05 * g), ('bimodal low', np.where(u > 0.7, 1, 0) + 0.05 * g),
            ('trimodal', np.where(u > 0.3, 1, 0) + np.where(u > 0.6, 2, 0) + 0.1 * g),
            ('discrete', np.round(g * 2)), ('levels', np.floor(u * 4)), ('outlier', np.where(u > 0.998, 30, g)),
            ('linear', u), ('sine', np.sin(2 * np.pi * u)), ('hat', np.maximum(g, -0.2)), ('pit', np.minimum(g, 0.4)),
            ('flat top', np.minimum(u, 0.6)), ('flat bottom', np.maximum(u, 0.5))]
    out += [('quantised', np.round(3 * generic(30000, seed=16))), ('many levels', np.floor(generic(40000, seed=17) * 9))]
    out.append(('grooves', grooves(24, 25, 1, 1, 6.3, angle=20, noise=0.1).ravel()))
    if tier == 'thorough':
        for n, seed in ((4, 9), (7, 10), (20, 11), (77, 12), (350, 13), (3000, 14), (12000, 15)):
            out.append((f'generic {n}', generic(n, seed=seed)))
    return out


def inverse_erf(y):
    from scipy.special import erfinv
    return erfinv(y)


def shape_for(n):
    for ny in (4, 5, 6, 3, 2):
        if n % ny == 0 and n > ny:
            return ny, n // ny
    return 1, n


def tasks(tier):
    out = []
    for label, z in distributions(tier):
        transforms = [(1.0, 0.0), (0.003, 7.0), (50.0, -1200.0)]
        if tier == 'quick' and label.startswith('generic') and z.size not in (12, 200):
            transforms = transforms[:1]
        for scale, offset in transforms:
            out.append((f'{label} * {scale} + {offset}', (label, scale, offset, 'surface', 'C', tier)))
        out.append((f'{label} profile', (label, 2.0, -0.5, 'profile', 'C', tier)))
    for layout in ('F', 'strided', 'reversed', 'readonly'):
        out.append((f'normal {layout}', ('normal', 1.0, 0.0, 'surface', layout, tier)))
    out.append(('integer', ('integer', 1.0, 0.0, 'surface', 'C', tier)))
    out.append(('two levels', ('two levels', 1.0, 0.0, 'surface', 'C', tier)))
    return out


class Curve:
    """The sampled material ratio curve, evaluated independently of the library."""

    def __init__(self, z):
        z = np.sort(np.asarray(z, dtype=float).ravel())
        self.z = z
        n = z.size
        self.mr = np.arange(N) * (100.0 / (N - 1))
        pos = (1 - self.mr / 100) * (n - 1)
        i = np.clip(np.floor(pos).astype(int), 0, max(n - 2, 0))
        f = pos - i
        self.h = z[i] * (1 - f) + z[np.minimum(i + 1, n - 1)] * f
        self.range = max(z[-1] - z[0], 1e-300)
        self.eps = 1e-9 * self.range + 1e-13 * np.abs(z).max()
        dm = np.diff(self.mr)
        dh = -np.diff(self.h)
        m = (self.mr[1:] + self.mr[:-1]) / 2
        # cumulative areas from the top / to the bottom, in units of % times height
        self.top = np.concatenate(([0.0], np.cumsum(m * dh)))              # int_0^i mr dh
        below = np.concatenate(([0.0], np.cumsum((100 - m) * dh)))
        self.bottom = below[-1] - below                                    # int_i^end (100 - mr) dh
        self.dm = dm

    def mc(self, p):
        return float(np.interp(p, self.mr, self.h))

    def mr_range(self, c):
        """All ratios at which the curve has the height c (an interval on a plateau)."""
        def ratio(level):
            # interpolation on the strictly decreasing parts
            if level >= self.h[0]:
                return 0.0
            if level <= self.h[-1]:
                return 100.0
            j = int(np.searchsorted(-self.h, -level, side='left'))          # h[j] <= level < h[j-1]
            h0, h1 = self.h[j - 1], self.h[j]
            return float(self.mr[j - 1] + (self.mr[j] - self.mr[j - 1]) * ((h0 - level) / (h0 - h1)))
        eps = self.eps
        hi = 100.0 if c - eps <= self.h[-1] else ratio(c - eps)
        lo = 0.0 if c + eps >= self.h[0] else ratio(c + eps)
        if c + eps >= self.h[0]:
            lo = 0.0
        if c - eps >= self.h[0]:
            hi = 0.0
        if c + eps <= self.h[-1]:
            lo = 100.0
        return lo, hi

    def closest(self, c):
        """Indices of the samples that may be taken as the closest to height c."""
        d = np.abs(self.h - c)
        return np.flatnonzero(d <= d.min() + self.eps)

    def areas_top(self, c):
        """Areas between curve and axis above the sample closest to c; the last sample may be excluded."""
        idx = self.closest(c)
        return [self.top[max(i - 1, 0)] for i in idx], [self.top[i] for i in idx]

    def lines(self):
        """(slope, intercept) of every admissible least-squares line (40 % window of smallest secant slope)."""
        starts = np.flatnonzero(self.mr <= 60)
        ends = np.interp(self.mr[starts] + 40, self.mr, self.h)
        slope = (ends - self.h[starts]) / 40
        best = slope.max()
        if best == 0:
            pick = starts[np.flatnonzero(slope == 0)[:1]]
        else:
            pick = starts[slope >= best - self.eps / 40]
        x, y = self.mr, self.h
        out = []
        for s in sorted({int(pick[0]), int(pick[-1]), *[int(v) for v in pick[:: max(1, len(pick) // 200)]]}):
            ends = {int(np.searchsorted(x, x[s] + 40 + d, side='right')) for d in (-1e-9, 1e-9)}
            for e in ends:
                xs, ys = x[s:e], y[s:e]
                xm, ym = xs.mean(), ys.mean()
                b = ((xs - xm) * (ys - ym)).sum() / ((xs - xm) ** 2).sum()
                out.append((b, ym - b * xm))
        return out


def two_levels():
    z = np.zeros((150, 200))
    z[:90] = 1.0
    return z


def run(rec, name, args):
    from surfalize import Profile, Surface
    label, scale, offset, kind, layout, tier = args
    if label == 'two levels':
        data = two_levels()
    elif label == 'integer':
        data = np.round(generic(20, 30, seed=50) * 500).astype('int64')
    else:
        data = dict(distributions(tier))[label] * scale + offset
        if kind == 'surface':
            # the heights are spread over the surface
            data = data[np.argsort(generic(data.size, seed=99))].reshape(shape_for(data.size))
    data = relayout(data, layout)
    rec.state(data, kind, layout)
    t = Surface(data, 0.5, 0.7) if kind == 'surface' else Profile(data, 0.5)
    s = 'S' if kind == 'surface' else 'R'
    c = Curve(data)
    key = f'{name}'
    with rec.guard(key):
        explore(rec, key, t, s, c, tier)


def within(value, lo, hi, tol):
    return not isinstance(value, Err) and value == value and lo - tol <= float(value) <= hi + tol


def explore(rec, key, t, s, c, tier):
    tol = 1e-8 * c.range + 1e-12 * np.abs(c.z).max()

    def get(name, *args, **kwargs):
        rec.step()
        rec.execution(f'{key}: {name}')
        return attempt(getattr(t, name), *args, **kwargs)

    def expect(name, args, lo, hi, tol_=tol, **kwargs):
        value = get(name, *args, **kwargs)
        rec.outcome(name, args, repr(lo))
        rec.check(within(value, lo, hi, tol_), f'{key}: {name}({args or kwargs})',
                  f'{key}: {name}({args or kwargs}) = {value!r}, expected {lo} ... {hi}', key)
        return value

    # heights and ratios
    for p in RATIOS[tier]:
        d = 1e-9
        expect(s + 'mc', (p,), c.mc(min(p + d, 100)), c.mc(max(p - d, 0)))
    levels = [c.z[0], c.z[-1], c.z[0] - c.range, c.z[-1] + c.range, float(np.mean(c.z))]
    levels += [c.z[0] + f * c.range for f in (0.03, 0.21, 0.5, 0.77, 0.98)] + list(c.z[::max(1, c.z.size // 5)])
    for level in levels:
        expect(s + 'mr', (float(level),), *c.mr_range(level), tol_=1e-6)
    # monotone and mutually inverse
    for p, q in ((2.5, 50), (5, 40), (20.5, 61.5)):
        expect(s + 'xp', (p, q), c.mc(p) - c.mc(q), c.mc(p) - c.mc(q))
        expect(s + 'dc', (p, q), c.mc(p) - c.mc(q), c.mc(p) - c.mc(q))
        expect(s + 'xp', (), c.mc(p) - c.mc(q), c.mc(p) - c.mc(q), p=p, q=q)
    expect(s + 'xp', (), c.mc(2.5) - c.mc(50), c.mc(2.5) - c.mc(50))
    expect(s + 'dc', (), c.mc(2.5) - c.mc(50), c.mc(2.5) - c.mc(50))

    core(rec, key, t, s, c, tol, get)
    volumes(rec, key, s, c, tier, tol, get)


def core(rec, key, t, s, c, tol, get):
    """Sk family: all values have to belong to one admissible equivalence line."""
    names = ['k', 'mr1', 'mr2', 'pk', 'vk', 'pkx', 'vkx', 'ak1', 'ak2']
    v = {n: get(s + n) for n in names}
    if any(isinstance(x, Err) for x in v.values()):
        rec.fail(f'{key}: core', f'{key}: {v}', key)
        return
    v = {n: float(x) for n, x in v.items()}
    reasons = []
    for slope, intercept in c.lines():
        upper, lower = intercept, intercept + 100 * slope
        bad = []

        def need(name, ok, want):
            if not ok:
                bad.append(f'{s}{name} = {v[name]}, expected {want}')
        need('k', abs(v['k'] - (upper - lower)) <= tol, upper - lower)
        need('pkx', abs(v['pkx'] - (c.z[-1] - upper)) <= tol, c.z[-1] - upper)
        need('vkx', abs(v['vkx'] - (lower - c.z[0])) <= tol, lower - c.z[0])
        r1, r2 = c.mr_range(upper), c.mr_range(lower)
        need('mr1', r1[0] - 1e-5 <= v['mr1'] <= r1[1] + 1e-5, r1)
        need('mr2', r2[0] - 1e-5 <= v['mr2'] <= r2[1] + 1e-5, r2)
        # areas of the triangles, related to the ratios the library returns (they may be ambiguous on plateaus)
        idx_upper, idx_lower = c.closest(upper), c.closest(lower)
        if v['mr1'] > 0.02:
            a1 = [2 * c.top[max(i - 1, 0)] / v['mr1'] for i in idx_upper]
            need('pk', min(a1) - tol <= v['pk'] <= max(a1) + tol, (min(a1), max(a1)))
        if v['mr2'] < 99.98:
            a2 = [2 * c.bottom[i] / (100 - v['mr2']) for i in idx_lower]
            need('vk', min(a2) - tol <= v['vk'] <= max(a2) + tol, (min(a2), max(a2)))
        need('pk', v['pk'] >= -tol and v['pk'] == v['pk'], '>= 0')
        need('vk', v['vk'] >= -tol and v['vk'] == v['vk'], '>= 0')
        if upper > c.z[-1] + c.eps:
            need('pk', v['pk'] == 0, 'no hills')
        if lower < c.z[0] - c.eps:
            need('vk', v['vk'] == 0, 'no dales')
        need('ak1', abs(v['ak1'] - v['pk'] * v['mr1'] / 2) <= 100 * tol, v['pk'] * v['mr1'] / 2)
        need('ak2', abs(v['ak2'] - v['vk'] * (100 - v['mr2']) / 2) <= 100 * tol, v['vk'] * (100 - v['mr2']) / 2)
        if not bad:
            reasons = []
            break
        if not reasons or len(bad) < len(reasons):
            reasons = bad
    rec.outcome(repr(sorted(v.items())))
    rec.check(not reasons, f'{key}: core', lambda: f'{key}: {"; ".join(reasons)}', key)
    if s == 'S':
        for a, b in (('Smrk1', 'mr1'), ('Smrk2', 'mr2')):
            x = get(a)
            rec.check(not isinstance(x, Err) and float(x) == v[b], f'{key}: {a}', f'{key}: {a} = {x!r}, {v[b]}', key)


def volumes(rec, key, s, c, tier, tol, get):
    tol = tol * 2

    def material(p):
        """(lowest, highest admissible, true value) of Vm(p)"""
        idx = c.closest(c.mc(p))
        # the sampled curve up to a sample next to the ratio; the exact area is that up to the ratio itself
        values = [c.top[max(i - 1, 0)] / 100 for i in idx] + [c.top[i] / 100 for i in idx]
        j = int(np.clip(np.searchsorted(c.mr, p, side='right') - 1, 0, N - 2))
        f = (p - c.mr[j]) / c.dm[j]
        h0, h = c.h[j], c.mc(p)
        true = (c.top[j] + (c.mr[j] + p) / 2 * (h0 - h)) / 100
        return min(values), max(values), true

    def void(p):
        idx = c.closest(c.mc(p))
        values = [c.bottom[i] / 100 for i in idx] + [c.bottom[max(i - 1, 0)] / 100 for i in idx]
        return min(values), max(values)

    def verify(name, value, lo, hi, args, slack):
        k = f'{key}: {name}({args})'
        rec.outcome(name, args, repr(lo))
        rec.check(within(value, lo, hi, tol), k, f'{k} = {value!r}, expected {lo} ... {hi}', k)

    for p in RATIOS[tier]:
        lo, hi, true = material(p)
        for args, kwargs in (((p,), {}), ((), dict(p=p))):
            value = get('Vm', *args, **kwargs)
            if (not isinstance(value, Err) and abs(float(value) - true) > 0.05 * c.range * p / 100
                    and within(value, lo, lo, tol)):
                # the curve jumps between two neighbouring samples and the jump is left out
                rec.fail('Vm:jump between two samples left out', f'{key}: Vm({p}) = {value}, expected {true}', key)
            else:
                verify('Vm', value, lo, hi, args or kwargs, None)
        lo, hi = void(p)
        for args, kwargs in (((p,), {}), ((), dict(p=p))):
            verify('Vv', get('Vv', *args, **kwargs), lo, hi, args or kwargs, None)
        vm = get('Vm', p)
        for args, kwargs in (((p,), {}), ((), dict(p=p))):
            x = get('Vmp', *args, **kwargs)
            rec.check(not isinstance(x, Err) and float(x) == float(vm), f'{key}: Vmp({p})', f'{x!r} != {vm!r}', key)
        vv = get('Vv', p)
        for args, kwargs in (((p,), {}), ((), dict(q=p))):
            x = get('Vvv', *args, **kwargs)
            rec.check(not isinstance(x, Err) and float(x) == float(vv), f'{key}: Vvv({p})', f'{x!r} != {vv!r}', key)
    for name, func, default in (('Vmp', 'Vm', 10), ('Vvv', 'Vv', 80)):
        x, y = get(name), get(func, default)
        rec.check(not isinstance(x, Err) and float(x) == float(y), f'{key}: {name}()', f'{key}: {x!r} != {y!r}', key)
    for p, q in PAIRS[tier]:
        vm, vv = [float(get('Vm', r)) for r in (p, q)], [float(get('Vv', r)) for r in (p, q)]
        for name, want in (('Vmc', vm[1] - vm[0]), ('Vvc', vv[0] - vv[1])):
            calls = [((p, q), {}), ((), dict(p=p, q=q)), ((p,), dict(q=q))]
            if (p, q) == (10, 80):
                calls.append(((), {}))
            for args, kwargs in calls:
                x = get(name, *args, **kwargs)
                rec.check(not isinstance(x, Err) and abs(float(x) - want) <= tol, f'{key}: {name}({args or kwargs})',
                          f'{key}: {name}({args}, {kwargs}) = {x!r}, expected {want}', key)
