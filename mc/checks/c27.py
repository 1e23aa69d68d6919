"""C27: parameters and operations transform with units, offset, mirroring, transposition, order and inversion."""
import itertools
import warnings

import numpy as np

from mc.util import Err, attempt, generic, grooves

PROPERTY = 'C27'
LEVEL = 'model_checking'
RULE = ('all parameters (also with arguments) on an alphabet of surfaces and profiles x all words of transformations (height '
        'offset, height scale, lateral scale, similarity, mirroring, transposition, half turn, inversion, reordering, tiling) '
        'up to the length bound; all operations x single transformations')
ASSUMPTIONS = ['Sdr under mirroring of one axis (the triangulation has a direction), depth and Std positions under mirroring '
               'and the period-based cell values of homogeneity are not claimed']
TASK_LIMIT = 600

# parameter: (exponent of height scale, exponent of lateral scale, what it depends on)
#   M: the relative frequencies of the heights, D: the numbers of the heights, G: also the neighbourhoods (not the
#   directions), T: also the directions of the axes, A: also positions of extracted profiles
HEIGHT = {n: (1, 0, 'D') for n in 'Sk Spk Svk Spkx Svkx Sak1 Sak2 Sxp Sdc Vmp Vmc Vvv Vvc'.split()}
HEIGHT |= {n: (0, 0, 'D') for n in 'Smr1 Smr2 Smrk1 Smrk2'.split()}
HEIGHT |= {n: (1, 0, 'M') for n in 'Sa Sq Sp Sv Sz stepheight'.split()} | {n: (0, 0, 'M') for n in 'Ssk Sku'.split()}
WITH_ARGUMENTS = {'Vmp(5)': (1, 0, 'D'), 'Vmc(20, 70)': (1, 0, 'D'), 'Vvv(60)': (1, 0, 'D'), 'Vvc(20, 70)': (1, 0, 'D'),
                  'Vm(50)': (1, 0, 'D'), 'Vv(50)': (1, 0, 'D'), 'Sxp(10, 60)': (1, 0, 'D'), 'Sdc(20, 70)': (1, 0, 'D')}
SURFACE = {**HEIGHT, **WITH_ARGUMENTS,
           'Sdq': (1, -1, 'G'), 'Sdr': (0, 0, 'T'), 'Sal': (0, 1, 'G'), 'Str': (0, 0, 'G'), 'Ssw': (0, 1, 'G'),
           'Sal(0.5)': (0, 1, 'G'), 'Str(0.5)': (0, 0, 'G'), 'period': (0, 1, 'G'), 'depth': (1, 0, 'A'),
           'aspect_ratio': (1, -1, 'A'), 'cavity_volume': (1, 2, 'D'), 'cavity_volume(0.3)': (1, 2, 'D')}
PROFILE = {n.replace('S', 'R'): e for n, e in {**HEIGHT, **WITH_ARGUMENTS}.items()
           if n not in ('stepheight', 'Sp', 'Sv', 'Sz') and not n.startswith('Vm(') and not n.startswith('Vv(')}
PROFILE |= {'Vm(50)': (1, 0, 'D'), 'Vv(50)': (1, 0, 'D'), 'Rp': (1, 0, 'G'), 'Rv': (1, 0, 'G'), 'Rz': (1, 0, 'G'), 'Rt': (1, 0, 'M'),
            'Rdq': (1, -1, 'G'), 'period': (0, 1, 'G')}
NONLINEAR = {'Sdr'}     # changes with the ratio of heights and lengths

#: pairs exchanged by inversion, (tolerance relative to the range of heights)
INVERTED = {'Sa': ('Sa', 1, 0), 'Sq': ('Sq', 1, 0), 'Sz': ('Sz', 1, 0), 'Sp': ('Sv', 1, 0), 'Sv': ('Sp', 1, 0), 'Ssk': ('Ssk', -1, 0),
            'Sku': ('Sku', 1, 0), 'Sdq': ('Sdq', 1, 0), 'Sdr': ('Sdr', 1, 0), 'Sal': ('Sal', 1, 0), 'Str': ('Str', 1, 0), 'Ssw': ('Ssw', 1, 0),
            'period': ('period', 1, 0), 'stepheight': ('stepheight', 1, 0),
            'Sk': ('Sk', 1, 0.01), 'Spk': ('Svk', 1, 0.01), 'Svk': ('Spk', 1, 0.01), 'Spkx': ('Svkx', 1, 0.01), 'Svkx': ('Spkx', 1, 0.01)}
INVERTED |= {n.replace('S', 'R'): (m.replace('S', 'R'), s, t) for n, (m, s, t) in INVERTED.items() if n in (
    'Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku', 'Sdq', 'Sk', 'Spk', 'Svk', 'Spkx', 'Svkx')} | {'Rt': ('Rt', 1, 0)}


class T:
    """A transformation and its effect: heights x a, lengths x b, offset, parity of mirroring and inversion"""
    def __init__(self, name, func, a=1.0, b=1.0, c=0.0, mirror=0, turn=0, invert=0, order=0):
        self.name, self.func, self.a, self.b, self.c = name, func, a, b, c
        self.mirror, self.turn, self.invert, self.order = mirror, turn, invert, order


def reorder(z):
    """A fixed permutation of all points"""
    flat = z.ravel()
    n = flat.size
    step = next(s for s in range(int(n * 0.618), n) if np.gcd(s, n) == 1)
    return flat[(np.arange(n) * step + 5) % n].reshape(z.shape)


def transformations(kind):
    out = [T('offset 16.5', lambda z, x, y: (z + 16.5, x, y), c=16.5),
           T('offset -900', lambda z, x, y: (z - 900, x, y), c=-900.0),
           T('heights x 3', lambda z, x, y: (z * 3, x, y), a=3.0),
           T('heights x 0.01', lambda z, x, y: (z * 0.01, x, y), a=0.01),
           T('lengths x 4', lambda z, x, y: (z, x * 4, y * 4), b=4.0),
           T('lengths x 0.03', lambda z, x, y: (z, x * 0.03, y * 0.03), b=0.03),
           T('lengths x 2^-29', lambda z, x, y: (z, x * 2.0 ** -29, y * 2.0 ** -29), b=2.0 ** -29),
           T('heights x 2^-25', lambda z, x, y: (z * 2.0 ** -25, x, y), a=2.0 ** -25),
           T('all x 7', lambda z, x, y: (z * 7, x * 7, y * 7), a=7.0, b=7.0),
           T('mirror x', lambda z, x, y: (z[..., ::-1], x, y), mirror=1),
           T('invert', lambda z, x, y: (np.nanmax(z) + np.nanmin(z) - z, x, y), invert=1),
           T('reorder', lambda z, x, y: (reorder(z), x, y), order=1)]
    if kind == 'surface':
        out += [T('mirror y', lambda z, x, y: (z[::-1], x, y), mirror=1),
                T('half turn', lambda z, x, y: (z[::-1, ::-1], x, y), turn=1),
                T('transpose', lambda z, x, y: (z.T, y, x)),
                T('tile', lambda z, x, y: (np.tile(z, (2, 1)), x, y), order=2)]
    else:
        out += [T('tile', lambda z, x, y: (np.tile(z, 2), x, y), order=2)]
    return out


def objects(kind):
    if kind == 'surface':
        return {'generic': (generic(33, 37, seed=7, scale=2, offset=3), 0.5, 0.5),
                'grooves': (grooves(40, 44, 0.5, 0.5, 5.0, angle=12.0, noise=0.2, offset=2.0), 0.5, 0.5),
                'uneven': (grooves(40, 36, 0.5, 0.8, 6.0, angle=30.0, noise=0.2, offset=2.0), 0.5, 0.8),
                'tilted': (generic(36, 31, seed=11, scale=1.0) + np.add.outer(np.arange(36) * 0.11, np.arange(31) * 0.07), 0.7, 0.7)}
    return {'generic': (generic(60, seed=3, scale=2, offset=1), 0.5, None),
            'grooves': (grooves(1, 80, 0.5, 0.5, 5.0, noise=0.2, offset=-4.0)[0], 0.5, None),
            'tilted': (generic(70, seed=12, scale=1.0) + np.arange(70) * 0.05, 0.3, None)}


def make(kind, t):
    from surfalize import Profile, Surface
    z, x, y = t
    z = np.array(z)
    return Surface(z, x, y) if kind == 'surface' else Profile(z, x)


def evaluate(kind, t, names):
    s = make(kind, t)
    out = {}
    for n in names:
        name, _, rest = n.partition('(')
        args = eval('(' + rest[:-1] + ',)') if rest else ()
        v = attempt(getattr(s, name), *args)
        out[n] = v.kind if isinstance(v, Err) else float(v[0] if isinstance(v, tuple) else v)
    return out


def applied(start, word):
    z, x, y = start
    y = 1.0 if y is None else y
    for t in word:
        z, x, y = t.func(z, x, y)
    return z, x, y


def tasks(tier):
    parts = {'surface': 12, 'profile': 3}
    out = []
    for kind in ('surface', 'profile'):
        for label in objects(kind):
            for part in range(parts[kind] * (4 if tier == 'thorough' else 1)):
                out.append((f'{kind} {label} parameters {part}',
                            ('parameters', kind, label, part, parts[kind] * (4 if tier == 'thorough' else 1), tier)))
            out.append((f'{kind} {label} heights', ('heights', kind, label, tier)))
            out.append((f'{kind} {label} operations', ('operations', kind, label, tier)))
        out.append((f'{kind} inversion', ('inversion', kind, tier)))
    out += [(f'direction {i}', ('direction', i, tier)) for i in range(4)]
    out += [('homogeneity', ('homogeneity', tier))]
    return out


def run(rec, name, args):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    globals()['task_' + args[0]](rec, *args[1:])


def words(kind, tier):
    ts = transformations(kind)
    yield from ((t,) for t in ts)
    for t, u in itertools.product(ts, repeat=2):
        if not (t.name == 'heights x 2^-25' and u.c):  # the offset would leave too few digits
            yield t, u
    if tier == 'thorough':
        some = [t for t in ts if t.name in ('offset 16.5', 'heights x 3', 'lengths x 4', 'mirror x', 'transpose', 'invert')]
        yield from itertools.product(some, repeat=3)


def task_parameters(rec, kind, label, part, parts, tier):
    table = SURFACE if kind == 'surface' else PROFILE
    start = objects(kind)[label]
    base = {}
    for i, word in enumerate(words(kind, tier)):
        if i % parts != part:
            continue
        key = f'{kind} {label}: {", ".join(t.name for t in word)}'
        invert = sum(t.invert for t in word) % 2
        any_mirror = any(t.mirror or t.turn for t in word)
        order = max(t.order for t in word)
        a = np.prod([t.a for t in word])
        b = np.prod([t.b for t in word])
        names = [n for n, (_, _, d) in table.items() if not (order == 1 and d not in 'MD') and not (order == 2 and d != 'M') and not (d == 'T' and any_mirror)
                 and not (d == 'A' and any_mirror) and not (n in NONLINEAR and a != b)]
        if invert not in base:
            base[invert] = evaluate(kind, applied(start, [t for t in transformations(kind) if t.invert] if invert else []), table)
        with rec.guard(key, key):
            t = applied(start, word)
            got = evaluate(kind, t, names)
            rec.execution(key)
            rec.state(kind, label, key)
            rng = np.ptp(t[0])
            # rounding of the heights with an offset relative to their range
            noise = 1e-15 * np.max(np.abs(t[0])) / rng + 1e-13 + 1e-15 * sum(abs(u.c) for u in word) / np.ptp(start[0]) * 50
            for n in names:
                ea, eb, dep = table[n]
                v, w = base[invert][n], got[n]
                rec.step()
                if dep == 'A' and noise > 1e-12:
                    continue    # the fit of the depth is sensitive to rounding
                if isinstance(v, str) or isinstance(w, str):
                    rec.check(v == w, f'{key}: {n}', f'{key}: {n} is {w} instead of {v}', key)
                    continue
                want = v * a ** ea * b ** eb
                scale = max(abs(want), abs(rng ** ea if ea else 1.0) * (t[1] ** eb if eb < 2 else t[0].size * t[1] * t[2]))
                rec.check(np.isnan(want) and np.isnan(w) or abs(w - want) <= (1e-9 + 1e4 * noise) * scale, f'{key}: {n}',
                          f'{key}: {n} is {w!r} instead of {want!r} ({v!r} before)', key)
                rec.outcome(n, round(w, 6) if np.isfinite(w) else str(w))


def task_heights(rec, kind, label, tier):
    """Heights and ratios on the material ratio curve"""
    s = 'S' if kind == 'surface' else 'R'
    start = objects(kind)[label]
    z0 = start[0]
    levels = np.linspace(z0.min() - 0.1, z0.max() + 0.1, 23 if tier == 'quick' else 211)
    ratios = np.linspace(0.5, 99.5, 21 if tier == 'quick' else 199)
    curves = {}

    def curve(word):
        z, x, y = applied(start, word)
        o = make(kind, (z, x, y))
        a, c, sign = 1.0, 0.0, 1
        for t in word:
            a, c = a * t.a, c * t.a + t.c
            if t.invert:
                raise AssertionError
        return ([attempt(getattr(o, s + 'mr'), l * a + c) for l in levels], [attempt(getattr(o, s + 'mc'), r) for r in ratios], a, c)

    mr0, mc0, _, _ = curve(())
    for word in words(kind, 'quick'):
        if any(t.invert or t.order == 2 for t in word):
            continue
        key = f'{kind} {label} material ratio: {", ".join(t.name for t in word)}'
        with rec.guard(key, key):
            mr, mc, a, c = curve(word)
            rec.execution(key)
            rng = np.ptp(z0)
            for l, u, v in zip(levels, mr0, mr):
                rec.step()
                ok = (u.kind == v.kind) if isinstance(u, Err) and isinstance(v, Err) else \
                    not isinstance(u, Err) and not isinstance(v, Err) and abs(u - v) <= 1e-6
                rec.check(ok, f'{key}: ratio', f'{key}: material ratio at {l} is {v!r} instead of {u!r}', key)
            # the heights of the curve are relative to the same zero as those given to the ratio or to its highest point
            for r, u, v in zip(ratios, mc0, mc):
                rec.step()
                if isinstance(u, Err) or isinstance(v, Err):
                    rec.check(isinstance(u, Err) and isinstance(v, Err), f'{key}: height', f'{key}: {u!r} {v!r}', key)
                    continue
                rec.check(abs(v - (u * a + c)) <= 1e-9 * a * (rng + abs(c) / a), f'{key}: height',
                          f'{key}: height at {r} % is {v!r} instead of {u * a + c!r}', key)
            rec.state(key)
            rec.outcome(tuple(np.round([v for v in mc if not isinstance(v, Err)], 6)))


def task_inversion(rec, kind, tier):
    for label, start in objects(kind).items():
        for word in itertools.chain([()], ((t,) for t in transformations(kind) if not t.invert and t.order != 2)):
            key = f'{kind} {label} inverted after {", ".join(t.name for t in word) or "nothing"}'
            z, x, y = applied(start, word)
            names = [n for n in INVERTED if n in (SURFACE if kind == 'surface' else PROFILE)]
            with rec.guard(key, key):
                one = evaluate(kind, (z, x, y), names)
                for how in ('heights', 'method'):
                    if how == 'heights':
                        two = evaluate(kind, (z.max() + z.min() - z, x, y), names)
                    else:
                        o = make(kind, (z, x, y)).invert()
                        two = evaluate(kind, (o.data, x, y), names)
                    rec.execution(f'{key} {how}')
                    noise = 1e-9 + 1e-11 * np.max(np.abs(z)) / np.ptp(z)
                    for n in names:
                        if label == 'tilted' and n in ('Rp', 'Rv'):
                            continue    # sections entirely above or below the mean have no valley or peak
                        m, sign, tolerance = INVERTED[n]
                        want = one[m] if isinstance(one[m], str) else sign * one[m]
                        ok = want == two[n] if isinstance(want, str) or isinstance(two[n], str) else \
                            abs(two[n] - want) <= max(tolerance * np.ptp(z), noise * max(abs(want), 1.0, np.ptp(z)))
                        rec.check(ok, f'{key}: {n}', f'{key}: {n} is {two[n]!r} instead of {want!r}', key)
                        rec.step()
                rec.state(key)


def angle(a, b):
    """Distance of two directions in degrees"""
    d = abs(a - b) % 180
    return min(d, 180 - d)


def task_direction(rec, part, tier):
    """The direction of the texture is reversed by mirroring and exchanged by transposition."""
    angles = range(-80, 90, 10) if tier == 'quick' else range(-88, 90, 4)
    for i, (alpha, (x, y)) in enumerate(itertools.product(angles, [(0.5, 0.5), (0.5, 0.8)])):
        if i % 4 != part:
            continue
        z = grooves(48, 52, x, y, 6.0, angle=float(alpha), noise=0.05, offset=1.0)
        for m in ('fft_refined', 'fft'):
            base = attempt(make('surface', (z, x, y)).orientation, m)
            if isinstance(base, Err):
                continue
            tolerance = 1.0 if m == 'fft_refined' else 1e-6
            for t in transformations('surface'):
                if t.order:
                    continue
                key = f'direction {alpha} {x} {y} {m} {t.name}'
                with rec.guard(key, key):
                    v = make('surface', applied((z, x, y), (t,))).orientation(m)
                    want = -base if t.mirror else 90 - base if t.name == 'transpose' else base
                    if t.name == 'transpose' and angle(v, -90 - base) < angle(v, want):
                        want = -90 - base
                    rec.execution(key)
                    rec.check(angle(v, want) <= tolerance, key, f'{key}: orientation {v} instead of {want} ({base} before)', key)
                    rec.state(key)
                    rec.outcome(round(v, 2))


def task_homogeneity(rec, tier):
    for label, start in objects('surface').items():
        for parameters, period in itertools.product([('Sa', 'Sku', 'Sdr'), ('Sa',), ('Sq', 'Sku')], [None, 4.0, 7.5]):
            v = attempt(make('surface', start).homogeneity, parameters, period)
            for word in words('surface', 'quick'):
                a, b = np.prod([t.a for t in word]), np.prod([t.b for t in word])
                if any(t.order or t.mirror or t.turn for t in word) or 'Sdr' in parameters and abs(a - b) > 1e-12 or a < 0.1 or b < 0.1:
                    continue
                key = f'homogeneity {label} {parameters} {period}: {", ".join(t.name for t in word)}'
                with rec.guard(key, key):
                    w = attempt(make('surface', applied(start, word)).homogeneity, parameters, None if period is None else period * b)
                    rec.execution(key)
                    ok = v.kind == w.kind if isinstance(v, Err) and isinstance(w, Err) else \
                        not isinstance(v, Err) and not isinstance(w, Err) and abs(v - w) <= 1.01e-4
                    rec.check(ok, key, f'{key}: {w!r} instead of {v!r}', key)
                    rec.state(key)
                    rec.outcome(w if not isinstance(w, Err) else w.kind)


# -- Operations --------------------------------------------------------------------------------------------------------
def operations(kind, step):
    """(name, function of the object and the lateral scale, what happens to an offset: 'kept' or 'removed', directions)"""
    yield 'center()', lambda s, b: s.center(), 'removed'
    yield 'zero()', lambda s, b: s.zero(), 'removed'
    yield 'invert()', lambda s, b: s.invert(), 'kept'
    for n, m in ((3, 'mean'), (1, 'mean'), (2, 'median'), (1.5, 'median')):
        yield f'remove_outliers({n}, {m})', lambda s, b, n=n, m=m: s.remove_outliers(n, m), 'kept'
    for t in (0.5, 5, (10, 2.5), (0, 30)):
        yield f'threshold({t})', lambda s, b, t=t: s.threshold(t), 'kept'
    for f, c, d in (('lowpass', 6, None), ('highpass', 5, None), ('bandpass', 3, 9), ('lowpass', 2.5, None)):
        for mode in ('reflect', 'mirror', 'nearest', 'wrap') if f != 'bandpass' else ('reflect',):
            yield (f'{f}({c}, {d}, {mode})', lambda s, b, f=f, c=c, d=d, mode=mode:
                   s.filter(f, c * step * b, None if d is None else d * step * b, endeffect_mode=mode),
                   'kept' if f == 'lowpass' else 'removed')
    if kind == 'surface':
        yield 'level()', lambda s, b: s.level(), 'level'
        yield 'stepheight_level()', lambda s, b: s.stepheight_level(), 'level'
        for d in (1, 2, 3):
            yield f'detrend_polynomial({d})', lambda s, b, d=d: s.detrend_polynomial(d), 'level'
        yield 'rotate(90)', lambda s, b: s.rotate(90), 'turned'
        yield 'rotate(180)', lambda s, b: s.rotate(180), 'kept'


def task_operations(rec, kind, label, tier):
    """op(T(s)) = T(op(s))"""
    start = objects(kind)[label]
    z, x, y = start
    holes = z.copy()
    holes.reshape(-1)[[3, z.size // 2, z.size - 2]] = np.nan
    for which, z in (('complete', z), ('incomplete', holes)):
        for name, op, offset in operations(kind, x if y is None else max(x, y)):
            base = attempt(op, make(kind, (z, x, y)), 1.0)
            for word in itertools.chain(((t,) for t in transformations(kind)), itertools.combinations(transformations(kind), 2)):
                ordered = any(t.order for t in word)
                pointwise = name.split('(')[0] in ('center', 'zero', 'invert', 'remove_outliers', 'threshold')
                if ordered and not pointwise or any(t.order == 2 for t in word) and 'outliers' not in name and 'center' not in name:
                    continue
                if any(t.invert for t in word) and name.split('(')[0] in ('zero', 'threshold', 'stepheight_level'):
                    continue
                if offset == 'turned' and any(t.mirror or t.name == 'transpose' for t in word):
                    continue
                if name == 'stepheight_level()' and any(t.name in ('offset -900',) for t in word):
                    continue
                key = f'{kind} {label} {which} {name}: {", ".join(t.name for t in word)}'
                with rec.guard(key, key):
                    t = applied((z, x, y), word)
                    b = np.prod([u.b for u in word])
                    got = attempt(op, make(kind, t), b)
                    rec.execution(key)
                    rec.state(key)
                    if isinstance(base, Err) or isinstance(got, Err):
                        rec.check(isinstance(base, Err) and isinstance(got, Err) and base.kind == got.kind, f'{key}: status',
                                  f'{key}: {got!r} instead of {base!r}', key)
                        continue
                    d = np.asarray(base.data, float)
                    bx, by = (base.step_x, base.step_y) if kind == 'surface' else (base.step, 1.0)
                    wz, wx, wy = applied((d, bx, by), word)
                    if kind == 'profile':
                        wy = 1.0
                    g = np.asarray(got.data, float)
                    # offsets and inversions move the heights by a constant, which removing operations remove
                    scale = np.nanmax(np.abs(t[0])) + np.nanmax(np.abs(z))
                    ok = g.shape == wz.shape and np.array_equal(np.isnan(g), np.isnan(wz))
                    if not rec.check(ok, f'{key}: points', f'{key}: shape {g.shape}, {np.isnan(g).sum()} non-measured instead of '
                                                           f'{wz.shape}, {np.isnan(wz).sum()}', key):
                        continue
                    difference = g - wz
                    moved = any(u.c for u in word) or any(u.invert for u in word)
                    if any(u.invert for u in word) or moved and offset in ('removed', 'level'):
                        shift = np.nanmean(difference)
                        difference = difference - shift
                        if offset == 'removed' and not any(u.invert for u in word):
                            # the result itself does not depend on the offset
                            plain, _, _ = applied((d, bx, by), [u for u in word if not u.c])
                            rec.check(np.nanmax(np.abs(g - plain)) <= 1e-11 * scale, f'{key}: offset',
                                      f'{key}: the result depends on the offset by {np.nanmax(np.abs(g - plain))}', key)
                    rec.check(np.nanmax(np.abs(difference)) <= 1e-10 * scale, f'{key}: heights',
                              f'{key}: heights differ by {np.nanmax(np.abs(difference))}', key)
                    rec.check(np.allclose((got.step_x, got.step_y) if kind == 'surface' else (got.step, 1.0), (wx, wy), rtol=1e-12),
                              f'{key}: steps', f'{key}: steps {got!r} instead of {wx}, {wy}', key)
                    rec.outcome(name, np.round(g / scale, 5))
