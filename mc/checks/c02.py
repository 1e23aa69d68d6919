"""C02: objects derived from a topography share no state with it."""
import copy
import itertools

import numpy as np

from mc import ops
from mc.util import Err, attempt, call, fresh, geometry, is_topography, q, same, text, view

PROPERTY = 'C02'
LEVEL = 'model_checking'
RULE = ('all histories (evaluate parameters; derive an object; edit source or result; evaluate again) over the alphabet '
        'of derivations x edits x direction, and chains of two derivations')
ASSUMPTIONS = ['heights come from a fixed alphabet of surfaces and profiles']

S = slice
SURFACE_SLICES = [np.s_[:], np.s_[:, :], np.s_[...], np.s_[1:4], np.s_[:, 2:5], np.s_[::2, ::3], np.s_[::-1],
                  np.s_[:, ::-1], np.s_[2:3, 1:6], np.s_[-4:, :-1]]
QUERIES = {
    'surface': [q('Sa'), q('Sz'), q('height_parameters'), q('Sdr'), q('Sdq'), q('projected_area'), q('surface_area'),
                q('Sal', 0.4), q('Ssw'), q('Std'), q('period'), q('orientation', 'fft'), q('stepheight'),
                q('cavity_volume'), q('min'), q('mean'), q('std')],
    'profile': [q('Ra'), q('Rz'), q('Rp', 2), q('Rdq'), q('Rsk'), q('min'), q('median')],
}
CURVE = {'surface': [q('Sk'), q('Smc', 20), q('Vmp')], 'profile': [q('Rk'), q('Rmc', 20), q('Vmp')]}


def derivations(kind):
    out = []
    for spec in ops.SURFACE_OPS if kind == 'surface' else ops.PROFILE_OPS:
        out.append((text(spec), lambda t, spec=spec: call(t, spec)))
    for spec in (q('level', return_trend=True), q('detrend_polynomial', 2, return_trend=True)):
        for n in (0, 1):
            out.append((f'{text(spec)}[{n}]', lambda t, spec=spec, n=n: call(t, spec)[n]))
    for n in (0, 1):
        out.append((f'filter both[{n}]', lambda t, n=n: t.filter('both', 2.0)[n]))
    if kind == 'surface':
        for s in SURFACE_SLICES:
            out.append((f'slice {s}', lambda t, s=s: t[s]))
        for label, f in (('s + 0', lambda t: t + 0), ('0 + s', lambda t: 0 + t), ('s - 1.5', lambda t: t - 1.5),
                         ('2 - s', lambda t: 2 - t), ('s * 1', lambda t: t * 1), ('3.0 * s', lambda t: 3.0 * t),
                         ('s / 1', lambda t: t / 1), ('s + s', lambda t: t + t), ('s - s/2', lambda t: t - t / 2),
                         ('s * s', lambda t: t * t)):
            out.append((label, f))
        out += [
            ('horizontal profile', lambda t: t.get_horizontal_profile(t.step_y)),
            ('horizontal profile, 3', lambda t: t.get_horizontal_profile(t.height_um / 2, average=3)),
            ('vertical profile', lambda t: t.get_vertical_profile(t.step_x)),
            ('vertical profile, edge', lambda t: t.get_vertical_profile(0, average=2)),
            ('oblique profile', lambda t: t.get_oblique_profile(0, 0, t.width_um, t.height_um)),
            ('oblique profile along row', lambda t: t.get_oblique_profile(0, t.step_y, t.width_um, t.step_y)),
            ('constructor with data', lambda t: type(t)(t.data, t.step_x, t.step_y)),
        ]
    else:
        out += [('constructor with data', lambda t: type(t)(t.data, t.step))]
    out += [('data assignment', assign_data)]
    return out


def assign_data(t):
    """An existing object receives the data of the source."""
    other = fresh(t)
    other.data = t.data
    return other


def set_all(t):
    t[...] = 7.25


def set_part(t):
    t[0] = t.data[0] + 3.5


def add_mask(t):
    t[t.data < t.mean()] = t.max() + 1


def assign(t):
    t.data = np.full(t.data.shape, 2.5)


def edits(kind):
    out = [('t[...] = 7.25', set_all), ('t[0] += 3.5', set_part), ('t[t.data < mean] = max + 1', add_mask),
           ('t.data = const; t[...] = 7.25', lambda t: (assign(t), set_all(t))),
           ('t.data = t.data; t[0] += 3.5', lambda t: (setattr(t, 'data', t.data), set_part(t)))]
    specs = [q('center'), q('zero'), q('invert'), q('level'), q('threshold', (10, 10)), q('remove_outliers', 1.2),
             q('fill_nonmeasured'), q('filter', 'lowpass', 2.0), q('filter', 'bandpass', 1.0, 4.0), q('zoom', 1),
             q('zoom', 1.5), q('detrend_polynomial', 2)]
    if kind == 'surface':
        specs += [q('crop', (0, 2, 0, 2), in_units=False), q('rotate', 0), q('rotate', 90), q('stepheight_level'),
                  q('align')]
    else:
        specs += [q('crop', (0, 3), in_units=False)]
    for spec in specs:
        def f(t, spec=spec):
            attempt(call, t, (spec[0], spec[1], dict(spec[2], inplace=True)))
            if t.data.size:
                set_part(t)
        out.append((f'{text(spec)} in place; t[0] += 3.5', f))
    return out


def inputs(kind):
    return [e for e in (ops.surfaces() if kind == 'surface' else ops.profiles()) if e[0] != 'int']


def tasks(tier):
    out = []
    for kind in ('surface', 'profile'):
        for i, entry in enumerate(inputs(kind)):
            n = len(derivations(kind))
            if tier == 'quick' and entry[0] in ('anisotropic', 'tall', 'fortran', 'grooved', 'aligned'):
                continue
            for a in range(0, n, 12):
                out.append((f'{kind} {entry[0]} {a}', ('single', kind, i, a, min(n, a + 12))))
            if entry[0] in ('generic', 'float32', 'readonly') or tier != 'quick':
                out.append((f'{kind} {entry[0]} curves', ('curves', kind, i)))
            if tier == 'thorough' or entry[0] == 'generic':
                for a in range(0, n, 6):
                    out.append((f'{kind} {entry[0]} chains {a}', ('chains', kind, i, a, min(n, a + 6))))
    return out


CURVES = {
    'get_abbott_firestone_curve': ('k', 'pk', 'vk', 'pkx', 'vkx', 'ak1', 'ak2', 'mr1', 'mr2', 'vmp', 'vmc', 'vvv', 'vvc', 'dc',
                                   ('mr', 0.05), ('mc', 30)),
    'get_autocorrelation_function': ('Sal', 'Str', ('Sal', 0.5), 'data'),
    'get_fourier_transform': ('period', 'period_x_y', 'orientation', 'dominant_wavelength', 'angular_power_spectrum'),
}


def ask(x, name):
    name, *args = name if isinstance(name, tuple) else (name,)
    v = attempt(getattr, x, name)
    return view(attempt(v, *args) if callable(v) else v)


def task_curves(rec, kind, index):
    """A curve or spectrum describes the heights it was derived from, whatever was asked of it before they were edited"""
    entry = inputs(kind)[index]
    for getter, names in CURVES.items():
        def make():
            src = ops.build(kind, entry)
            return src, attempt(lambda: getattr(src, getter)())
        src, x = make()
        if isinstance(x, Err):
            continue
        want = {n: ask(x, n) for n in names}
        for (en, edit), early in itertools.product(edits(kind), [None, *names]):
            key = f'{kind} {entry[0]}: {getter}, {early}, {en} on the source'
            src, x = make()
            if early is not None:
                ask(x, early)
            attempt(edit, src)
            rec.execution(key)
            rec.state(entry[0], getter, early, en)
            for n in names:
                got = ask(x, n)
                rec.check(same(got, want[n], 1e-12), f'{key}: {n}', lambda: f'{key}: {n} is now {got} instead of {want[n]}', key)
                rec.step()


def observe(kind, t, curve=False):
    """Everything a user can see of an object: heights, dimensions, parameters."""
    if t.data.size == 0:
        return (np.array(t.data, float), geometry(t), ())
    k = 'surface' if t.data.ndim == 2 else 'profile'
    values = tuple(view(attempt(call, t, s)) for s in QUERIES[k] + (CURVE[k] if curve else []))
    return (np.array(t.data, float), geometry(t), values)


def intact(a, b):
    return np.array_equal(a[0], b[0], equal_nan=True) and same(a[1], b[1], 0) and same(a[2], b[2], 1e-12)


def derive(rec, kind, key, src, f):
    """Derives an object and checks that deriving changed nothing and that the result is a valid object."""
    before = observe(kind, src)
    out = attempt(f, src)
    rec.step()
    if isinstance(out, Err):
        return None
    if not is_topography(out):
        rec.fail(key + ':type', f'{key} returned {out!r}', key)
        return None
    rec.check(out is not src, key + ':same object', f'{key} returned its source', key)
    rec.check(intact(before, observe(kind, src)), key + ':derive', f'{key} changed its source', key)
    return out


def run(rec, name, args):
    if args[0] == 'curves':
        return task_curves(rec, *args[1:])
    mode, kind, i, a, b = args
    entry = inputs(kind)[i]
    ders = derivations(kind)
    for label, f in ders[a:b]:
        if mode == 'single':
            explore(rec, kind, entry, [(label, f)], edits(kind))
            if entry[0] in ('generic', 'cavity', 'missing', 'float32'):
                explore(rec, kind, entry, [(label, f)], edits(kind)[:1], curve=True)
        else:
            second = ders if kind == 'surface' else ders
            for label2, g in second:
                explore(rec, kind, entry, [(label, f), (label2, g)], edits(kind)[:1])


def explore(rec, kind, entry, chain, eds, curve=False):
    label = ' -> '.join(c[0] for c in chain)
    for edit_label, edit in eds:
        for direction in range(len(chain) + 1):
            key = f'{kind}:{entry[0]}:{label}:{edit_label}:{direction}'
            with rec.guard(key):
                objects = [ops.build(kind, entry)]
                observe(kind, objects[0], curve)
                for _, f in chain:
                    nxt = derive(rec, kind, key, objects[-1], f)
                    if nxt is None or (len(chain) > 1 and nxt.data.size == 0):
                        break
                    objects.append(nxt)
                if len(objects) <= len(chain):
                    rec.execution()
                    break
                target = objects[direction]
                if target.data.size == 0:
                    continue
                # parameters of derived objects must be their own, whatever has been evaluated before
                for o in objects[1:]:
                    if o.data.size and edit is eds[0][1] and direction == 0:
                        rec.check(same(observe(kind, o, curve)[2], observe(kind, fresh(o), curve)[2], 1e-7, 1e-12),
                                  key + ':parameters', f'parameters of the object derived by {label} differ from those '
                                  f'of a new object with the same data', key)
                before = [observe(kind, o, curve) for o in objects]
                try:
                    edit(target)
                except Exception as exc:
                    rec.fail(key + ':editable', f'object {direction} of chain {label} cannot be edited by '
                                                f'{edit_label}: {exc!r}', key)
                    continue
                rec.step()
                for n, o in enumerate(objects):
                    if n == direction:
                        continue
                    after = observe(kind, o, curve)
                    rec.check(intact(before[n], after), key,
                              lambda: f'editing object {direction} ({edit_label}) of the chain {label} changed object '
                                      f'{n}: {before[n][0]!r} {before[n][1]} -> {after[0]!r} {after[1]}', key)
                rec.state(before[direction][0], np.array(target.data, float))
                rec.outcome(np.array(target.data, float), label)
            rec.execution(key)
