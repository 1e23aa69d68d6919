"""C33: only the heights count, not the number type or the memory layout of the array that holds them."""
import itertools
import warnings

import numpy as np

from mc import ops
from mc.util import (Err, PROFILE_CURVE, PROFILE_QUERIES_FAST, SURFACE_CURVE, SURFACE_QUERIES_FAST, SURFACE_QUERIES_SLOW,
                     attempt, call, generic, grooves, is_topography, q, relayout, same, text, view)

PROPERTY = 'C33'
LEVEL = 'model_checking'
RULE = ('whole-numbered heights that every number type can hold x number types (signed, unsigned, single precision, foreign '
        'byte order) x memory layouts x all operations and all pairs of them, as copies and in place, x all parameters, '
        'profiles and views, compared with the same history of an array of double precision in C order')
ASSUMPTIONS = ['single precision: quantities that follow from a choice between values (directions, thresholds) after an operation '
               'that rounds are only compared for the other types']
TASK_LIMIT = 700

EXACT = ['i1', 'u1', '<i2', '>i2', 'u2', 'i4', 'u4', 'i8', 'u8', '>f8']
SINGLE = ['<f4', '>f4']
LAYOUTS = ['C', 'F', 'strided', 'reversed', 'transposed', 'readonly', 'offset']

EXTRA = [q('get_horizontal_profile', 1.0), q('get_vertical_profile', 1.0), q('get_oblique_profile', 0.0, 0.0, 2.0, 2.0),
         q('get_horizontal_profile', 1.0, 3), q('get_abbott_firestone_curve'), q('get_autocorrelation_function'),
         q('get_fourier_transform'), q('roughness_parameters', ['Sa', 'Sdr', 'Sk']), q('__getitem__', (slice(1, 5), slice(0, 4))),
         q('__add__', 1), q('__add__', 0.5), q('__sub__', 3), q('__rsub__', 3), q('__mul__', 2), q('__mul__', -1), q('__mul__', 300),
         q('__truediv__', 2)]
VIEWS = [q('Sa'), q('Sz'), q('Sdr'), q('Sq')]
PVIEWS = [q('Ra'), q('Rt'), q('Rdq'), q('Rq')]


def shapes(kind):
    if kind == 'surface':
        tilt = np.add.outer(2.0 * np.arange(12), 3.0 * np.arange(14)) / 2
        g = grooves(20, 26, 0.5, 0.5, 3.2, angle=14.0, noise=0.2)
        out = [('grooved', g, (0.5, 0.5)), ('generic', generic(8, 11, seed=6) * 4 + tilt[:8, :11] / 10, (0.4, 0.4)),
               ('anisotropic', generic(9, 7, seed=7), (0.3, 0.75))]
        z = np.full((12, 14), 4.0) + 0.1 * generic(12, 14, seed=16)
        z[3:8, 4:10] -= 3
        out.append(('cavity', z, (0.5, 0.5)))
        z = generic(9, 9, seed=3)
        z[4, 4] = 9.0
        out.append(('outlier', z, (0.5, 0.5)))
    else:
        out = [('generic', generic(17, seed=21), (0.4,)), ('wave', np.sin(np.arange(30) / 2.1) + 0.1 * generic(30, seed=2), (0.5,))]
        z = generic(15, seed=3)
        z[7] = 9.0
        out.append(('outlier', z, (0.25,)))
    return [(n, np.round((z - z.min()) / (z.max() - z.min()) * 120 + 3), steps) for n, z, steps in out]


def lay(z, dtype, layout):
    a = z.astype(dtype)
    if layout == 'transposed':
        return a.T.copy().T
    if layout == 'offset':      # not aligned to the size of the numbers
        raw = bytearray(b'x' + a.tobytes())
        return np.frombuffer(raw, dtype=a.dtype, offset=1).reshape(a.shape)
    return relayout(a, layout)


def variants(tier, single=True):
    some = dict.fromkeys(['<f8', 'u1', '>f8', 'i4'], LAYOUTS) if tier == 'thorough' else {'<f8': LAYOUTS, 'u1': ['C', 'strided'],
                                                                                        '>f8': ['C', 'F']}
    out = [(d, l) for d in ['<f8'] + EXACT + (SINGLE if single else []) for l in some.get(d, ['C'])]
    return [v for v in out if v != ('<f8', 'C')]


def make(kind, z, steps):
    from surfalize import Profile, Surface
    return Surface(z, *steps) if kind == 'surface' else Profile(z, *steps)


def tasks(tier):
    out = []
    for kind in ('surface', 'profile'):
        for i, (name, _, _) in enumerate(shapes(kind)):
            for d, l in variants(tier):
                out.append((f'{kind} {name} {d} {l} parameters', ('parameters', kind, i, d, l, tier)))
            for k in range(4):
                out.append((f'{kind} {name} pairs part {k}', ('pairs', kind, i, k, tier)))
    return out


def picture(x):
    """What can be seen of a result"""
    if isinstance(x, Err):
        return 'raised'
    if type(x).__name__ == 'AbbottFirestoneCurve':
        return tuple(view(attempt(getattr(x, n))) for n in ('k', 'pk', 'vk', 'mr1', 'mr2'))
    if type(x).__name__ == 'AutocorrelationFunction':
        return tuple(view(attempt(getattr(x, n))) for n in ('Sal', 'Str'))
    if type(x).__name__ == 'FourierTransform':
        return tuple(view(attempt(getattr(x, n))) for n in ('period', 'period_x_y', 'orientation', 'angular_power_spectrum'))
    return view(x)


_reference = {}


def queries(kind):
    return (SURFACE_QUERIES_FAST + SURFACE_CURVE + SURFACE_QUERIES_SLOW + EXTRA) if kind == 'surface' \
        else PROFILE_QUERIES_FAST + PROFILE_CURVE


def parameters(rec, kind, i, dtype, layout, tier):
    """All parameters, then all operations with the parameters of the result."""
    name, z, steps = shapes(kind)[i]
    rtol = 2e-4 if dtype[-2:] == 'f4' else 1e-9
    operations = ops.SURFACE_OPS if kind == 'surface' else ops.PROFILE_OPS
    label = f'{kind} {name} {dtype} {layout}'
    before = z.astype(dtype)
    t = make(kind, lay(z, dtype, layout), steps)
    for spec in queries(kind):
        if dtype[-2:] == 'f4' and spec[0] == 'orientation':
            continue
        case = f'{label}: {text(spec)}'
        rec.execution(case)
        with rec.guard('parameter', case):
            key = (kind, i, text(spec))
            if key not in _reference:
                _reference[key] = picture(attempt(call, make(kind, z.copy(), steps), spec))
            a, b = _reference[key], picture(attempt(call, t, spec))
            rec.step(2)
            rec.check(same(a, b, rtol, rtol * 1e-2 if rtol > 1e-6 else 1e-12), f'parameter {spec[0]} {dtype[-2:]}',
                      f'{b!r:.300} instead of {a!r:.300}', case)
            rec.outcome(repr(a)[:400])
    rec.check(np.array_equal(np.asarray(t.data), before), 'parameter:changed', 'the heights were changed', label)
    rec.state(kind, name, dtype, layout)
    for spec in operations:
        for inplace in (False, True):
            case = f'{label}: {text(spec)} inplace {inplace}'
            rec.execution(case)
            with rec.guard('operation', case):
                key = (kind, i, text(spec), inplace)
                if key not in _reference:
                    _reference[key] = operate(kind, z.copy(), steps, spec, inplace)
                if dtype[-2:] == 'f4' and spec[0] in ('align', 'stepheight_level', 'threshold', 'remove_outliers'):
                    continue
                a = _reference[key]
                b = operate(kind, lay(z, dtype, layout), steps, spec, inplace)
                if dtype[-2:] == 'f4':
                    a, b = a[:2], b[:2]
                rec.step(2)
                rec.check(same(a, b, rtol * 10 if rtol > 1e-6 else 1e-8, 1e-3 if rtol > 1e-6 else 1e-9),
                          f'operation {spec[0]} {dtype[-2:]}', f'{b!r:.400} instead of {a!r:.400}', case)
                rec.state(kind, name, text(spec), dtype, layout)


def operate(kind, z, steps, spec, inplace):
    t = make(kind, z, steps)
    r = attempt(call, t, (spec[0], spec[1], dict(spec[2], inplace=inplace)))
    if isinstance(r, Err):
        return ('raised', view(t))
    kept = view(t) if not inplace else None
    return view(r if not inplace else t), kept, \
        tuple(picture(attempt(call, r, s)) for s in (VIEWS if kind == 'surface' else PVIEWS))


def pairs(rec, kind, i, part, tier):
    """Two operations one after the other"""
    name, z, steps = shapes(kind)[i]
    operations = ops.SURFACE_OPS if kind == 'surface' else ops.PROFILE_OPS
    if tier == 'quick':     # one of each kind
        seen = {}
        for spec in operations:
            seen.setdefault(spec[0], []).append(spec)
        operations = [s for v in seen.values() for s in v[:2]]
    chosen = [('u1', 'C'), ('i4', 'F'), ('>f8', 'strided'), ('u8', 'reversed')] if tier == 'quick' \
        else [(d, l) for d in EXACT for l in ('C', 'F', 'strided')]
    for first, second in list(itertools.product(operations, repeat=2))[part::4]:
        for inplace in (False, True):
            def history(z):
                t = make(kind, z, steps)
                out = []
                for spec in (first, second):
                    r = attempt(call, t, (spec[0], spec[1], dict(spec[2], inplace=inplace)))
                    out.append('raised' if isinstance(r, Err) else 'done')
                    if is_topography(r) and not inplace:
                        t = r
                out.append(view(t))
                return tuple(out)
            with rec.guard('pair', f'{kind} {name}'):
                a = history(z.copy())
                for dtype, layout in chosen:
                    case = f'{kind} {name} {dtype} {layout}: {text(first)} then {text(second)} inplace {inplace}'
                    rec.execution(case)
                    b = history(lay(z, dtype, layout))
                    rec.step(4)
                    rec.check(same(a, b, 1e-7, 1e-8), f'pair {first[0]} {second[0]} {dtype}', f'{b!r:.300} instead of {a!r:.300}',
                              case)
            rec.state(kind, name, text(first), text(second), inplace)


def run(rec, _, args):
    warnings.simplefilter('ignore')
    if args[0] == 'parameters':
        parameters(rec, *args[1:])
    else:
        pairs(rec, *args[1:])
