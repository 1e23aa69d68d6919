"""C06: centring, zeroing, inverting and levelling do exactly what they promise."""
import itertools

import numpy as np

from mc import ref, util
from mc.util import Err, attempt, generic, masks, relayout, same

PROPERTY = 'C06'
LEVEL = 'model_checking'
RULE = ('all shapes up to the bound x offsets x scales x number types and layouts x small sets of non-measured points x '
        'step sizes x operations and polynomial degrees, as copy, in place and with the trend; and all matrices over '
        'a small alphabet for a fixed shape')

SHAPES = {'quick': [(1, 1), (1, 5), (6, 1), (2, 2), (2, 5), (4, 3), (5, 5), (5, 9), (7, 4)],
          'thorough': [(a, b) for a in (1, 2, 3, 4, 5, 7, 10) for b in (1, 2, 3, 5, 6, 9)]}
LENGTHS = {'quick': [1, 2, 3, 5, 8, 17], 'thorough': [1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 17, 40]}
SCALES = [(1.0, 0.0), (1e-3, 5.0), (1.0, -3000.0), (1e4, 0.0), (1e-6, 1.0)]
KINDS = [('float64', 'C'), ('float64', 'F'), ('float64', 'strided'), ('float64', 'readonly'), ('int32', 'C'),
         ('float32', 'C')]
STEPS = [(0.5, 0.5), (0.1, 2.0)]


def make(z, steps):
    from surfalize import Profile, Surface
    return Surface(z, *steps) if z.ndim == 2 else Profile(z, steps[0])


def tasks(tier):
    out = [(f'surface {s}', ('shape', s, tier)) for s in SHAPES[tier]]
    out += [(f'profile {n}', ('shape', (n,), tier)) for n in LENGTHS[tier]]
    out += [(f'alphabet {shape}', ('alphabet', shape, tier))
            for shape in ([(2, 3), (3, 2), (6,)] if tier == 'quick' else [(2, 4), (4, 2), (3, 3), (9,), (8,)])]
    return out


def run(rec, name, args):
    mode, shape, tier = args
    if mode == 'alphabet':
        for values in itertools.product((0.0, 1.0, 3.0), repeat=int(np.prod(shape))):
            z = np.array(values).reshape(shape)
            simple(rec, f'{shape} {values}', z, STEPS[0], 1e-12)
            if tier == 'thorough' or sum(values) % 3 == 0:
                trends(rec, f'{shape} {values}', z, STEPS[0], 1e-8, (1, 2))
        return
    n = int(np.prod(shape))
    base = generic(*shape, seed=sum(shape) + 40) if len(shape) == 2 else generic(shape[0], seed=41 + shape[0])
    for (scale, offset), (dtype, layout), steps in itertools.product(SCALES, KINDS, STEPS):
        if dtype == 'int32' and scale < 1:
            continue
        z = base * scale + offset
        if dtype == 'int32':
            z = (base * 1000 * scale + offset).astype(dtype)
        z = relayout(z.astype(dtype), layout)
        # single precision heights are processed in single precision
        tol = 1e-9 if dtype != 'float32' else 1e-5
        tol_trend = 1e-8 if dtype != 'float32' else 1e-4
        key = f'{shape} scale {scale} offset {offset} {dtype} {layout} steps {steps}'
        simple(rec, key, z, steps, tol)
        if layout in ('C', 'F'):
            trends(rec, key, z, steps, tol_trend, (1, 2, 3))
        if layout == 'F' and scale == 1:
            trends(rec, key, z, steps, tol_trend, (0, 4, 5, 6))
    # non-measured points at every position and pair of positions
    pairs = 2 if n <= 25 else 1
    for scale, offset in SCALES[:3]:
        for mask in masks(shape, max_missing=pairs if tier == 'thorough' or n <= 12 else 1):
            if mask.all() or not mask.any():
                continue
            z = base * scale + offset
            z[mask] = np.nan
            key = f'{shape} scale {scale} offset {offset} missing {np.flatnonzero(mask).tolist()}'
            simple(rec, key, z, STEPS[0], 1e-9)
            trends(rec, key, z, STEPS[1], 1e-8, (1, 2, 3) if scale != 1 or offset else (1, 2, 3, 4, 5))


def variants(rec, k, z, steps, func):
    """Yields (label, result) of the copying and the in-place variant; checks source, identity and geometry."""
    for inplace in (False, True):
        label = f'{k} inplace={inplace}'
        t = make(z.copy(order='K') if z.flags.writeable else z, steps)
        r = attempt(func, t, inplace)
        rec.step()
        if isinstance(r, Err):
            rec.fail(label + ':rejected', f'{label}: {r!r}', label)
            continue
        first = r[0] if isinstance(r, tuple) else r
        rec.check((first is t) == inplace, label + ':identity', label, label)
        if not inplace:
            rec.check(np.array_equal(t.data, z, equal_nan=True), label + ':source', f'{label}: source changed', label)
        ref_t = make(z.copy(), steps)
        same_size = (first.data.shape == z.shape and
                     ((first.step_x, first.step_y, first.width_um, first.height_um) ==
                      (ref_t.step_x, ref_t.step_y, ref_t.width_um, ref_t.height_um) if z.ndim == 2 else
                      (first.step, first.length_um) == (ref_t.step, ref_t.length_um)))
        rec.check(same_size, label + ':geometry', f'{label}: geometry changed', label)
        yield label, r
    rec.execution(k)


def simple(rec, key, z, steps, tol):
    zf = z.astype(float)
    m = ref.measured(zf)
    size = max(np.abs(m).max(), 1e-300)
    rec.state(key)
    with rec.guard(key):
        for name, want, invariant in (('center', zf - m.sum() / m.size, None), ('zero', zf - m.min(), None),
                                      ('invert', m.max() + m.min() - zf, None)):
            k = f'{key}: {name}()'
            for label, r in variants(rec, k, z, steps, lambda t, inplace: getattr(t, name)(inplace=inplace)):
                got = np.array(r.data, dtype=float)
                rec.check(same(got, want, 0, tol * size), label, lambda: f'{label}: {got.tolist()}, expected '
                          f'{want.tolist()}', label)
                g = got[~np.isnan(got)]
                if g.size != m.size:
                    continue
                if name == 'center':
                    rec.check(abs(g.mean()) <= tol * size, label + ':mean', f'{label}: mean {g.mean()}', label)
                elif name == 'zero':
                    rec.check(g.min() == 0, label + ':minimum', f'{label}: minimum {g.min()}', label)
                else:
                    rec.check(abs(g.min() - m.min()) <= tol * size and abs(g.max() - m.max()) <= tol * size,
                              label + ':extrema', f'{label}: extrema {g.min()}, {g.max()}', label)


def trends(rec, key, z, steps, tol, degrees):
    zf = z.astype(float)
    m = ref.measured(zf)
    size = max(np.abs(m).max(), 1e-300)
    for degree in degrees:
        residual, trend, condition = ref.detrended(zf, degree)
        if condition > 1e4:
            continue
        names = [('detrend_polynomial', (degree,))] + ([('level', ()), ('detrend_polynomial', ())] if degree == 1 else [])
        for name, args in names:
            for with_trend in (False, True):
                k = f'{key}: {name}{args} return_trend={with_trend}'
                with rec.guard(k):
                    for label, r in variants(rec, k, z, steps, lambda t, inplace: getattr(t, name)(
                            *args, inplace=inplace, return_trend=with_trend)):
                        if with_trend:
                            if not (isinstance(r, tuple) and len(r) == 2):
                                rec.fail(label + ':result', f'{label}: {r!r}', label)
                                continue
                            r, tr = r
                            rec.check(util.geometry(tr) == util.geometry(make(z.copy(), steps)), label + ':trend geometry',
                                      f'{label}: geometry of the trend {util.geometry(tr)}', label)
                            t = np.array(tr.data, dtype=float)
                            total = np.array(r.data, dtype=float) + t
                            rec.check(same(total, zf, 0, tol * size), label + ':sum', f'{label}: trend and result do '
                                      f'not add up to the original', label)
                            rec.check(not np.isnan(t).any(), label + ':trend', f'{label}: {t.tolist()}', label)
                            if trend is not None:
                                top = max(size, np.abs(trend).max())
                                rec.check(same(t, trend, 0, 1e3 * tol * top), label + ':continuation',
                                          lambda: f'{label}: trend {t.tolist()}, expected {trend.tolist()}', label)
                        elif isinstance(r, tuple):
                            rec.fail(label + ':result', f'{label}: {r!r}', label)
                            continue
                        got = np.array(r.data, dtype=float)
                        rec.check(same(got, residual, 0, tol * size), label, lambda: f'{label}: {got.tolist()}, '
                                  f'expected {residual.tolist()}', label)
