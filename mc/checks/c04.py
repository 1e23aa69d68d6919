"""C04: cropping, zooming and slicing keep exactly the selected points and the scale."""
import itertools

import numpy as np

from mc import ops
from mc.util import Err, attempt, call, close, geometry, text

PROPERTY = 'C04'
LEVEL = 'model_checking'
RULE = ('all crop boxes (in points and in length units, on, next to and between grid positions), zoom factors and slices '
        'of all shapes up to the bound, equal and unequal step sizes, in place and as copy, and chains of two')
ASSUMPTIONS = ['positions are kept away from exact half points, where rounding is a matter of convention']

SHAPES = {'quick': [(1, 1), (1, 4), (3, 1), (3, 4), (5, 3), (4, 6)],
          'thorough': [(1, 1), (1, 4), (3, 1), (3, 4), (5, 3), (4, 6), (6, 6), (7, 4), (5, 8), (8, 5)]}
STEPS = {'quick': [(0.5, 0.5), (0.3, 0.7), (1.37, 0.0125)],
         'thorough': [(0.5, 0.5), (0.3, 0.7), (1.37, 0.0125), (0.1, 0.1), (1 / 3, 1 / 7), (25.0, 2.5)]}
SIZES = {'quick': [1, 2, 3, 5, 8, 11], 'thorough': [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 16]}
FACTORS = [1, 1.0, 1.1, 1.25, 1.5, 1.9, 2, 2.0, 2.5, 3, 4, 7.5]
SLICES = [slice(None), slice(0, 2), slice(1, None), slice(None, -1), slice(None, None, 2), slice(1, None, 2),
          slice(None, None, 3), slice(None, None, -1), slice(None, None, -2), slice(-2, None), slice(3, 0, -1),
          slice(0, 1)]


def heights(ny, nx):
    # every height identifies its point
    return (np.arange(ny)[:, None] * 100.0 + np.arange(nx)[None, :]) + 0.5


def make(ny, nx, sx, sy):
    from surfalize import Surface
    return Surface(heights(ny, nx), sx, sy)


def tasks(tier):
    out = []
    for shape in SHAPES[tier]:
        for n, steps in enumerate(STEPS[tier]):
            out.append((f'crop px {shape} {steps}', ('crop_px', shape, steps, tier)))
            if shape[0] * shape[1] <= 24 or tier == 'thorough':
                out.append((f'crop um {shape} {steps}', ('crop_um', shape, steps, tier)))
            out.append((f'zoom {shape} {steps}', ('zoom', shape, steps, tier)))
            out.append((f'slice {shape} {steps}', ('slice', shape, steps, tier)))
            if n < 2:
                out.append((f'chain {shape} {steps}', ('chain', shape, steps, tier)))
    for size in SIZES[tier]:
        out.append((f'profile {size}', ('profile', size, None, tier)))
    for kind, table in (('surface', ops.surfaces()), ('profile', ops.profiles())):
        for i, entry in enumerate(table):
            out.append((f'extents {kind} {entry[0]}', ('extents', (kind, i), None, tier)))
    for shape in SHAPES[tier]:
        out.append((f'extracted {shape}', ('extracted', shape, None, tier)))
    return out


# -- reference model: index sets ---------------------------------------------------------------------------------------

def want_crop(ny, nx, x0, x1, y0, y1):
    """None if the box exceeds the surface; array rows y0..y1, columns x0..x1 inclusive."""
    if x0 < 0 or y0 < 0 or x1 > nx - 1 or y1 > ny - 1:
        return None
    return [r for r in range(ny) if y0 <= r <= y1], [c for c in range(nx) if x0 <= c <= x1]


def window(n, factor):
    m = int(n / factor)
    start = (n - m) // 2
    return [i for i in range(n) if start <= i <= start + m]


def verify(rec, key, t, result, rows, cols, sx, sy, inplace):
    """result holds exactly the given rows and columns of the data before (passed as t's data copy)."""
    want = t[np.ix_(rows, cols)]
    rec.outcome(want)
    got = np.array(result.data)
    ok = got.shape == want.shape and np.array_equal(got, want)
    rec.check(ok, key + ':heights', lambda: f'{key}: heights {got.tolist()}, expected {want.tolist()}', key)
    g = (float(result.step_x), float(result.step_y), float(result.width_um), float(result.height_um))
    ny, nx = got.shape
    w = (sx, sy, (nx - 1) * sx, (ny - 1) * sy)
    rec.check(all(close(a, b, 1e-12) for a, b in zip(g, w)), key + ':geometry',
              f'{key}: step_x, step_y, width, height are {g}, expected {w}', key)
    size = result.size
    rec.check((size.y, size.x) == got.shape and tuple(size) == got.shape, key + ':size', f'{key}: size {size}', key)


def apply(rec, key, ny, nx, sx, sy, name, args, kwargs, expected):
    """expected: None (ValueError) or (rows, columns)."""
    for inplace in (False, True):
        t = make(ny, nx, sx, sy)
        k = f'{key} inplace={inplace}'
        with rec.guard(k):
            before = np.array(t.data)
            r = attempt(getattr(t, name), *args, inplace=inplace, **kwargs)
            rec.step()
            if expected is None:
                rec.check(isinstance(r, Err) and r.kind == 'ValueError', k + ':accepted', f'{k}: {r!r}', k)
                rec.check(np.array_equal(before, t.data), k + ':unchanged', f'{k}: data changed', k)
            elif isinstance(r, Err):
                rec.fail(k + ':rejected', f'{k}: {r!r}', k)
            else:
                verify(rec, k, before, r, *expected, sx, sy, inplace)
                if not inplace:
                    verify(rec, k + ':source', before, t, list(range(ny)), list(range(nx)), sx, sy, inplace)
                else:
                    rec.check(r is t, k + ':self', f'{k} returned another object', k)
        rec.execution(k)


def run(rec, name, args):
    mode, shape, steps, tier = args
    if mode == 'profile':
        return profile(rec, shape, tier)
    if mode == 'extents':
        return extents(rec, *shape, tier)
    if mode == 'extracted':
        return extracted(rec, *shape, tier)
    ny, nx = shape
    sx, sy = steps
    base = f'{ny}x{nx} steps {sx:.4g},{sy:.4g}'
    if mode == 'crop_px':
        for x0, x1 in itertools.product(range(-1, nx + 1), repeat=2):
            for y0, y1 in itertools.product(range(-1, ny + 1), repeat=2):
                if x1 < x0 or y1 < y0:
                    continue
                apply(rec, f'{base}: crop(({x0}, {x1}, {y0}, {y1}), in_units=False)', ny, nx, sx, sy, 'crop',
                      ((x0, x1, y0, y1),), dict(in_units=False), want_crop(ny, nx, x0, x1, y0, y1))
    elif mode == 'crop_um':
        offsets = (0.0, 0.4, -0.4) if tier == 'thorough' or nx * ny <= 12 else (0.0, 0.45)
        for x0, x1 in itertools.combinations_with_replacement(range(0, nx + 1), 2):
            for y0, y1 in itertools.combinations_with_replacement(range(0, ny + 1), 2):
                for dx, dy in itertools.product(offsets, repeat=2):
                    box = ((x0 + dx) * sx, (x1 - dx) * sx, (y0 - dy) * sy, (y1 + dy) * sy)
                    rows = want_crop(ny, nx, x0, x1, ny - 1 - y1, ny - 1 - y0)
                    apply(rec, f'{base}: crop({box})', ny, nx, sx, sy, 'crop', (box,), {}, rows)
        for box in ((-0.6 * sx, nx * sx - sx, 0, sy), (0, 0, -0.6 * sy, 0), (0, (nx - 0.4) * sx, 0, 0),
                    (0, 0, 0, (ny - 0.4) * sy)):
            apply(rec, f'{base}: crop({box})', ny, nx, sx, sy, 'crop', (box,), {},
                  None)
    elif mode == 'zoom':
        for f in FACTORS:
            apply(rec, f'{base}: zoom({f})', ny, nx, sx, sy, 'zoom', (f,), {}, (window(ny, f), window(nx, f)))
    elif mode == 'slice':
        for item in [(s,) for s in SLICES] + list(itertools.product(SLICES, repeat=2)):
            slice_case(rec, base, ny, nx, sx, sy, item)
    elif mode == 'chain':
        chain(rec, base, ny, nx, sx, sy)


def slice_case(rec, base, ny, nx, sx, sy, item):
    rows = list(range(ny))[item[0]]
    cols = list(range(nx))[item[1]] if len(item) == 2 else list(range(nx))
    if not rows or not cols:
        return
    k = f'{base}: {item}'
    with rec.guard(k):
        t = make(ny, nx, sx, sy)
        before = np.array(t.data)
        r = t[item if len(item) == 2 else item[0]]
        rec.step()
        verify(rec, k, before, r, rows, cols,
               sx * abs(item[1].step or 1) if len(item) == 2 else sx, sy * abs(item[0].step or 1), False)
        verify(rec, k + ':source', before, t, list(range(ny)), list(range(nx)), sx, sy, False)
    rec.execution(k)


def chain(rec, base, ny, nx, sx, sy):
    """Two selections in a row: the second one sees the geometry the first one left."""
    def steps(n, m):
        yield 'zoom', (1.5,), {}, lambda a, b: (window(a, 1.5), window(b, 1.5)), (1, 1)
        yield ('crop px', ((0, m - 2, 1, n - 1),), dict(in_units=False),
               lambda a, b: want_crop(a, b, 0, m - 2, 1, n - 1), (1, 1))
        for s in ((slice(None, None, 2), slice(None)), (slice(None), slice(None, None, -2)),
                  (slice(1, None), slice(None, None, 3)), (slice(None, None, -1), slice(None, None, -1))):
            yield ('slice', s, None, lambda a, b, s=s: (list(range(a))[s[0]], list(range(b))[s[1]]),
                   (abs(s[1].step or 1), abs(s[0].step or 1)))
        yield 'crop um', None, {}, None, (1, 1)

    def act(t, spec, inplace):
        name, args, kwargs, want, scale = spec
        a, b = t.data.shape
        fx, fy = float(t.step_x), float(t.step_y)
        if name == 'crop um':
            box = (0.0, (b - 2) * fx, 0.0, (a - 2) * fy)
            expected = want_crop(a, b, 0, b - 2, 1, a - 1)
            r = attempt(t.crop, box, inplace=inplace)
        elif name == 'slice':
            expected = want(a, b)
            r = attempt(t.__getitem__, args)
        else:
            expected = want(a, b)
            r = attempt(getattr(t, name.split()[0]), *args, inplace=inplace, **kwargs)
        return r, expected, (fx * scale[0], fy * scale[1])

    for s1 in steps(ny, nx):
        for s2 in steps(ny, nx):
            for inplace in (False, True):
                k = f'{base}: {s1[0]} {s1[1]} then {s2[0]} {s2[1]} inplace={inplace}'
                with rec.guard(k):
                    t = make(ny, nx, sx, sy)
                    for spec in (s1, s2):
                        before = np.array(t.data)
                        r, expected, (wx, wy) = act(t, spec, inplace)
                        rec.step()
                        if expected is None:
                            rec.check(isinstance(r, Err), k + ':accepted', f'{k}: {spec[0]} gave {r!r}', k)
                            break
                        if not expected[0] or not expected[1]:
                            break
                        if isinstance(r, Err):
                            rec.fail(k + ':rejected', f'{k}: {r!r}', k)
                            break
                        verify(rec, k, before, r, *expected, wx, wy, inplace)
                        t = r
                rec.state(np.array(t.data), repr(geometry(t)))
                rec.execution(k)


def profile(rec, n, tier):
    from surfalize import Profile
    data = np.arange(n) * 1.5 + 0.25

    def verify1(k, r, idx, step):
        want = data[idx]
        rec.outcome(want)
        rec.check(np.array_equal(np.array(r.data), want), k + ':heights',
                  f'{k}: {np.array(r.data)}, expected {want}', k)
        g = (float(r.step), float(r.length_um), r.size)
        w = (step, (len(idx) - 1) * step, len(idx))
        rec.check(all(close(a, b, 1e-12) for a, b in zip(g, w)), k + ':geometry', f'{k}: {g}, expected {w}', k)

    def case(k, step, name, args, kwargs, idx):
        for inplace in (False, True):
            p = Profile(data.copy(), step)
            key = f'{k} inplace={inplace}'
            with rec.guard(key):
                r = attempt(getattr(p, name), *args, inplace=inplace, **kwargs)
                rec.step()
                if idx is None:
                    rec.check(isinstance(r, Err) and r.kind == 'ValueError', key + ':accepted', f'{key}: {r!r}', key)
                    verify1(key + ':unchanged', p, list(range(n)), step)
                elif isinstance(r, Err):
                    rec.fail(key + ':rejected', f'{key}: {r!r}', key)
                else:
                    verify1(key, r, idx, step)
                    if not inplace:
                        verify1(key + ':source', p, list(range(n)), step)
            rec.execution(key)

    for step in (0.5, 0.3, 1 / 7):
        for x0, x1 in itertools.product(range(-1, n + 1), repeat=2):
            idx = list(range(x0, x1 + 1)) if 0 <= x0 < x1 <= n - 1 else None
            case(f'profile {n} step {step:.3g}: crop(({x0}, {x1}), in_units=False)', step, 'crop', ((x0, x1),),
                 dict(in_units=False), idx)
            for d in (0, 0.4, -0.4):
                case(f'profile {n} step {step:.3g}: crop({x0}+{d}, {x1}-{d}) um', step, 'crop',
                     (((x0 + d) * step, (x1 - d) * step),), {}, idx)
        for f in FACTORS:
            case(f'profile {n} step {step:.3g}: zoom({f})', step, 'zoom', (f,), {}, window(n, f))


def consistent(rec, k, t, steps=None):
    """Extents are the numbers of intervals times the step sizes."""
    data = np.asarray(t.data)
    if data.ndim == 2:
        got = (float(t.width_um), float(t.height_um))
        want = ((data.shape[1] - 1) * float(t.step_x), (data.shape[0] - 1) * float(t.step_y))
        now = (float(t.step_x), float(t.step_y))
    else:
        got, want, now = (float(t.length_um),), ((data.size - 1) * float(t.step),), (float(t.step),)
    rec.check(all(close(a, b, 1e-9) for a, b in zip(got, want)), k + ':extents',
              f'{k}: extents {got}, expected {want} for shape {data.shape} and step sizes {now}', k)
    if steps is not None:
        rec.check(all(close(a, b, 1e-12) for a, b in zip(now, steps)), k + ':steps', f'{k}: steps {now}, expected {steps}', k)


def extents(rec, kind, index, tier):
    """Every operation and every pair of operations."""
    table = (ops.surfaces if kind == 'surface' else ops.profiles)()
    alphabet = ops.SURFACE_OPS if kind == 'surface' else ops.PROFILE_OPS
    entry = table[index]
    seconds = [None] + (alphabet if tier == 'thorough' else
                        [o for o in alphabet if o[0] in ('crop', 'zoom', 'level', 'filter') or o == ('rotate', (17,), {})][::3])
    for first in alphabet:
        for second in seconds:
            for inplace in (False, True):
                k = f'{kind} {entry[0]}: {text(first)}' + (f' then {text(second)}' if second else '') + f' inplace={inplace}'
                with rec.guard(k):
                    t = ops.build(kind, entry)
                    for name, args, kwargs in (first, second) if second else (first,):
                        steps = (t.step_x, t.step_y) if kind == 'surface' else (t.step,)
                        r = attempt(call, t, (name, args, dict(kwargs, inplace=inplace)))
                        rec.step()
                        if isinstance(r, Err):
                            break
                        # turning by other angles interpolates between both step sizes
                        turned = name in ('rotate', 'align') and kind == 'surface' and steps[0] != steps[1]
                        consistent(rec, k, r, None if turned else steps)
                        if not inplace:
                            consistent(rec, k + ' source', t, steps)
                        t = r
                rec.execution(k)
        with rec.guard(f'{kind} {entry[0]}: returned trend'):
            if first[0] in ('level', 'detrend_polynomial'):
                t = ops.build(kind, entry)
                steps = (t.step_x, t.step_y) if kind == 'surface' else (t.step,)
                a, b = call(t, (first[0], first[1], dict(first[2], return_trend=True)))
                consistent(rec, f'{kind} {entry[0]}: {text(first)} result', a, steps)
                consistent(rec, f'{kind} {entry[0]}: {text(first)} trend', b, steps)
    rec.state(kind, index)


def extracted(rec, ny, nx, tier):
    """Profiles taken from a surface have the length of the line."""
    for sx, sy in STEPS[tier]:
        t = make(ny, nx, sx, sy)
        for average, distance in itertools.product((1, 2, 3, 4, 9), (None, 0.3, 0.5, 1.0, 2.2, 3.0)):
            for which, n, step, m, cross in (('horizontal', nx, sx, ny, sy), ('vertical', ny, sy, nx, sx)):
                for i in range(m):
                    k = f'{ny}x{nx} steps {sx:.4g},{sy:.4g}: {which} {i} average {average} distance {distance}'
                    with rec.guard(k):
                        kwargs = {} if distance is None else dict(average_step=distance * cross)
                        p = getattr(t, f'get_{which}_profile')(i * cross, average=average, **kwargs)
                        rec.step()
                        rec.check(p.data.shape == (n,), k + ':points', f'{k}: {p.data.shape}', k)
                        consistent(rec, k, p, (step,))
                    rec.execution(k)
        ends = [(y * sy, x * sx) for y in {0, ny // 2, ny - 1} for x in {0, nx // 2, nx - 1}]
        for (y0, x0), (y1, x1) in itertools.product(ends, repeat=2):
            k = f'{ny}x{nx} steps {sx:.4g},{sy:.4g}: oblique {x0:.4g},{y0:.4g} to {x1:.4g},{y1:.4g}'
            with rec.guard(k):
                p = t.get_oblique_profile(x0, y0, x1, y1)
                rec.step()
                consistent(rec, k, p)
            rec.execution(k)
