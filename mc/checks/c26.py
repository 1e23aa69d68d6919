"""C26: rotation and alignment keep geometry and invent no heights."""
import itertools
import math

import numpy as np

from mc import ops
from mc.util import Err, attempt, call, close, generic, geometry, grooves, q, relayout, same, text

PROPERTY = 'C26'
LEVEL = 'model_checking'
RULE = ('all angles of a grid over two turns in both directions x shapes x step sizes x linear and quadratic heights '
        '(number types, layouts, offsets), as copy and in place; right angles on generic heights of every shape; pairs '
        'of rotations; alignment of all texture angles of a grid with both axes and both methods; rotation after other '
        'in-place operations')
ASSUMPTIONS = ['angles other than multiples of 90 degrees on surfaces with unequal step sizes are a known finding']

SHAPES = {'quick': [(2, 2), (3, 2), (7, 7), (12, 9), (9, 16), (20, 20)],
          'thorough': [(2, 2), (3, 2), (2, 5), (5, 5), (7, 7), (12, 9), (9, 16), (6, 30), (20, 20), (31, 24)]}
ANGLES = {'quick': sorted({*range(-720, 721, 15), *range(-180, 181, 6)} | {0.01, -0.01, 0.4, 44.9, 89.99, 90.01, -89.6, 179.7,
                                                                         -33.3}),
          'thorough': sorted({x / 2 for x in range(-720, 721)} | {0.01, -0.01, 89.99, 90.01, 179.99, 1e-6, 720, -540})}
SLOPES = [(1.0, 0.0), (0.0, 1.0), (0.3, -0.7)]


def tasks(tier):
    out = []
    for shape in SHAPES[tier]:
        for step in (0.5, 2.0):
            for part in range(2 if tier == 'quick' else 8):
                out.append((f'plane {shape} {step} {part}', ('plane', shape, step, part, 2 if tier == 'quick' else 8, tier)))
        out.append((f'unequal {shape}', ('unequal', shape, tier)))
    size = 6 if tier == 'quick' else 9
    out += [(f'right angles {ny}', ('right', ny, size, tier)) for ny in range(2, size + 1)]
    out += [(f'pairs {shape}', ('pairs', shape, tier)) for shape in [(24, 24), (20, 28), (30, 22)]]
    out += [(f'align {part}', ('align', part, 12, tier)) for part in range(12)]
    out += [(f'history {i}', ('history', i, tier)) for i in range(len(ops.surfaces()))]
    return out


def run(rec, name, args):
    globals()['task_' + args[0]](rec, *args[1:])


# -- reference ---------------------------------------------------------------------------------------------------------

def turn(angle):
    """(cos, sin) with exact values for multiples of 90 degrees"""
    k = angle / 90
    if k == int(k):
        return [(1, 0), (0, 1), (-1, 0), (0, -1)][int(k) % 4]
    return math.cos(math.radians(angle)), math.sin(math.radians(angle))


def positions(shape_in, step_in, shape_out, step_out, angle):
    """Row and column index in the original of every point of the result (centres coincide)."""
    c, s = turn(angle)
    y, x = np.mgrid[:shape_out[0], :shape_out[1]].astype(float)
    y = (y - (shape_out[0] - 1) / 2) * step_out[1]
    x = (x - (shape_out[1] - 1) / 2) * step_out[0]
    # turning the surface counterclockwise as seen (rows run downwards) by the angle moves (x, y) to (c x + s y, c y - s x)
    return ((c * y + s * x) / step_in[1] + (shape_in[0] - 1) / 2, (c * x - s * y) / step_in[0] + (shape_in[1] - 1) / 2)


def small(shape, angle):
    c, s = (abs(v) for v in turn(angle))
    h, w = shape[0] - 1, shape[1] - 1
    return min(w / (w * c + h * s), h / (w * s + h * c)) * min(w, h) < 1 - 1e-9


def geometry_ok(rec, key, shape, steps, r, angle):
    """Step sizes, extents of the largest contained rectangle, all points from inside the surface."""
    c, s = (abs(v) for v in turn(angle))
    out = np.asarray(r.data).shape
    want_steps = (steps[1], steps[0]) if s == 1 else steps
    ok = rec.check(close(r.step_x, want_steps[0], 1e-9) and close(r.step_y, want_steps[1], 1e-9), f'{key}: steps',
                   f'{key}: step sizes {r.step_x}, {r.step_y}, expected {want_steps}', key)
    h, w = shape[0] - 1, shape[1] - 1
    if steps[0] == steps[1] or c in (0, 1):
        # in points; at right angles the axes are exchanged together with their step sizes
        scale = min(w / (w * c + h * s), h / (w * s + h * c))
        wy, wx = scale * h, scale * w
        ny, nx = out[0] - 1, out[1] - 1
        ok = rec.check(wy - 2 - 1e-6 < ny <= wy + 1e-6 and wx - 2 - 1e-6 < nx <= wx + 1e-6, f'{key}: extent',
                       f'{key}: {out} points, the largest rectangle has {wy} x {wx} intervals', key) and ok
    rows, cols = positions(shape, steps, out, (r.step_x, r.step_y), angle)
    inside = (rows.min() > -1e-6 and rows.max() < shape[0] - 1 + 1e-6 and cols.min() > -1e-6 and
              cols.max() < shape[1] - 1 + 1e-6)
    ok = rec.check(inside, f'{key}: inside', f'{key}: contains points from outside the surface', key) and ok
    return ok, rows, cols


def verify(rec, key, z, steps, func, r, angle, tol=0.0, slope=None):
    """func(rows, cols) gives the heights at fractional indices."""
    if isinstance(r, Err):
        rec.fail(f'{key}:rejected', f'{key}: {r!r}', key)
        return
    if small(z.shape, angle):
        return   # no interval fits into the surface
    got = np.array(r.data, dtype=float)
    ok, rows, cols = geometry_ok(rec, key, z.shape, steps, r, angle)
    rec.outcome(got.shape, np.round(got.ravel()[:3], 4))
    if not ok:
        return
    want = func(rows, cols)
    size = np.abs(want).max()
    # splines with mirrored boundaries deviate from the function close to the border
    border = np.minimum.reduce([rows, cols, z.shape[0] - 1 - rows, z.shape[1] - 1 - cols])
    slope = slope if slope is not None else 1.0
    limit = np.where(border > 5, 2e-3, np.where(border > 2, 0.02, 0.25)) * slope + (1e-9 + tol) * size
    bad = ~(np.abs(got - want) <= limit)
    rec.check(not bad.any(), f'{key}: heights', lambda: f'{key}: {got[bad][:5].tolist()}, expected {want[bad][:5].tolist()}'
              f' at {np.argwhere(bad)[:5].tolist()}', key)


# -- tasks -------------------------------------------------------------------------------------------------------------

def heights(shape, steps):
    """label, heights, function, slope bound, tolerance"""
    y, x = np.mgrid[:shape[0], :shape[1]].astype(float)
    for a, b in SLOPES:
        def plane(rows, cols, a=a, b=b):
            return a * cols + b * rows + 50.0
        yield f'plane {a},{b}', plane(y, x), plane, 1.0, 0.0
    cy, cx = (shape[0] - 1) / 2 + 0.7, (shape[1] - 1) / 2 - 0.4

    def bowl(rows, cols):
        return 0.02 * (rows - cy) ** 2 - 0.03 * (cols - cx) ** 2 + 0.01 * rows * cols - 20
    yield 'bowl', bowl(y, x), bowl, 0.08 * max(shape), 0.0
    z = SLOPES[2][0] * x + SLOPES[2][1] * y

    def large(rows, cols):
        return SLOPES[2][0] * cols + SLOPES[2][1] * rows + 1000
    yield 'float32', (z + 1000).astype('float32'), large, 1.0, 1e-6
    yield 'fortran', relayout(z + 1000, 'F'), large, 1.0, 0.0
    yield 'strided', relayout(z + 1000, 'strided'), large, 1.0, 0.0

    def tens(rows, cols):
        return 3 * cols - 7 * rows + 100
    yield 'int', np.round(3 * x - 7 * y + 100).astype('int64'), tens, 8.0, 0.0


def task_plane(rec, shape, step, part, parts, tier):
    from surfalize import Surface
    steps = (step, step)
    for i, angle in enumerate(ANGLES[tier]):
        if i % parts != part:
            continue
        for label, z, func, slope, tol in heights(shape, steps):
            key = f'{shape} step {step} {label}: rotate({angle})'
            rec.state(key)
            with rec.guard(key):
                t = Surface(z, *steps)
                r = attempt(t.rotate, angle)
                rec.step()
                verify(rec, key, z, steps, func, r, angle, tol, slope)
                rec.check(np.array_equal(t.data, z) and geometry(t) == geometry(Surface(z, *steps)), f'{key}: source',
                          f'{key}: source changed', key)
                if isinstance(r, Err):
                    continue
                u = Surface(z.copy(), *steps)
                v = attempt(u.rotate, angle=angle, inplace=True)
                rec.step()
                rec.check(v is u and geometry(u) == geometry(r) and np.array_equal(u.data, r.data), f'{key}: in place',
                          f'{key}: in place differs', key)
            rec.execution(key)


def task_unequal(rec, shape, tier):
    """Unequal step sizes."""
    from surfalize import Surface
    for steps in ((0.5, 0.25), (0.3, 1.2)):
        for angle in (0, 30, 90, -60, 180, 45, 270, 10, -90, 360, -450):
            right = angle % 90 == 0
            key = f'{"right angle" if right else "unequal steps"} {shape} {steps}: rotate({angle})'

            def plane(rows, cols):
                return 0.3 * cols - 0.7 * rows + 50
            y, x = np.mgrid[:shape[0], :shape[1]].astype(float)
            z = plane(y, x)
            with rec.guard(key):
                r = attempt(Surface(z, *steps).rotate, angle)
                rec.step()
                if right:
                    verify(rec, key, z, steps, plane, r, angle)
                elif not isinstance(r, Err):
                    rows, cols = positions(shape, steps, r.data.shape, (r.step_x, r.step_y), angle)
                    inside = (rows > 0) & (rows < shape[0] - 1) & (cols > 0) & (cols < shape[1] - 1)
                    got, want = np.array(r.data), plane(rows, cols)
                    rec.check((np.abs(got - want)[inside] <= 0.15).all(), f'{key}: heights',
                              f'{key}: heights are not those at the rotated positions', key)
            rec.state(key)
            rec.execution(key)


def task_right(rec, ny, size, tier):
    """Right angles move the points of any surface without interpolation."""
    from surfalize import Surface
    for nx in range(2, size + 1):
        for steps in ((0.5, 0.5), (0.25, 0.75)):
            for k, offset in itertools.product(range(-5, 10), (0.0, 300.0)):
                z = generic(ny, nx, seed=130 + nx, offset=offset)
                for kind in (float, int, np.float64):
                    angle = kind(90 * k)
                    key = f'{ny}x{nx} {steps} offset {offset}: rotate({angle!r})'
                    with rec.guard(key):
                        t = Surface(z, *steps)
                        r = attempt(t.rotate, angle)
                        rec.step()
                        if isinstance(r, Err):
                            rec.fail(key, f'{key}: {r!r}', key)
                            continue
                        if small(z.shape, 90 * k):
                            continue
                        ok, _, _ = geometry_ok(rec, key, z.shape, steps, r, 90 * k)
                        if not ok:
                            continue
                        full = np.rot90(z, k % 4)
                        got = np.array(r.data)
                        top, left = (full.shape[0] - got.shape[0]) / 2, (full.shape[1] - got.shape[1]) / 2
                        # the same number of rows and columns is missing on opposite sides
                        if not rec.check(top == int(top) and left == int(left), f'{key}: centre', f'{key}: {got.shape} '
                                         f'from {full.shape}', key):
                            continue
                        want = full[int(top):int(top) + got.shape[0], int(left):int(left) + got.shape[1]]
                        rec.check(same(got, want, 1e-9), f'{key}: heights', lambda: f'{key}: {got.tolist()}, expected '
                                  f'{want.tolist()}', key)
                        if k % 2 == 0 or nx == ny:
                            rec.check(got.shape == full.shape, f'{key}: complete', f'{key}: {got.shape}', key)
                        rec.outcome(got)
                    rec.state(key)
                    rec.execution(key)


def task_pairs(rec, shape, tier):
    """Two rotations in a row about the common centre."""
    from surfalize import Surface
    steps = (0.5, 0.5)
    angles = (0, 7, -25, 45, 90, -90, 130, 180, 200, 271) if tier == 'quick' else range(-180, 181, 15)
    y, x = np.mgrid[:shape[0], :shape[1]].astype(float)
    cy, cx = (shape[0] - 1) / 2, (shape[1] - 1) / 2
    for a, b in itertools.product(angles, repeat=2):
        for inplace in (False, True):
            key = f'{shape}: rotate({a}) then rotate({b}) inplace={inplace}'
            with rec.guard(key):
                t = Surface(0.3 * (x - cx) - 0.7 * (y - cy) + 50, *steps)
                r = t.rotate(a, inplace=inplace).rotate(b, inplace=inplace)
                rec.step(2)
                rows, cols = positions((1, 1), (1, 1), r.data.shape, (1, 1), a + b)
                want = 0.3 * cols - 0.7 * rows + 50
                got = np.array(r.data)
                rec.check(np.abs(got - want).max() <= 0.35 and close(r.step_x, 0.5, 1e-9) and close(r.step_y, 0.5, 1e-9), key,
                          lambda: f'{key}: {got.tolist()}, expected {want.tolist()}', key)
            rec.state(key)
            rec.execution(key)


def texture_angle(z):
    """Direction of the steepest variation, from the vertical grooves (0) towards both sides, in degrees."""
    gy, gx = np.gradient(z)
    return math.degrees(0.5 * math.atan2(2 * (gx * gy).mean(), (gx * gx).mean() - (gy * gy).mean()))


def task_align(rec, part, parts, tier):
    from surfalize import Surface
    angles = [*range(-87, 91, 3), 0.2, -0.3, 0.45, -0.8, 1.2, 89.7, -89.6, 45.3]
    if tier == 'thorough':
        angles = sorted({*angles, *range(-89, 91), *(k / 10 for k in range(-15, 16)), *(90 - k / 10 for k in range(16))})
    n = 0
    for (shape, period), angle, axis, method in itertools.product(
            [((60, 60), 9.0), ((50, 70), 7.0), ((80, 56), 6.5)], angles, ('y', 'x'), ('fft_refined', 'fft')):
        n += 1
        if n % parts != part:
            continue
        for offset in (0.0, 40.0):
            key = f'{shape} period {period} texture {angle} offset {offset}: align({axis!r}, {method!r})'
            with rec.guard(key):
                z = grooves(*shape, 0.5, 0.5, period * 0.5, angle=angle, noise=0.0, offset=offset)
                t = Surface(z, 0.5, 0.5)
                kwargs = dict(axis=axis, method=method)
                if axis == 'y':
                    del kwargs['axis']
                if method == 'fft_refined':
                    del kwargs['method']
                r = attempt(t.align, **kwargs)
                rec.step()
                if isinstance(r, Err):
                    rec.fail(key, f'{key}: {r!r}', key)
                    continue
                got = texture_angle(np.array(r.data))
                deviation = abs(got) if axis == 'y' else 90 - abs(got)
                # the plain method is limited by the resolution of the Fourier transform
                limit = 2.0 if method == 'fft_refined' else math.degrees(math.atan(0.75 * period / min(shape)))
                rec.check(deviation <= limit, key, f'{key}: {deviation} degrees off the axis', key)
                rec.outcome(r.data.shape)
                value = attempt(t.orientation, method)
                v = attempt(t.rotate, -(value + (90 if axis == 'x' else 0)))
                rec.step(2)
                rec.check(not isinstance(v, Err) and same(np.array(v.data), np.array(r.data), 1e-9) and
                          same(geometry(v), geometry(r), 1e-9), f'{key}: rotation',
                          f'{key}: not the rotation by the orientation', key)
                u = Surface(z.copy(), 0.5, 0.5)
                w = attempt(u.align, axis, method, True)
                rec.check(w is u and same(np.array(u.data), np.array(r.data), 1e-9), f'{key}: in place', f'{key}: {w!r}', key)
            rec.state(key)
            rec.execution(key)
    if part == 0:
        for kwargs in (dict(axis='z'), dict(axis=None), dict(axis='Y'), dict(method='unknown'), dict(axis=0, method='fft')):
            t = Surface(z, 0.5, 0.5)
            for inplace in (False, True):
                r = attempt(t.align, inplace=inplace, **kwargs)
                rec.check(isinstance(r, Err) and r.kind == 'ValueError' and np.array_equal(t.data, z), f'align {kwargs}',
                          f'align({kwargs}): {r!r}', str(kwargs))
                rec.execution(str(kwargs))


def task_history(rec, index, tier):
    """The current heights and step sizes are rotated."""
    from surfalize import Surface
    entry = ops.surfaces()[index]
    for spec in [None] + ops.SURFACE_OPS:
        key = f'{entry[0]}: {text(spec) if spec else "nothing"}'
        with rec.guard(key):
            t = ops.build('surface', entry)
            attempt(t.rotate, 90)
            attempt(t.orientation, 'fft')
            r = attempt(call, t, (spec[0], spec[1], dict(spec[2], inplace=True))) if spec else t
            rec.step(3)
            if isinstance(r, Err) or t.has_missing_points or min(t.data.shape) < 2:
                continue
            z, steps = np.array(t.data), (float(t.step_x), float(t.step_y))
            for angle in (90, 180, 0, 20):
                k = f'{key} then rotate({angle})'
                r = attempt(t.rotate, angle)
                v = attempt(Surface(z, *steps).rotate, angle)
                rec.step(2)
                if isinstance(r, Err) or isinstance(v, Err):
                    rec.fail(k, f'{k}: {r!r} {v!r}', k)
                    continue
                rec.check(same(np.array(r.data), np.array(v.data), 1e-9) and same(geometry(r), geometry(v), 1e-9), k,
                          f'{k}: differs from a new surface', k)
                if angle % 90 == 0 and not small(z.shape, angle):
                    geometry_ok(rec, k, z.shape, steps, r, angle)
        rec.state(key)
        rec.execution(key)
