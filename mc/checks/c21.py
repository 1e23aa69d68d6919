"""C21: extracted profiles contain the heights along the requested line."""
import itertools

import numpy as np

from mc import ops
from mc.util import Err, attempt, call, close, generic, masks, relayout, same, text

PROPERTY = 'C21'
LEVEL = 'model_checking'
RULE = ('all shapes up to the bound x step sizes x heights (number types, layouts, non-measured points): every row and '
        'column, positions around each of them and beyond the limits, all numbers of averaged profiles and averaging '
        'distances; all pairs of start and end points and points between data points; extraction after every in-place '
        'operation')
ASSUMPTIONS = ['positions half way between two data points are not examined, both are equally close']

SHAPES = {'quick': [(1, 1), (1, 5), (6, 1), (2, 3), (4, 3), (3, 7), (7, 5)],
          'thorough': [(1, 1), (1, 5), (6, 1), (2, 2), (2, 3), (4, 3), (3, 7), (7, 5), (5, 11), (10, 6), (13, 4)]}
STEPS = [(0.5, 0.5), (0.3, 1.25), (2, 1), (1 / 7, 1 / 3)]
DISTANCES = (None, 0.0, 0.3, 1.0, 1.4, 2.0, 2.7, 3.3)


def tasks(tier):
    out = []
    for shape, steps in itertools.product(SHAPES[tier], STEPS):
        out.append((f'straight {shape} {steps}', ('straight', shape, steps, tier)))
        out.append((f'oblique {shape} {steps}', ('oblique', shape, steps, tier)))
    for shape in [(3, 3), (2, 4)]:
        out.append((f'missing {shape}', ('missing', shape, tier)))
    out += [(f'history {i}', ('history', i, tier)) for i in range(len(ops.surfaces()))]
    return out


def heights(shape, tier):
    z = generic(*shape, seed=sum(shape) + 50, scale=2.0, offset=3.0)
    yield 'generic', z, 1e-12
    yield 'fortran', relayout(generic(*shape, seed=sum(shape) + 51, offset=-1e3), 'F'), 1e-12
    yield 'int', (generic(*shape, seed=sum(shape) + 52) * 100).astype('int64'), 1e-12
    yield 'float32', generic(*shape, seed=sum(shape) + 53).astype('float32'), 1e-6
    yield 'strided', relayout(generic(*shape, seed=sum(shape) + 54), 'strided'), 1e-12
    if tier == 'thorough':
        y, x = np.mgrid[:shape[0], :shape[1]]
        yield 'plane', 3.0 * x - 2.0 * y + 1, 1e-12
        yield 'readonly', relayout(generic(*shape, seed=sum(shape) + 55), 'readonly'), 1e-12


def run(rec, name, args):
    globals()['task_' + args[0]](rec, *args[1:])


def verify(rec, k, r, want, step, length, tol, size=None):
    from surfalize import Profile
    if isinstance(r, Err) or not isinstance(r, Profile):
        rec.fail(k + ':rejected', f'{k}: {r!r}', k)
        return
    got = np.array(r.data, dtype=float)
    rec.outcome(got)
    finite = np.abs(want[np.isfinite(want)])
    size = size if size is not None else (finite.max() if finite.size else 0.0)
    rec.check(got.shape == want.shape and same(got, want, 0, tol * size), k + ':heights',
              lambda: f'{k}: {got.tolist()}, expected {want.tolist()}', k)
    rec.check(close(r.step, step, 1e-12) and close(r.length_um, length, 1e-12), k + ':extent',
              f'{k}: step {r.step}, length {r.length_um}, expected {step}, {length}', k)


def select(n, centre, average, distance, step):
    """Indices of the averaged rows or columns that lie on the surface."""
    stride = 1 if distance is None else max(int(np.floor(distance / step + 0.5)), 1)
    return [i for i in (centre + (j - average // 2) * stride for j in range(average)) if 0 <= i < n]


def straight(rec, key, make, z, steps, averages, distances, shifts, tol):
    """make() returns the surface with heights z and the given step sizes."""
    ny, nx = z.shape
    zf = np.asarray(z, dtype=float)
    for which, n, step, along, rows in (('horizontal', ny, steps[1], steps[0], zf),
                                        ('vertical', nx, steps[0], steps[1], zf.T)):
        for i in range(n):
            for shift in shifts:
                position = (i + shift) * step
                inside = 0 <= i + shift <= n - 1
                for average, distance in itertools.product(averages, distances):
                    k = f'{key}: {which} {i}{shift:+} average {average} distance {distance}'
                    with rec.guard(k):
                        t = make()
                        kwargs = {}
                        if average != 1 or distance is not None:
                            kwargs['average'] = average
                        if distance is not None:
                            kwargs['average_step'] = distance * step
                        r = attempt(getattr(t, f'get_{which}_profile'), position, **kwargs)
                        rec.step()
                        if not inside:
                            rec.check(isinstance(r, Err) and r.kind == 'ValueError', k + ':accepted', f'{k}: {r!r}', k)
                        else:
                            idx = select(n, i, average, None if distance is None else distance * step, step)
                            want = np.array([sum(rows[j][c] for j in idx) / len(idx) for c in range(rows.shape[1])])
                            verify(rec, k, r, want, along, (rows.shape[1] - 1) * along, tol,
                                   size=np.nanmax(np.abs(zf)) if not np.isnan(zf).all() else 0.0)
                        rec.check(np.array_equal(t.data, z, equal_nan=True), k + ':source', f'{k}: source changed', k)
                    rec.execution(k)
        for position in (-1e-6 * step, -step, (n - 1) * step * (1 + 1e-9) + 1e-9, n * step, 1e6, float('nan')):
            k = f'{key}: {which} at {position}'
            r = attempt(getattr(make(), f'get_{which}_profile'), position)
            rec.step()
            rec.check(isinstance(r, Err) and r.kind == 'ValueError', k + ':accepted', f'{k}: {r!r}', k)
            rec.execution(k)


def task_straight(rec, shape, steps, tier):
    from surfalize import Surface
    for label, z, tol in heights(shape, tier):
        full = label in ('generic', 'plane') or tier == 'thorough'
        rec.state(shape, steps, label)
        straight(rec, f'{shape} steps {steps} {label}', lambda: Surface(z, *steps), z, steps,
                 (1, 2, 3, 4, 5, 2 * max(shape) + 1) if full else (1, 3), DISTANCES if full else (None, 2.0),
                 (0, 0.3, -0.4) if full else (0,), tol)


def spline_weights(n, positions):
    """Rows of weights of the interpolating cubic B-spline with mirrored boundaries (dense solution)."""
    def mirror(i):
        if n == 1:
            return 0
        i %= 2 * (n - 1)
        return i if i < n else 2 * (n - 1) - i

    def basis(t):
        t = abs(t)
        return 2 / 3 - t * t + t ** 3 / 2 if t < 1 else (2 - t) ** 3 / 6 if t < 2 else 0.0

    def row(p):
        w = np.zeros(n)
        for i in range(int(np.floor(p)) - 2, int(np.floor(p)) + 4):
            w[mirror(i)] += basis(p - i)
        return w
    system = np.array([row(i) for i in range(n)])
    return np.array([row(p) for p in positions]) @ np.linalg.inv(system)


def oblique_reference(z, p0, p1):
    (x0, y0), (x1, y1) = p0, p1
    n = max(int(np.floor(np.hypot(x1 - x0, y1 - y0) + 0.5)), 1)
    xs = [x0 + (x1 - x0) * i / n for i in range(n + 1)]
    ys = [y0 + (y1 - y0) * i / n for i in range(n + 1)]
    wx, wy = spline_weights(z.shape[1], xs), spline_weights(z.shape[0], ys)
    return np.array([wy[i] @ np.asarray(z, dtype=float) @ wx[i] for i in range(n + 1)]), n


def oblique(rec, key, t, z, steps, p0, p1, shift, tol):
    sx, sy = steps
    ny, nx = z.shape
    a = [(p0[0] + shift[0]) * sx, (p0[1] + shift[1]) * sy, (p1[0] + shift[2]) * sx, (p1[1] + shift[3]) * sy]
    for i, limit in enumerate(((nx - 1) * sx, (ny - 1) * sy) * 2):
        a[i] = min(max(a[i], 0), limit)
    k = f'{key}: oblique {a}'
    with rec.guard(k):
        r = attempt(t.get_oblique_profile, *a)
        rec.step()
        want, n = oblique_reference(z, p0, p1)
        length = np.hypot((p1[0] - p0[0]) * sx, (p1[1] - p0[1]) * sy)
        verify(rec, k, r, want, length / n, length, tol, size=np.abs(np.asarray(z, dtype=float)).max())
        # the ends are data points, and so are all points of lines along the grid
        if not isinstance(r, Err):
            got = np.array(r.data, dtype=float)
            size = np.abs(np.asarray(z, dtype=float)).max()
            ends = [float(z[p0[1], p0[0]]), float(z[p1[1], p1[0]])]
            rec.check(same(got[[0, -1]], np.array(ends), 0, tol * size), k + ':ends',
                      f'{k}: ends {got[[0, -1]]}, data points {ends}', k)
    rec.execution(k)


def task_oblique(rec, shape, steps, tier):
    from surfalize import Surface
    ny, nx = shape
    points = list(itertools.product(range(nx), range(ny)))
    cells = {(0, 0), (nx - 1, 0), (0, ny - 1), (nx - 1, ny - 1), (nx // 2, ny // 2), (nx // 3, ny - 1 - ny // 3)}
    for label, z, tol in heights(shape, tier):
        t = Surface(z, *steps)
        rec.state(shape, steps, label)
        starts = points if tier == 'thorough' or label == 'generic' and len(points) < 16 else sorted(cells)
        for p0, p1 in itertools.product(starts, points):
            for shift in ((0, 0, 0, 0), (0.3, -0.3, -0.4, 0.4)):
                oblique(rec, f'{shape} steps {steps} {label}', t, z, steps, p0, p1, shift, max(tol, 1e-9))
        rec.check(np.array_equal(t.data, z), f'{shape} {label}:source', 'source changed', label)
    inner = [0.0, 0.0, 0.0, 0.0]
    for i, limit in enumerate((nx - 1, ny - 1) * 2):
        step = steps[i % 2]
        for bad in (-0.6 * step, -1e-9, (limit + 1) * step, limit * step * (1 + 1e-9) + 1e-9, float('nan')):
            a = list(inner)
            a[i] = bad
            r = attempt(Surface(z, *steps).get_oblique_profile, *a)
            rec.step()
            k = f'{shape} steps {steps}: oblique {a}'
            rec.check(isinstance(r, Err) and r.kind == 'ValueError', k + ':accepted', f'{k}: {r!r}', k)
            rec.execution(k)


def task_missing(rec, shape, tier):
    """A mean over a non-measured point is not a height; other points are unaffected."""
    from surfalize import Surface
    z0 = generic(*shape, seed=60, offset=1.0)
    for mask in masks(shape):
        if not mask.any():
            continue
        z = z0.copy()
        z[mask] = np.nan
        rec.state(mask)
        straight(rec, f'{shape} missing {np.flatnonzero(mask).tolist()}', lambda: Surface(z, 0.5, 0.4), z, (0.5, 0.4),
                 (1, 2, 3), (None, 2.0), (0,), 1e-12)


def task_history(rec, index, tier):
    """Rows and columns of the current heights at the current step sizes."""
    entry = ops.surfaces()[index]
    for spec in [None] + ops.SURFACE_OPS:
        name = text(spec) if spec else 'nothing'
        key = f'{entry[0]}: {name}'
        with rec.guard(key):
            t = ops.build('surface', entry)
            attempt(t.get_horizontal_profile, 0)
            attempt(t.get_vertical_profile, 0)
            r = attempt(call, t, (spec[0], spec[1], dict(spec[2], inplace=True))) if spec else t
            rec.step(3)
            if isinstance(r, Err):
                continue
            z = np.array(t.data)
            steps = (float(t.step_x), float(t.step_y))
            straight(rec, key, lambda: t, z, steps, (1, 3), (None,), (0,), 1e-6 if z.dtype == 'float32' else 1e-12)
            if not t.has_missing_points:
                ny, nx = z.shape
                for p0, p1 in (((0, 0), (nx - 1, ny - 1)), ((0, ny - 1), (nx - 1, 0)), ((nx // 2, 0), (0, ny // 2))):
                    oblique(rec, key, t, z, steps, p0, p1, (0, 0, 0, 0), 1e-5 if z.dtype == 'float32' else 1e-9)
        rec.state(key)
        rec.execution(key)
