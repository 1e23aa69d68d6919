"""C24: step height and cavity evaluation recover two-level surfaces."""
import itertools

import numpy as np

from mc import ops
from mc.util import Err, attempt, call, close, generic, geometry, q, relayout, same, text

PROPERTY = 'C24'
LEVEL = 'model_checking'
RULE = ('all rectangles of small surfaces as lower or upper level x step heights, offsets, scatter, tilts, step sizes, '
        'number types and layouts x thresholds; all two-level assignments of a small grid; evaluation in all orders and '
        'after in-place operations')
ASSUMPTIONS = ['inputs are two-level surfaces whose division into the levels has the largest between-class variance of '
               'all divisions by height (with a margin) and whose gap exceeds two of 256 classes of the height range']

SHAPES = {'quick': [(4, 5), (6, 4), (3, 7)], 'thorough': [(4, 5), (6, 4), (3, 7), (7, 8), (2, 6), (5, 5)]}
GRID = {'quick': (3, 4), 'thorough': (4, 4)}
STEPS = [(0.5, 0.5), (0.3, 1.25)]
HEIGHTS = (0.004, 1.0, 60.0)
OFFSETS = (0.0, -5.0, 1000.0)
SCATTER = (0.0, 0.002, 0.02, 0.12)
TILTS = ((0.0, 0.0), (0.05, -0.1), (-0.15, 0.02))
THRESHOLDS = (0.0, 0.1, 0.5, 0.9)


def make(z, steps):
    from surfalize import Surface
    return Surface(z, *steps)


def tasks(tier):
    out = []
    for shape in SHAPES[tier]:
        for i, _ in enumerate(STEPS):
            for part in range(6 if tier == 'quick' else 24):
                out.append((f'rectangles {shape} {STEPS[i]} {part}', ('rectangles', shape, i, part,
                                                                      6 if tier == 'quick' else 24)))
    parts = 8 if tier == 'quick' else 64
    out += [(f'assignments {part}', ('assignments', GRID[tier], part, parts)) for part in range(parts)]
    out += [(f'large {i}', ('large', i, tier)) for i in range(6)]
    out += [(f'history {i}', ('history', i, tier)) for i in range(3)]
    return out


def run(rec, name, args):
    globals()['task_' + args[0]](rec, *args[1:])


# -- reference ---------------------------------------------------------------------------------------------------------

def separable(z, lower):
    """The division into the given levels is the clear optimum among all divisions by height."""
    s = np.sort(np.asarray(z, dtype=float).ravel())
    n, k = s.size, int(lower.sum())
    if not 0 < k < n or not s[k] - s[k - 1] > 2.2 * (s[-1] - s[0]) / 256:
        return False
    if np.asarray(z, float)[lower].max() > s[k - 1]:
        return False
    sums = np.cumsum(s - s.mean())
    i = np.arange(1, n)
    variance = i * (n - i) * (sums[i - 1] / i - (sums[-1] - sums[i - 1]) / (n - i)) ** 2
    others = np.delete(variance, k - 1)
    return others.size == 0 or variance[k - 1] > 1.05 * others.max()


def median(values):
    s = np.sort(np.asarray(values, dtype=float).ravel())
    return (s[(s.size - 1) // 2] + s[s.size // 2]) / 2


def levelled(z, upper):
    """None if the points of the upper level do not determine a plane."""
    ny, nx = z.shape
    y, x = np.mgrid[:ny, :nx].astype(float)
    x, y = x - (nx - 1) / 2, y - (ny - 1) / 2
    a = np.column_stack([np.ones(upper.sum()), x[upper], y[upper]])
    u, s, vt = np.linalg.svd(a, full_matrices=False)
    if s.size < 3 or s[-1] < 1e-6 * s[0]:
        return None
    z = np.asarray(z, dtype=float)
    base = z[upper].mean()
    c = vt.T @ ((u.T @ (z[upper] - base)) / s)
    plane = c[1] * x + c[2] * y   # centred: x and y have zero mean over the surface
    return z - plane


def volume(z, lower, upper_median, h, threshold, steps):
    """(volume, True if no point is near the limit)"""
    z = np.asarray(z, dtype=float)
    limit = upper_median - threshold * h
    below = [v for v in z.ravel() if v < limit]
    clear = np.min(np.abs(z - limit)) > 1e-9 * h
    return sum(upper_median - v for v in below) * steps[0] * steps[1], clear


def verify(rec, key, z, lower, steps, thresholds=THRESHOLDS, t=None, order=('stepheight', 'cavity_volume', 'level'),
           tol=1e-9):
    if not separable(z, lower):
        return False
    size = np.abs(np.asarray(z, dtype=float)).max()
    um, lm = median(z[~lower]), median(z[lower])
    h = um - lm
    eps = tol * h + (4e-16 if tol < 1e-7 else tol) * 50 * size
    t = t if t is not None else make(z, steps)
    before = np.array(t.data)
    for what in order:
        if what == 'stepheight':
            r = attempt(t.stepheight)
            rec.step()
            rec.check(not isinstance(r, Err) and abs(r - h) <= eps, f'{key}: stepheight',
                      lambda: f'{key}: step height {r!r}, expected {h} for {np.asarray(z).tolist()}', key)
            rec.outcome('h', h)
        elif what == 'cavity_volume':
            for threshold in thresholds:
                want, clear = volume(z, lower, um, h, threshold, steps)
                if not clear:
                    continue
                for args, kwargs in (((threshold,), {}), ((), dict(threshold=threshold)))[:1 if threshold else 2]:
                    r = attempt(t.cavity_volume, *args, **kwargs)
                    rec.step()
                    rec.check(not isinstance(r, Err) and abs(r - want) <= eps * z.size * steps[0] * steps[1],
                              f'{key}: cavity_volume({threshold})', lambda: f'{key}: cavity_volume({threshold}) = {r!r}, '
                              f'expected {want} for {np.asarray(z).tolist()}', key)
                if threshold == 0.5:
                    d = attempt(t.cavity_volume)
                    rec.check(d == r, f'{key}: default threshold', f'{key}: {d!r}, {r!r}', key)
        else:
            want = levelled(z, ~lower)
            if want is None:
                continue
            r = attempt(t.stepheight_level)
            rec.step()
            ok = not isinstance(r, Err) and same(np.array(r.data, float), want, 0, 20 * eps)
            rec.check(ok, f'{key}: stepheight_level', lambda: f'{key}: levelled to {r if isinstance(r, Err) else np.array(r.data).tolist()}, expected '
                      f'{want.tolist()}', key)
            u = make(z.copy(), steps)
            v = attempt(u.stepheight_level, inplace=True)
            rec.step()
            rec.check(v is u and same(np.array(u.data, float), want, 0, 20 * eps) and
                      geometry(u) == geometry(t), f'{key}: stepheight_level in place', f'{key}: {v!r}', key)
            # levelling again changes nothing, as the upper level has no slope any more
            if separable(want, lower):
                w = attempt(u.stepheight_level)
                rec.step()
                rec.check(not isinstance(w, Err) and same(np.array(w.data, float), want, 0, 40 * eps),
                          f'{key}: levelled twice', lambda: f'{key}: levelling twice gives another surface', key)
    rec.check(np.array_equal(t.data, before), f'{key}: source', f'{key}: the heights changed', key)
    rec.execution(key)
    return True


def two_levels(lower, h, offset, scatter, tilt, seed):
    ny, nx = lower.shape
    y, x = np.mgrid[:ny, :nx].astype(float)
    z = np.where(lower, 0.0, 1.0)
    z = z + scatter * generic(ny, nx, seed=seed) + tilt[0] * x / nx + tilt[1] * y / ny
    return z * h + offset


# -- tasks -------------------------------------------------------------------------------------------------------------

def rectangles(shape):
    ny, nx = shape
    for y0, y1 in itertools.combinations(range(ny + 1), 2):
        for x0, x1 in itertools.combinations(range(nx + 1), 2):
            if (y1 - y0) * (x1 - x0) < ny * nx:
                yield y0, y1, x0, x1


def task_rectangles(rec, shape, i, part, parts):
    steps = STEPS[i]
    for j, (y0, y1, x0, x1) in enumerate(rectangles(shape)):
        if j % parts != part:
            continue
        inside = np.zeros(shape, bool)
        inside[y0:y1, x0:x1] = True
        for lower in (inside, ~inside):
            for h, offset, scatter, tilt in itertools.product(HEIGHTS, OFFSETS, SCATTER, TILTS):
                # heights of a thin cavity on a large offset carry rounding errors
                z = two_levels(lower, h, offset, scatter, tilt, 100 + j)
                key = (f'{shape} steps {steps} {"lower" if lower is inside else "upper"} {(y0, y1, x0, x1)} height {h} '
                       f'offset {offset} scatter {scatter} tilt {tilt}')
                if verify(rec, key, z, lower, steps):
                    rec.state(key)


def task_assignments(rec, grid, part, parts):
    """Every division of the grid into two levels, not only rectangles."""
    n = int(np.prod(grid))
    for code in range(1, 2 ** n - 1):
        if code % parts != part:
            continue
        lower = np.array([code >> b & 1 for b in range(n)], bool).reshape(grid)
        for scatter in (0.0, 0.02):
            z = two_levels(lower, 2.0, 1.0, scatter, (0.0, 0.0), code)
            if verify(rec, f'{grid} assignment {code} scatter {scatter}', z, lower, STEPS[1], thresholds=(0.3, 0.5)):
                rec.state(grid, code, scatter)


def task_large(rec, i, tier):
    shape = [(20, 30), (33, 21), (12, 64), (40, 40), (25, 9), (50, 17)][i]
    for (fy0, fy1, fx0, fx1), h, scatter, tilt in itertools.product(
            [(0, 0.5, 0, 1), (0.3, 0.7, 0.2, 0.6), (0.5, 1, 0.6, 1), (0.1, 0.9, 0.1, 0.9)], (0.01, 8.0), (0.0, 0.05, 0.2),
            TILTS):
        lower = np.zeros(shape, bool)
        lower[int(fy0 * shape[0]):int(fy1 * shape[0]), int(fx0 * shape[1]):int(fx1 * shape[1])] = True
        z = two_levels(lower, h, 3.0, scatter, tilt, 7)
        key = f'{shape} lower {(fy0, fy1, fx0, fx1)} height {h} scatter {scatter} tilt {tilt}'
        for layout in ('C', 'F', 'strided', 'reversed', 'readonly'):
            verify(rec, f'{key} {layout}', relayout(z, layout), lower, STEPS[i % 2], (0.2, 0.5))
        verify(rec, f'{key} float32', z.astype('float32'), lower, STEPS[i % 2], (0.2, 0.5), tol=2e-6)
        verify(rec, f'{key} int', (z * 1e5).astype('int64'), lower, STEPS[i % 2], (0.2, 0.5))
        rec.state(key)


def task_history(rec, i, tier):
    """In every order, repeatedly, and after the surface has been changed in place."""
    shape = (9, 12)
    lower = np.zeros(shape, bool)
    lower[2:7, 3:9] = True
    lower2 = np.zeros(shape, bool)
    lower2[:, :5] = True
    first = two_levels(lower, 3.0, 1.0, 0.05, (0.05, 0.02), 5)
    second = two_levels(lower2, 5.0, -2.0, 0.02, (0.0, 0.1), 6)
    orders = list(itertools.permutations(('stepheight', 'cavity_volume', 'level'))) + \
        list(itertools.product(('stepheight', 'cavity_volume'), repeat=3))
    for order in orders:
        t = make(first.copy(), STEPS[i % 2])
        verify(rec, f'order {order}', first, lower, STEPS[i % 2], t=t, order=order)
        t.data = second
        verify(rec, f'order {order} replaced', second, lower2, STEPS[i % 2], t=t, order=order)
        t[2:6, 2:10] = first[2:6, 2:10] - 60
        z = np.array(t.data)
        lower3 = np.zeros(shape, bool)
        lower3[2:6, 2:10] = True
        verify(rec, f'order {order} edited', z, lower3, STEPS[i % 2], t=t, order=order)
        rec.state(order)
    edits = [q('center'), q('zero'), q('invert'), q('crop', (0, 6, 0, 6), in_units=False), q('stepheight_level'),
             q('zoom', 1.2), q('rotate', 90), q('rotate', 180)]
    for a, b in itertools.product(edits, repeat=2):
        key = f'{text(a)} then {text(b)}'
        with rec.guard(key):
            t = make(first.copy(), STEPS[i % 2])
            levels = lower.copy()
            for spec in (a, b):
                attempt(t.stepheight)
                attempt(t.cavity_volume)
                if isinstance(attempt(call, t, (spec[0], spec[1], dict(spec[2], inplace=True))), Err):
                    levels = None   # the box lies beyond the rotated surface
                    break
                rec.step(3)
                # the same operation on the levels, marked by heights 0 and 1
                marks = make(np.where(levels, 0.0, 1.0), STEPS[i % 2])
                if spec[0] in ('invert', 'crop', 'zoom', 'rotate'):
                    call(marks, (spec[0], spec[1], dict(spec[2], inplace=True)))
                levels = np.array(marks.data) < 0.5
            z = np.array(t.data)
            if levels is not None and levels.shape == z.shape:
                verify(rec, key, z, levels, (t.step_x, t.step_y), t=t)
        rec.execution(key)
