"""C08: hybrid parameters follow their definitions for every input."""
import itertools
import math

import numpy as np

from mc.util import Err, attempt, close, generic, relayout

PROPERTY = 'C08'
LEVEL = 'model_checking'
RULE = ('all height matrices over the alphabet {0, 1, 3} for all shapes up to the size bound x equal and unequal step '
        'sizes x offsets and scales; larger generic surfaces of all number types and layouts; all profiles over the '
        'alphabet up to the length bound')

SHAPES = {'quick': [(1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (1, 6), (2, 4)],
          'thorough': [(1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (1, 6), (6, 1), (2, 4), (4, 2), (3, 3)]}
STEPS = [(1.0, 1.0), (0.5, 0.5), (0.25, 2.0), (3.0, 0.1)]
TRANSFORMS = [(1.0, 0.0), (0.01, 5.0), (-20.0, -100.0)]
LARGE = [(2, 9), (9, 2), (3, 3), (5, 8), (13, 4), (20, 20), (31, 17)]
KINDS = [('float64', 'C'), ('float64', 'F'), ('float64', 'strided'), ('float64', 'reversed'), ('float64', 'readonly'),
         ('float32', 'C'), ('int64', 'C'), ('int32', 'F'), ('>f8', 'C')]


def tasks(tier):
    out = []
    for shape in SHAPES[tier]:
        parts = max(1, 3 ** (shape[0] * shape[1]) // 400)
        out += [(f'matrices {shape} {p}', ('matrices', shape, p, parts)) for p in range(parts)]
    out += [(f'large {shape}', ('large', shape, 0, 1)) for shape in LARGE]
    out += [(f'profiles {n}', ('profiles', (n,), 0, 1)) for n in (range(2, 8) if tier == 'quick' else range(2, 10))]
    return out


def reference(z, sx, sy):
    """Point-by-point evaluation of the definitions: Sdq, (area with one diagonal, area with the other, twice the upper
    left triangles), projected area."""
    ny, nx = z.shape
    h = z.tolist()
    slopes, cells = [], sx * sy
    areas = [[], [], []]

    def triangle(dx, dy):
        return math.sqrt(1 + (dx / sx) ** 2 + (dy / sy) ** 2) * cells / 2

    for i in range(ny):
        for j in range(nx):
            if j + 1 < nx:
                slopes.append(((h[i][j + 1] - h[i][j]) / sx) ** 2)
            if i + 1 < ny:
                slopes.append(((h[i + 1][j] - h[i][j]) / sy) ** 2)
            if j + 1 < nx and i + 1 < ny:
                a, b, c, d = h[i][j], h[i][j + 1], h[i + 1][j], h[i + 1][j + 1]
                upper_left, lower_right = triangle(b - a, c - a), triangle(d - c, d - b)
                upper_right, lower_left = triangle(b - a, d - b), triangle(d - c, c - a)
                areas[0].append(upper_left + lower_right)
                areas[1].append(upper_right + lower_left)
                areas[2].append(2 * upper_left)
    return (math.sqrt(math.fsum(slopes) / (nx * ny)), tuple(math.fsum(a) for a in areas),
            (nx - 1) * sx * (ny - 1) * sy)


def surface(rec, key, z, sx, sy):
    from surfalize import Surface
    zf = z.astype(float)
    sdq, areas, projected = reference(zf, sx, sy)
    ny, nx = z.shape
    cut = (nx - 2) * sx * (ny - 2) * sy     # one row and one column of cells less
    rtol = 1e-9 if z.dtype != np.float32 else 1e-4
    tol = rtol * max(1.0, np.abs(zf).max() / min(sx, sy)) if z.dtype != np.float32 else 1e-4

    def judge(name, got, right, known, rtol, atol):
        """right: admissible values; known: {suffix of the key: values of the recorded findings}."""
        rec.step()
        if not isinstance(got, Err):
            if any(close(got, want, rtol, atol) for want in right):
                return
            for text, values in known.items():
                if any(close(got, value, rtol, atol) for value in values):
                    return rec.fail(f'{name}:{text}', f'{key}: {name} = {got}, expected {right[0]}', key)
        rec.fail(f'{key}: {name}', f'{key}: {name} = {got!r}, expected {right[0]}', key)

    with rec.guard(key):
        s = Surface(z, sx, sy)
        rec.outcome('Sdq', round(sdq, 9))
        rec.outcome('area', round(areas[0], 9))
        judge('Sdq', attempt(s.Sdq), [sdq], {}, rtol, 1e-3 * tol)
        judge('surface_area', attempt(s.surface_area), areas[:2],
              {'lower right triangle of every cell missing': areas[2:]}, rtol, 1e-3 * tol)
        judge('projected_area', attempt(s.projected_area), [projected],
              {'one row and one column of cells missing': [cut]}, 1e-9, 1e-12)
        if projected > 0:
            def relative(area, base):
                return (area / base - 1) * 100 if base else math.inf if area else math.nan

            judge('Sdr', attempt(s.Sdr), [relative(a, projected) for a in areas[:2]],
                  {'computed from areas with the recorded defects':
                   [relative(areas[2], projected)] + [relative(a, cut) for a in areas]}, 1e-9, 100 * max(rtol, 1e-12))
        rec.execution(key)


def run(rec, name, args):
    mode, shape, part, parts = args
    if mode == 'matrices':
        for i, values in enumerate(itertools.product((0, 1, 3), repeat=shape[0] * shape[1])):
            if i % parts != part:
                continue
            base = np.array(values, dtype=float).reshape(shape)
            rec.state(base)
            for (sx, sy), (a, b) in itertools.product(STEPS, TRANSFORMS):
                surface(rec, f'{base.tolist()} * {a} + {b} steps {sx},{sy}', base * a + b, sx, sy)
    elif mode == 'large':
        for (sx, sy), (a, b), (dtype, layout) in itertools.product(STEPS, TRANSFORMS, KINDS):
            z = generic(*shape, seed=shape[0] + 5) * 3
            z = z * 100 if np.dtype(dtype).kind == 'i' else z if dtype == 'float32' else z * a + b
            surface(rec, f'{shape} * {a} + {b} {dtype} {layout} steps {sx},{sy}', relayout(z.astype(dtype), layout), sx,
                    sy)
            rec.state(shape, sx, sy, a, b, dtype, layout)
    else:
        from surfalize import Profile
        n = shape[0]
        for values in itertools.product((0, 1, 3), repeat=n):
            rec.state(values)
            for step, (a, b) in itertools.product((1.0, 0.25, 3.0), TRANSFORMS):
                z = np.array(values, dtype=float) * a + b
                want = math.sqrt(math.fsum(((z[i + 1] - z[i]) / step) ** 2 for i in range(n - 1)) / (n - 1))
                key = f'profile {values} * {a} + {b} step {step}'
                got = attempt(Profile(z, step).Rdq)
                rec.step()
                rec.outcome('Rdq', round(want, 9))
                rec.check(not isinstance(got, Err) and close(got, want, 1e-9, 1e-10), f'{key}: Rdq',
                          f'{key}: Rdq = {got!r}, expected {want}', key)
                rec.execution(key)
