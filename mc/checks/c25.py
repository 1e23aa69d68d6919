"""C25: homogeneity is one minus the Gini coefficient over the unit cells."""
import itertools

import numpy as np

from mc import ops
from mc.util import Err, attempt, call, close, generic, grooves, q, relayout, text

PROPERTY = 'C25'
LEVEL = 'model_checking'
RULE = ('all assignments of an alphabet of cell patterns to small grids of cells x cell sizes with equal and unequal step '
        'sizes x incomplete cells at the border x parameters (single, pairs, duplicates, as tuple and list) x forms of '
        'the period; all ordered selections with a disallowed parameter; evaluation after in-place operations')
ASSUMPTIONS = ['at least one complete cell and one cell with a non-zero value of the parameter']

ALLOWED = ['Sa', 'Sq', 'Sz', 'Sp', 'Sv', 'Sku', 'Sdr', 'Sdq', 'surface_area']
SLOW = ['Sal', 'Sk', 'Spk', 'Vmc']
DISALLOWED = ['Ssk', 'depth', 'homogeneity', 'orientation', 'aspect_ratio', 'period']
GRIDS = {'quick': [(1, 1), (1, 4), (3, 1), (2, 2)], 'thorough': [(1, 1), (1, 5), (4, 1), (2, 2), (2, 3), (3, 2)]}
# rows, columns of a cell, step sizes
CELLS = [((4, 4), (0.5, 0.5)), ((3, 6), (0.25, 0.5)), ((3, 3), (0.1, 0.1)), ((5, 2), (1.0, 0.4))]


def tasks(tier):
    out = []
    for grid in GRIDS[tier]:
        for i in range(len(CELLS)):
            for part in range(4 if tier == 'quick' else 16):
                out.append((f'assignments {grid} {CELLS[i]} {part}', ('assignments', grid, i, part,
                                                                    4 if tier == 'quick' else 16, tier)))
    out += [(f'selections {i}', ('selections', i, tier)) for i in range(len(CELLS))]
    out += [(f'lengths {part}', ('lengths', part, 8, tier)) for part in range(8)]
    out += [(f'history {i}', ('history', i, tier)) for i in range(len(ops.surfaces()))]
    return out


def run(rec, name, args):
    globals()['task_' + args[0]](rec, *args[1:])


def gini(values):
    values = np.asarray(values, dtype=float)
    n = values.size
    return np.abs(values[:, None] - values[None, :]).sum() / (2 * n * n * values.mean())


def reference(z, steps, cell, parameters):
    """None if undefined; cell = (rows, columns)"""
    from surfalize import Surface
    ny, nx = z.shape[0] // cell[0], z.shape[1] // cell[1]
    if not ny or not nx:
        return None
    out = []
    for parameter in parameters:
        values = []
        for i, j in itertools.product(range(ny), range(nx)):
            part = np.array(z[i * cell[0]:(i + 1) * cell[0], j * cell[1]:(j + 1) * cell[1]])
            values.append(np.round(float(getattr(Surface(part, *steps), parameter)()), 8))
        if not np.isfinite(values).all() or sum(values) <= 0 or min(values) < 0:
            return None
        out.append(1 - gini(values))
    return sum(out) / len(out)


def verify(rec, key, t, z, steps, cell, names, **kwargs):
    want = reference(z, steps, cell, names)
    if want is None:
        return
    r = attempt(t.homogeneity, **kwargs)
    rec.step()
    ok = not isinstance(r, Err) and abs(r - want) <= 0.5e-4 + 1e-7 and abs(r - round(float(r), 4)) < 1e-12
    rec.check(ok, key, lambda: f'{key}: homogeneity {r!r}, expected {want}', key)
    rec.outcome(r if not isinstance(r, Err) else r.kind)
    rec.execution(key)


def patterns(cell):
    ny, nx = cell
    base = generic(ny, nx, seed=110)
    return [base, 3 * base, 0.2 * base[::-1] + 1, generic(ny, nx, seed=111) * 2 - 5, np.full(cell, 0.7)]


def compose(grid, cell, assignment, border):
    table = patterns(cell)
    rows = [np.hstack([table[assignment[i * grid[1] + j]] for j in range(grid[1])]) for i in range(grid[0])]
    z = np.vstack(rows)
    if border[0]:
        z = np.vstack([z, 40 + generic(border[0], z.shape[1], seed=112)])
    if border[1]:
        z = np.hstack([z, -70 + 9 * generic(z.shape[0], border[1], seed=113)])
    return z


def task_assignments(rec, grid, i, part, parts, tier):
    from surfalize import Surface
    cell, steps = CELLS[i]
    period = cell[0] * steps[1]
    for n, assignment in enumerate(itertools.product(range(5), repeat=grid[0] * grid[1])):
        if n % parts != part:
            continue
        for border in ((0, 0), (cell[0] - 1, 1), (0, cell[1] - 1)):
            z = compose(grid, cell, assignment, border)
            key = f'grid {grid} cell {cell} steps {steps} {assignment} border {border}'
            rec.state(grid, i, assignment, border)
            t = Surface(z, *steps)
            names = ALLOWED if tier == 'thorough' or n % 25 == 0 else ('Sa', 'Sz', 'Sdr')
            for parameter in names:
                with rec.guard(f'{key}: {parameter}'):
                    verify(rec, f'{key}: {parameter}', t, z, steps, cell, (parameter,), parameters=(parameter,),
                           period=period)
            with rec.guard(f'{key}: default'):
                verify(rec, f'{key}: default', t, z, steps, cell, ('Sa', 'Sku', 'Sdr'), period=period)
            rec.check(np.array_equal(t.data, z), f'{key}: source', f'{key}: heights changed', key)


def task_selections(rec, i, tier):
    """All single, pairs and some triples of parameters, accepted and rejected ones, in every position."""
    from surfalize import Surface
    cell, steps = CELLS[i]
    period = cell[0] * steps[1]
    z = compose((2, 2), cell, (0, 1, 3, 2), (1, 1))
    z = z + 0.01 * generic(*z.shape, seed=115)
    t = Surface(z, *steps)
    names = ALLOWED
    selections = [(a,) for a in names] + [s for a in (SLOW if i == 0 else []) for s in ((a,), (a, 'Sa'))] + list(itertools.product(names, repeat=2)) + \
        list(itertools.permutations(('Sa', 'Sku', 'Sdr'))) + [tuple(ALLOWED), ('Sa', 'Sz', 'Sa')]
    for selection in selections:
        for form in (tuple, list):
            key = f'cell {cell}: {form.__name__} {selection}'
            with rec.guard(key):
                verify(rec, key, t, z, steps, cell, selection, parameters=form(selection), period=period)
        rec.state(i, selection)
    for form in (float, np.float64, np.float32, int):
        if form is int and period != int(period) or form is np.float32 and float(np.float32(period)) != period:
            continue
        with rec.guard(f'period {form}'):
            verify(rec, f'cell {cell}: period {form.__name__}', t, z, steps, cell, ('Sa',), parameters=('Sa',),
                   period=form(period))
    for bad in DISALLOWED:
        for selection in [(bad,), (bad, bad)] + [s for a in ALLOWED for s in ((a, bad), (bad, a), ('Sa', a, bad))] + \
                [(bad, other) for other in DISALLOWED]:
            for kwargs in (dict(period=period), {}):
                key = f'cell {cell}: {selection} {kwargs}'
                r = attempt(t.homogeneity, selection, **kwargs)
                rec.step()
                rec.check(isinstance(r, Err) and r.kind == 'ValueError', key + ':accepted', f'{key}: {r!r}', key)
                rec.execution(key)


def task_lengths(rec, part, parts, tier):
    """Periods between and at multiples of the step size: complete cells only, none overlapping."""
    from surfalize import Surface
    shape = (13, 17)
    for layout in ('C', 'F', 'strided'):
        z = relayout(generic(*shape, seed=120, offset=2.0) * np.linspace(0.5, 2, 17), layout)
        for n, (steps, length) in enumerate(itertools.product(
                [(0.5, 0.5), (0.1, 0.1), (0.3, 0.7), (1 / 3, 1 / 7), (2, 1)], np.arange(4, 25) / 2)):
            if n % parts != part:
                continue
            for shift in (0.0, 0.01, 0.2):
                period = (length + shift) * max(steps)
                cell = tuple(int(np.floor(period / s + 1e-7)) for s in (steps[1], steps[0]))
                if min(cell) < 2 or cell[0] > shape[0] or cell[1] > shape[1]:
                    continue
                key = f'{layout} steps {steps} period {period}'
                rec.state(key)
                with rec.guard(key):
                    t = Surface(z, *steps)
                    for parameter in ('Sa', 'Sdq', 'Sz'):
                        verify(rec, f'{key}: {parameter}', t, z, steps, cell, (parameter,), parameters=[parameter],
                               period=period)


def task_history(rec, index, tier):
    """Cells of the current heights; the period defaults to that of the surface."""
    entry = ops.surfaces()[index]
    for spec in [None] + ops.SURFACE_OPS:
        key = f'{entry[0]}: {text(spec) if spec else "nothing"}'
        with rec.guard(key):
            t = ops.build('surface', entry)
            attempt(t.homogeneity, ('Sa',), 2.0)
            attempt(t.homogeneity)
            r = attempt(call, t, (spec[0], spec[1], dict(spec[2], inplace=True))) if spec else t
            rec.step(3)
            if isinstance(r, Err) or t.has_missing_points:
                continue
            z, steps = np.array(t.data), (float(t.step_x), float(t.step_y))
            cell = tuple(int(np.floor(2.0 / s + 1e-7)) for s in (steps[1], steps[0]))
            if min(cell) >= 2:
                verify(rec, key, t, z, steps, cell, ('Sa', 'Sz'), parameters=('Sa', 'Sz'), period=2.0)
            period = attempt(t.period)
            if isinstance(period, Err) or not np.isfinite(period):
                continue
            ratio = [period / s for s in (steps[1], steps[0])]
            # periods at the limit between two cell sizes are decided by rounding errors
            if min(ratio) < 2 or any(0 < abs(r - round(r)) < 1e-6 for r in ratio):
                continue
            cell = tuple(int(np.floor(r + 1e-7)) for r in ratio)
            verify(rec, f'{key} default period', t, z, steps, cell, ('Sa', 'Sz'), parameters=('Sa', 'Sz'))
        rec.state(key)
        rec.execution(key)
