"""C20: arithmetic and equality of surfaces are pointwise and consistent."""
import itertools
import operator

import numpy as np

from mc import ops
from mc.util import Err, attempt, call, generic, geometry, masks, q, relayout, same, text

PROPERTY = 'C20'
LEVEL = 'model_checking'
RULE = ('all operators x operand orders x operand kinds (surfaces of all shapes, step sizes, number types, memory '
        'layouts and subsets of non-measured points, numbers, unsupported objects); all ordered pairs of an alphabet '
        'of surfaces for equality and hashes, also after every in-place operation')

OPERATORS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv}
NUMBERS = [0, 1, -2, 3, True, 0.0, 0.5, -2.5, 1e-12, 1e200, float('inf'), float('nan'), np.float64(0.25)]
UNSUPPORTED = [None, 'a', '1', [1.0], (1.0, 2.0), {}, 1j, object(), np.ones((2, 3))]
STEPS = [(0.5, 0.5), (0.3, 1.25), (2, 1)]
SHAPES = {'quick': [(1, 1), (1, 4), (3, 1), (2, 3), (3, 2), (4, 5)],
          'thorough': [(a, b) for a in (1, 2, 3, 4, 6) for b in (1, 2, 3, 5)]}
GRID = {'quick': (2, 2), 'thorough': (2, 3)}


def make(z, steps=STEPS[0]):
    from surfalize import Surface
    return Surface(z, *steps)


def tasks(tier):
    out = [(f'shape {s}', ('shape', s, tier)) for s in SHAPES[tier]]
    out += [(f'masks {part}', ('masks', GRID[tier], part, 8)) for part in range(8)]
    out += [(f'rejected {part}', ('rejected', part, 4, tier)) for part in range(4)]
    out += [(f'expressions {part}', ('expressions', part, 4, tier)) for part in range(4)]
    out += [(f'equality {part}', ('equality', part, 8, tier)) for part in range(8)]
    out += [(f'history {i}', ('history', i, tier)) for i in range(len(ops.surfaces()))]
    return out


def run(rec, name, args):
    with np.errstate(all='ignore'):
        globals()['task_' + args[0]](rec, *args[1:])


def pointwise(symbol, a, b):
    """One scalar operation per point, in double precision."""
    out = np.empty(np.shape(a) if np.ndim(a) else np.shape(b))
    for i in np.ndindex(out.shape):
        x = np.float64(a[i] if np.ndim(a) else a)
        y = np.float64(b[i] if np.ndim(b) else b)
        out[i] = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y}[symbol]()
    return out


def operands(shape):
    """label, heights"""
    z = generic(*shape, seed=sum(shape) + 5, scale=3.0, offset=1.0)
    yield 'generic', z
    yield 'fortran', relayout(generic(*shape, seed=sum(shape) + 6, offset=-2.0), 'F')
    yield 'strided', relayout(generic(*shape, seed=sum(shape) + 7), 'strided')
    yield 'readonly', relayout(generic(*shape, seed=sum(shape) + 8, scale=0.1), 'readonly')
    yield 'float32', generic(*shape, seed=sum(shape) + 9).astype('float32')
    yield 'int', (generic(*shape, seed=sum(shape) + 10) * 1000).astype('int64')
    yield 'zeros', np.zeros(shape)
    m = z * 0.5
    m[0, -1] = np.nan
    yield 'missing', m


def verify(rec, k, result, want, steps, exact):
    from surfalize import Surface
    if isinstance(result, Err) or not isinstance(result, Surface):
        rec.fail(k + ':rejected', f'{k}: {result!r}', k)
        return
    got = np.array(result.data, dtype=float)
    rec.outcome(got)
    finite = got[np.isfinite(got)]
    size = np.abs(finite).max() if finite.size else 0.0
    ok = got.shape == want.shape and same(got, want, 0, (1e-13 if exact else 2e-6) * size)
    rec.check(ok, k, lambda: f'{k}: {got.tolist()}, expected {want.tolist()}', k)
    ny, nx = want.shape
    expected = (ny, nx, float(steps[1]), float(steps[0]), (ny - 1) * float(steps[1]), (nx - 1) * float(steps[0]))
    rec.check(same(geometry(result), expected, 1e-12) and tuple(result.size) == (ny, nx), k + ':geometry',
              f'{k}: geometry {geometry(result)}, expected {expected}', k)


def binary(rec, k, symbol, a, b, za, zb, steps, exact):
    """a and b are operands, za and zb their heights or the number."""
    with rec.guard(k):
        before = [np.array(t.data) if hasattr(t, 'data') and np.ndim(z) else None for t, z in ((a, za), (b, zb))]
        r = attempt(OPERATORS[symbol], a, b)
        rec.step()
        if not np.ndim(za) and symbol == '/' and isinstance(r, Err):
            return  # dividing a number by a surface is not offered
        verify(rec, k, r, pointwise(symbol, za, zb), steps, exact)
        for t, was in ((a, before[0]), (b, before[1])):
            if was is not None:
                rec.check(np.array_equal(t.data, was, equal_nan=True) and t.data.dtype == was.dtype, k + ':operand',
                          f'{k}: an operand changed', k)
                rec.check(r is not t and not np.shares_memory(r.data, t.data), k + ':shared',
                          f'{k}: the result shares its heights with an operand', k)
    rec.execution(k)


def task_shape(rec, shape, tier):
    for steps in STEPS:
        table = list(operands(shape))
        for (la, za), (lb, zb) in itertools.product(table, repeat=2):
            exact = 'float32' not in (la, lb)
            for symbol in OPERATORS:
                k = f'{shape} steps {steps}: {la} {symbol} {lb}'
                binary(rec, k, symbol, make(za, steps), make(zb, steps), za, zb, steps, exact)
            rec.state(shape, la, lb, repr(steps))
        for la, za in table:
            for number in NUMBERS:
                if la == 'int' and isinstance(number, float) and not abs(number) < 1e100:
                    continue
                for symbol in OPERATORS:
                    k = f'{shape} steps {steps}: {la} {symbol} {number!r}'
                    # single precision heights overflow for large numbers
                    if la == 'float32' and not 1e-10 < abs(number) < 1e10 and number != 0:
                        continue
                    binary(rec, k, symbol, make(za, steps), number, za, number, steps, la != 'float32')
                    k = f'{shape} steps {steps}: {number!r} {symbol} {la}'
                    if not isinstance(number, np.generic):
                        binary(rec, k, symbol, number, make(za, steps), number, za, steps, la != 'float32')
            for symbol in OPERATORS:
                s = make(za, steps)
                binary(rec, f'{shape} steps {steps}: {la} {symbol} itself', symbol, s, s, za, za, steps,
                       la != 'float32')


def task_masks(rec, grid, part, parts):
    za, zb = generic(*grid, seed=3, offset=1.0), generic(*grid, seed=4, scale=2.0)
    for i, (ma, mb) in enumerate(itertools.product(masks(grid), repeat=2)):
        if i % parts != part:
            continue
        a, b = za.copy(), zb.copy()
        a[ma] = np.nan
        b[mb] = np.nan
        key = f'{grid} missing {np.flatnonzero(ma).tolist()} and {np.flatnonzero(mb).tolist()}'
        rec.state(ma, mb)
        for symbol in OPERATORS:
            binary(rec, f'{key}: {symbol}', symbol, make(a), make(b), a, b, STEPS[0], True)
            for number in (0, 2.5):
                binary(rec, f'{key}: {symbol} {number}', symbol, make(a), number, a, number, STEPS[0], True)
        # equality of all pairs of masks
        same_mask = np.array_equal(ma, mb)
        x, y = make(a), make(np.where(np.isnan(b), np.nan, za))
        equal(rec, f'{key}: ==', x, y, same_mask)


def task_rejected(rec, part, parts, tier):
    shapes = [(1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3), (6, 1)]
    steps = [(0.5, 0.5), (0.5, 0.6), (0.6, 0.5), (0.6, 0.6)]
    things = [(shape, step) for shape in shapes for step in steps]
    # neither tiny nor slightly different step sizes may be confused
    things += [((2, 3), step) for step in ((2e-7, 2e-7), (5e-7, 2e-7), (2e-7, 5e-7), (0.5, 0.5001), (1e6, 1e6), (1e6, 1e6 + 10))]
    for i, (one, two) in enumerate(itertools.product(things, repeat=2)):
        if i % parts != part:
            continue
        za, zb = generic(*one[0], seed=8), generic(*two[0], seed=9)
        for symbol, func in OPERATORS.items():
            k = f'{one} {symbol} {two}'
            with rec.guard(k):
                a, b = make(za, one[1]), make(zb, two[1])
                r = attempt(func, a, b)
                rec.step()
                if one == two:
                    verify(rec, k, r, pointwise(symbol, za, zb), one[1], True)
                else:
                    rec.check(isinstance(r, Err) and r.kind == 'ValueError', k + ':accepted', f'{k}: {r!r}', k)
                rec.check(np.array_equal(a.data, za) and np.array_equal(b.data, zb), k + ':changed',
                          f'{k}: an operand changed', k)
            rec.execution(k)
        equal(rec, f'{one} == {two}', make(za, one[1]), make(za if one == two else zb, two[1]), one == two)
    if part == 0:
        for thing in UNSUPPORTED:
            for symbol, func in OPERATORS.items():
                k = f'{symbol} {thing!r:.40}' if not isinstance(thing, type(object())) else f'{symbol} object'
                a = make(generic(2, 3, seed=10))
                r = attempt(func, a, thing)
                rec.step()
                rec.check(isinstance(r, Err) and r.kind in ('ValueError', 'TypeError'), k + ':accepted', f'{k}: {r!r}', k)
                if not isinstance(thing, np.ndarray):
                    r = attempt(func, thing, a)
                    rec.check(isinstance(r, Err) and r.kind in ('ValueError', 'TypeError'), k + ':left',
                              f'{thing!r} {symbol} surface: {r!r}', k)
                rec.check(np.array_equal(a.data, generic(2, 3, seed=10)), k + ':changed', k, k)
                rec.execution(k)
            if not isinstance(thing, np.ndarray):
                r = (a == thing, a != thing)
                rec.check(r == (False, True), f'== {thing!r:.20}', f'surface == {thing!r}: {r}', repr(thing))


def task_expressions(rec, part, parts, tier):
    """All expressions (x o y) o z over surfaces and numbers, also with augmented assignment."""
    shape = (3, 2)
    heights = [generic(*shape, seed=s, scale=1.5, offset=2.0) for s in (21, 22)]
    leaves = [('a', heights[0]), ('b', heights[1]), ('2', 2), ('0.5', 0.5)]
    augmented = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '/': operator.itruediv}
    i = 0
    for x, y, z in itertools.product(leaves, repeat=3):
        for s1, s2 in itertools.product(OPERATORS, repeat=2):
            for style in ('left', 'right', 'augmented'):
                i += 1
                if i % parts != part:
                    continue
                if not np.ndim(x[1]) and not np.ndim(y[1]) or not np.ndim(x[1]) and s1 == '/' or \
                        style == 'augmented' and not np.ndim(x[1]):
                    continue
                k = f'{x[0]} {s1} {y[0]} {s2} {z[0]} ({style})'
                with rec.guard(k):
                    t = {n: make(h, STEPS[1]) if np.ndim(h) else h for n, h in leaves}
                    inner = pointwise(s1, x[1], y[1])
                    if style == 'augmented':
                        r = t[x[0]]
                        r = augmented[s1](r, t[y[0]])
                        r = augmented[s2](r, t[z[0]])
                        want = pointwise(s2, inner, z[1])
                    elif style == 'left':
                        r = OPERATORS[s2](OPERATORS[s1](t[x[0]], t[y[0]]), t[z[0]])
                        want = pointwise(s2, inner, z[1])
                    else:
                        if not np.ndim(z[1]) and s2 == '/':
                            continue
                        r = OPERATORS[s2](t[z[0]], OPERATORS[s1](t[x[0]], t[y[0]]))
                        want = pointwise(s2, z[1], inner)
                    rec.step(2)
                    verify(rec, k, r, want, STEPS[1], True)
                    for n, h in leaves:
                        if np.ndim(h):
                            rec.check(np.array_equal(t[n].data, h), k + ':operand', f'{k}: {n} changed', k)
                rec.execution(k)
    total = sum([make(h) for h in heights])
    verify(rec, 'sum', total, heights[0] + heights[1], STEPS[0], True)


# -- equality ----------------------------------------------------------------------------------------------------------

def equal(rec, k, x, y, expected):
    with rec.guard(k):
        got = (x == y, y == x, not (x != y), not (y != x))
        rec.step(4)
        rec.check(all(bool(g) == expected for g in got), k + ':equality',
                  f'{k}: x == y, y == x, not x != y, not y != x are {got}, expected {expected}', k)
        if expected:
            rec.check(hash(x) == hash(y), k + ':hash', f'{k}: equal surfaces with different hashes', k)
            rec.check(len({x, y}) == 1 and y in [x] and {x: 1}.get(y) == 1, k + ':set', f'{k}: not found in a set', k)
        else:
            rec.check(len({x, y}) == 2 and y not in [x], k + ':set', f'{k}: unequal surfaces merge in a set', k)
        rec.outcome(got)
    rec.execution(k)


def alphabet(tier):
    """label, heights, steps"""
    out = []
    for shape in [(2, 3), (3, 2), (1, 6), (6, 1)]:
        z = np.arange(6.0).reshape(shape) + 1.25
        out.append((f'{shape}', z, (0.5, 0.5)))
        if shape != (2, 3):
            continue
        for steps in ((0.5, 0.25), (0.25, 0.5), (0.25, 0.25)):
            out.append((f'{shape} steps {steps}', z, steps))
        out.append(('integers', np.arange(6).reshape(shape), (0.5, 0.5)))
        out.append(('integers as floats', np.arange(6.0).reshape(shape), (0.5, 0.5)))
        out.append(('fortran', np.asfortranarray(z), (0.5, 0.5)))
        out.append(('strided', relayout(z, 'strided'), (0.5, 0.5)))
        for delta in (4e-11, -4e-11, 3e-10, -3e-10, 1.0, -1.0, np.inf, np.nan):
            for i in range(6):
                y = z.copy()
                y.ravel()[i] += delta
                out.append((f'point {i} {delta:+}', y, (0.5, 0.5)))
        for i, j in itertools.combinations(range(6), 2):
            y = z.copy()
            y.ravel()[[i, j]] = np.nan
            out.append((f'missing {i} {j}', y, (0.5, 0.5)))
            y = z.copy()
            y.ravel()[[i, j]] = y.ravel()[[j, i]]
            out.append((f'exchanged {i} {j}', y, (0.5, 0.5)))
        y = z.copy()
        out.append(('offset', y + 1e-9, (0.5, 0.5)))
        out.append(('small offset', y + 5e-11, (0.5, 0.5)))
        out.append(('opposite', -y, (0.5, 0.5)))
        out.append(('all missing', y * np.nan, (0.5, 0.5)))
    if tier == 'thorough':
        for mask in masks((2, 3)):
            y = np.arange(6.0).reshape(2, 3) + 1.25
            y[mask] = np.nan
            out.append((f'mask {np.flatnonzero(mask).tolist()}', y, (0.5, 0.5)))
    return out


def reference(a, b):
    """None: too close to the tolerance"""
    if a[1].shape != b[1].shape or a[2] != b[2]:
        return False
    x, y = a[1].astype(float), b[1].astype(float)
    if not np.array_equal(np.isnan(x), np.isnan(y)):
        return False
    ok = ~np.isnan(x)
    d = [0.0 if p == r else abs(p - r) for p, r in zip(x[ok], y[ok])]
    worst = max(d, default=0.0)
    return None if 0.9e-10 < worst < 1.1e-10 else worst < 1e-10


def task_equality(rec, part, parts, tier):
    table = alphabet(tier)
    for i, (a, b) in enumerate(itertools.product(table, repeat=2)):
        if i % parts != part:
            continue
        want = reference(a, b)
        if want is not None:
            equal(rec, f'{a[0]} == {b[0]}', make(a[1], a[2]), make(b[1], b[2]), want)
            rec.state(a[0], b[0])


def task_history(rec, index, tier):
    """Objects reaching the same state along different paths are equal, as operand they behave alike."""
    from surfalize import Surface
    entry = ops.surfaces()[index]
    for spec in [None] + ops.SURFACE_OPS:
        name = text(spec) if spec else 'nothing'
        key = f'{entry[0]}: {name}'
        with rec.guard(key):
            t = ops.build('surface', entry)
            hash(t), t == t
            attempt(t.Sa)
            before = ops.build('surface', entry)
            r = attempt(call, t, (spec[0], spec[1], dict(spec[2], inplace=True))) if spec else t
            rec.step(2)
            if isinstance(r, Err):
                continue
            twin = Surface(np.array(t.data), t.step_x, t.step_y)
            equal(rec, f'{key}: in place == constructed', t, twin, True)
            nan = np.isnan(np.asarray(t.data, float))
            unchanged = (t.data.shape == before.data.shape and (t.step_x, t.step_y) == (before.step_x, before.step_y)
                         and np.array_equal(nan, np.isnan(np.asarray(before.data, float))))
            worst = np.abs(np.asarray(t.data, float)[~nan] - np.asarray(before.data, float)[~nan]).max() \
                if unchanged and not nan.all() else 0.0
            if not 0.5e-10 < worst < 2e-10:
                equal(rec, f'{key}: in place == original', t, before, unchanged and worst < 1e-10)
            for symbol in OPERATORS:
                data = np.array(t.data)
                exact = data.dtype != np.float32
                binary(rec, f'{key}: {symbol} constructed', symbol, t, twin, data, data, (t.step_x, t.step_y), exact)
                binary(rec, f'{key}: {symbol} 3', symbol, t, 3, data, 3, (t.step_x, t.step_y), exact)
            if np.issubdtype(t.data.dtype, np.floating):
                t[0, 0] = 17.5
                equal(rec, f'{key}: edited', t, twin, bool(twin.data[0, 0] == 17.5))
                twin[0, 0] = 17.5
                equal(rec, f'{key}: both edited', t, twin, True)
        rec.state(key)
        rec.execution(key)
