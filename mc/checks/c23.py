"""C23: thresholding and outlier removal drop exactly the specified points."""
import itertools
import math
from fractions import Fraction

import numpy as np

from mc import ops, ref
from mc.util import Err, attempt, call, generic, geometry, relayout, same, text

PROPERTY = 'C23'
LEVEL = 'model_checking'
RULE = ('all height vectors over a small alphabet with ties and non-measured points up to the length bound, as profile '
        'and as surface, x all thresholds and outlier criteria of a grid, as copy and in place; generic heights of all '
        'number types and layouts; after every other in-place operation and for pairs of both operations')

ALPHABET = (0.0, 1.0, 2.0, 5.0, np.nan)
LENGTH = {'quick': 5, 'thorough': 7}
SCALARS = (0, 0.5, 10, 20, 25, 33, 40, 49.9)
PAIRS = ((0, 20), (20, 0), (0, 100 / 3), (60, 30), (5, 90), [10, 40], (99, 0), (0, 99.5))
REJECTED = (50, 100, 120, (50, 50), (100, 0), (0, 100), (60, 41), [99.5, 0.5])
OUTLIERS = [(n, m) for n in (0, 0.5, 1, 1.5, 2, 3, 4) for m in ('mean', 'median')]


def make(z, steps=(0.5, 0.4)):
    from surfalize import Profile, Surface
    return Surface(z, *steps) if z.ndim == 2 else Profile(z, steps[0])


def tasks(tier):
    out = []
    for length in range(1, LENGTH[tier] + 1):
        parts = 1 if length < 4 else 8 if length < 6 else 64
        out += [(f'vectors {length} {part}', ('vectors', length, part, parts)) for part in range(parts)]
    out += [(f'generic {shape}', ('generic', shape, tier)) for shape in
            [(1, 1), (2, 3), (7, 4), (10, 20), (37,), (200,)]]
    out += [(f'history {kind} {i}', ('history', kind, i, tier)) for kind, table in
            (('surface', ops.surfaces()), ('profile', ops.profiles())) for i in range(len(table))]
    return out


def run(rec, name, args):
    globals()['task_' + args[0]](rec, *args[1:])


# -- reference ---------------------------------------------------------------------------------------------------------

def dyadic(x):
    d = x.denominator
    return d & (d - 1) == 0 and d <= 2 ** 20


def exact_root(x):
    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
    return Fraction(n, d) if n * n == x.numerator and d * d == x.denominator else None


def outlier_sets(z, n, method):
    """Admissible masks of dropped points: exact decision where floating point numbers represent all steps, both
    decisions for points on the limit otherwise."""
    flat = np.asarray(z, dtype=float).ravel()
    m = [Fraction(float(v)) for v in flat if not math.isnan(v)]
    n = Fraction(n)
    if method == 'mean':
        centre = sum(m) / len(m)
        spread = sum((v - centre) ** 2 for v in m) / len(m)
        root = exact_root(spread)
        exact = dyadic(centre) and root is not None and dyadic(root)
        limit = n * (root if root is not None else Fraction(math.sqrt(spread)))
    else:
        def median(values):
            s = sorted(values)
            return (s[(len(s) - 1) // 2] + s[len(s) // 2]) / 2
        centre = median(m)
        limit = n * median([abs(v - centre) for v in m])
        exact = dyadic(centre) and dyadic(limit)
    sure, maybe = [], []
    scale = max((abs(v) for v in m), default=Fraction(1)) or Fraction(1)
    for i, v in enumerate(flat):
        if math.isnan(v):
            continue
        d = abs(Fraction(float(v)) - centre)
        if not exact and abs(d - limit) < scale / 10 ** 12:
            maybe.append(i)
        elif d > limit:
            sure.append(i)
    return sure, maybe


def check_outliers(rec, key, z, n, method, kwargs_style=0):
    k = f'{key}: remove_outliers({n}, {method!r})'
    sure, maybe = outlier_sets(z, n, method)
    for inplace in (False, True):
        with rec.guard(k):
            t = make(z.copy(order='K'))
            args, kwargs = [((n, method), {}), ((n,), dict(method=method)), ((), dict(n=n, method=method))][kwargs_style]
            r = attempt(t.remove_outliers, *args, inplace=inplace, **kwargs)
            rec.step()
            if not result(rec, k, t, r, z, inplace):
                continue
            dropped = np.flatnonzero(np.isnan(np.asarray(r.data, float)).ravel() & ~np.isnan(np.asarray(z, float)).ravel())
            ok = set(sure) <= set(dropped) <= set(sure) | set(maybe)
            rec.check(ok, k, lambda: f'{k}: dropped {dropped.tolist()}, expected {sure} and possibly {maybe}', k)
            rec.outcome(dropped)
    rec.execution(k)


def result(rec, k, t, r, z, inplace):
    """All remaining points keep their height, non-measured points stay, source and geometry stay."""
    if isinstance(r, Err):
        rec.fail(k + ':rejected', f'{k}: {r!r}', k)
        return False
    rec.check((r is t) == inplace, k + ':identity', f'{k}: identity, inplace={inplace}', k)
    got, zf = np.asarray(r.data, dtype=float), np.asarray(z, dtype=float)
    if not rec.check(got.shape == zf.shape and geometry(r) == geometry(make(z)), k + ':geometry', f'{k}: geometry', k):
        return False
    kept = ~np.isnan(got)
    rec.check(np.array_equal(got[kept], zf[kept]), k + ':heights',
              lambda: f'{k}: {got.tolist()} from {zf.tolist()}', k)
    if not inplace:
        rec.check(np.array_equal(t.data, z, equal_nan=True), k + ':source', f'{k}: source changed', k)
    return True


def check_threshold(rec, key, z, threshold, keyword=False):
    k = f'{key}: threshold({threshold})'
    upper, lower = threshold if isinstance(threshold, (tuple, list, np.ndarray)) else (threshold, threshold)
    sets = ref.thresholded(z, upper, lower)
    for inplace in (False, True):
        with rec.guard(k):
            t = make(z.copy(order='K'))
            r = attempt(t.threshold, threshold=threshold, inplace=inplace) if keyword else \
                attempt(t.threshold, threshold, inplace=inplace)
            rec.step()
            if not result(rec, k, t, r, z, inplace):
                continue
            dropped = np.isnan(np.asarray(r.data, float)) & ~np.isnan(np.asarray(z, float))
            rec.check(any(np.array_equal(dropped, s) for s in sets), k,
                      lambda: f'{k} of {np.asarray(z).tolist()}: dropped {np.flatnonzero(dropped).tolist()}, expected '
                              f'one of {[np.flatnonzero(s).tolist() for s in sets]}', k)
            rec.outcome(dropped)
    rec.execution(k)


def check_rejected(rec, key, z):
    for threshold in REJECTED:
        for inplace in (False, True):
            k = f'{key}: threshold({threshold}, inplace={inplace})'
            t = make(z.copy(order='K'))
            r = attempt(t.threshold, threshold, inplace=inplace)
            rec.step()
            rec.check(isinstance(r, Err) and r.kind == 'ValueError', k + ':accepted', f'{k}: {r!r}', k)
            rec.check(np.array_equal(t.data, z, equal_nan=True), k + ':changed', f'{k}: heights changed', k)
            rec.execution(k)
    for method in ('unknown', None, 'Mean'):
        t = make(z.copy(order='K'))
        r = attempt(t.remove_outliers, 2, method)
        rec.check(isinstance(r, Err) and r.kind == 'ValueError', f'{key}: method {method}', f'{key}: {method} {r!r}', key)
        rec.check(np.array_equal(t.data, z, equal_nan=True), f'{key}: method {method} changed', key, key)


# -- tasks -------------------------------------------------------------------------------------------------------------

def task_vectors(rec, length, part, parts):
    for i, values in enumerate(itertools.product(ALPHABET, repeat=length)):
        if i % parts != part:
            continue
        z = np.array(values)
        if np.isnan(z).all():
            continue
        if length % 2 == 0 and i % 2:
            z = z.reshape(2, -1)
        key = f'{z.tolist()}'
        rec.state(z)
        for threshold in SCALARS + PAIRS:
            check_threshold(rec, key, z, threshold)
        for n, method in OUTLIERS:
            check_outliers(rec, key, z, n, method)
        if i % 50 == 0:
            check_rejected(rec, key, z)


def task_generic(rec, shape, tier):
    base = generic(*shape, seed=90) if len(shape) == 2 else generic(shape[0], seed=91)
    base = base.copy()
    base.ravel()[::7] *= 4
    gaps = base.copy()
    gaps.ravel()[1::5] = np.nan
    inputs = [('generic', base), ('offset', base + 1000.0), ('small', base * 1e-6 - 3e-6), ('fortran', relayout(base, 'F')),
              ('strided', relayout(base, 'strided')), ('reversed', relayout(base, 'reversed')),
              ('readonly', relayout(base, 'readonly')), ('float32', base.astype('float32')), ('missing', gaps),
              ('missing fortran', relayout(gaps, 'F')), ('int', (base * 1000).astype('int64')),
              ('int16', (base * 100).astype('int16')), ('rounded', np.round(base * 4) / 4)]
    for label, z in inputs:
        if label == 'readonly':
            z.flags.writeable = False
        key = f'{shape} {label}'
        rec.state(key)
        grid = [x / 2 for x in range(0, 100, 1 if tier == 'thorough' else 3)]
        for threshold in grid + list(PAIRS) + [np.array([3.0, 8.0])]:
            check_threshold(rec, key, z, threshold, keyword=True)
        for upper, lower in itertools.product((0, 1, 12.5, 50, 80), repeat=2):
            if upper + lower < 100:
                check_threshold(rec, key, z, (upper, lower))
        for i, n in enumerate([x / 4 for x in range(0, 20)]):
            for method in ('mean', 'median'):
                if label != 'float32':
                    check_outliers(rec, key, z, n, method, i % 3)
        check_rejected(rec, key, z)
        # defaults
        for name, args in (('threshold', (0.5,)), ('remove_outliers', (3, 'mean'))):
            a, b = make(z), make(z)
            rec.check(same(np.asarray(getattr(a, name)().data, float), np.asarray(getattr(b, name)(*args).data, float)),
                      f'{key}: {name} default', f'{key}: default arguments of {name}', key)
            rec.step(2)


def task_history(rec, kind, index, tier):
    """The decision is made from the current heights, after evaluations, other operations and each other."""
    entry = (ops.surfaces if kind == 'surface' else ops.profiles)()[index]
    final = [('threshold', (10,)), ('threshold', ((0, 30),)), ('remove_outliers', (1.3,)), ('remove_outliers', (1.1, 'median'))]
    for spec in [None] + (ops.SURFACE_OPS if kind == 'surface' else ops.PROFILE_OPS):
        key = f'{kind} {entry[0]}: {text(spec) if spec else "nothing"}'
        with rec.guard(key):
            for name, args in final:
                t = ops.build(kind, entry)
                attempt(t.get_abbott_firestone_curve)
                attempt(t.Sq if kind == 'surface' else t.Rq)
                r = attempt(call, t, (spec[0], spec[1], dict(spec[2], inplace=True))) if spec else t
                rec.step(3)
                if isinstance(r, Err):
                    continue
                z = np.array(t.data)
                if np.isnan(np.asarray(z, float)).all():
                    continue
                k = f'{key} then {name}{args}'
                r = attempt(getattr(t, name), *args, inplace=True)
                if isinstance(r, Err):
                    rec.fail(k + ':rejected', f'{k}: {r!r}', k)
                    continue
                dropped = np.isnan(np.asarray(t.data, float)) & ~np.isnan(np.asarray(z, float))
                if name == 'threshold':
                    pair = args[0] if isinstance(args[0], tuple) else (args[0],) * 2
                    sets = ref.thresholded(z, *pair)
                    ok = any(np.array_equal(dropped, s) for s in sets)
                else:
                    want, margin = ref.outliers(z, args[0], args[1] if len(args) > 1 else 'mean')
                    ok = margin < (1e-5 if z.dtype == 'float32' else 1e-9) or np.array_equal(dropped, want)
                rec.check(ok, k, f'{k}: dropped {np.flatnonzero(dropped).tolist()}', k)
                kept = ~np.isnan(np.asarray(t.data, float))
                rec.check(np.array_equal(np.asarray(t.data, float)[kept], np.asarray(z, float)[kept]), k + ':heights',
                          f'{k}: heights changed', k)
        rec.state(key)
        rec.execution(key)
