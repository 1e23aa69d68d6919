"""C03: in-place and copying variants of an operation agree; failing operations leave the object unchanged."""
import numpy as np

from mc import ops
from mc.util import Err, attempt, fresh, geometry, is_topography, q, same, text, view

PROPERTY = 'C03'
LEVEL = 'model_checking'
RULE = ('every operation with an in-place variant x arguments x input objects, and all ordered pairs of operations, '
        'executed in place and as copies; all invalid requests')
ASSUMPTIONS = ['heights come from a fixed alphabet of surfaces and profiles (shapes, steps, number types, layouts, NaN)']

QUERIES = {'surface': ['Sa', 'Sdq', 'projected_area', 'min', 'max', 'Sal'], 'profile': ['Ra', 'Rdq', 'Rz', 'min', 'max']}


def alphabet(kind):
    valid = ops.SURFACE_OPS if kind == 'surface' else ops.PROFILE_OPS
    invalid = ops.INVALID_SURFACE if kind == 'surface' else ops.INVALID_PROFILE
    trends = [q('level', return_trend=True), q('detrend_polynomial', 2, return_trend=True)]
    return valid + trends, invalid


def inputs(kind):
    return ops.surfaces() if kind == 'surface' else ops.profiles()


def tasks(tier):
    out = []
    for kind in ('surface', 'profile'):
        for i, entry in enumerate(inputs(kind)):
            out.append((f'{kind} {entry[0]}', ('single', kind, i)))
            if tier == 'thorough' or entry[0] in ('generic', 'anisotropic', 'missing', 'float32'):
                out.append((f'{kind} {entry[0]} pairs', ('pairs', kind, i)))
            if tier == 'thorough' and entry[0] in ('generic', 'anisotropic', 'missing'):
                for a in range(len(alphabet(kind)[0])):
                    out.append((f'{kind} {entry[0]} triples {a}', ('triples', kind, i, a)))
    return out


def snapshot(t):
    return np.array(t.data), str(t.data.dtype), geometry(t)


def equal(a, b):
    """Bit-exact comparison of two snapshots."""
    return a[1] == b[1] and a[2] == b[2] and a[0].shape == b[0].shape and \
        np.array_equal(a[0], b[0], equal_nan=a[0].dtype.kind == 'f')


def invoke(t, spec, inplace):
    name, args, kwargs = spec
    return attempt(getattr(t, name), *args, inplace=inplace, **kwargs)


def params(kind, t):
    return {n: view(attempt(getattr(t, n))) for n in QUERIES[kind]}


def step(rec, kind, key, copy_source, inplace_target, spec):
    """Applies spec to both; returns the object the copying variant returned (or None if it raised)."""
    before = snapshot(copy_source)
    params_before = params(kind, copy_source)
    params(kind, inplace_target)
    result = invoke(copy_source, spec, False)
    rec.step(2)
    rec.check(equal(before, snapshot(copy_source)) and same(tuple(params_before.values()),
                                                            tuple(params(kind, copy_source).values()), 0),
              key + ':source', lambda: f'{text(spec)} without inplace changed its source: {before} -> '
                                       f'{snapshot(copy_source)}', key)
    unspecified = attempt(lambda: getattr(copy_source, spec[0])(*spec[1], **spec[2]))
    rec.check(same(view(unspecified), view(result), 0) and unspecified is not copy_source, key + ':default',
              lambda: f'{text(spec)} gives {unspecified!r} without inplace, {result!r} with inplace=False', key)
    rec.check(equal(before, snapshot(copy_source)), key + ':source default',
              lambda: f'{text(spec)} without inplace changed its source', key)
    before = snapshot(inplace_target)
    outcome = invoke(inplace_target, spec, True)
    rec.state(snapshot(inplace_target))
    if isinstance(result, Err) or isinstance(outcome, Err):
        rec.outcome(repr(view(result)), repr(view(outcome)))
        rec.check(view(result) == view(outcome), key + ':raise',
                  lambda: f'{text(spec)}: copy gives {result!r}, in place gives {outcome!r}', key)
        rec.check(equal(before, snapshot(inplace_target)), key + ':unchanged',
                  lambda: f'{text(spec)} raised {outcome!r} but changed the object: {before} -> '
                          f'{snapshot(inplace_target)}', key)
        rec.check(same(tuple(params(kind, inplace_target).values()), tuple(params_before.values()), 0),
                  key + ':unchanged parameters', f'{text(spec)} raised but changed parameters', key)
        return None
    trend = None
    if isinstance(result, tuple):
        rec.check(isinstance(outcome, tuple) and len(outcome) == 2 and len(result) == 2, key + ':tuple',
                  f'{text(spec)} in place returned {outcome!r}', key)
        result, trend = result
        outcome, trend2 = outcome
        rec.check(equal(snapshot(trend), snapshot(trend2)), key + ':trend',
                  lambda: f'{text(spec)}: trends differ: {snapshot(trend)} and {snapshot(trend2)}', key)
    rec.check(outcome is inplace_target, key + ':self', f'{text(spec)} in place returned {outcome!r}', key)
    rec.check(result is not copy_source and type(result) is type(copy_source), key + ':new',
              f'{text(spec)} returned its source or another type: {type(result)}', key)
    rec.check(equal(snapshot(result), snapshot(inplace_target)), key + ':result',
              lambda: f'{text(spec)}: copy has {snapshot(result)}, in place gives {snapshot(inplace_target)}', key)
    rec.outcome(snapshot(result)[0], snapshot(result)[2])
    if result.data.size:
        a, b = params(kind, result), params(kind, inplace_target)
        rec.check(same(tuple(a.values()), tuple(b.values()), 1e-12), key + ':parameters',
                  f'{text(spec)}: parameters of copy {a}, in place {b}', key)
    return result


def run(rec, name, args):
    mode, kind, i = args[:3]
    entry = inputs(kind)[i]
    valid, invalid = alphabet(kind)
    if mode == 'single':
        for spec in valid + invalid:
            key = f'{kind}:{entry[0]}:{text(spec)}'
            with rec.guard(key):
                result = step(rec, kind, key, ops.build(kind, entry), ops.build(kind, entry), spec)
                if spec in invalid:
                    rec.check(result is None, key + ':accepted', f'{text(spec)} was accepted', key)
            rec.execution(key)
        if True:
            for both in (q('filter', 'both', 2.0),):
                key = f'{kind}:{entry[0]}:{text(both)}'
                t = ops.build(kind, entry)
                before = snapshot(t)
                out = invoke(t, both, True)
                rec.check(isinstance(out, Err) and out.kind == 'ValueError' and equal(before, snapshot(t)), key,
                          f'{text(both)} in place: {out!r}', key)
                rec.execution(key)
        return
    seconds = valid + invalid
    for first in ([valid[args[3]]] if mode == 'triples' else valid):
        for second in seconds:
            key = f'{kind}:{entry[0]}:{text(first)};{text(second)}'
            with rec.guard(key):
                a, b = ops.build(kind, entry), ops.build(kind, entry)
                r = invoke(a, first, False)
                w = invoke(b, first, True)
                if isinstance(r, Err) or isinstance(w, Err):
                    continue
                r = r[0] if isinstance(r, tuple) else r
                if r.data.size == 0:
                    continue
                res = step(rec, kind, key, r, b, second)
                if mode == 'triples' and res is not None and res.data.size:
                    for third in valid:
                        c = fresh(b)
                        step(rec, kind, key + ';' + text(third), res, c, third)
                        rec.execution()
            rec.execution(key)
