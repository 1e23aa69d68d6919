"""C28: collected parameters equal the individual evaluations."""
import itertools

import numpy as np

from mc import ops
from mc.util import (Err, attempt, call, fresh, generic, grooves, q, same, text, view)

PROPERTY = 'C28'
LEVEL = 'model_checking'
RULE = ('all single names, ordered pairs and selected longer requests in every container form, on new and on shared '
        'objects; every undefined name at every position; the default request; every request followed by modification '
        'of the returned collection and by in-place operations')

S_SLOW = ('depth', 'aspect_ratio', 'homogeneity', 'period')
ALIASES = {'surface': [('Smrk1', 'Smr1'), ('Smrk2', 'Smr2')], 'profile': [('Rmrk1', 'Rmr1'), ('Rmrk2', 'Rmr2')]}
UNDEFINED = ['foo', '', 'sa', 'SA', 'Sa ', 'center', 'data', '__init__', 'width_um', 'save', 'roughness_parameters', None, 1]
OTHER = {'surface': ['Ra', 'Rq', 'Rt', 'Rz'], 'profile': ['Sa', 'Sq', 'Sdr', 'depth', 'homogeneity']}


def objects(kind):
    from surfalize import Profile, Surface
    if kind == 'surface':
        yield 'grooved', lambda: Surface(grooves(32, 36, 0.5, 0.5, 4.0, angle=11.0, noise=0.3, offset=0.7), 0.5, 0.5)
        yield 'generic', lambda: Surface(generic(31, 33, seed=140, scale=2, offset=9), 0.4, 0.4)
    else:
        yield 'grooved', lambda: Profile(grooves(1, 60, 0.5, 0.5, 4.0, noise=0.3, offset=0.7)[0], 0.5)
        yield 'generic', lambda: Profile(generic(47, seed=141, scale=2, offset=9), 0.4)


def small(kind):
    """Cheap objects for the long requests: heights only, no curve parameters"""
    return next(iter(objects(kind)))[1]


def names(kind):
    from surfalize import Profile, Surface
    cls = Surface if kind == 'surface' else Profile
    return list(cls.ISO_PARAMETERS), list(cls.AVAILABLE_PARAMETERS)


EXPECTED = {
    'surface': 'Sa Sq Sp Sv Sz Ssk Sku Sdr Sdq Sal Str Ssw Sk Spk Svk Spkx Svkx Sak1 Sak2 Smr1 Smr2 Sxp Sdc Vmp Vmc Vvv '
               'Vvc'.split(),
    'profile': 'Ra Rq Rp Rv Rz Rsk Rku Rdq Rk Rpk Rvk Rpkx Rvkx Rak1 Rak2 Rmr1 Rmr2 Rxp Rdc Vmp Vmc Vvv Vvc'.split()}
EXTRA = {'surface': ['period', 'depth', 'aspect_ratio', 'homogeneity', 'stepheight', 'cavity_volume'],
         'profile': ['Rt', 'period']}
CACHE = {}


def individual(kind, label, make, name):
    key = (kind, label, name)
    if key not in CACHE:
        CACHE[key] = view(attempt(getattr(make(), name)))
    return CACHE[key]


def tasks(tier):
    out = []
    for kind in ('surface', 'profile'):
        out.append((f'{kind} requests', ('requests', kind, tier)))
        for part in range(16):
            out.append((f'{kind} pairs {part}', ('pairs', kind, part, 16, tier)))
        out.append((f'{kind} undefined', ('undefined', kind, tier)))
        out.append((f'{kind} modified', ('modified', kind, tier)))
        for i in range(6):
            out.append((f'{kind} history {i}', ('history', kind, i, 6, tier)))
    return out


def run(rec, name, args):
    globals()['task_' + args[0]](rec, *args[1:])


def verify(rec, key, kind, label, make, t, request, argument):
    """request: the names, argument: what is passed"""
    r = attempt(t.roughness_parameters, argument) if argument is not None else attempt(t.roughness_parameters)
    rec.step()
    if isinstance(r, Err):
        rec.fail(f'{key}:rejected', f'{key}: {r!r}', key)
        return None
    rec.check(isinstance(r, dict) and set(map(str, r)) == set(request) and len(r) == len(set(request)), f'{key}: names',
              f'{key}: returned {list(r)}', key)
    for name in set(request):
        if name in r:
            want = individual(kind, label, make, name)
            rec.check(same(view(r[name]), want, 1e-9), f'{key}: {name}',
                      f'{key}: {name} is {r[name]!r}, individually {want!r}', key)
            rec.outcome(name, r[name])
    rec.execution(key)
    return r


def task_requests(rec, kind, tier):
    iso, available = names(kind)
    rec.check(set(EXPECTED[kind]) <= set(iso), f'{kind}: standard', f'{kind}: standard parameters {iso}', kind)
    rec.check(set(EXPECTED[kind] + EXTRA[kind]) <= set(available), f'{kind}: available', f'{available}', kind)
    for label, make in objects(kind):
        shared = make()
        for t, which in ((make(), 'new'), (shared, 'shared')):
            with rec.guard(f'{kind} {label} default {which}'):
                r = verify(rec, f'{kind} {label}: default, {which}', kind, label, make, t, iso, None)
                if kind == 'surface':
                    h = attempt(t.height_parameters)
                    want = {n: individual(kind, label, make, n) for n in ('Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku')}
                    rec.check(not isinstance(h, Err) and set(h) == set(want) and
                              all(same(view(h[n]), want[n], 1e-9) for n in want), f'{label}: height_parameters',
                              f'{label}: {h!r}, individually {want}', label)
                for alias, name in ALIASES[kind]:
                    a = attempt(getattr(t, alias))
                    rec.step()
                    rec.check(same(view(a), individual(kind, label, make, name), 1e-9), f'{kind} {label}: {alias}',
                              f'{kind} {label}: {alias}() = {a!r}', label)
        everything = EXPECTED[kind] + EXTRA[kind]
        for request in (everything, everything[::-1], everything[::2] + everything[1::2], EXTRA[kind], [], everything[3:9] * 2):
            for form in (list, tuple, np.array, iter, dict.fromkeys, set, lambda x: (n for n in x)):
                key = f'{kind} {label}: {form.__name__} {request}'
                with rec.guard(key):
                    argument = form(request) if request or form is not np.array else []
                    copy = list(argument) if isinstance(argument, (list, tuple)) else None
                    verify(rec, key, kind, label, make, shared, request, argument)
                    if copy is not None:
                        rec.check(list(argument) == copy, f'{key}: argument', f'{key}: the request was changed', key)
                rec.state(key)
        for name in everything:
            with rec.guard(name):
                verify(rec, f'{kind} {label}: {name} new', kind, label, make, make(), [name], [name])
                verify(rec, f'{kind} {label}: {name} shared', kind, label, make, shared, [name], (name,))
                rec.state(kind, label, name)


def task_pairs(rec, kind, part, parts, tier):
    everything = EXPECTED[kind] + EXTRA[kind]
    for label, make in objects(kind):
        shared = make()
        for i, (a, b) in enumerate(itertools.product(everything, repeat=2)):
            if i % parts != part:
                continue
            key = f'{kind} {label}: [{a}, {b}]'
            with rec.guard(key):
                verify(rec, f'{key} shared', kind, label, make, shared, [a, b], [a, b])
                new = make()
                verify(rec, f'{key} new', kind, label, make, new, [a, b], [a, b])
                # the individual evaluation afterwards
                r = attempt(getattr(new, a))
                rec.step()
                rec.check(same(view(r), individual(kind, label, make, a), 1e-9), f'{key} afterwards',
                          f'{key}: {a}() afterwards {r!r}', key)
            rec.state(key)
        if tier == 'thorough':
            for i, triple in enumerate(itertools.permutations(everything, 3)):
                if i % parts == part:
                    with rec.guard(str(triple)):
                        verify(rec, f'{kind} {label}: {triple} shared', kind, label, make, shared, triple, triple)


def task_undefined(rec, kind, tier):
    everything = EXPECTED[kind] + EXTRA[kind]
    label, make = next(iter(objects(kind)))
    t = make()
    for bad in UNDEFINED + OTHER[kind]:
        for request in ([bad], [bad, everything[0]], [everything[0], bad], [everything[1], bad, everything[2]], (bad, bad),
                        everything[:7] + [bad]):
            key = f'{kind}: {request}'
            before = np.array(t.data)
            r = attempt(t.roughness_parameters, request)
            rec.step()
            rec.check(isinstance(r, Err) and r.kind == 'ValueError', f'{key}:accepted', f'{key}: {r!r}', key)
            rec.check(np.array_equal(before, t.data), f'{key}: changed', key, key)
            rec.execution(key)
        with rec.guard(f'{kind} after {bad}'):
            verify(rec, f'{kind}: after rejecting {bad!r}', kind, label, make, t, everything[:6], everything[:6])


def task_modified(rec, kind, tier):
    """Changing a returned collection changes no later result."""
    everything = EXPECTED[kind] + EXTRA[kind]
    label, make = next(iter(objects(kind)))
    changes = [('overwritten', lambda r: r.update({n: -1e9 for n in r})), ('cleared', lambda r: r.clear()),
               ('extended', lambda r: r.update(foo=1)), ('popped', lambda r: r.pop(next(iter(r))))]
    requests = [None, everything, everything[:7], everything[:1], ['Vmp', 'Vmc']]
    for (what, change), first, second in itertools.product(changes, requests, requests):
        key = f'{kind}: {first} {what}, then {second}'
        with rec.guard(key):
            t = MODIFIED.setdefault(kind, make())
            r = attempt(t.roughness_parameters, first) if first else attempt(t.roughness_parameters)
            change(r)
            rec.step()
            verify(rec, key, kind, label, make, t, second or EXPECTED[kind], second)
            if kind == 'surface':
                change(t.height_parameters())
                h = t.height_parameters()
                rec.check(set(h) == {'Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku'} and
                          all(same(view(v), individual(kind, label, make, n), 1e-9) for n, v in h.items()),
                          f'{key}: height_parameters', f'{key}: {h}', key)
                verify(rec, f'{key} after height_parameters', kind, label, make, t, ['Sq', 'Sa'], ['Sq', 'Sa'])
        rec.state(key)


MODIFIED = {}


def task_history(rec, kind, part, parts, tier):
    """Request, in-place operation, request."""
    label, make = list(objects(kind))[1]
    alphabet = ops.SURFACE_OPS if kind == 'surface' else ops.PROFILE_OPS
    everything = EXPECTED[kind] + [n for n in EXTRA[kind] if n not in S_SLOW]
    for i, spec in enumerate(alphabet):
        if i % parts != part:
            continue
        key = f'{kind}: {text(spec)}'
        with rec.guard(key):
            t = make()
            attempt(t.roughness_parameters, everything)
            r = attempt(call, t, (spec[0], spec[1], dict(spec[2], inplace=True)))
            rec.step(2)
            if isinstance(r, Err) or t.has_missing_points:
                continue
            got = attempt(t.roughness_parameters, everything)
            rec.step()
            for name in everything:
                want = attempt(getattr(fresh(t), name)) if name not in ('Sk', 'Spk') else attempt(getattr(t, name))
                if isinstance(want, Err):
                    continue
                rec.check(not isinstance(got, Err) and same(view(got[name]), view(want), 1e-9), f'{key}: {name}',
                          f'{key}: {name} is {got if isinstance(got, Err) else got.get(name)!r}, on a new object {want!r}', key)
        rec.state(key)
        rec.execution(key)
