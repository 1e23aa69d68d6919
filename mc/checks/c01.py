"""C01: results never depend on what was computed or edited before.

States are topographies reached by histories of edits; in every state all parameters have been evaluated before the next
edit (so that everything that can be cached is cached) and are compared afterwards with a newly constructed object.
"""
import copy

import numpy as np

from mc.util import (Err, PROFILE_CURVE, PROFILE_QUERIES_FAST, SURFACE_CURVE, SURFACE_QUERIES_FAST, SURFACE_QUERIES_SLOW,
                     attempt, call, fresh, generic, geometry, grooves, q, same, text, view)

PROPERTY = 'C01'
LEVEL = 'model_checking'
RULE = ('all histories of edits / in-place operations of the given depth over the alphabet, every parameter evaluated '
        'in every intermediate state; every parameter evaluated first, followed by all others in both orders; all '
        'ordered pairs of evaluations; interleaved evaluation of two objects')
ASSUMPTIONS = ['heights come from a fixed generic alphabet (three surfaces, two profiles)',
               'the oracle is a newly constructed object with a copy of the same heights']

EXTRA_SURFACE = [q('Sal', 0.52), q('Str', 0.52), q('Vm', 30.4), q('Vv', 30.4), q('Vmc', q=60, p=20), q('Vmc', p=20, q=60),
                 q('Sxp', 40, 5), q('Smrk1'), q('Smrk2'), q('Std', angle_step=5), q('Std', 10)]
EXTRA_PROFILE = [q('Vm', 30.4), q('Vv', 30.4), q('Vmc', q=60, p=20), q('Vmc', p=20, q=60), q('Rmrk1'), q('Rmrk2'),
                 q('Rz', 2), q('Rp', 2), q('Rv', 2)]


def surface(kind):
    from surfalize import Surface
    if kind == 'grooved':
        return Surface(grooves(24, 32, 1.0, 1.0, 6.4, angle=12.0, amplitude=1.5, noise=0.3, offset=0.7), 1.0, 1.0)
    if kind == 'grooved-h':
        return Surface(grooves(30, 22, 0.5, 0.5, 3.1, angle=78.0, amplitude=1.5, noise=0.3, offset=0.7), 0.5, 0.5)
    if kind == 'generic':
        return Surface(generic(9, 13, seed=5, scale=2.0, offset=-3.0), 0.4, 0.7)
    if kind == 'missing':
        z = generic(9, 11, seed=9)
        z[2, 3] = z[0, 10] = np.nan
        return Surface(z, 0.5, 0.5)
    raise ValueError(kind)


def profile(kind):
    from surfalize import Profile
    if kind == 'sine':
        x = np.arange(60)
        return Profile(20 * np.sin(2 * np.pi * x / 7.5 + 0.3) + generic(60, seed=4) + 3, 0.5)
    z = generic(31, seed=8, scale=3, offset=1)
    z[4] = np.nan
    return Profile(z, 0.3)


def do_set(t, key, value):
    t[key] = value
    return t


def do_data(t, make):
    t.data = make(t)
    return t


def op(name, *args, **kwargs):
    def f(t):
        return getattr(t, name)(*args, inplace=True, **kwargs)
    f.label = text((name, args, kwargs))
    return f


def ed(label, f):
    f.label = label
    return f


COMMON = [
    op('center'), op('zero'), op('invert'), op('level'), op('detrend_polynomial', 2), op('remove_outliers', 1.8),
    op('remove_outliers', n=2.5, method='median'), op('threshold', (4, 6)), op('fill_nonmeasured'),
    op('filter', 'lowpass', 2.0), op('filter', 'highpass', 5.0), op('filter', 'bandpass', 1.5, 6.0), op('zoom', 1.3),
    ed('t.data = t.data', lambda t: do_data(t, lambda t: t.data)),
    ed('t.data = 2 * t.data', lambda t: do_data(t, lambda t: 2 * t.data)),
    ed('t.data = t.data[::-1] ** 2', lambda t: do_data(t, lambda t: t.data[::-1] ** 2)),
    ed('t.data = t.data[1:-1]', lambda t: do_data(t, lambda t: t.data[1:-1])),
]
SURFACE_EDITS = COMMON + [
    op('crop', (1, 7, 1, 6), in_units=False), op('rotate', 10), op('rotate', 90), op('align'), op('stepheight_level'),
    ed('t[2, 3] = 5', lambda t: do_set(t, (2, 3), 5.0)),
    ed('t[1:3, ::2] += 1', lambda t: do_set(t, (slice(1, 3), slice(None, None, 2)), t.data[1:3, ::2] + 1)),
    ed('t[t.data > median] = max', lambda t: do_set(t, t.data > np.nanmedian(t.data), np.nanmax(t.data))),
    ed('t[4] = nan', lambda t: do_set(t, 4, np.nan)),
    ed('t[isnan] = 0', lambda t: do_set(t, np.isnan(t.data), 0.0)),
]
PROFILE_EDITS = COMMON + [
    op('crop', (2, 20), in_units=False),
    ed('t[3] = 9', lambda t: do_set(t, 3, 9.0)),
    ed('t[1::2] += 1', lambda t: do_set(t, slice(1, None, 2), t.data[1::2] + 1)),
    ed('t[4:6] = nan', lambda t: do_set(t, slice(4, 6), np.nan)),
    ed('t[isnan] = 0', lambda t: do_set(t, np.isnan(t.data), 0.0)),
]
STARTS = {'grooved': (surface, SURFACE_EDITS), 'grooved-h': (surface, SURFACE_EDITS),
          'generic': (surface, SURFACE_EDITS), 'missing': (surface, SURFACE_EDITS),
          'sine': (profile, PROFILE_EDITS), 'profile-missing': (profile, PROFILE_EDITS)}


def start(kind):
    return STARTS[kind][0](kind)


def queries(kind, slow=True):
    if STARTS[kind][0] is profile:
        return PROFILE_QUERIES_FAST + EXTRA_PROFILE + PROFILE_CURVE
    out = SURFACE_QUERIES_FAST + EXTRA_SURFACE + SURFACE_CURVE
    return out + SURFACE_QUERIES_SLOW if slow and kind.startswith('grooved') else out


def tasks(tier):
    out = []
    for kind, (_, edits) in STARTS.items():
        if kind == 'grooved-h' and tier == 'quick':
            continue
        for i in range(len(edits)):
            out.append((f'histories {kind} {edits[i].label}', ('hist', kind, i, 2)))
        if tier == 'thorough':
            for i in range(len(edits)):
                for j in range(len(edits)):
                    out.append((f'histories3 {kind} {edits[i].label}; {edits[j].label}', ('hist3', kind, i, j)))
    for kind in ('grooved', 'generic', 'sine'):
        n = len(queries(kind))
        for a in range(0, n, 6):
            out.append((f'first {kind} {a}', ('first', kind, a, min(n, a + 6))))
            if tier == 'thorough':
                for b in range(a, min(n, a + 6)):
                    out.append((f'pairs {kind} {b}', ('pairs', kind, b, b + 1)))
            else:
                out.append((f'pairs {kind} {a}', ('fastpairs', kind, a, min(n, a + 6))))
        out.append((f'two {kind}', ('two', kind, 0, 0)))
    return out


_baseline = {}


def expected(rec, kind, t, slow=True):
    """Values of all queries, each evaluated on an object that has never been used (memoised by state)."""
    from mc.core import digest
    key = (kind, slow, digest(np.array(t.data), repr(geometry(t))))
    rec.states.add(key[2])
    if key not in _baseline:
        if len(_baseline) > 400:
            _baseline.clear()
        ref = fresh(t)
        values = {}
        qs = queries(kind, slow)
        for spec in qs:
            values[text(spec)] = view(attempt(call, ref, spec))
        _baseline[key] = values
    return _baseline[key]


def warm(rec, kind, t, slow=True):
    out = {}
    for spec in queries(kind, slow):
        out[text(spec)] = view(attempt(call, t, spec))
        rec.step()
    return out


def compare(rec, label, history, got, want):
    for name, value in got.items():
        if not same(value, want[name], 1e-7, 1e-12):
            rec.fail(f'{label}:{name}', f'after {history}: {name} = {value!r}, a new object with the same data gives '
                                        f'{want[name]!r}', dict(history=history, query=name))
    rec.outcome(label.split(':')[0], *[repr(v)[:40] for v in got.values()])


def run(rec, name, args):
    mode, kind, a, b = args
    edits = STARTS[kind][1]
    if mode == 'hist':
        explore(rec, kind, [edits[a]], 2)
    elif mode == 'hist3':
        for c in edits:
            history(rec, kind, [edits[a], edits[b], c], slow=False)
    elif mode == 'first':
        qs = queries(kind)
        want = expected(rec, kind, start(kind))
        independent(rec, kind, qs[a:b], want)
        for i in range(a, b):
            for order in (qs, qs[::-1]):
                t = start(kind)
                with rec.guard(f'first:{kind}:{text(qs[i])}'):
                    got = {text(qs[i]): view(attempt(call, t, qs[i]))}
                    for spec in order:
                        got[text(spec)] = view(attempt(call, t, spec))
                        rec.step()
                    compare(rec, f'first:{kind}:{text(qs[i])}', [text(qs[i]), '...all others'], got, want)
                rec.execution([text(qs[i]), 'then all other parameters'])
    elif mode in ('pairs', 'fastpairs'):
        qs = queries(kind)
        want = expected(rec, kind, start(kind))
        slow = {s[0] for s in SURFACE_CURVE + PROFILE_CURVE + SURFACE_QUERIES_SLOW} | {'Smrk1', 'Smrk2', 'Rmrk1',
                                                                                        'Rmrk2', 'orientation'}
        for first in qs[a:b]:
            for second in qs:
                if mode == 'fastpairs' and (first[0] in slow or second[0] in slow):
                    continue
                t = start(kind)
                with rec.guard(f'pair:{kind}:{text(first)}'):
                    attempt(call, t, first)
                    got = {text(second): view(attempt(call, t, second)),
                           }
                    again = view(attempt(call, t, first))
                    compare(rec, f'pair:{kind}:{text(first)}', [text(first), text(second)], got, want)
                    compare(rec, f'pair-again:{kind}:{text(first)}', [text(first), text(second), text(first)],
                            {text(first): again}, want)
                rec.step(3)
                rec.execution([text(first), text(second)])
    elif mode == 'two':
        one, two = start(kind), start(kind)
        two.data = two.data * 1.7 + generic(*two.data.shape, seed=33, scale=0.4)
        want1, want2 = expected(rec, kind, one), expected(rec, kind, two)
        with rec.guard(f'two:{kind}'):
            got1, got2 = {}, {}
            for spec in queries(kind):
                got1[text(spec)] = view(attempt(call, one, spec))
                got2[text(spec)] = view(attempt(call, two, spec))
                rec.step(2)
            compare(rec, f'two:{kind}:a', ['interleaved with another object'], got1, want1)
            compare(rec, f'two:{kind}:b', ['interleaved with another object'], got2, want2)
        rec.execution()


def independent(rec, kind, specs, want):
    """The baseline itself comes from one object: check it against one object per evaluation."""
    for spec in specs:
        with rec.guard(f'single:{kind}:{text(spec)}'):
            got = view(attempt(call, fresh(start(kind)), spec))
            compare(rec, f'single:{kind}:{text(spec)}', ['single evaluation'], {text(spec): got}, want)
        rec.step()
        rec.execution([text(spec)])


def explore(rec, kind, prefix, depth):
    """All histories of depth 1 and 2 that begin with `prefix`; the second steps start from copies of the state
    (including everything it has cached) that the first step leads to."""
    edits = STARTS[kind][1]
    t = history(rec, kind, prefix, slow=True)
    if t is None or t.data.size == 0:
        return
    slow = kind.startswith('grooved') and prefix[0].label.startswith(('t.data = 2', 'align', 'center'))
    for second in edits:
        snapshot = attempt(copy.deepcopy, t)
        if isinstance(snapshot, Err):
            history(rec, kind, prefix + [second], slow)
        else:
            history(rec, kind, prefix + [second], slow, snapshot)


def history(rec, kind, steps, slow, t=None):
    label = '; '.join(s.label for s in steps)
    with rec.guard(f'history:{kind}:{label}'):
        todo = steps
        if t is not None:
            todo = steps[-1:]
        else:
            t = start(kind)
            warm(rec, kind, t, slow)
        for n, s in enumerate(todo):
            last = n == len(todo) - 1
            cold = fresh(t)
            res = attempt(s, t)
            ref = attempt(s, cold)
            rec.step()
            if not same(view(res), view(ref), 1e-7, 1e-12):
                rec.fail(f'edit:{kind}:{label}', f'{s.label} in [{label}] on an object with evaluated '
                         f'parameters gives {view(res)!r}, on a new object {view(ref)!r}', label)
                return None
            if t.data.size == 0:
                break
            got = warm(rec, kind, t, slow)
            rec.state(np.array(t.data), repr(geometry(t)))
            if last:
                compare(rec, f'history:{kind}:{label}', label, got, expected(rec, kind, t, slow))
                g, h = geometry(t), geometry(fresh(t))
                rec.check(same(view(g), view(h)), f'geometry:{kind}:{label}',
                          f'after {label}: dimensions {g}, a new object has {h}', label)
        rec.execution(label)
    return t
