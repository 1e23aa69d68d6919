"""C34: copied and pickled objects equal the original and are independent of it."""
import copy
import io
import itertools
import os
import pathlib
import pickle
import shutil
import tempfile

import numpy as np

from mc import formats, ops
from mc.checks import c02
from mc.checks.c02 import edits
from mc.util import Err, attempt, call, fresh, geometry, generic, q, same, text, view

PROPERTY = 'C34'
LEVEL = 'model_checking'
RULE = ('all histories of up to two (thorough three) events (parameters, in-place operations, edits) x way of copying x '
        'edits of the copy and of the original in both orders, on every kind of object; all sequences of steps registered '
        'before and after copying a batch')
ASSUMPTIONS = ['heights come from a fixed alphabet of surfaces and profiles',
               'pickled objects are read by the version that wrote them']
TASK_LIMIT = 400.0


def pickled(protocol):
    return lambda t: pickle.loads(pickle.dumps(t, protocol))


def copiers(tier):
    protocols = range(pickle.HIGHEST_PROTOCOL + 1) if tier != 'quick' else (0, 2, pickle.HIGHEST_PROTOCOL)
    out = [('copy.copy', copy.copy), ('copy.deepcopy', copy.deepcopy),
           ('deepcopy of a dictionary', lambda t: copy.deepcopy({'a': t})['a']),
           ('copy of a copy', lambda t: copy.copy(copy.copy(t))),
           ('pickled copy', lambda t: pickled(4)(copy.deepcopy(t)))]
    return out + [(f'pickle {p}', pickled(p)) for p in protocols]


def events(kind):
    """What may have happened to an object before it is copied"""
    out = [('nothing', lambda t: None)]
    names = [q('Sa'), q('Sk'), q('Sal', 0.4), q('period'), q('depth', 3), q('get_abbott_firestone_curve'),
             q('get_fourier_transform'), q('get_autocorrelation_function'), q('Vmp'), q('Sdr'), q('homogeneity', ('Sa',), 4.0)] \
        if kind == 'surface' else [q('Ra'), q('Rk'), q('period'), q('get_abbott_firestone_curve'), q('Vmp'), q('Rz', 2)]
    out += [(text(s), lambda t, s=s: attempt(call, t, s)) for s in names]
    inplace = [q('center'), q('level'), q('filter', 'lowpass', 2.0), q('zoom', 1.5)]
    if kind == 'surface':
        inplace += [q('crop', (1, 4, 1, 5), in_units=False), q('rotate', 90)]
    for s in inplace:
        out.append((f'{text(s)} in place', lambda t, s=s: attempt(call, t, (s[0], s[1], dict(s[2], inplace=True)))))
    out += [('t[0] += 3.5', c02.set_part), ('t[...] of the mask', c02.add_mask)]
    return out


def inputs(kind):
    names = ('generic', 'float32', 'missing', 'strided', 'readonly', 'int', 'fortran', 'grooved')
    return [e for e in (ops.surfaces() if kind == 'surface' else ops.profiles()) if e[0] in names]


def tasks(tier):
    out = []
    for kind in ('surface', 'profile'):
        for i, entry in enumerate(inputs(kind)):
            for part in range(4):
                out.append((f'{kind} {entry[0]} {part}', ('topography', kind, i, part, 4, tier)))
    out += [(f'curves {kind} {i}', ('curves', kind, i, tier)) for kind in ('surface', 'profile')
            for i in range(len(inputs(kind)))]
    out += [(f'file {i}', ('loaded', i, tier)) for i in range(len(formats.basic()))]
    out += [(f'batch {i}', ('batch', i, 4, tier)) for i in range(4)]
    out += [('result', ('result', tier)), ('input', ('inputfile', tier))]
    return out


def run(rec, name, args):
    globals()['task_' + args[0]](rec, *args[1:])


def sample(t):
    """What is left to compare after every step: heights and dimensions"""
    return np.array(t.data, float), geometry(t)


def untouched(t, before):
    return np.array_equal(t.data, before[0], equal_nan=True) and geometry(t) == before[1]


QUERIES = {'surface': [q('Sa'), q('Sz'), q('Sdr'), q('Sal', 0.4), q('period'), q('mean')],
           'profile': [q('Ra'), q('Rz'), q('Rdq'), q('period'), q('mean')]}
_expected = {}


CURVE = {'surface': [q('Sk'), q('Smc', 20)], 'profile': [q('Rk'), q('Rmc', 20)]}


def values(t, curve):
    if t.data.size == 0:
        return ()
    k = 'surface' if t.data.ndim == 2 else 'profile'
    return tuple(view(attempt(call, t, s)) for s in QUERIES[k] + (CURVE[k] if curve else []))


def consistent(kind, t, curve=False):
    """All parameters are those of an object with the same heights and no history"""
    key = (t.data.tobytes(), t.data.dtype.str, t.data.strides, geometry(t), curve)
    if key not in _expected:
        _expected[key] = values(fresh(t), curve)
    return same(values(t, curve), _expected[key], 1e-12)


def task_topography(rec, kind, index, part, parts, tier):
    entry = inputs(kind)[index]
    first = events(kind)
    # chains of two events: every evaluation followed by every event, and in thorough runs every pair
    histories = [(e,) for e in first]
    histories += [(a, b) for a, b in itertools.product(first[1:], repeat=2)
                  if tier != 'quick' or (entry[0] == 'generic' and 'get_' not in a[0])]
    if tier != 'quick' and entry[0] in ('generic', 'missing'):
        histories += list(itertools.product(first[1::2], repeat=3))
    followups = edits(kind)
    some = [followups[i] for i in ((1, 2, 5, 11) if entry[0] == 'generic' or tier != 'quick' else (1, 5))]
    for i, history in enumerate(histories):
        if i % parts != part:
            continue
        label = '; '.join(n for n, _ in history)
        for how, f in copiers(tier if len(history) == 1 else 'quick')[:None if len(history) == 1 else 3 if tier == 'quick' else 6]:
            key = f'{kind} {entry[0]}: {label}: {how}'
            src = ops.build(kind, entry)
            for _, event in history:
                event(src)
            before = sample(src)
            t = attempt(f, src)
            rec.execution(key)
            if isinstance(t, Err):
                rec.fail(f'{key}: raised', f'{key}: {t!r}', key)
                continue
            rec.check(untouched(src, before), f'{key}: original', f'{key}: the original changed', key)
            rec.check(type(t) is type(src) and untouched(t, before) and (kind == 'profile' or t == src), f'{key}: equal',
                      lambda: f'{key}: {t.data!r} {geometry(t)} instead of {before}', key)
            rec.check(consistent(kind, t, curve=True), f'{key}: parameters', lambda: f'{key}: the parameters of the copy differ', key)
            rec.state(entry[0], label, how)
            # edit one of both, then the other one
            for (en, edit), order in itertools.product(
                    followups if len(history) == 1 and tier != 'quick' else some if len(history) == 1 else some[:2], (0, 1)):
                a = ops.build(kind, entry)
                for _, event in history:
                    event(a)
                b = f(a)
                one, other = (a, b) if order else (b, a)
                attempt(edit, one)
                who = ('the original', 'the copy') if order else ('the copy', 'the original')
                k = f'{key}: {en} on {who[0]}'
                rec.execution(k)
                rec.check(untouched(other, before), f'{k}: shared', lambda: f'{k}: {who[1]} changed to {other.data!r}', k)
                rec.check(consistent(kind, one), f'{k}: stale', lambda: f'{k}: its parameters are not those of its heights', k)
                rec.check(consistent(kind, other), f'{k}: stale other',
                          lambda: f'{k}: the parameters of {who[1]} are not those of its heights', k)
                after = sample(one)
                attempt(c02.set_all, other)
                rec.check(untouched(one, after), f'{k}: shared back', lambda: f'{k}: {who[0]} changed with {who[1]}', k)
                rec.check(consistent(kind, one) and consistent(kind, other), f'{k}: stale at the end',
                          lambda: f'{k}: parameters are not those of the heights after editing both', k)
                rec.step(2)


PICTURES = {
    'get_abbott_firestone_curve': ('k', 'pk', 'vk', 'pkx', 'vkx', 'ak1', 'ak2', 'mr1', 'mr2'),
    'get_autocorrelation_function': ('Sal', 'Str'),
    'get_fourier_transform': ('period', 'period_x_y', 'orientation', 'dominant_wavelength', 'angular_power_spectrum'),
}


def picture(x, names):
    out = []
    for n in names:
        v = attempt(getattr, x, n)
        out.append(view(attempt(v) if callable(v) else v))
    if hasattr(x, 'mc'):
        out += [view(attempt(x.mc, p)) for p in (5, 50, 95)] + [view(attempt(x.mr, c)) for c in (-0.1, 0.0, 0.2)]
        out += [view(attempt(x.vmp)), view(attempt(x.vvc))]
    return tuple(out)


def task_curves(rec, kind, index, tier):
    """Curves and spectra derived from a topography"""
    entry = inputs(kind)[index]
    for getter, names in PICTURES.items():
        if not hasattr(ops.build(kind, entry), getter):
            continue
        for used, (how, f), (en, edit) in itertools.product(
                (False, True), copiers(tier), [('nothing', lambda t: None)] + edits(kind)[:7]):
            key = f'{kind} {entry[0]}: {getter}: {how}: {"used, " if used else ""}{en} on the topography'
            src = ops.build(kind, entry)
            want = attempt(lambda: picture(getattr(fresh(src), getter)(), names))
            x = attempt(lambda: getattr(src, getter)())
            rec.execution(key)
            if isinstance(x, Err) or isinstance(want, Err):
                rec.check(isinstance(x, Err) == isinstance(want, Err), f'{key}: error', f'{key}: {x!r} {want!r}', key)
                continue
            if used:
                picture(x, names)
            t = attempt(f, x)
            if isinstance(t, Err):
                rec.fail(f'{key}: raised', f'{key}: {t!r}', key)
                continue
            attempt(edit, src)
            rec.check(type(t) is type(x) and same(picture(t, names), want, 1e-12), f'{key}: copy',
                      lambda: f'{key}: {picture(t, names)} instead of {want}', key)
            rec.check(same(picture(x, names), want, 1e-12), f'{key}: original', key, key)
            rec.step(2)
            rec.state(entry[0], getter, how, en, used)


def task_loaded(rec, index, tier):
    """Files with metadata and image layers"""

    from surfalize import Surface
    for n, s in enumerate(x for x in [formats.basic()[index], formats.basic(shape=(6, 7))[index]]):
        for how, f in copiers(tier):
            if 'copy.copy' in how or how == 'copy of a copy':
                continue    # shallow copies may share images and metadata
            key = f'{s.suffix} {s.label} {n}: {how}'
            src = Surface.load(io.BytesIO(s.blob), format=s.suffix, read_image_layers=True)
            ref = Surface.load(io.BytesIO(s.blob), format=s.suffix, read_image_layers=True)
            t = attempt(f, src)
            rec.execution(key)
            if isinstance(t, Err):
                rec.fail(f'{key}: raised', f'{key}: {t!r}', key)
                continue

            def whole(x):
                return (sample(x), list(x.image_layers), [np.array(v.data) for v in x.image_layers.values()],
                        view(x.metadata), x.get_image_layer_names())
            want = whole(ref)
            rec.check(equal(whole(t), want), f'{key}: copy', lambda: f'{key}: {whole(t)} instead of {want}', key)
            for order in (0, 1):
                src = Surface.load(io.BytesIO(s.blob), format=s.suffix, read_image_layers=True)
                one, other = (src, f(src))[::1 if order else -1]
                for v in one.image_layers.values():
                    v.data = np.array(v.data)
                    v.data[...] = 1
                one.metadata['verif'] = 1
                one.metadata.pop(next(iter(one.metadata)))
                one.image_layers['verif'] = 1
                c02.set_all(one)
                rec.check(equal(whole(other), want), f'{key}: shared {order}',
                          lambda: f'{key}: editing {"the original" if order else "the copy"} changed the other one: '
                                  f'{whole(other)} instead of {want}', key)
                rec.step()
            for v in src.image_layers.values():
                if hasattr(v, 'save'):
                    w = attempt(f, v)
                    ok = not isinstance(w, Err) and type(w) is type(v) and same(np.asarray(w.data), np.asarray(v.data), 0)
                    rec.check(ok, f'{key}: image', f'{key}: {w!r}', key)
                    rec.step()
            rec.state(s.suffix, s.label, n, how)
            rec.outcome(s.suffix, s.label, how)


def equal(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype.kind == b.dtype.kind and a.dtype.itemsize == b.dtype.itemsize and a.shape == b.shape and \
            (np.array_equal(a, b, equal_nan=True) if a.dtype.kind == 'f' else np.array_equal(a, b))
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return a == b or a != a and b != b


STEPS = [('Sa', lambda b: b.Sa(), ['Sa'], None), ('Sz named', lambda b: b.Sz(custom_name='height'), ['height'], None),
         ('invert', lambda b: b.invert(), [], lambda z: -z),
         ('filename', lambda b: b.extract_from_filename('<n|int|P>'), ['n'], None),
         ('custom', lambda b: b.custom_parameter(top), ['top'], None),
         ('Sp', lambda b: b.Sp(), ['Sp'], None)]


def top(surface):
    return {'top': float(np.max(surface.data))}


def runs(steps):
    """A batch needs an operation or parameter"""
    return any(s[0] != 'filename' for s in steps)


def columns(steps):
    out = [c for s in steps for c in s[2]]
    return sorted(set(out))


def task_batch(rec, part, parts, tier):
    """Steps registered on a copy of a batch belong to the copy, those registered on the original to the original"""
    from surfalize import Batch, FileInput, Surface
    scratch = pathlib.Path(tempfile.mkdtemp(prefix='c34-', dir=os.environ.get('VERIF_SCRATCH')))
    try:
        for n in (1, 2):
            Surface(generic(6, 7, seed=n), 0.5, 0.5).save(scratch / f'P{n}.sdf')
        more = scratch / 'P3.sdf'
        Surface(generic(5, 4, seed=5), 0.5, 0.5).save(more)
        files = [scratch / 'P1.sdf', FileInput('P2.sdf', io.BytesIO((scratch / 'P2.sdf').read_bytes()))]
        depth = 2 if tier == 'quick' else 3
        sequences = [c for k in range(depth + 1) for c in itertools.permutations(STEPS, k)]
        later = [c for k in range(3) for c in itertools.permutations(STEPS[:4 if tier == 'quick' else 6], k)]
        for i, (before, after) in enumerate(itertools.product(sequences, later)):
            if i % parts != part or {s[0] for s in before} & {s[0] for s in after}:
                continue
            for on_copy, executed in itertools.product((False, True), (False, True)):
                names = [[s[0] for s in x] for x in (before, after)]
                key = f'batch {names[0]}, {"executed, " if executed else ""}copied, {names[1]} on the ' \
                      f'{"copy" if on_copy else "original"}'
                batch = Batch(list(files))
                for s in before:
                    s[1](batch)
                if executed and runs(before):
                    batch.execute(multiprocessing=False, ignore_errors=False)
                t = attempt(copy.deepcopy, batch)
                rec.execution(key)
                if isinstance(t, Err):
                    rec.fail(f'{key}: raised', f'{key}: {t!r}', key)
                    continue
                one, other = (t, batch) if on_copy else (batch, t)
                for s in after:
                    r = s[1](one)
                    rec.check(r is one, f'{key}: chain', f'{key}: registering a step returns another batch', key)
                if after:
                    one.add_files(more)
                for x, steps, count, who in ((one, before + after, 2 + bool(after), 'edited'), (other, before, 2, 'other')):
                    rec.check(len(x) == count, f'{key}: {who} files', f'{key}: {len(x)} files in the {who} one', key)
                    if not runs(steps):
                        continue
                    got = attempt(lambda: x.execute(multiprocessing=False, ignore_errors=False).get_dataframe())
                    rec.step()
                    if isinstance(got, Err):
                        rec.fail(f'{key}: {who} failed', f'{key}: {got!r}', key)
                        continue
                    have = sorted(c for c in got.columns if c != 'file')
                    rec.check(have == columns(steps) and len(got) == count, f'{key}: {who} columns',
                              f'{key}: the {who} one has columns {have}, {len(got)} rows', key)
                rec.state(tuple(names[0]), tuple(names[1]), on_copy, executed)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def task_result(rec, tier):
    import pandas as pd
    from surfalize.batch import BatchResult
    frames = {'plain': pd.DataFrame({'file': ['a_P1.sur', 'b_P2.sur'], 'Sa': [1.5, np.nan]}),
              'text': pd.DataFrame({'file': ['a_P1.sur'], 'Sa': [2.0], 'note': ['x']}),
              'empty': pd.DataFrame({'file': []})}
    changes = {'nothing': lambda r: None, 'set': lambda r: r.__setitem__('Sa', 7.0), 'new': lambda r: r.__setitem__('B', 1),
               'name': lambda r: r.extract_from_filename('<n|int|P>'),
               'frame': lambda r: r.get_dataframe().insert(0, 'C', 2)}
    for (label, df), (how, f), before, after, order in itertools.product(
            frames.items(), copiers(tier), changes, changes, (0, 1)):
        key = f'result {label}, {before}, {how}, {after} on the {"original" if order else "copy"}'
        r = BatchResult(df)
        attempt(changes[before], r)
        want = r.get_dataframe().copy()
        t = attempt(f, r)
        rec.execution(key)
        if isinstance(t, Err):
            rec.fail(f'{key}: raised', f'{key}: {t!r}', key)
            continue
        if not rec.check(type(t) is BatchResult, f'{key}: type', f'{key}: the copy is a {type(t).__name__}', key):
            continue
        rec.check(t.get_dataframe().equals(want), f'{key}: equal', lambda: f'{key}: {t.get_dataframe()}', key)
        one, other = (r, t) if order else (t, r)
        attempt(changes[after], one)
        rec.check(other.get_dataframe().equals(want), f'{key}: shared', lambda: f'{key}: {other.get_dataframe()}', key)
        rec.check(list(other['file']) == list(want['file']) and len(other.index) == len(want), f'{key}: access', key, key)
        rec.step(2)
        rec.state(label, how, before, after, order)


def task_inputfile(rec, tier):
    """File inputs and sections"""
    from surfalize import FileInput, Batch, Surface

    b = io.BytesIO()
    Surface(generic(4, 5), 0.5, 0.5).save(b, format='.sdf')
    for how, f in copiers(tier):
        if how in ('pickle 0', 'pickle 1'):
            continue    # the file objects themselves cannot be pickled this way
        key = f'file input: {how}'
        s = FileInput('a.sdf', io.BytesIO(b.getvalue()))
        t = attempt(f, s)
        rec.execution(key)
        if isinstance(t, Err):
            rec.fail(f'{key}: raised', f'{key}: {t!r}', key)
            continue
        got = attempt(lambda: Batch([t]).Sa().execute(multiprocessing=False, ignore_errors=False).get_dataframe())
        want = Batch([s]).Sa().execute(multiprocessing=False, ignore_errors=False).get_dataframe()
        rec.check(not isinstance(got, Err) and got.equals(want), f'{key}: result', f'{key}: {got!r}', key)
        rec.state(how)
