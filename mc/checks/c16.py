"""C16: batch results do not depend on scheduling."""
import io
import itertools
import os
import pathlib
import shutil
import sys
import tempfile
import warnings

import numpy as np

from mc import core, formats, sched, util

PROPERTY = 'C16'
LEVEL = 'model_checking'
RULE = ('all schedules of the worker threads with at most one preemption (thorough: two for the short programs) and all '
        'orders in which workers start and finish, at the granularity of source lines of the library (the first visits '
        'of a line by a task), for every program x files x workers; every file format loaded by two workers; all '
        'histories of two executions of one batch')
ASSUMPTIONS = ['code outside the library (numpy, scipy, pandas, C code) runs without interleaving',
               'per task, only the first two executions of a source line are scheduling points (thorough: four)']
TASK_LIMIT = 850.0

FAST = ['surfalize/batch.py', 'surfalize/cache.py', 'surfalize/surface.py', 'surfalize/abbottfirestone.py',
        'surfalize/base.py', 'surfalize/utils.py']


def before_import():
    sched.install_locks(core.REPO)


def setup():
    import tqdm
    tqdm.tqdm.monitor_interval = 0


# -- programs ----------------------------------------------------------------------------------------------------------

def fails_on_flat(surface):
    if surface.data.max() < 2.0:
        raise RuntimeError('flat')
    return {'top': surface.data.max()}


def lowest(surface):
    return {'low': surface.data.min(), 'n': surface.data.size}


def double(surface):
    surface.data = surface.data * 2


def fail_operation(surface):
    if surface.data.max() < 2.0:
        raise ValueError('flat')


# name -> (steps, ignore_errors, source files that yield to the scheduler); a step is ('op' | 'par', name, args, kwargs,
# custom name), ('cop' | 'cpar', function) or ('names', list)
PARAMS = ['Sa', 'Sq']
PERIOD = 2.0
PROGRAMS = {
    'height': ([('op', 'level', (), {}), ('par', 'Sa', (), {}, None), ('op', 'zero', (), {}),
                ('par', 'Sz', (), {}, 'top'), ('par', 'Sku', (), {}, None)], True, None),
    'slope': ([('op', 'filter', ('lowpass', 1.2), {}), ('par', 'Sal', (), {'s': 0.3}, None),
               ('par', 'Sal', (0.5,), {}, 'Sal_half'), ('par', 'Sdr', (), {}, None), ('par', 'Str', (), {}, None)],
              True, None),
    'threshold': ([('op', 'threshold', ((2, 3),), {}), ('op', 'fill_nonmeasured', (), {'method': 'nearest'}),
                   ('op', 'remove_outliers', (2,), {'method': 'median'}),
                   ('op', 'fill_nonmeasured', (), {'method': 'mean'}),
                   ('par', 'Ssk', (), {}, None), ('op', 'invert', (), {}), ('par', 'Sp', (), {}, None)], True, None),
    'geometry': ([('op', 'crop', ((0.5, 2.0, 0.0, 3.0),), {}), ('par', 'projected_area', (), {}, None),
                  ('op', 'detrend_polynomial', (1,), {}), ('par', 'surface_area', (), {}, None),
                  ('op', 'zoom', (1.4,), {}), ('par', 'Sdq', (), {}, None)], True, None),
    'cells': ([('par', 'homogeneity', (PARAMS, PERIOD), {}, None), ('par', 'homogeneity', (['Sz'],), {'period': 1.5},
                                                                     'h2'),
               ('par', 'stepheight', (), {}, None), ('par', 'cavity_volume', (0.3,), {}, None)], True, None),
    'labels': ([('par', 'depth', (3,), {'sampling_width': 0.2}, None), ('par', 'projected_area', (), {}, None),
                ('par', 'period', (), {}, None), ('par', 'aspect_ratio', (), {}, None)], True, None),
    'custom': ([('cpar', lowest), ('cop', double), ('par', 'Sz', (), {}, None), ('cpar', fails_on_flat)], True, None),
    'names': ([('names', ['Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku'])], True, None),
    'invalid': ([('par', 'Sal', (-1.0,), {}, None), ('par', 'depth', (1000,), {}, None), ('par', 'Sa', (), {}, None)],
                True, None),
    'raise': ([('par', 'Sa', (), {}, None), ('cpar', fails_on_flat), ('par', 'Sz', (), {}, None)], False, None),
    'failing operation': ([('par', 'Sa', (), {}, None), ('cop', fail_operation), ('par', 'Sz', (), {}, None)], True,
                          None),
    'curve': ([('par', 'Sk', (), {}, None), ('par', 'Vmc', (), {'p': 20, 'q': 70}, None),
               ('par', 'Vmc', (5,), {'q': 90}, 'Vmc2'), ('par', 'Smr', (0.1,), {}, None)], True, FAST),
    'align': ([('op', 'align', (), {'axis': 'x', 'method': 'fft'}), ('par', 'orientation', ('fft',), {}, None),
               ('par', 'Ssw', (), {}, None), ('names', ['Std'])], True, None),
}
SHORT = {'short': ([('op', 'center', (), {}), ('par', 'Sz', (), {}, 'z'), ('par', 'projected_area', (), {}, None)], True,
                   ['surfalize/batch.py', 'surfalize/cache.py', 'surfalize/base.py']),
         'short error': ([('cpar', fails_on_flat), ('par', 'Sal', (-1.0,), {}, None)], True,
                         ['surfalize/batch.py', 'surfalize/cache.py']),
         'short chain': ([('par', 'Sz', (), {}, None), ('op', 'invert', (), {}), ('par', 'Sv', (), {}, None)], True,
                         ['surfalize/batch.py', 'surfalize/cache.py', 'surfalize/base.py'])}


def heights(i):
    return util.grooves(6, 7, 0.5, 0.75, 1.9 + 0.4 * i, 20.0 * i, 1.0 + 0.3 * i, 0.4, seed=i + 3, offset=0.7 * i)


def sources(n, kind, scratch):
    """n files with different heights: buffers, paths or both."""
    from surfalize import Surface
    out = []
    for i in range(n):
        b = io.BytesIO()
        Surface(heights(i), 0.5, 0.75).save(b, format='.sur')
        as_path = kind == 'paths' or (kind == 'mixed' and i % 2)
        if as_path:
            path = pathlib.Path(scratch) / f'file{i}.sur'
            path.write_bytes(b.getvalue())
            out.append((path.name, path, b.getvalue()))
        else:
            out.append((f'buffer{i}', None, b.getvalue()))
    return out


def register(batch, steps):
    for s in steps:
        if s[0] == 'op':
            getattr(batch, s[1])(*s[2], **s[3])
        elif s[0] == 'par':
            kwargs = dict(s[3]) if s[4] is None else {**s[3], 'custom_name': s[4]}
            getattr(batch, s[1])(*s[2], **kwargs)
        elif s[0] == 'cop':
            batch.custom_operation(s[1])
        elif s[0] == 'cpar':
            batch.custom_parameter(s[1])
        else:
            batch.roughness_parameters(s[1])


def direct(blob, suffix, steps, ignore_errors):
    """The row of one file by evaluating the steps on the surface."""
    from surfalize import Surface
    surface = Surface.load(io.BytesIO(blob), format=suffix)
    row = {}
    for s in steps:
        if s[0] == 'op':
            getattr(surface, s[1])(*s[2], **{**s[3], 'inplace': True})
        elif s[0] == 'cop':
            s[1](surface)
        elif s[0] == 'cpar':
            try:
                row.update(s[1](surface))
            except Exception:
                if not ignore_errors:
                    raise
        elif s[0] == 'names':
            row.update({name: getattr(surface, name)() for name in s[1]})
        else:
            name = s[4] or s[1]
            labels = getattr(getattr(surface, s[1]), 'return_labels', None)
            try:
                value = getattr(surface, s[1])(*s[2], **s[3])
            except Exception:
                if not ignore_errors:
                    raise
                value = [np.nan] * len(labels) if labels else np.nan
            if labels:
                row.update({f'{name}_{label}': v for label, v in zip(labels, value)})
            else:
                row[name] = value
    return row


def make(files, fmt='.sur'):
    """FileInput / path list for one execution and the identity of each entry."""
    from surfalize.batch import FileInput
    out, ident = [], {}
    for i, (name, path, blob) in enumerate(files):
        if path is None:
            f = FileInput(name, io.BytesIO(blob), fmt)
            ident[id(f.data)] = (i,)
        else:
            f = path
            ident[str(path)] = (i,)
        out.append(f)

    def name_of(p):
        return ident.get(id(p)) or ident.get(str(p)) or (99,)
    return out, name_of


def rows(result):
    df = result.get_dataframe()
    return {r['file']: {k: v for k, v in r.items() if k != 'file'} for r in df.to_dict('records')}, len(df)


def judge(rec, key, expected, got, case):
    """expected: {file: row} or Err; got: (rows, count, callback list) or Err"""
    if isinstance(expected, util.Err) or isinstance(got, util.Err):
        ok = isinstance(expected, util.Err) and isinstance(got, util.Err) and expected.kind == got.kind
        return rec.check(ok, key, lambda: f'expected {expected!r}, got {got!r}', case)
    table, count, calls = got
    columns = set().union(*expected.values()) if expected else set()
    filled = {f: {c: float(row.get(c, np.nan)) for c in columns} for f, row in expected.items()}
    if not rec.check(count == len(filled) and set(table) == set(filled), key + ':rows',
                     lambda: f'{count} rows for {sorted(table)}', case):
        return False
    for f, row in filled.items():
        if not rec.check(set(table[f]) == columns, key + ':columns',
                         lambda: f'columns {sorted(table[f])} instead of {sorted(columns)}', case):
            return False
        for c, v in row.items():
            if not rec.check(util.close(table[f][c], v), key + f':{c}',
                             lambda: f'{f}: {c} = {table[f][c]!r}, direct evaluation gives {v!r}', case):
                return False
    if calls is not None:
        return rec.check(sorted(c['file'] for c in calls) == sorted(filled) and all(
            all(util.close(float(c[k]), expected[c['file']][k]) for k in expected[c['file']]) for c in calls),
            key + ':callback', lambda: f'callback invoked with {calls!r}', case)
    return True


# -- tasks -------------------------------------------------------------------------------------------------------------

def tasks(tier):
    out = []
    visits = 2 if tier == 'quick' else 4
    heavy = {'curve': 8, 'labels': 2, 'align': 4, 'cells': 2}
    for name in PROGRAMS:
        parts = heavy.get(name, 1) * (1 if tier == 'quick' else 8)
        v = 1 if name in ('curve', 'slope', 'labels', 'align', 'cells') and tier == 'quick' else visits
        for p in range(parts):
            out.append((f'{name} part {p}', ('program', name, 2, 2, 'mixed', 1, (p, parts), v)))
    out.sort(key=lambda t: t[1][1] not in heavy)
    for name in ('height', 'failing operation') + (() if tier == 'quick' else ('slope', 'invalid', 'custom', 'raise')):
        parts = 2 if tier == 'quick' else 16
        for p in range(parts):
            out.append((f'{name} 3 files part {p}', ('program', name, 3, 2, 'buffers', 1, (p, parts), 1)))
    for name in SHORT:
        for n, w in ((2, 2), (3, 3)) if tier == 'quick' else ((2, 2), (3, 3), (3, 2), (4, 3)):
            bound = 1 if tier == 'quick' and n > 2 else 2
            parts = 8 if bound == 2 else 1
            for p in range(parts):
                out.append((f'{name} {n}/{w} bound {bound} part {p}',
                            ('program', name, n, w, 'buffers', bound, (p, parts),
                             1 if bound == 2 or tier == 'quick' else visits)))
    for i in range(len(formats.basic())):
        for missing in (0, 2) if tier != 'quick' else (0,):
            out.append((f'load {i} {missing}', ('load', i, missing, 1 if tier == 'quick' else visits)))
    out += [(f'twice {name}', ('twice', name)) for name in list(PROGRAMS)]
    out.append(('equal names', ('duplicates',)))
    return out


def run(rec, _, args):
    warnings.simplefilter('ignore')
    if not os.environ.get('VERIF_DEBUG'):
        sys.stderr = open(os.devnull, 'w')
    scratch = tempfile.mkdtemp(prefix='c16-', dir=os.environ.get('VERIF_SCRATCH'))
    try:
        {'program': program, 'load': load, 'twice': twice, 'duplicates': duplicates}[args[0]](rec, scratch, *args[1:])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def program(rec, scratch, name, n, workers, kind, bound, part, visits):
    steps, ignore, files = {**PROGRAMS, **SHORT}[name]
    src = sources(n, kind, scratch)
    explore(rec, f'{name}:{n}:{workers}', src, '.sur', steps, ignore, files, workers, bound, part, visits)


def load(rec, scratch, index, missing, visits):
    a = formats.basic(missing=missing)[index]
    b = [s for s in formats.basic((5, 4) if a.suffix not in ('.nms',) else (4, 4), missing, layers=False)][index]
    src = [('one', None, a.blob), ('two', None, b.blob)]
    steps = [('par', 'Sv', (), {}, None), ('par', 'Sq', (), {}, None), ('par', 'projected_area', (), {}, None),
             ('cpar', shape)]
    explore(rec, f'load:{a.suffix}:{a.label}', src, a.suffix, steps, True, None, 2, 1, (0, 1), visits)


def shape(surface):
    return {'ny': surface.data.shape[0], 'nx': surface.data.shape[1], 'step_x': surface.step_x,
            'step_y': surface.step_y, 'sum': np.nansum(surface.data * np.arange(surface.data.size).reshape(
                surface.data.shape))}


def reference(src, suffix, steps, ignore):
    expected = {}
    for fname, _, blob in src:
        row = util.attempt(direct, blob, suffix, steps, ignore)
        if isinstance(row, util.Err):
            return row
        expected[fname] = row
    return expected


def explore(rec, key, src, suffix, steps, ignore, files, workers, bound, part, visits):
    from surfalize.batch import Batch
    expected = reference(src, suffix, steps, ignore)
    expect = [workers]
    from surfalize import Surface
    plain = Surface.__dict__['load']

    def execute(plan, counted):
        inputs, name_of = make(src, suffix)
        calls = []

        def once():
            batch = Batch(inputs)
            register(batch, steps)
            table, count = rows(batch.execute(ignore_errors=ignore, on_file_complete=calls.append))
            return table, count, calls
        with sched.pool_control(core.REPO, plan, len(src), workers, name_of, expect, files, visits) as s:
            got = util.attempt(once)
        assert Surface.__dict__['load'] is plain
        if counted:
            rec.execution(dict(program=key, plan={str(k): v for k, v in plan.items()}, points=s.points))
            rec.step(s.points)
            rec.state(key, tuple(s.decisions))
            rec.outcome(key, repr(got)[:2000])
            name = 'largest number of scheduling points'
            rec.notes[name] = max(rec.notes.get(name, 0), s.points)
            rec.notes['stalls'] = rec.notes.get('stalls', 0) + s.stalls
            judge(rec, key, expected, got, dict(program=key, plan={str(k): v for k, v in plan.items()},
                                                decisions=[d for i, d in enumerate(s.decisions) if i in plan]))
        return s
    sched.explore(execute, bound, part)


def twice(rec, scratch, name):
    """Histories: the same batch object is executed several times, in parallel or not, with files added in between."""
    from surfalize.batch import Batch
    steps, ignore, _ = PROGRAMS[name]
    for kind in ('mixed', 'buffers', 'paths'):
        src = sources(3, kind, scratch)
        first, both = reference(src[:2], '.sur', steps, ignore), reference(src, '.sur', steps, ignore)
        flags = (True, False)
        for a, b, add, keep in itertools.product(flags, flags, flags, flags):
            if name in ('curve', 'labels', 'align') and (kind == 'mixed' or not keep):
                continue
            key = f'twice:{name}:{kind}:{a:d}{b:d}{add:d}{keep:d}'
            inputs, _ = make(src)
            batch = Batch(inputs[:2] if add else inputs)
            register(batch, steps)
            with rec.guard(key, dict(program=name)):
                for turn, (flag, expected) in enumerate(((a, first if add else both), (b, both))):
                    calls = []

                    def once():
                        table, count = rows(batch.execute(multiprocessing=flag, ignore_errors=ignore,
                                                          on_file_complete=calls.append, preserve_chaining_order=True))
                        return table, count, calls
                    got = util.attempt(once)
                    rec.step()
                    rec.state(key, turn)
                    rec.outcome(key, turn, repr(got)[:1000])
                    judge(rec, f'{key}:{turn}', expected, got, dict(program=name, files=kind, parallel=(a, b), add=add))
                    if turn == 0 and add:
                        batch.add_files(inputs[2] if keep else [inputs[2]])
                rec.execution(key)


def duplicates(rec, scratch):
    """Files with equal names, with equal and different contents: one row and one callback per file."""
    from surfalize.batch import Batch
    blobs = [b for _, _, b in sources(2, 'buffers', scratch)]
    steps = [('par', 'Sz', (), {}, None), ('op', 'zero', (), {}), ('cpar', lowest)]
    single = [direct(b, '.sur', steps, True) for b in blobs]
    for n in (2, 3, 4):
        for which in itertools.product((0, 1), repeat=n):
            for same, parallel in itertools.product((True, False), repeat=2):
                key = f'duplicates:{which}:{same:d}{parallel:d}'
                with rec.guard(key):
                    inputs, _ = make([('same' if same else f'name{w}', None, blobs[w]) for w in which])
                    batch, calls = Batch(inputs), []
                    register(batch, steps)
                    df = batch.execute(multiprocessing=parallel, on_file_complete=calls.append).get_dataframe()
                    want = sorted(('same' if same else f'name{w}', *(round(float(single[w][c]), 9) for c in
                                                                     sorted(single[w]))) for w in which)
                    for what, found in (('rows', df.to_dict('records')), ('callbacks', calls)):
                        got = sorted((r['file'], *(round(float(r[c]), 9) for c in sorted(r) if c != 'file'))
                                     for r in found)
                        rec.check(got == want, f'{key}:{what}', lambda: f'{what}: {got} instead of {want}',
                                  dict(files=which))
                    rec.execution(key)
                    rec.step(n)
                    rec.state(key)
