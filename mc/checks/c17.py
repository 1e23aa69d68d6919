"""C17: a batch computes exactly the registered steps and labels them."""
import io
import itertools
import os
import pathlib
import shutil
import sys
import tempfile
import warnings

import numpy as np

from mc import core, formats, util
from mc.checks import c16
from mc.checks.c16 import judge, make, rows, direct, register

PROPERTY = 'C17'
LEVEL = 'model_checking'
RULE = ('all sequences of steps up to length 3 (thorough 4) over operations, parameters, custom steps and renamed '
        'parameters x chaining mode x error mode; every batch method with its arguments positionally, by keyword and by '
        'default; all templates of up to 3 fields x types x prefixes x suffixes x separators x values; all additional '
        'tables over subsets and orders of the files; all ways to name the input files')
TASK_LIMIT = 850.0


def top(surface):
    return {'top': surface.data.max(), 'bottom': surface.data.min()}


def picky(surface):
    if surface.data.max() > 2.2:
        raise RuntimeError('too high')
    return {'picky': surface.data[0, 0]}


def shift(surface):
    surface.data = surface.data * 1.5 + 0.25


ALPHABET = [('op', 'zero', (), {}), ('op', 'invert', (), {}), ('op', 'crop', ((0.5, 2.0, 0.0, 3.0),), {}), ('cop', shift),
            ('cpar', top), ('cpar', picky), ('par', 'Sp', (), {}, None), ('par', 'Sp', (), {}, 'peak'),
            ('par', 'cavity_volume', (0.3,), {}, None), ('par', 'Sal', (-1,), {}, None), ('names', ['Sv', 'Std'])]

OPERATIONS = [('fill_nonmeasured', ('mean',), {}), ('fill_nonmeasured', (), {'method': 'nearest'}),
              ('fill_nonmeasured', (), {}), ('level', (), {}), ('detrend_polynomial', (2,), {}),
              ('detrend_polynomial', (), {'degree': 3}), ('detrend_polynomial', (), {}), ('rotate', (25,), {}),
              ('rotate', (), {'angle': -10}), ('zoom', (1.5,), {}), ('crop', ((0.5, 2.0, 0.0, 3.0),), {}),
              ('crop', ((1, 4, 0, 3),), {'in_units': False}), ('align', (), {}), ('align', ('x',), {'method': 'fft'}),
              ('stepheight_level', (), {}), ('center', (), {}), ('zero', (), {}), ('invert', (), {}),
              ('remove_outliers', (), {}), ('remove_outliers', (1.5,), {'method': 'median'}), ('threshold', (), {}),
              ('threshold', (10,), {}), ('threshold', ((2, 20),), {}), ('filter', ('lowpass', 1.3), {}),
              ('filter', (), {'filter_type': 'highpass', 'cutoff': 1.3}),
              ('filter', ('bandpass', 0.9, 2.0), {}), ('filter', ('bandpass',), {'cutoff': 0.9, 'cutoff2': 2.0})]
PARAMETERS = [(n, (), {}) for n in ('Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku', 'projected_area', 'surface_area', 'Sdr',
                                    'Sdq', 'Sal', 'Str', 'Ssw', 'period', 'orientation', 'depth', 'aspect_ratio',
                                    'stepheight', 'cavity_volume')]
PARAMETERS += [('Sal', (0.5,), {}), ('Sal', (), {'s': 0.3}), ('Str', (0.5,), {}), ('Str', (), {'s': 0.3}),
               ('cavity_volume', (0.2,), {}), ('cavity_volume', (), {'threshold': 0.8}), ('orientation', ('fft',), {}),
               ('homogeneity', (['Sa', 'Sq'], 1.5), {}), ('homogeneity', (), {'parameters': ['Sz'], 'period': 2.0}),
               ('depth', (4,), {}), ('depth', (), {'nprofiles': 3, 'sampling_width': 0.4})]
CURVE = [(n, (), {}) for n in ('Sk', 'Spk', 'Svk', 'Spkx', 'Svkx', 'Sak1', 'Sak2', 'Smr1', 'Smr2', 'Smrk1', 'Smrk2', 'Sxp',
                               'Sdc', 'Vmp', 'Vmc', 'Vvv', 'Vvc')]
CURVE += [('Smr', (0.1,), {}), ('Smc', (30,), {}), ('Sxp', (5, 40), {}), ('Sdc', (20, 70), {}), ('Vmp', (25,), {}),
          ('Vmc', (20, 60), {}), ('Vmc', (), {'p': 5, 'q': 90}), ('Vvv', (60,), {}), ('Vvc', (20,), {'q': 60}),
          ('Vm', (30,), {}), ('Vv', (), {'p': 30})]


def sources(holes=False, extra=0):
    from surfalize import Surface
    out = []
    for i in range(2 + extra):
        z = c16.heights(i)
        if holes and i == 1:
            z[1, 2] = z[4, 4] = np.nan
        b = io.BytesIO()
        Surface(z, 0.5, 0.75).save(b, format='.sur')
        out.append((f'file{i}.sur', None, b.getvalue()))
    return out


def write(src, scratch, suffixes=None):
    out = []
    for name, _, blob in src:
        path = pathlib.Path(scratch) / name
        path.write_bytes(blob)
        out.append((name, path, blob))
    return out


def tasks(tier):
    out = []
    n = len(ALPHABET)
    depth = 3 if tier == 'quick' else 4
    for first in range(n):
        out.append((f'chains {first}', ('chains', first, depth, tier)))
    for i in range(len(OPERATIONS)):
        out.append((f'operation {i}', ('single', 'op', i)))
    for i in range(len(PARAMETERS)):
        out.append((f'parameter {i}', ('single', 'par', i)))
    for i in range(0, len(CURVE), 4):
        out.append((f'curve {i}', ('curve', i)))
    out += [('iso', ('iso',)), ('inputs', ('inputs', tier)), ('table', ('table',)), ('errors', ('errors',))]
    for n in (1, 2, 3):
        parts = {1: 1, 2: 2, 3: 8 if tier == 'quick' else 24}[n]
        for p in range(parts):
            out.append((f'templates {n} {p}', ('templates', n, p, parts, tier)))
    for k in range(4):
        out.append((f'additional {k}', ('additional', k, tier)))
    return out


def run(rec, _, args):
    warnings.simplefilter('ignore')
    if not os.environ.get('VERIF_DEBUG'):
        sys.stderr = open(os.devnull, 'w')
    scratch = tempfile.mkdtemp(prefix='c17-', dir=os.environ.get('VERIF_SCRATCH'))
    try:
        globals()[args[0]](rec, scratch, *args[1:])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# -- steps -------------------------------------------------------------------------------------------------------------

def names_of(step):
    if step[0] == 'par':
        return [step[4] or step[1]]
    if step[0] == 'names':
        return list(step[1])
    if step[0] == 'cpar':
        return [id(step[1])]
    return []


def chain_order(steps, preserve):
    if preserve:
        return steps
    ops = [s for s in steps if s[0] in ('op', 'cop')]
    return ops + [s for s in steps if s[0] not in ('op', 'cop')]


def reference(src, steps, ignore, preserve):
    expected = {}
    for fname, _, blob in src:
        row = util.attempt(direct, blob, '.sur', chain_order(steps, preserve), ignore)
        if isinstance(row, util.Err):
            return row
        expected[fname] = row
    return expected


def execute(rec, key, src, steps, ignore=True, preserve=True, parallel=False, case=None, expected=None):
    from surfalize.batch import Batch
    expected = reference(src, steps, ignore, preserve) if expected is None else expected

    def once():
        inputs, _ = make(src)
        batch = Batch(inputs)
        register(batch, steps)
        return (*rows(batch.execute(multiprocessing=parallel, ignore_errors=ignore,
                                    preserve_chaining_order=preserve)), None)
    got = util.attempt(once)
    rec.execution(key)
    rec.step(len(steps) * len(src))
    rec.state(key)
    rec.outcome(repr(got)[:800])
    return judge(rec, key, expected, got, case)


def label(step):
    return step[1].__name__ if callable(step[1]) else '+'.join(step[1]) if step[0] == 'names' else util.text(
        step[1:4]) + (f'={step[4]}' if step[0] == 'par' and step[4] else '')


def chains(rec, scratch, first, depth, tier):
    from surfalize.batch import Batch
    src = sources()
    for length in range(1, depth + 1):
        for rest in itertools.product(range(len(ALPHABET)), repeat=length - 1):
            steps = [ALPHABET[i] for i in (first, *rest)]
            registered = [n for s in steps for n in names_of(s)]
            title = ' '.join(label(s) for s in steps)
            case = dict(steps=title)
            if len(set(registered)) < len(registered):
                batch = Batch([])
                got = util.attempt(register, batch, steps)
                rec.execution()
                rec.check(isinstance(got, util.Err) and got.kind == 'BatchError', f'duplicate:{title}',
                          lambda: f'registering a name twice: {got!r}', case)
                continue
            for preserve, ignore in itertools.product((True, False), (True, False)):
                if length == depth and length > 2 and (preserve, ignore) not in ((True, True), (False, True)):
                    continue
                with rec.guard(f'chain:{title}', case):
                    execute(rec, f'chain:{title}:{preserve:d}{ignore:d}', src, steps, ignore, preserve, False, case)


def single(rec, scratch, kind, index):
    name, args, kwargs = (OPERATIONS if kind == 'op' else PARAMETERS)[index]
    for holes, named, parallel, ignore in itertools.product((False, True), (False, True), (False, True), (True, False)):
        if kind == 'op':
            if named:
                continue
            steps = [('op', name, args, kwargs), ('cpar', everything), ('par', 'projected_area', (), {}, None)]
        else:
            steps = [('par', name, args, kwargs, 'other name' if named else None), ('par', 'Sz', (), {}, 'Sz end')]
        key = f'single:{name}({args},{kwargs}):{holes:d}{named:d}{parallel:d}{ignore:d}'
        with rec.guard(key, dict(step=name)):
            execute(rec, key, sources(holes), steps, ignore, True, parallel, dict(step=util.text((name, args, kwargs))))


def everything(surface):
    z = np.nan_to_num(surface.data, nan=7.0)
    return {'ny': z.shape[0], 'nx': z.shape[1], 'sx': surface.step_x, 'sy': surface.step_y, 'w': surface.width_um,
            'h': surface.height_um, 's': (z * np.cos(np.arange(z.size)).reshape(z.shape)).sum(), 'm': z.mean()}


def curve(rec, scratch, start):
    for holes in (False, True):
        steps = [('par', n, a, k, f'p{i}') for i, (n, a, k) in enumerate(CURVE[start:start + 4])]
        key = f'curve:{start}:{holes:d}'
        with rec.guard(key):
            execute(rec, key, sources(holes), steps, True, True, False, dict(steps=CURVE[start:start + 4]))


def iso(rec, scratch):
    """All parameters at once, by name, as step objects and mixed."""
    from surfalize import Surface
    from surfalize.batch import Batch, _Parameter
    src = sources()
    expected = reference(src, [('names', list(Surface.ISO_PARAMETERS))], True, True)
    for given in (None, list(Surface.ISO_PARAMETERS)):
        def once():
            batch = Batch(make(src)[0])
            batch.roughness_parameters(given)
            return (*rows(batch.execute(multiprocessing=False)), None)
        rec.execution(repr(given))
        judge(rec, f'iso:{given is None}', expected, util.attempt(once), dict(parameters=given))
    for order in itertools.permutations(('Sa', _Parameter('Sal', kwargs=dict(s=0.4)), _Parameter('Sal', (0.5,), None,
                                                                                                  'half'))):
        def once():
            batch = Batch(make(src)[0])
            batch.roughness_parameters(list(order))
            return (*rows(batch.execute(multiprocessing=False)), None)
        want = reference(src, [('par', 'Sa', (), {}, None), ('par', 'Sal', (), {'s': 0.4}, None),
                               ('par', 'Sal', (0.5,), {}, 'half')], True, True)
        rec.execution()
        judge(rec, 'iso:mixed', want, util.attempt(once), dict(order=[str(getattr(o, 'name', o)) for o in order]))


def errors(rec, scratch):
    from surfalize.batch import Batch
    src = sources()
    for parallel, ignore in itertools.product((True, False), repeat=2):
        got = util.attempt(lambda: Batch(make(src)[0]).execute(multiprocessing=parallel, ignore_errors=ignore))
        rec.execution()
        rec.check(isinstance(got, util.Err) and got.kind == 'BatchError', 'no steps', f'executing no steps: {got!r}')
        # failing evaluations at every subset of three positions
        for mask in itertools.product((0, 1), repeat=3):
            steps = []
            for i, bad in enumerate(mask):
                steps.append(('par', 'Sal', (-1.0 if bad else 0.2 + 0.1 * i,), {}, f'sal{i}'))
            steps.append(('par', 'depth', (99 if mask[0] else 2,), {}, 'deep'))
            key = f'failing:{mask}:{parallel:d}{ignore:d}'
            with rec.guard(key):
                execute(rec, key, src, steps, ignore, True, parallel, dict(mask=mask))
        # files that fail at different places
        steps = [('cpar', picky), ('par', 'Sz', (), {}, None), ('cpar', top)]
        with rec.guard('failing files'):
            execute(rec, f'failing files:{parallel:d}{ignore:d}', sources(extra=2), steps, ignore, True, parallel)


# -- inputs ------------------------------------------------------------------------------------------------------------

def inputs(rec, scratch, tier):
    from surfalize.batch import Batch, FileInput
    from surfalize import Surface
    # every format, as path (str, Path) and as buffer with and without the format
    for s in formats.basic():
        d = pathlib.Path(tempfile.mkdtemp(dir=scratch))
        path = d / ('sample' + s.suffix)
        path.write_bytes(s.blob)
        z = Surface.load(path)
        want = {'Sq': z.Sq(), 'projected_area': z.projected_area()}
        given = [('Path', path, path.name), ('str', str(path), path.name),
                 ('hinted', FileInput('thing', io.BytesIO(s.blob), s.suffix), 'thing')]
        if s.suffix in formats.RECOGNISABLE:
            given.append(('buffer', FileInput('thing.xyz.abc', io.BytesIO(s.blob)), 'thing.xyz.abc'))
        for kind, f, fname in given:
            for how in ('init', 'add', 'add list'):
                def once():
                    batch = Batch([f] if how == 'init' else [])
                    if how != 'init':
                        batch.add_files(f if how == 'add' else [f])
                    if isinstance(f, FileInput):
                        f.data.seek(0)
                    return (*rows(batch.Sq().projected_area().execute(multiprocessing=False)), None)
                rec.execution()
                rec.state(s.suffix, kind, how)
                judge(rec, f'input:{s.suffix}:{s.label}:{kind}:{how}', {fname: want}, util.attempt(once),
                      dict(format=s.suffix, kind=kind))
    # directories: all subsets of a set of names x selections of suffixes
    pool = ['a.sur', 'b.SUR', 'c.sdf', 'd.al3d', 'e.txt', 'f.plux', 'sur', 'g.sur.bak', 'h.b.sdf', 'folder.sur']
    selections = [None, '.sur', '.SDF', ['.sur', '.sdf'], ('.al3d', '.Plux', '.sur'), ['.plu'], ['.txt'], []]
    blobs = {}
    for s in formats.basic():
        blobs.setdefault(s.suffix, s.blob)
    for k in (range(len(pool) + 1) if tier != 'quick' else (0, 1, 2, len(pool) - 1, len(pool))):
        for names in itertools.combinations(pool, k):
            d = pathlib.Path(tempfile.mkdtemp(dir=scratch))
            for nme in names:
                if nme.startswith('folder'):
                    (d / nme).mkdir()
                    (d / nme / 'z.sur').write_bytes(blobs['.sur'])
                else:
                    (d / nme).write_bytes(blobs.get(pathlib.Path(nme).suffix.lower(), b'nothing'))
            for sel in selections:
                chosen = formats.SUFFIXES if sel is None else [sel] if isinstance(sel, str) else sel
                want = sorted(n for n in names if not n.startswith('folder')
                              and any(n.lower().endswith(x.lower()) for x in chosen))
                for how in ('from_dir', 'from_dir str', 'add_dir', 'add_dir twice'):
                    if how == 'from_dir':
                        batch = util.attempt(lambda: Batch.from_dir(d, sel))
                    elif how == 'from_dir str':
                        batch = util.attempt(lambda: Batch.from_dir(str(d), file_extensions=sel))
                    elif how == 'add_dir':
                        batch = util.attempt(lambda: Batch([d / 'other.sur']).add_dir(d, sel))
                    else:
                        batch = util.attempt(lambda: Batch([]).add_dir(d, []).add_dir(str(d), file_extensions=sel))
                    w = sorted(want + (['other.sur'] if how == 'add_dir' else []))
                    rec.execution()
                    rec.state(names, repr(sel), how)
                    # the list of inputs is private: where it goes by another name, the number of inputs and the
                    # executions of the check 'dir:execute' decide
                    files = getattr(batch, '_files', None)
                    got = batch if isinstance(batch, util.Err) else \
                        sorted(getattr(f, 'name', '?') for f in files) if isinstance(files, (list, tuple)) else '?'
                    ok = not isinstance(batch, util.Err) and got in (w, '?') and len(batch) == len(w)
                    rec.check(ok, f'dir:{names}:{sel}:{how}',
                              lambda: f'{how} with {sel} selects {got} instead of {w}',
                              dict(names=names, selection=sel))
            if len(names) == len(pool):
                got = util.attempt(lambda: rows(Batch.from_dir(d).Sq().execute()))
                rec.execution()
                want = sorted(n for n in names if not n.startswith('folder')
                              and any(n.lower().endswith(x) for x in formats.SUFFIXES))
                rec.check(not isinstance(got, util.Err) and sorted(got[0]) == want and got[1] == len(want), 'dir:execute',
                          lambda: f'{got!r} instead of {want}')
            shutil.rmtree(d)


# -- table -------------------------------------------------------------------------------------------------------------

def table(rec, scratch):
    """saveto, access to the result, independence of two results."""
    import pandas as pd
    from surfalize.batch import Batch
    src = sources(extra=1)
    steps = [('par', 'Sz', (), {}, None), ('par', 'depth', (2,), {}, None), ('cpar', picky)]
    expected = reference(src, steps, True, True)
    for parallel, pattern, kind in itertools.product((True, False), (None, '<word|str|f|e><n|int>.sur'), (str,
                                                                                                         pathlib.Path)):
        target = kind(pathlib.Path(scratch) / f'out{parallel:d}.xlsx')
        batch = Batch(make(src)[0])
        register(batch, steps)
        if pattern:
            batch.extract_from_filename(pattern)
        key = f'table:{parallel:d}:{pattern}:{kind.__name__}'
        with rec.guard(key):
            result = batch.execute(multiprocessing=parallel, saveto=target)
            rec.execution(key)
            back = pd.read_excel(target, index_col=0)
            df = result.get_dataframe()
            rec.check(list(back.columns) == list(df.columns) and len(back) == len(df), key + ':excel',
                      lambda: f'columns {list(back.columns)} written, {list(df.columns)} returned')
            for frame in (back, df):
                got = {r['file']: {k: v for k, v in r.items() if k not in ('file', 'word', 'n')}
                       for r in frame.to_dict('records')}
                judge(rec, key, expected, (got, len(frame), None), dict(pattern=pattern))
                if pattern:
                    rec.check(all(r['word'] == 'il' and r['n'] == int(r['file'][4]) for r in frame.to_dict('records')),
                              key + ':pattern', lambda: repr(frame.to_dict('records')))
            rec.check(util.same(result['Sz'].to_numpy(), df['Sz'].to_numpy()), key + ':getitem', 'result[name] differs')
            rec.check(len(result.columns) == len(df.columns), key + ':getattr', 'result.columns differs')
            before = df.shape
            if not pattern:
                result.extract_from_filename('file<n|int>.sur')
                after = result.get_dataframe()
                rec.check(sorted(after['n']) == [0, 1, 2] and all(
                    r['n'] == int(r['file'][4]) for r in after.to_dict('records')), key + ':extract', lambda: repr(after))
                rec.check(after.shape == (before[0], before[1] + 1), key + ':extract shape', lambda: repr(after.shape))


def additional(rec, scratch, variant, tier):
    """All tables over subsets and orders of the files (and of files that are not part of the batch)."""
    import pandas as pd
    from surfalize.batch import Batch
    src = sources(extra=1)
    steps = [('par', 'Sz', (), {}, None), ('cpar', top)]
    full = reference(src, steps, True, True)
    pool = ['file0.sur', 'file1.sur', 'file2.sur', 'file9.sur']
    columns = [('power', [11.5, 22.5, 33.5, 44.5]), ('label', ['a', 'b', 'c', 'd'])]
    number = 0
    for k in range(1, 5):
        for listed in itertools.permutations(range(4), k):
            if not any(i < 3 for i in listed):
                continue
            number += 1
            if number % 4 != variant:
                continue
            data = {'file': [pool[i] for i in listed], **{c: [v[i] for i in listed] for c, v in columns}}
            if number % 3 == 0:
                data = dict(reversed(list(data.items())))
            path = pathlib.Path(scratch) / f't{number}.xlsx'
            pd.DataFrame(data).to_excel(path, index=False)
            for parallel, how in itertools.product((True, False), ('Batch', 'from_dir', 'pattern')):
                key = f'additional:{listed}:{parallel:d}:{how}'
                with rec.guard(key, dict(table=data)):
                    if how == 'from_dir':
                        d = pathlib.Path(tempfile.mkdtemp(dir=scratch))
                        write(src, d)
                        batch = Batch.from_dir(str(d), '.sur', str(path))
                    else:
                        batch = Batch(make(src)[0], additional_data=path)
                    register(batch, steps)
                    if how == 'pattern':
                        batch.extract_from_filename('file<n|int>')
                    result = batch.execute(multiprocessing=parallel).get_dataframe()
                    rec.execution(key)
                    rec.state(listed, parallel, how)
                    got = {r['file']: r for r in result.to_dict('records')}
                    want = [pool[i] for i in listed if i < 3]
                    ok = set(want) <= set(got) and len(result) == len(got)
                    for i in listed:
                        if i < 3 and ok:
                            row = got[pool[i]]
                            ok &= row['power'] == columns[0][1][i] and row['label'] == columns[1][1][i]
                            ok &= all(util.close(row[c], v) for c, v in full[pool[i]].items())
                            ok &= how != 'pattern' or row['n'] == i
                    rec.check(ok, key, lambda: f'table {data}: got {got}', dict(table=data))
    if variant == 0:
        path = pathlib.Path(scratch) / 'bad.xlsx'
        pd.DataFrame({'filename': ['file0.sur'], 'power': [1]}).to_excel(path, index=False)
        got = util.attempt(lambda: Batch(make(src)[0], additional_data=path))
        rec.execution()
        rec.check(isinstance(got, util.Err) and got.kind == 'ValueError', 'additional:no file column', repr(got))


VALUES = {'int': [('7', 7), ('120', 120), ('007', 7)], 'float': [('5', 5.0), ('1.25', 1.25), ('0,5', 0.5)],
          'str': [('ab', 'ab'), ('X', 'X')]}
PREFIXES = ['', 'P', 'FREP']
SUFFIXES = ['', 'kHz']
SEPARATORS = ['_', '-', ' x ']


def templates(rec, scratch, n, part, parts, tier):
    import pandas as pd
    from surfalize.batch import FilenameParser, BatchResult
    fields = [(t, p, s) for t in VALUES for p in PREFIXES for s in SUFFIXES]
    if n == 3 and tier == 'quick':
        fields = [f for f in fields if f[1:] in (('', ''), ('P', ''), ('', 'kHz'))]
    number = 0
    for combo in itertools.product(fields, repeat=n):
        number += 1
        if number % parts != part:
            continue
        for seps, head, tail in itertools.product(itertools.product(SEPARATORS if n < 3 else ('_',), repeat=n - 1),
                                                  ('', 'Sample_'), ('', '_end')):
            if not combo[0][1] and combo[0][0] == 'str' and not head:
                pass
            template, names = head, [f'p{i}' for i in range(n)]
            for i, (t, p, s) in enumerate(combo):
                form = f'<{names[i]}|{t}|{p}|{s}>' if s else f'<{names[i]}|{t}|{p}>' if p else f'<{names[i]}|{t}>'
                template += (seps[i - 1] if i else '') + form
            template += tail
            closed = bool(tail)
            if combo[-1][0] == 'str' and not combo[-1][2] and not closed:
                template += '.vk4'
            files, want = [], []
            choices = [VALUES[t] for t, _, _ in combo]
            for pick in (itertools.product(*choices) if n < 3 else zip(*[c * 3 for c in choices])):
                fname = head
                for i, (t, p, s) in enumerate(combo):
                    fname += (seps[i - 1] if i else '') + p + pick[i][0] + s
                files.append(fname + tail + '.vk4')
                want.append([v for _, v in pick])
            df = pd.DataFrame({'file': files, 'Sa': np.arange(len(files)) * 1.5})
            key = f'template:{template}'
            case = dict(template=template, files=files[:6])
            if template.startswith('<p0|str>') and not head:
                # an unanchored leading string takes everything from the start of the name, which is what is meant
                pass
            with rec.guard(key, case):
                for how in ('apply', 'append', 'result'):
                    if how == 'result':
                        r = BatchResult(df)
                        r.extract_from_filename(template)
                        got = r.get_dataframe()
                    else:
                        got = FilenameParser(template).apply_on(df, 'file', insert_after_column=how == 'apply')
                    rec.execution(key)
                    rec.step(len(files))
                    order = ['file', *names, 'Sa'] if how != 'append' else ['file', 'Sa', *names]
                    rec.check(list(got.columns) == order, key + ':columns',
                              lambda: f'columns {list(got.columns)} instead of {order}', case)
                    for i, (t, _, _) in enumerate(combo):
                        column = got[names[i]]
                        values = [w[i] for w in want]
                        typed = {'int': column.dtype.kind == 'i', 'float': column.dtype.kind == 'f',
                                 'str': all(isinstance(v, str) for v in column)}[t]
                        rec.check(typed and list(column) == values, key + f':{names[i]}',
                                  lambda: f'{names[i]}: {list(column)[:9]} ({column.dtype}) instead of {values[:9]}', case)
                    rec.check(list(got['file']) == files and list(got['Sa']) == list(df['Sa']), key + ':others',
                              'other columns changed', case)
                    rec.check(list(df.columns) == ['file', 'Sa'], key + ':source', 'source table changed', case)
            rec.state(template)
            rec.outcome(repr(want))
    if n == 1 and part == 0:
        df = pd.DataFrame({'file': ['P12.sur']})
        for bad in ('<a', '<a|int', '<a>', 'P<a|foo>', '<a|>', '<a<b|int>', '<a|int>_<b', '<>'):
            got = util.attempt(lambda: FilenameParser(bad).apply_on(df, 'file'))
            rec.execution()
            rec.check(isinstance(got, util.Err) and got.kind == 'ParsingError', f'template:{bad}',
                      lambda: f'malformed template {bad!r}: {got!r}')
