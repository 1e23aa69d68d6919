"""C19: the command line converts and processes files as requested."""
import hashlib
import io
import itertools
import os
import pathlib
import shutil
import sys
import tempfile
import types
import warnings

import numpy as np

from mc import formats
from mc.checks import c12, c15
from mc.util import Err, attempt, generic, grooves, same

PROPERTY = 'C19'
LEVEL = 'model_checking'
RULE = ('conversion: every readable format x every output name (all writable and some other suffixes, none, upper case) x '
        'every format option x flags x whether the output exists, and all subsets of a directory with files of several '
        'formats, other files and folders; processing: all subsets of the processing options, in both orders and '
        'spellings, x surfaces with and without non-measured points, observed at the renderer and in the report')
ASSUMPTIONS = ['the renderer (pyvista) and the PDF writer (fpdf) are replaced by stand-ins that record what they are given']
TASK_LIMIT = 400

WRITABLE = formats.WRITABLE
GRIDS = []      # what was rendered
CELLS = []      # the reports that were written: (path, cells)
IMAGES = []     # the images in each of them


def before_import():
    """Stand-ins for the optional rendering libraries"""
    from PIL import Image
    pv = types.ModuleType('pyvista')

    class Anything:
        def __init__(self, *args, **kwargs):
            pass

        def __getattr__(self, name):
            return lambda *args, **kwargs: None

    class StructuredGrid:
        def __init__(self, x, y, z):
            self.point_data = {}
            GRIDS.append((np.array(x), np.array(y), np.array(z)))

    class Plotter(Anything):
        def screenshot(self, target=None, **kwargs):
            image = Image.new('RGB', (24, 16), (255, 255, 255))
            image.putpixel((5, 5), (0, 0, 0))
            if target is None:
                return np.array(image)
            image.save(target, format='PNG')

    pv.StructuredGrid, pv.Plotter, pv.Light = StructuredGrid, Plotter, Anything
    sys.modules['pyvista'] = pv

    fpdf = types.ModuleType('fpdf')
    fonts = types.ModuleType('fpdf.fonts')

    class Table:
        def __init__(self, cells):
            self.cells = cells

        def __enter__(self):
            return self

        def __exit__(self, *args):
            return False

        def row(self, cells=(), **kwargs):
            row = []
            self.cells.append(row)
            for c in cells:
                row.append(str(c))
            return types.SimpleNamespace(cell=lambda text='', *a, **k: row.append(str(text)))

    class FPDF(Anything):
        font_size = 4.2
        w = 210.0
        h = 297.0

        def __init__(self, *args, **kwargs):
            self.cells, self.images = [], []

        def table(self, *args, **kwargs):
            return Table(self.cells)

        def image(self, name=None, *args, **kwargs):
            if isinstance(name, (bytes, bytearray)):
                name = io.BytesIO(name)
            image = name if isinstance(name, Image.Image) else Image.fromarray(name) if isinstance(name, np.ndarray) \
                else Image.open(name)
            self.images.append(np.array(image.convert('RGB')))

        def output(self, name='', *args, **kwargs):
            IMAGES.append(self.images)
            CELLS.append((pathlib.Path(str(name)), self.cells))
            with open(name, 'wb') as f:
                f.write(b'%PDF stand-in')

    fpdf.FPDF, fpdf.fonts = FPDF, fonts
    fonts.FontFace = Anything
    sys.modules['fpdf'], sys.modules['fpdf.fonts'] = fpdf, fonts


def setup():
    import surfalize.cli    # noqa: F401


def invoke(arguments):
    from click.testing import CliRunner

    from surfalize.cli import cli
    warnings.simplefilter('ignore')
    return CliRunner().invoke(cli, [str(a) for a in arguments])


def why(result):
    return f'exit {result.exit_code} {result.exception!r} {result.output[-200:]!r}'


def tasks(tier):
    out = [(f'convert {i}', ('convert', i, tier)) for i in range(len(formats.basic()))]
    out += [(f'folder {i}', ('folder', i, 16, tier)) for i in range(16)]
    out += [('folder formats', ('layouts', tier)), ('broken', ('broken', tier))]
    out += [(f'same names {i}', ('collisions', i, 4, tier)) for i in range(4)]
    out += [(f'process {i}', ('process', i, 16, tier)) for i in range(16)]
    out += [(f'contradiction {i}', ('contradiction', i, 2, tier)) for i in range(2)]
    out += [(f'2d {i}', ('flat', i, 4, tier)) for i in range(4)]
    out += [(f'report {i}', ('report', i, 8, tier)) for i in range(8)]
    out += [(f'reports {i}', ('reports', i, 6, tier)) for i in range(6)]
    return out


def run(rec, name, args):
    scratch = pathlib.Path(tempfile.mkdtemp(prefix='c19-', dir=os.environ.get('VERIF_SCRATCH')))
    try:
        globals()['task_' + args[0]](rec, scratch, *args[1:])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# -- Conversion --------------------------------------------------------------------------------------------------------
def listing(folder):
    """The content of every file below the folder, and the folders"""
    return {str(p.relative_to(folder)): (hashlib.sha1(p.read_bytes()).hexdigest() if p.is_file() else 'folder')
            for p in sorted(folder.rglob('*'))}


def inspect(rec, key, path, suffix, sample, skip, compressed):
    """The file holds the surface of the sample in the format of the suffix"""
    from surfalize import Surface
    blob = path.read_bytes()
    start = {'.al3d': (b'AliconaImaging',), '.sdf': (b'aISO', b'bISO', b'aBCR', b'bBCR', b'bNIST', b'aNIST'),
             '.sflz': (b'SFLZ',), '.sur': ((b'DSCOMPRESSED',) if compressed else (b'DIGITAL SURF',)),
             '.tmd': (b'Binary TrueMap',)}[suffix]
    if not rec.check(blob.startswith(start), f'{key}: format', f'{key}: the file starts with {blob[:20]!r}', key):
        return
    t = attempt(Surface.load, io.BytesIO(blob), format=suffix, read_image_layers=True)
    rec.step()
    if isinstance(t, Err):
        rec.fail(f'{key}: reading', f'{key}: the written file cannot be read: {t!r}', key)
        return
    z = np.asarray(t.data, float)
    ok = z.shape == sample.z.shape and np.array_equal(np.isnan(z), np.isnan(sample.z))
    if not rec.check(ok, f'{key}: points', f'{key}: shape {z.shape}, {np.isnan(z).sum()} non-measured', key):
        return
    d = z - sample.z
    if sample.offset_free:
        d = d - np.nanmean(d)
    height, step = c12.tolerance((suffix, {}), sample.z)
    if sample.offset_free:
        height *= 4
    height += c15.tolerance(sample) * np.nanmax(np.abs(sample.z))
    rec.check(np.nanmax(np.abs(d)) <= height + 1e-300, f'{key}: heights',
              f'{key}: heights {z.ravel()[:5]} instead of {sample.z.ravel()[:5]}', key)
    for n in ('step_x', 'step_y'):
        a, b = getattr(t, n), getattr(sample, n)
        rec.check(abs(a - b) <= (2e-6 if sample.suffix == '.xyz' else 4e-7) * b, f'{key}: {n}',
                  f'{key}: {n} is {a} instead of {b}', key)
    if suffix == '.sflz':
        want = {} if skip else sample.layers
        rec.check(set(t.image_layers) == set(want), f'{key}: layers',
                  f'{key}: image layers {sorted(t.image_layers)} instead of {sorted(want)}', key)
        for k in set(want) & set(t.image_layers):
            a = np.asarray(t.image_layers[k].data)
            rec.check(a.shape == want[k].shape and np.array_equal(a, want[k]), f'{key}: layer',
                      f'{key}: layer {k} {a.shape} {a.ravel()[:6]}', key)
    else:
        rec.check(not t.image_layers, f'{key}: layers', f'{key}: image layers {sorted(t.image_layers)}', key)
    rec.outcome(suffix, z, sorted(t.image_layers))


def flags(skip, compressed):
    return (['--skip-image-layers'] if skip else []) + (['--compressed'] if compressed else [])


def expected(suffix, option, folder=False):
    """The format requested by the suffix of the output and the option (None: as documented without them)"""
    f = suffix if suffix and not folder else option if option is not None else '.sur'
    return f.lower()


def task_convert(rec, scratch, index, tier):
    names = [s for s in WRITABLE] + [s.upper() for s in WRITABLE] + ['', '.vk4', '.x3p', '.txt', '.S', '.sur.tmd', '.tmd.sur']
    options = [None] + list(WRITABLE) + ['.SUR', '.Tmd', 'sur', '.vk4', '.docx', '']
    for missing, layers in ([(0, True)] if tier == 'quick' else [(0, True), (3, True), (0, False), (1, False)]):
        sample = formats.basic(missing=missing, layers=layers)[index]
        for k, (name, option, skip, compressed, exists) in enumerate(itertools.product(
                names, options, (False, True), (False, True), ('no', 'larger'))):
            if name and option is not None and option not in ('.sdf', '.SUR', '.docx'):
                continue
            if exists == 'larger' and compressed:
                continue
            upper = k % 3 == 0
            source = 'the input' + (sample.suffix.upper() if upper else sample.suffix)
            key = (f'convert {sample.suffix} {sample.label} {missing} {layers} {"upper case " if upper else ""}to out{name} --format '
                   f'{option} {" ".join(flags(skip, compressed))}{"" if exists == "no" else " over an existing file"}')
            work = scratch / str(k)
            work.mkdir()
            (work / source).write_bytes(sample.blob)
            out = work / f'out{name}'
            if exists == 'larger':
                out.write_bytes(b'previous content ' * 1000)
            before = listing(work)
            suffix = expected(pathlib.Path(out).suffix, option)
            with rec.guard(key, key):
                arguments = ['convert', work / source, out] + ([] if option is None else ['--format' if k % 2 else '-f', option]) \
                    + flags(skip, compressed)
                result = invoke(arguments if k % 4 < 2 else arguments[:1] + arguments[3:] + arguments[1:3])
                rec.execution(key)
                after = listing(work)
                rest = {k: v for k, v in after.items() if k != out.name}
                rec.check(rest == {k: v for k, v in before.items() if k != out.name}, f'{key}: other files',
                          f'{key}: changed other files: {sorted(before)} -> {sorted(after)}', key)
                if suffix not in WRITABLE or compressed and suffix != '.sur':
                    rec.check(after == before, f'{key}: written', f'{key}: wrote a file', key)
                    if compressed and suffix != '.sur':
                        rec.check(result.exit_code != 0, f'{key}: accepted', f'{key}: {why(result)}', key)
                    else:
                        rec.check(isinstance(result.exception, (SystemExit, type(None))), f'{key}: unsupported',
                                  f'{key}: {why(result)}', key)
                        rec.check('not supported' in result.output, f'{key}: no message', f'{key}: {why(result)}', key)
                else:
                    if rec.check(result.exit_code == 0 and out.name in after, f'{key}: failed', f'{key}: {why(result)}', key):
                        inspect(rec, key, out, suffix, sample, skip, compressed)
                rec.state(sample.suffix, missing, name, option, skip, compressed, exists, result.exit_code)
            shutil.rmtree(work)


def contents():
    """name -> (bytes, sample or None)"""
    b = {s.suffix + s.label: s for s in formats.basic()}
    pick = {s.suffix: s for s in b.values()}
    return {
        'a.vk4': pick['.vk4'], 'b.SUR': pick['.sur'], 'c.d.x3p': pick['.x3p'], 'e f.sflz': pick['.sflz'], 'ä.Sdf': pick['.sdf'],
        'notes.txt': None, 'plain': None, '.tmd': None, 'folder.al3d': 'folder'}


def fill(folder, chosen, items):
    folder.mkdir(parents=True)
    for n in chosen:
        item = items[n]
        if item == 'folder':
            (folder / n).mkdir()
            (folder / n / 'z.vk4').write_bytes(items['a.vk4'].blob)
        else:
            (folder / n).write_bytes(item.blob if item else b'hello')


def convert_folder(rec, scratch, key, chosen, items, option, skip, compressed, where):
    work = scratch / 'w'
    fill(work / 'in', chosen, items)
    out = {'new': work / 'out', 'nested': work / 'x' / 'y.sur' / 'z', 'existing': work / 'out', 'same': work / 'in',
           'dotted': work / 'out.tmd'}[where]
    if where == 'existing':
        out.mkdir()
        (out / 'kept.txt').write_bytes(b'kept')
        (out / 'a.sur').write_bytes(b'replaced ' * 500)
        (out / 'a.sdf').write_bytes(b'replaced ' * 500)
    before = listing(work)
    fmt = expected('', option)
    with rec.guard(key, key):
        result = invoke(['convert', work / 'in', out] + ([] if option is None else ['-f', option]) + flags(skip, compressed))
        rec.execution(key)
        after = listing(work)
        if fmt not in WRITABLE or compressed and fmt != '.sur':
            rec.check(after == before, f'{key}: written', f'{key}: wrote {sorted(set(after) - set(before))}', key)
            rec.check((result.exit_code != 0) == (compressed and fmt != '.sur'), f'{key}: status', f'{key}: {why(result)}', key)
        else:
            rec.check(result.exit_code == 0, f'{key}: failed', f'{key}: {why(result)}', key)
            want = {str((out / (pathlib.Path(n).stem + fmt)).relative_to(work)): n for n in chosen
                    if isinstance(items[n], formats.Sample)}
            parents = {str(p.relative_to(work)) for p in [out, *out.parents] if work in p.parents}
            rec.check(set(after) == set(before) | set(want) | parents, f'{key}: files',
                      f'{key}: new files {sorted(set(after) - set(before))} instead of {sorted(want)}', key)
            rec.check(all(after.get(k) == v for k, v in before.items() if k not in want), f'{key}: changed',
                      f'{key}: changed or removed other files', key)
            for target, n in want.items():
                if target in after:
                    inspect(rec, f'{key}: {n}', work / target, fmt, items[n], skip, compressed)
                    rec.step()
        rec.state(tuple(chosen), option, skip, compressed, where)
    shutil.rmtree(work)


def task_folder(rec, scratch, part, parts, tier):
    items = contents()
    subsets = [c for n in range(len(items) + 1) for c in itertools.combinations(items, n)]
    for i, chosen in enumerate(subsets):
        if i % parts != part:
            continue
        for option, where in ([(None, 'new'), ('.sdf', 'existing')] if tier == 'quick' else
                              [(None, 'new'), ('.sdf', 'existing'), ('.tmd', 'same'), ('.SFLZ', 'nested'), ('.al3d', 'dotted')]):
            key = f'folder {chosen} {option} {where}'
            convert_folder(rec, scratch, key, chosen, items, option, False, False, where)


def task_layouts(rec, scratch, tier):
    items = contents()
    for option, skip, compressed, where in itertools.product(
            [None] + list(WRITABLE) + ['.SUR', '.Sflz', '.vk4', 'sur', '.txt'], (False, True), (False, True),
            ('new', 'nested', 'existing', 'same', 'dotted')):
        for chosen in (tuple(items), tuple(items)[:1], ()):
            if where == 'same' and expected('', option) in ('.sdf', '.sflz', '.sur'):
                continue    # the names coincide
            key = f'folder {len(chosen)} {option} {where} {" ".join(flags(skip, compressed))}'
            convert_folder(rec, scratch, key, chosen, items, option, skip, compressed, where)


def matches(path, suffix, sample):
    """The file can be read as a file of the format and holds the surface of the sample"""
    from surfalize import Surface
    t = attempt(Surface.load, path, format=suffix)
    if isinstance(t, Err):
        return False
    z, want = np.asarray(t.data, float), sample.z
    if z.shape != want.shape or not np.array_equal(np.isnan(z), np.isnan(want)):
        return False
    d = z - want
    return np.ptp(d) <= 1e-3 * (np.ptp(want) + 1e-300) + 1e-3 * np.max(np.abs(want))


def task_collisions(rec, scratch, part, parts, tier):
    """Inputs that differ in their suffix alone: every input has an output of its own, and no input is lost"""
    # surfaces of different sizes, by which an output is recognised whatever it is called
    pool = {'a.vk4': formats.vk((4, 4)), 'a.sur': formats.sur((5, 4)), 'a.x3p': formats.x3p((4, 7)), 'a.SDF': formats.sdf((6, 4)),
            'b.vk4': formats.vk((4, 5)), 'a.vk4.sflz': formats.sflz((4, 6), layers=False), 'a_2.plu': formats.plu((7, 4), layers=None)}
    sizes = range(2, len(pool) + 1) if tier != 'quick' else (2, 3, len(pool))
    for i, chosen in enumerate(c for n in sizes for c in itertools.combinations(pool, n)):
        if i % parts == part:
            for option, where in itertools.product(WRITABLE, ('new', 'same')):
                key = f'same names {chosen} {option} {where}'
                work = scratch / 'w'
                fill(work / 'in', chosen, pool)
                out = work / ('in' if where == 'same' else 'out')
                with rec.guard(key, key):
                    result = invoke(['convert', work / 'in', out, '-f', option, '--skip-image-layers'])
                    rec.execution(key)
                    rec.check(result.exit_code == 0, f'{key}: failed', f'{key}: {why(result)}', key)
                    files = [p for p in sorted(out.iterdir()) if p.suffix == option]
                    lost = [c for c in chosen if not (work / 'in' / c).exists()]
                    rec.check(not lost, f'{key}: inputs', f'{key}: {lost} are gone', key)
                    rest = list(files)
                    for c in chosen:
                        mine = [p for p in rest if matches(p, option, pool[c])]
                        if rec.check(bool(mine), f'{key}: {c}',
                                     lambda: f'{key}: {c} is in none of {[p.name for p in files]}', key):
                            rest.remove(mine[0])
                        rec.step()
                    for c in chosen:
                        p = work / 'in' / c
                        rec.check(p.read_bytes() == pool[c].blob or matches(p, p.suffix.lower(), pool[c]), f'{key}: {c} changed',
                                  f'{key}: {c} holds something else', key)
                    rec.state(chosen, option, where)
                shutil.rmtree(work)


def task_broken(rec, scratch, tier):
    """Inputs that cannot be read: an error and no output"""
    b = formats.basic()
    cases = [('missing file', None, 'in.sur'), ('text', b'hello', 'in.txt'), ('text', b'hello', 'in'), ('nothing', b'', 'in.doc')]
    for s in b:
        cases += [(f'{s.suffix} {s.label} empty', b'', 'in' + s.suffix),
                  (f'{s.suffix} {s.label} cut', s.blob[:len(s.blob) // 3], 'in' + s.suffix)]
    for s in b:     # the content tells the format
        if s.suffix in formats.RECOGNISABLE:
            cases += [(s, s.blob, 'in.txt'), (s, s.blob, 'in')]
    for i, (what, blob, name) in enumerate(cases):
        for out in ('out.sur', 'out.SDF', 'out'):
            work = scratch / f'{i}'
            work.mkdir()
            if blob is not None:
                (work / name).write_bytes(blob)
            before = listing(work)
            sample = what if isinstance(what, formats.Sample) else None
            key = f'{sample.suffix + " " + sample.label + " named " + name if sample else what} to {out}'
            with rec.guard(key, key):
                result = invoke(['convert', work / name, work / out])
                rec.execution(key)
                if sample:
                    if rec.check(result.exit_code == 0 and (work / out).is_file(), f'{key}: failed', f'{key}: {why(result)}', key):
                        inspect(rec, key, work / out, expected((work / out).suffix, None), sample, False, False)
                else:
                    rec.check(result.exit_code != 0, f'{key}: accepted', f'{key}: {why(result)}', key)
                    rec.check(listing(work) == before, f'{key}: written', f'{key}: files {sorted(listing(work))}', key)
                rec.state(key)
            shutil.rmtree(work)


# -- Processing --------------------------------------------------------------------------------------------------------
SWITCHES = {'fill': ('--fill-nonmeasured', '-fn'), 'level': ('--level', '-l'), 'center': ('--center', '-c'),
            'zero': ('--zero', '-z')}
VALUES = {'threshold': (('--threshold', '-t'), [(3, 6), (0, 10.5)]), 'outliers': (('--remove-outliers', '-ro'), [(2,), (1,)]),
          'highpass': (('--highpass', '-hp'), [(4.0,), (9,)]), 'lowpass': (('--lowpass', '-lp'), [(3.0,), (1.5,)]),
          'bandpass': (('--bandpass', '-bp'), [(2.0, 7.5), (1.25, 4)])}


def inputs():
    z = generic(9, 11, seed=190, scale=1.5, offset=4.0) + np.add.outer(np.arange(9) * 0.3, np.arange(11) * -0.2)
    z[4, 5] += 6
    z[6, 2] -= 4
    holes = z.copy()
    holes[2, 3:5] = holes[7, 7] = np.nan
    return {'complete': (z, 0.5, 0.75), 'incomplete': (holes, 0.5, 0.75)}


def selections():
    """All subsets of the processing options that do not contradict each other"""
    for fill_, level, position, threshold, outliers, which in itertools.product(
            (0, 1), (0, 1), (None, 'center', 'zero'), (0, 1), (0, 1), (None, 'highpass', 'lowpass', 'bandpass')):
        yield ([n for n, v in (('fill', fill_), ('level', level)) if v] + [n for n in (position,) if n]
               + [n for n, v in (('threshold', threshold), ('outliers', outliers)) if v] + [n for n in (which,) if n])


def command(selection, variant):
    """Command line of the selection: variant 0 long names in the order of processing, 1 short names, reversed"""
    parts = []
    for n in selection:
        if n in SWITCHES:
            parts.append([SWITCHES[n][variant]])
        else:
            names, values = VALUES[n]
            parts.append([names[variant]] + [str(v) for v in values[variant]])
    if variant:
        parts.reverse()
    return [x for p in parts for x in p]


def reference(surface, selection, variant):
    """The operations on the surface, none of them in place"""
    s = surface
    value = {n: VALUES[n][1][variant] for n in selection if n in VALUES}
    if 'fill' in selection:
        s = s.fill_nonmeasured()
    if 'level' in selection:
        s = s.level()
    if 'center' in selection:
        s = s.center()
    if 'zero' in selection:
        s = s.zero()
    if 'threshold' in selection:
        s = s.threshold(tuple(value['threshold'])).fill_nonmeasured()
    if 'outliers' in selection:
        s = s.remove_outliers(n=value['outliers'][0]).fill_nonmeasured()
    for n in ('highpass', 'lowpass'):
        if n in selection:
            s = s.filter(n, value[n][0])
    if 'bandpass' in selection:
        s = s.filter('bandpass', value['bandpass'][0], value['bandpass'][1])
    return s


def prepare(scratch, label):
    from surfalize import Surface
    z, dx, dy = inputs()[label]
    path = scratch / f'{label}.sdf'
    Surface(z, dx, dy).save(path, binary=True)
    return path


def agree(rec, key, z, want):
    z, want = np.asarray(z, float), np.asarray(want, float)
    scale = np.nanmax(np.abs(want)) if np.isfinite(want).any() else 1.0
    return rec.check(z.shape == want.shape and np.allclose(z, want, rtol=0, atol=1e-9 * scale, equal_nan=True), f'{key}: heights',
                     f'{key}: heights {z.ravel()[:6]} instead of {want.ravel()[:6]}', key)


def task_process(rec, scratch, part, parts, tier):
    from surfalize import Surface
    for i, (selection, label, variant) in enumerate(itertools.product(selections(), inputs(), (0, 1))):
        if i % parts != part:
            continue
        path = scratch / f'{label}.sdf'
        if not path.exists():
            prepare(scratch, label)
        blob = path.read_bytes()
        arguments = command(selection, variant)
        key = f'show {label} {" ".join(arguments)}'
        with rec.guard(key, key):
            original = Surface.load(path)
            want = attempt(reference, original, selection, variant)
            GRIDS.clear()
            result = invoke(['show', path, '--plot-3d'] + arguments if variant else ['show'] + arguments + ['--plot-3d', path])
            rec.execution(key)
            rec.step(len(selection))
            rec.check(path.read_bytes() == blob, f'{key}: input', f'{key}: the input file was changed', key)
            if isinstance(want, Err):
                rec.check(result.exit_code != 0 and not GRIDS, f'{key}: accepted', f'{key}: {why(result)} instead of {want!r}', key)
                rec.outcome('rejected', want.kind)
            elif rec.check(result.exit_code == 0 and len(GRIDS) == 1, f'{key}: failed', f'{key}: {why(result)}', key):
                x, y, z = GRIDS[0]
                agree(rec, key, z, want.data)
                ny, nx = want.data.shape
                rec.check(np.isclose(x.max() - x.min(), want.width_um) and np.isclose(y.max() - y.min(), want.height_um),
                          f'{key}: extent', f'{key}: extent {np.ptp(x)} x {np.ptp(y)}', key)
                rec.outcome(z)
            rec.state(label, arguments)


def task_contradiction(rec, scratch, part, parts, tier):
    filters = ['highpass', 'lowpass', 'bandpass']
    chosen = [list(c) for n in (2, 3) for c in itertools.permutations(filters, n)]
    chosen += [['center', 'zero'], ['zero', 'center'], ['center', 'highpass', 'zero', 'bandpass']]
    others = [list(c) for n in range(3) for c in itertools.combinations(['fill', 'level', 'threshold', 'outliers'], n)]
    for i, (a, b, variant, what) in enumerate(itertools.product(chosen, others, (0, 1), ('show', 'report'))):
        if i % parts != part:
            continue
        label = ('complete', 'incomplete')[i // 2 % 2]
        path = scratch / f'{label}.sdf'
        if not path.exists():
            prepare(scratch, label)
        arguments = command(b + a, variant)
        key = f'{what} {label} {" ".join(arguments)}'
        before = listing(scratch)
        with rec.guard(key, key):
            GRIDS.clear(), CELLS.clear()
            result = invoke([what, path] + arguments + (['--plot-3d'] if what == 'show' else []))
            rec.execution(key)
            rec.check(result.exit_code != 0 and not isinstance(result.exception, (TypeError, NameError, AttributeError, KeyError)),
                      f'{key}: accepted', f'{key}: {why(result)}', key)
            rec.check(not GRIDS and not CELLS and listing(scratch) == before, f'{key}: output', f'{key}: produced output', key)
            rec.state(what, arguments)


def task_flat(rec, scratch, part, parts, tier):
    """The two-dimensional view"""
    import matplotlib
    import matplotlib.pyplot as plt

    from surfalize import Surface
    shown = []
    saved = matplotlib.get_backend, plt.show

    def show(*args, **kwargs):
        for axes in plt.gcf().axes:
            for image in axes.images:
                shown.append((np.ma.filled(np.ma.asarray(image.get_array(), float), np.nan), image.get_extent()))
        plt.close('all')

    try:
        for i, (selection, label) in enumerate(itertools.product(list(selections())[::1 if tier == 'thorough' else 5], inputs())):
            if i % parts != part:
                continue
            path = scratch / f'{label}.sdf'
            if not path.exists():
                prepare(scratch, label)
            arguments = command(selection, i // parts % 2)
            key = f'show 2d {label} {" ".join(arguments)}'
            with rec.guard(key, key):
                want = attempt(reference, Surface.load(path), selection, i // parts % 2)
                shown.clear()
                matplotlib.get_backend, plt.show = (lambda *a, **k: 'interactive'), show
                try:
                    result = invoke(['show', path] + arguments)
                finally:
                    matplotlib.get_backend, plt.show = saved
                rec.execution(key)
                if isinstance(want, Err):
                    rec.check(result.exit_code != 0 and not shown, f'{key}: accepted', f'{key}: {why(result)}', key)
                elif rec.check(result.exit_code == 0 and shown, f'{key}: failed', f'{key}: {why(result)}', key):
                    agree(rec, key, shown[0][0], want.data)
                rec.state('2d', label, arguments)
    finally:
        plt.close('all')


ISO_SHOWN = {'Sa': 'µm', 'Sq': 'µm', 'Sv': 'µm', 'Sp': 'µm', 'Sz': 'µm', 'Sk': 'µm', 'Spk': 'µm', 'Svk': 'µm'}
PERIODIC = {'Period': ('period', 'µm'), 'Depth': ('depth', 'µm'), 'Aspect ratio': ('aspect_ratio', ''),
            'Homogeneity': ('homogeneity', '')}


def table(cells):
    return {row[0]: row[1:] for row in cells if len(row) >= 3}


def verify_images(rec, key, images, grids, want):
    """A view with the colours of the heights and the rendered scene of the same heights are in the report"""
    colours = [len(np.unique(i.reshape(-1, 3), axis=0)) for i in images]
    rec.check(sum(c > 100 for c in colours) == 1, f'{key}: view', f'{key}: colours of the images: {colours}', key)
    rec.check(len(colours) >= 2, f'{key}: scene', f'{key}: colours of the images: {colours}', key)
    if rec.check(len(grids) == 1, f'{key}: rendered', f'{key}: {len(grids)} scenes', key):
        z = grids[0][2]
        z = z if z.size == want.data.size else None
        rec.check(z is not None and same(np.sort(z[np.isfinite(z)]), np.sort(want.data[np.isfinite(want.data)]), 1e-6),
                  f'{key}: heights', f'{key}: the scene has other heights', key)


def verify_report(rec, key, cells, want, periodic):
    rows = table(cells)
    values = {n: (getattr(want, n)(), u) for n, u in ISO_SHOWN.items()}
    if periodic:
        for n, (m, u) in PERIODIC.items():
            v = getattr(want, m)()
            values[n] = (v[0] if isinstance(v, tuple) else v, u)
    else:
        rec.check(not set(rows) & set(PERIODIC), f'{key}: rows', f'{key}: unrequested {sorted(rows)}', key)
    for n, (v, u) in values.items():
        if not rec.check(n in rows, f'{key}: {n}', f'{key}: {n} is not reported', key):
            continue
        try:
            shown = float(rows[n][0])
        except ValueError:
            rec.fail(f'{key}: {n}', f'{key}: {n} is reported as {rows[n]}', key)
            continue
        rec.check(abs(shown - v) <= 0.00051 or np.isnan(shown) and np.isnan(v), f'{key}: {n}',
                  f'{key}: {n} is reported as {rows[n]} instead of {v}', key)
        rec.check(rows[n][1] == u, f'{key}: unit of {n}', f'{key}: {n} is reported as {rows[n]}', key)
        rec.outcome(n, shown)


def task_report(rec, scratch, part, parts, tier):
    from surfalize import Surface
    step = 4 if tier == 'thorough' else 24
    for i, (selection, label) in enumerate(itertools.product(list(selections())[::step // 2], inputs())):
        if i % parts != part:
            continue
        path = scratch / f'{label}.sdf'
        if not path.exists():
            prepare(scratch, label)
        variant = i // parts % 2
        arguments = command(selection, variant)
        key = f'report {label} {" ".join(arguments)}'
        with rec.guard(key, key):
            want = attempt(lambda: reference(Surface.load(path), selection, variant))
            if not isinstance(want, Err):
                failed = attempt(want.roughness_parameters)
                want = failed if isinstance(failed, Err) else want
            before = listing(scratch)
            CELLS.clear(), IMAGES.clear(), GRIDS.clear()
            result = invoke(['report', path] + arguments)
            rec.execution(key)
            after = listing(scratch)
            new = set(after) - set(before)
            rec.check(all(after.get(n) == v for n, v in before.items()), f'{key}: changed', f'{key}: changed files', key)
            if isinstance(want, Err):
                rec.check(result.exit_code != 0, f'{key}: accepted', f'{key}: {why(result)} instead of {want!r}', key)
                rec.check(not new, f'{key}: written', f'{key}: wrote {new}', key)
            elif rec.check(result.exit_code == 0 and len(CELLS) == 1, f'{key}: failed', f'{key}: {why(result)}', key):
                rec.check(new == {path.name + '.pdf'}, f'{key}: files', f'{key}: wrote {new}', key)
                verify_report(rec, key, CELLS[0][1], want, False)
                verify_images(rec, key, IMAGES[0], GRIDS, want)
            for n in new:
                (scratch / n).unlink()
            rec.state('report', label, arguments)


def task_reports(rec, scratch, part, parts, tier):
    """Folders and periodic parameters"""
    from surfalize import Surface
    z = grooves(40, 44, 0.5, 0.5, 5.0, angle=12.0, noise=0.1, offset=2.0)
    items = {'a.sdf': Surface(z, 0.5, 0.5), 'B.SUR': Surface(z[::-1] * 1.5, 0.5, 0.5), 'c.tmd': Surface(z[:, ::-1] * 0.5, 0.5, 0.5)}
    for n, (chosen, periodic, arguments) in enumerate(itertools.product(
            [('a.sdf',), ('a.sdf', 'B.SUR', 'c.tmd'), ('B.SUR', 'c.tmd'), ()], (False, True), ([], ['-l', '-z'], ['-hp', '6']))):
        if n % parts != part:
            continue
        folder = scratch / str(n)
        folder.mkdir()
        for name in chosen:
            items[name].save(folder / name)
        (folder / 'other.txt').write_text('x')
        (folder / 'folder.tmd').mkdir()
        before = listing(folder)
        key = f'report of a folder {chosen} {periodic} {arguments}'
        with rec.guard(key, key):
            CELLS.clear(), IMAGES.clear(), GRIDS.clear()
            result = invoke(['report', folder] + (['-pp' if n % 2 else '--periodic-parameters'] if periodic else []) + arguments)
            rec.execution(key)
            rec.check(result.exit_code == 0, f'{key}: failed', f'{key}: {why(result)}', key)
            after = listing(folder)
            rec.check(set(after) - set(before) == {c + '.pdf' for c in chosen} and all(after.get(k) == v for k, v in before.items()),
                      f'{key}: files', f'{key}: {sorted(after)}', key)
            rec.check(sorted(p.name for p, _ in CELLS) == sorted(c + '.pdf' for c in chosen), f'{key}: reports', key, key)
            rec.check(len(GRIDS) == len(CELLS), f'{key}: scenes', f'{key}: {len(GRIDS)} scenes', key)
            for (p, cells), images, grid in itertools.zip_longest(CELLS, IMAGES, GRIDS):
                s = Surface.load(folder / p.name[:-4])
                if '-l' in arguments:
                    s = s.level().zero()
                elif arguments:
                    s = s.filter('highpass', 6)
                verify_report(rec, f'{key} {p.name}', cells, s, periodic)
                if len(GRIDS) == len(CELLS):
                    verify_images(rec, f'{key} {p.name}', images, [grid], s)
                rec.step()
            rec.state(chosen, periodic, arguments)
        shutil.rmtree(folder)
    for n, (name, periodic) in enumerate(itertools.product(items, (False, True))):
        if n % parts != part:
            continue
        path = scratch / name
        items[name].save(path)
        key = f'report of {name} {periodic}'
        with rec.guard(key, key):
            CELLS.clear(), IMAGES.clear(), GRIDS.clear()
            result = invoke(['report', path] + (['-pp'] if periodic else []))
            rec.execution(key)
            if rec.check(result.exit_code == 0 and len(CELLS) == 1, f'{key}: failed', f'{key}: {why(result)}', key):
                verify_report(rec, key, CELLS[0][1], Surface.load(path), periodic)
                verify_images(rec, key, IMAGES[0], GRIDS, Surface.load(path))
            rec.state(name, periodic)
