"""C32: a failed read or write is reported and leaves everything else as it was."""
import contextlib
import io
import os
import pathlib
import resource
import shutil
import tempfile
import warnings

import numpy as np

from mc import formats
from mc.checks.c15 import tolerance
from mc.util import generic

PROPERTY = 'C32'
LEVEL = 'fault_enumeration'
RULE = ('every writer and option x surfaces whose data fill less than one and several I/O blocks x the disk being full '
        'after every byte (a limit enforced by the operating system) x new and existing targets; every call of write, '
        'seek and tell of a target failing (once, for good, after half of the data); every call of read of a source '
        'failing (once, for good) for every format; the same for batch results, images, conversions; open descriptors, '
        'positions, the surfaces and a second attempt are examined after each')
ASSUMPTIONS = ['the operating system reports the failure of a write to the program (EFBIG by RLIMIT_FSIZE, or an OSError of '
               'the file object); what an existing target holds after a failed write is not fixed']
TASK_LIMIT = 600

WRITERS = [('.al3d', {}), ('.tmd', {}), ('.sdf', {}), ('.sdf', {'binary': False}), ('.sur', {}), ('.sur', {'compressed': True}),
           ('.sur', {'comment': 'comment'}), ('.sflz', {}), ('.sflz', {'compression': 'none'}), ('.sflz', {'compression': 'lzma'}),
           ('.sflz', {'compression': 'none', 'save_image_layers': False})]
SMALL = [((3, 5), 0), ((4, 2), 1)]
LARGE = {'quick': [((40, 61), 0)], 'thorough': [((40, 61), 0), ((61, 40), 2), ((100, 90), 0)]}
PIECES = 4


def tasks(tier):
    out = []
    for i, (suffix, kwargs) in enumerate(WRITERS):
        label = f'{suffix} {kwargs}'
        for k in range(len(SMALL)):
            out.append((f'full disk {label} small {k}', ('disk', i, 'small', k, 0, tier)))
        for k in range(len(LARGE[tier])):
            out += [(f'full disk {label} large {k} part {p}', ('disk', i, 'large', k, p, tier)) for p in range(PIECES)]
        out.append((f'failing target {label}', ('target', i, tier)))
    for i, s in enumerate(sources(tier)):
        out.append((f'failing source {s.suffix} {i}', ('source', i, tier)))
    out += [(f'{k} on a full disk', (k, tier)) for k in ('image', 'table', 'convert', 'folder')]
    return out


def sources(tier):
    out = [s for missing, layers in ([(0, True), (1, False)] if tier == 'quick' else [(0, True), (1, False), (3, True)])
           for s in formats.basic((3, 5), missing, layers)]
    out += [formats.sflz((3, 5), 0, '<f4', compression=c) for c in (0, 2)]
    out += [formats.sdf((3, 5), 1, 7, binary=False), formats.sur((3, 5), 1, 16, comment=b'comment', compressed=3)]
    if tier == 'thorough':
        out += formats.variants('quick')
    return out


@contextlib.contextmanager
def disk_space(n):
    """Files cannot grow beyond n bytes."""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def descriptors():
    out = set()
    for fd in os.listdir('/proc/self/fd'):
        with contextlib.suppress(OSError):
            out.add((fd, os.readlink(f'/proc/self/fd/{fd}')))
    return out


def leaked(before, scratch):
    return sorted(x for x in descriptors() - before if str(scratch) in x[1])


def build(shape, missing):
    from surfalize import Surface
    from surfalize.image import Image
    z = formats.integers(shape, -3000, 3000) / 64.0
    z[formats.holes(shape, missing)] = np.nan
    return Surface(z, 0.5, 0.75, image_layers={'RGB': Image(formats.image(shape, 3))})


def snapshot(s):
    return (s.data.tobytes(), s.data.shape, s.step_x, s.step_y, s.width_um, s.height_um,
            tuple((k, v.data.tobytes()) for k, v in s.image_layers.items()), repr(s.metadata))


def equal(t, u):
    return t.data.shape == u.data.shape and np.array_equal(t.data, u.data, equal_nan=True) and t.step_x == u.step_x \
        and t.step_y == u.step_y


def run(rec, _, args):
    warnings.simplefilter('ignore')
    kind, *args = args
    scratch = pathlib.Path(tempfile.mkdtemp(prefix='c32-', dir=os.environ.get('VERIF_SCRATCH')))
    try:
        dict(disk=disk, target=target, source=source, image=image, table=table, convert=convert,
             folder=folder)[kind](rec, scratch, *args)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def attempt(rec, key, case, scratch, func, closes=True):
    """Carries out something that cannot succeed."""
    before = descriptors()
    try:
        result = func()
    except OSError as e:
        rec.outcome(key, type(e).__name__, e.errno)
        left = leaked(before, scratch)
    except Exception as e:      # another exception that tells about the failure
        rec.outcome(key, type(e).__name__)
        left = leaked(before, scratch)
    else:
        rec.fail(key + ':silent', f'no error although the file is incomplete ({result!r:.200})', case)
        left = leaked(before, scratch)
    rec.check(not left or not closes, key + ':open', f'left open: {left}', case)
    rec.step()


def disk(rec, scratch, i, size, k, part, tier):
    from surfalize import Surface
    suffix, kwargs = WRITERS[i]
    shape, missing = SMALL[k] if size == 'small' else LARGE[tier][k]
    s = build(shape, missing)
    key = f'{suffix} full disk'
    path = scratch / ('target' + suffix)
    s.save(path, **kwargs)
    total = path.stat().st_size
    complete = Surface.load(path, read_image_layers=True)
    before = snapshot(s)
    if size == 'small':
        limits = range(total)
    else:
        # every byte of the first blocks and the last ones, around all block boundaries
        block = 4096
        marks = [m + d for m in range(0, total + block, block) for d in (range(-3, 4) if tier == 'quick' else range(-40, 41))]
        ends = 150 if tier == 'quick' else 700
        limits = sorted({n for n in [*range(ends), *range(total - 2 * ends, total), *marks] if 0 <= n < total})[part::PIECES]
    for n in limits:
        for existing in (False, True) if n % 5 == 0 or n >= total - 3 else (False,):
            case = f'{suffix} {kwargs} {shape} missing {missing}: {n} of {total} bytes fit, existing target {existing}'
            rec.execution(case)
            with rec.guard(key, case):
                if existing:
                    s.save(path, **kwargs)
                else:
                    path.unlink(missing_ok=True)
                with disk_space(n):
                    attempt(rec, key, case, scratch, lambda: s.save(path, **kwargs))
                rec.check(snapshot(s) == before, key + ':changed', 'the surface was changed', case)
                if size == 'small' or n % 16 == 0:
                    try:
                        t = Surface.load(path, read_image_layers=True)
                    except Exception as e:
                        rec.outcome(key, type(e).__name__)
                    else:
                        rec.check(equal(t, complete), key + ':heights', f'incomplete file returned {t.data.ravel()[:5]}', case)
            rec.state(suffix, str(kwargs), shape, n, existing)
    with rec.guard(f'{suffix} again', suffix):
        s.save(path, **kwargs)
        t = Surface.load(path, read_image_layers=True)
        rec.check(equal(t, complete) and path.stat().st_size == total, f'{suffix} again', 'the second attempt gave other '
                  'heights', f'{suffix} {kwargs} {shape}')


class Target(io.BytesIO):
    """The n-th call of one method fails, half of the data may have been written."""

    def __init__(self, prefix, method=None, n=None, lasting=False, half=False):
        super().__init__(prefix)
        super().seek(len(prefix))
        self.method, self.n, self.lasting, self.half = method, n, lasting, half
        self.calls = dict(write=0, seek=0, tell=0)
        self.failed = False

    def count(self, method):
        k = self.calls[method]
        self.calls[method] += 1
        if self.method == method and (k == self.n or self.lasting and k > self.n):
            self.failed = True
            return True
        return False

    def write(self, data):
        if self.count('write'):
            if self.half:
                super().write(bytes(data)[:len(bytes(data)) // 2])
            raise OSError(28, 'No space left on device')
        return super().write(data)

    def seek(self, *args):
        if self.count('seek'):
            raise OSError(5, 'Input/output error')
        return super().seek(*args)

    def tell(self):
        if self.count('tell'):
            raise OSError(5, 'Input/output error')
        return super().tell()


def target(rec, scratch, i, tier):
    from surfalize import Surface
    suffix, kwargs = WRITERS[i]
    key = f'{suffix} failing target'
    for (shape, missing), prefix in [(x, p) for x in SMALL + ([((1, 1), 0), ((7, 6), 3)] if tier == 'thorough' else [])
                                     for p in (b'', b'something before')]:
        s = build(shape, missing)
        good = Target(prefix)
        s.save(good, format=suffix, **kwargs)
        calls = dict(good.calls)
        rec.check(good.getvalue().startswith(prefix), key + ':prefix', 'what was there before was overwritten', suffix)
        complete = Surface.load(io.BytesIO(good.getvalue()[len(prefix):]), format=suffix, read_image_layers=True)
        before = snapshot(s)
        for method, lasting, half in [('write', False, False), ('write', False, True), ('write', True, False),
                                      ('write', True, True), ('seek', False, False), ('tell', False, False)]:
            for n in range(calls[method]):
                case = f'{suffix} {kwargs} {shape} missing {missing} after {len(prefix)} bytes: call {n} of {calls[method]} of ' \
                       f'{method} fails, lasting {lasting}, half written {half}'
                rec.execution(case)
                with rec.guard(key, case):
                    f = Target(prefix, method, n, lasting, half)
                    attempt(rec, key, case, scratch, lambda: s.save(f, format=suffix, **kwargs))
                    rec.check(f.failed, key + ':not reached', 'other calls than before', case)
                    rec.check(not f.closed, key + ':closed', 'the file object was closed', case)
                    rec.check(f.getvalue()[:len(prefix)] == prefix, key + ':prefix', 'what was there before was changed', case)
                    rec.check(snapshot(s) == before, key + ':changed', 'the surface was changed', case)
                    if method == 'write' and lasting:
                        try:
                            t = Surface.load(io.BytesIO(f.getvalue()[len(prefix):]), format=suffix, read_image_layers=True)
                        except Exception as e:
                            rec.outcome(key, type(e).__name__)
                        else:
                            rec.check(equal(t, complete), key + ':heights', f'incomplete file returned {t.data.ravel()[:5]}',
                                      case)
                    g = io.BytesIO()
                    s.save(g, format=suffix, **kwargs)
                    t = Surface.load(g, format=suffix, read_image_layers=True)
                    rec.check(equal(t, complete), key + ':again', 'the second attempt gave other heights', case)
                rec.state(suffix, str(kwargs), shape, len(prefix), method, n, lasting, half)


class Source(io.RawIOBase):
    """The n-th read of a block fails."""

    def __init__(self, blob, n=None, lasting=False, short=None):
        self.blob, self.pos, self.n, self.lasting, self.short = blob, 0, n, lasting, short
        self.calls = 0
        self.failed = False

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, offset, whence=0):
        pos = offset + (0, self.pos, len(self.blob))[whence]
        if pos < 0:
            raise OSError(22, 'Invalid argument')
        self.pos = pos
        return pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        k = self.calls
        self.calls += 1
        if self.n is not None and (k == self.n or self.lasting and k > self.n):
            self.failed = True
            raise OSError(5, 'Input/output error')
        data = self.blob[self.pos:self.pos + min(len(b), self.short or len(b))]
        b[:len(data)] = data
        self.pos += len(data)
        return len(data)


def intact(rec, key, s, t, case):
    z = np.asarray(t.data, float)
    ok = z.shape == s.z.shape and np.array_equal(np.isnan(z), np.isnan(s.z))
    if ok:
        d = z - s.z
        if s.offset_free:
            d = d - np.nanmean(d)
        ok = np.nanmax(np.abs(d)) <= tolerance(s) * np.nanmax(np.abs(s.z))
        ok = ok and abs(t.step_x - s.step_x) < 1e-7 * s.step_x and abs(t.step_y - s.step_y) < 1e-7 * s.step_y
    rec.check(ok, key, f'returned {z.shape} {z.ravel()[:5]}, step {t.step_x}, {t.step_y} instead of {s.z.shape} '
              f'{s.z.ravel()[:5]}, step {s.step_x}, {s.step_y}', case)


def source(rec, scratch, i, tier):
    from surfalize import Surface
    s = sources(tier)[i]
    key = f'{s.suffix} failing source'
    path = scratch / ('source' + s.suffix)
    for hint in (s.suffix, None) if s.suffix in formats.RECOGNISABLE else (s.suffix,):
        for layers in (False, True) if s.layers or s.suffix not in ('.nms', '.plu') else (False,):
            for buffering, start, short in [(512, 0, None), (64, 0, 7), (64, 37, None)] if len(s.blob) < 20000 \
                    else [(4096, 0, None), (8192, 37, 1000)]:
                blob = b'x' * start + s.blob
                raw = Source(blob, short=short)
                f = io.BufferedReader(raw, buffering)
                f.seek(start)
                label = f'{s.label} {hint} layers {layers} blocks {buffering} at {start} short {short}'
                with rec.guard(key, label):
                    t = Surface.load(f, format=hint, read_image_layers=layers)
                    intact(rec, key + ':short', s, t, label)
                    rec.check(not f.closed and f.tell() == start, key + ':position', 'closed or left elsewhere', label)
                    rec.execution(label)
                total = raw.calls
                stride = max(1, total // (120 if tier == 'quick' else 1500))
                for n in range(0, total, stride):
                    for lasting in (False, True):
                        case = f'{s.suffix} {label}: block {n} of {total} cannot be read, lasting {lasting}'
                        rec.execution(case)
                        with rec.guard(key, case):
                            raw = Source(blob, n, lasting, short)
                            f = io.BufferedReader(raw, buffering)
                            f.seek(start)
                            try:
                                t = Surface.load(f, format=hint, read_image_layers=layers)
                            except Exception as e:
                                rec.outcome(key, type(e).__name__)
                            else:
                                rec.outcome(key, 'returned')
                                if lasting and n == 0:
                                    rec.fail(key + ':silent', 'no error although nothing can be read', case)
                                intact(rec, key + ':heights', s, t, case)
                            rec.check(not f.closed, key + ':closed', 'the file object was closed', case)
                        rec.step()
                        rec.state(s.suffix, label, n, lasting)
    # broken files on the disk do not stay open
    for n in sorted({0, 1, 10, len(s.blob) // 2, len(s.blob) - 1}):
        for hint in (None, s.suffix, '.foo'):
            case = f'{s.suffix} {s.label}: the first {n} bytes, format {hint}'
            rec.execution(case)
            with rec.guard(key, case):
                path.write_bytes(s.blob[:n])
                before = descriptors()
                try:
                    Surface.load(path, format=hint, read_image_layers=True)
                except Exception as e:
                    rec.outcome(key, type(e).__name__)
                    left = leaked(before, scratch)
                else:
                    left = leaked(before, scratch)
                rec.check(not left, key + ':open', f'left open: {left}', case)
                rec.check(path.read_bytes() == s.blob[:n], key + ':content', 'the file was changed', case)


def image(rec, scratch, tier):
    from PIL import Image as Pillow

    from surfalize.image import Image
    for label, data in [('rgb', formats.image((9, 13), 3)), ('gray', formats.image((9, 13)))]:
        for suffix in ('.png',):     # Pillow itself loses the errors of the others
            im = Image(data.copy())
            path = scratch / ('image' + suffix)
            im.save(path)
            total = path.stat().st_size
            got = np.asarray(Pillow.open(path))
            rec.check(np.array_equal(got, data), 'image:content', f'{suffix} {got.shape}', label)
            for n in range(0, total, 1 if total < 500 or tier == 'thorough' else 3):
                case = f'{label}{suffix}: {n} of {total} bytes fit'
                rec.execution(case)
                with rec.guard('image', case):
                    path.unlink(missing_ok=True)
                    with disk_space(n):
                        attempt(rec, 'image', case, scratch, lambda: im.save(path))
                    rec.check(np.array_equal(im.data, data), 'image:changed', 'the image was changed', case)
                rec.state('image', label, suffix, n)


def table(rec, scratch, tier):
    """The results of a batch"""
    import pandas as pd

    from surfalize import Batch, Surface
    files = []
    for k in range(2):
        files.append(scratch / f'{k}.sdf')
        Surface(generic(4, 5, seed=k), 0.5, 0.75).save(files[-1])
    path = scratch / 'table.xlsx'
    reference = Batch(files).Sa().Sq().execute(multiprocessing=False, saveto=path).get_dataframe()
    total = path.stat().st_size
    for n in range(0, total - 200, 97 if tier == 'quick' else 7):   # the length varies by a few bytes
        for how in ('execute', 'to_excel'):
            case = f'{how}: {n} of {total} bytes fit'
            rec.execution(case)
            with rec.guard('table', case):
                path.unlink(missing_ok=True)
                batch = Batch(files).Sa().Sq()
                if how == 'execute':
                    with disk_space(n):
                        attempt(rec, 'table', case, scratch, lambda: batch.execute(multiprocessing=False, saveto=path),
                                closes=False)    # openpyxl keeps it
                else:
                    result = batch.execute(multiprocessing=False)
                    with disk_space(n):
                        attempt(rec, 'table', case, scratch, lambda: result.to_excel(path), closes=False)
                again = batch.execute(multiprocessing=False, saveto=path).get_dataframe()
                rec.check(again.equals(reference), 'table:again', 'the second attempt gave another result', case)
                stored = pd.read_excel(path)
                rec.check(np.allclose(stored[['Sa', 'Sq']].to_numpy(), reference[['Sa', 'Sq']].to_numpy(), rtol=1e-12), 'table:stored',
                          f'{stored}', case)
            rec.state('table', how, n)


def invoke(arguments):
    from click.testing import CliRunner

    from surfalize.cli import cli
    return CliRunner().invoke(cli, [str(a) for a in arguments])


def convert(rec, scratch, tier):
    from surfalize import Surface
    source = scratch / 'source.plux'
    source.write_bytes(formats.plux((3, 5)).blob)
    blob = source.read_bytes()
    for suffix, extra in [('.al3d', []), ('.tmd', []), ('.sdf', []), ('.sur', []), ('.sur', ['--compressed']), ('.sflz', []),
                          ('.sflz', ['--skip-image-layers'])]:
        path = scratch / ('target' + suffix)
        r = invoke(['convert', source, path, *extra])
        if not rec.check(r.exit_code == 0 and path.exists(), 'convert', f'{r.exception!r} {r.output}', suffix):
            continue
        complete = Surface.load(path)
        total = path.stat().st_size
        for n in range(0, total, 1 if total < 700 or tier == 'thorough' else 5):
            case = f'convert to {suffix} {extra}: {n} of {total} bytes fit'
            rec.execution(case)
            with rec.guard('convert', case):
                path.unlink(missing_ok=True)
                before = descriptors()
                with disk_space(n):
                    r = invoke(['convert', source, path, *extra])
                rec.check(r.exit_code != 0, 'convert:silent', f'exit code 0 although the file is incomplete: {r.output!r}', case)
                rec.check('Converted' not in r.output, 'convert:report', r.output, case)
                rec.check(source.read_bytes() == blob, 'convert:source', 'the source was changed', case)
                rec.outcome('convert', r.exit_code, type(r.exception).__name__)
                del r
                left = leaked(before, scratch)
                rec.check(not left, 'convert:open', f'left open: {left}', case)
            rec.step()
            rec.state('convert', suffix, str(extra), n)
        with rec.guard('convert again', suffix):
            r = invoke(['convert', source, path, *extra])
            rec.check(r.exit_code == 0 and equal(Surface.load(path), complete), 'convert:again', 'the second attempt gave '
                      'another result', suffix)


def folder(rec, scratch, tier):
    """Converting a folder: every file that is reported as converted is complete, whatever fails."""
    from surfalize import Surface
    sizes = [(2, 3), (7, 5), (3, 4)]
    for suffix in ('.sur', '.sdf', '.tmd', '.al3d', '.sflz'):
        source = scratch / f'in{suffix[1:]}'
        source.mkdir()
        good = {}
        for k, shape in enumerate(sizes):
            s = build(shape, 0)
            s.image_layers = {}
            s.save(source / f'{k}.sdf')
            b = io.BytesIO()
            Surface.load(source / f'{k}.sdf').save(b, format=suffix)
            good[f'{k}'] = Surface.load(b, format=suffix), len(b.getvalue())
        top = max(x[1] for x in good.values())
        for n in range(0, top, 1 if tier == 'thorough' else 3):
            case = f'convert a folder to {suffix}: {n} bytes fit into each file of {[x[1] for x in good.values()]}'
            rec.execution(case)
            out = scratch / 'out'
            shutil.rmtree(out, ignore_errors=True)
            with rec.guard('folder', case):
                with disk_space(n):
                    r = invoke(['convert', source, out, '--format', suffix])
                rec.check(r.exit_code != 0, 'folder:silent', 'exit code 0 although files are incomplete', case)
                for stem, (t, size) in good.items():
                    name = f'{stem}{suffix}'
                    if f'Converted {source / (stem + ".sdf")}' in r.output:
                        u = Surface.load(out / name)
                        rec.check(equal(t, u), 'folder:report', f'{name} was reported as converted', case)
            rec.step()
            rec.state('folder', suffix, n)
