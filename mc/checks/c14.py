"""C14: truncated files raise an error or give the complete surface."""
import io
import os
import pathlib
import shutil
import tempfile
import warnings

import numpy as np

from mc import formats
from mc.checks.c15 import tolerance

PROPERTY = 'C14'
LEVEL = 'fault_enumeration'
RULE = ('every prefix (all lengths from zero) of small valid files of every binary format and of ASCII SDF (several '
        'variants: with missing points, image layers, compression, data filling whole blocks) x reading with and without '
        'image layers x with and without the right hint, from buffers and paths')
ASSUMPTIONS = ['prefixes that are complete files themselves (text tables; FITS files that end before an optional extension) '
               'are out of scope; writing stops at a byte boundary without reordering']
TASK_LIMIT = 600
PIECE = {'quick': 2500, 'thorough': 2500}


def files(tier):
    shapes = [(3, 5)] if tier == 'quick' else [(3, 5), (5, 3), (1, 6), (6, 1), (4, 4)]
    out = []
    for shape in shapes:
        for missing, layers in [(0, True), (1, False)] if tier == 'quick' else [(0, True), (1, False), (3, True), (0, False)]:
            out += [s for s in formats.basic(shape, missing, layers) if s.suffix != '.xyz']
        out += [formats.sflz(shape, 0, '<f4', compression=c, layers=y) for c in (0, 2) for y in (True, False)]
        out += [formats.sflz(shape, 0, '|u1', compression=0)]
        out += [formats.sur(shape, 1, 16, comment=b'comment', private=b'\1\2\3', compressed=3),
                formats.sur(shape, 0, 16, comment=b'comment'), formats.sur(shape, gwyddion=True)]
        out += [formats.dat(shape, 1, fmt, 2, 2) for fmt in (1, 3)]
        out += [formats.sdf(shape, 1, d) for d in (5, 6)]
        out += [formats.sdf(shape, 1, d, binary=False, columns=c) for d in (5, 7) for c in (1, 1000)]
        out += [formats.x3p(shape, d) for d in 'IF'] + [formats.opd(shape, 1, 4, order=2)]
        out += [formats.vk(shape, bits=16, order=(3, 2, 0, 1)), formats.zmg(shape, comment=b'c' * 30),
                formats.al3d(shape, 1, '3.5', extra=2, gap=7), formats.plu(shape, 1, layers='gray')]
    out += [formats.fits((18, 20), 0, -64, layers=False), formats.fits((18, 20), 1, 16, mask_first=True)]
    return out


WRITERS = [('.al3d', {}), ('.tmd', {}), ('.sdf', {}), ('.sdf', {'binary': False}), ('.sur', {}), ('.sur', {'compressed': True}),
           ('.sur', {'comment': 'comment'}), ('.sflz', {}), ('.sflz', {'compression': 'none'}),
           ('.sflz', {'compression': 'lzma', 'dtype': '<f4'}), ('.sflz', {'save_image_layers': False})]


class Full(io.BytesIO):
    """A disk with limited space."""

    def __init__(self, space):
        super().__init__()
        self.space = space

    def write(self, data):
        data = bytes(data)
        room = self.space - self.tell()
        super().write(data[:max(room, 0)])
        if len(data) > room:
            raise OSError(28, 'No space left on device')
        return len(data)


def tasks(tier):
    out = []
    for i, s in enumerate(files(tier)):
        for start in range(0, len(s.blob), PIECE[tier]):
            out.append((f'{s.suffix} {i} {start}', (i, start, tier)))
    out += [(f'write {i}', ('write', i, tier)) for i in range(len(WRITERS))]
    return out


_cache = {}


def run(rec, _, args):
    from surfalize import Surface
    warnings.simplefilter('ignore')
    if args[0] == 'write':
        return failing_writes(rec, *args[1:])
    index, start, tier = args
    if tier not in _cache:
        _cache[tier] = files(tier)
    s = _cache[tier][index]
    end = min(start + PIECE[tier], len(s.blob))
    scratch = pathlib.Path(tempfile.mkdtemp(prefix='c14-', dir=os.environ.get('VERIF_SCRATCH')))
    path = scratch / ('x' + s.suffix)
    # the complete file
    complete = {}
    for layers in (False, True):
        if layers and s.suffix in ('.nms', '.plu') and not s.layers:
            continue
        with rec.guard(f'{s.suffix} complete', s.label):
            complete[layers] = Surface.load(io.BytesIO(s.blob), format=s.suffix, read_image_layers=layers)
            check(rec, s, complete[layers], None, f'{s.suffix} {s.label} complete')
    try:
        lengths = list(range(start, end))
        for n in lengths:
            for layers in complete:
                for source in ('hint', 'none', 'path'):
                    if source == 'none' and s.suffix not in formats.RECOGNISABLE or source == 'path' and n % 7:
                        continue
                    case = f'{s.suffix} {s.label} first {n} of {len(s.blob)} bytes, layers {layers}, {source}'
                    rec.execution(case)
                    with rec.guard(f'{s.suffix} prefix', case):
                        try:
                            if source == 'path':
                                path.write_bytes(s.blob[:n])
                                t = Surface.load(path, read_image_layers=layers)
                            else:
                                t = Surface.load(io.BytesIO(s.blob[:n]), format=s.suffix if source == 'hint' else None,
                                                 read_image_layers=layers)
                        except MemoryError:
                            rec.fail(f'{s.suffix} prefix:memory', 'runs out of memory', case)
                            rec.outcome(s.suffix, 'memory')
                        except Exception as e:
                            rec.outcome(s.suffix, type(e).__name__)
                        else:
                            rec.outcome(s.suffix, 'returned')
                            check(rec, s, t, complete[layers], case)
                    rec.step()
            rec.state(s.suffix, s.label, n)
        with rec.guard(f'{s.suffix} afterwards', s.label):
            t = Surface.load(io.BytesIO(s.blob), format=s.suffix)
            check(rec, s, t, None, f'{s.suffix} {s.label} after the truncated files')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def failing_writes(rec, i, tier):
    """Writing fails after every number of bytes."""
    from surfalize import Surface
    from surfalize.image import Image
    suffix, kwargs = WRITERS[i]
    for shape, missing in [((3, 5), 0), ((4, 2), 1)] + ([((7, 6), 0), ((7, 6), 3)] if tier == 'thorough' else []):
        z = formats.integers(shape, -3000, 3000) / 64.0
        z[formats.holes(shape, missing)] = np.nan
        s = Surface(z, 0.5, 0.5, image_layers={'RGB': Image(formats.image(shape, 3))})
        good = io.BytesIO()
        s.save(good, format=suffix, **kwargs)
        complete = Surface.load(good, format=suffix, read_image_layers=True)
        before = s.data.tobytes(), s.step_x, s.step_y, s.image_layers['RGB'].data.tobytes()
        size = len(good.getvalue())
        for n in range(size):
            case = f'{suffix} {kwargs} {shape} missing {missing}, no space after {n} of {size} bytes'
            rec.execution(case)
            with rec.guard(f'{suffix} failing write', case):
                f = Full(n)
                try:
                    s.save(f, format=suffix, **kwargs)
                except OSError:
                    rec.outcome(suffix, 'raised')
                else:
                    rec.fail(f'{suffix} failing write:silent', 'no error although the file is incomplete', case)
                rec.check(f.tell() == 0, f'{suffix} failing write:position', f'left at {f.tell()}', case)
                rec.check(before == (s.data.tobytes(), s.step_x, s.step_y, s.image_layers['RGB'].data.tobytes()),
                          f'{suffix} failing write:changed', 'the surface was changed', case)
                rec.step()
                try:
                    t = Surface.load(f, format=suffix, read_image_layers=True)
                except Exception as e:
                    rec.outcome(suffix, type(e).__name__)
                else:
                    rec.outcome(suffix, 'returned')
                    ok = np.array_equal(t.data, complete.data, equal_nan=True) and t.step_x == complete.step_x \
                        and t.step_y == complete.step_y
                    rec.check(ok, f'{suffix} failing write:heights', f'incomplete file returned {t.data.ravel()[:6]} instead '
                              f'of {complete.data.ravel()[:6]}', case)
            rec.state(suffix, str(kwargs), shape, n)
        with rec.guard(f'{suffix} write again', suffix):
            f = io.BytesIO()
            s.save(f, format=suffix, **kwargs)
            t = Surface.load(f, format=suffix)
            rec.check(np.array_equal(t.data, complete.data, equal_nan=True), f'{suffix} write again', 'other heights', suffix)


def check(rec, s, t, complete, case):
    z = np.asarray(t.data, float)
    ok = z.shape == s.z.shape and np.array_equal(np.isnan(z), np.isnan(s.z))
    if ok:
        d = z - s.z
        if s.offset_free:
            d = d - np.nanmean(d)
        ok = np.nanmax(np.abs(d)) <= tolerance(s) * np.nanmax(np.abs(s.z))
        ok = ok and abs(t.step_x - s.step_x) < 1e-7 * s.step_x and abs(t.step_y - s.step_y) < 1e-7 * s.step_y
    rec.check(ok, f'{s.suffix} heights', f'returned {z.shape} {z.ravel()[:6]}, step {t.step_x}, {t.step_y} instead of '
              f'{s.z.shape} {s.z.ravel()[:6]}, step {s.step_x}, {s.step_y}', case)
    if complete is not None:
        for k in set(t.image_layers) & set(complete.image_layers):
            a, b = np.asarray(t.image_layers[k].data), np.asarray(complete.image_layers[k].data)
            rec.check(np.array_equal(a, b), f'{s.suffix} layer', f'layer {k} differs: {a.shape} instead of {b.shape}', case)
