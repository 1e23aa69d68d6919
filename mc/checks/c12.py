"""C12: writing and reading a surface returns it up to the resolution of the file format."""
import io
import itertools
import os
import pathlib
import shutil
import tempfile
import warnings

import numpy as np

from mc.util import generic, geometry, lcg, relayout

PROPERTY = 'C12'
LEVEL = 'model_checking'
RULE = ('all combinations of shape (also single rows, columns and points), heights (scale, offset, constant), missing '
        'points, step sizes, number types and memory layouts x every writable format with every option x paths and '
        'buffers (at and after their beginning); all chains of two conversions between formats; all sets of image layers')
ASSUMPTIONS = ['heights are compared within the resolution of the number type of the file (integers: range / 2^bits, '
               'single precision: 6e-8 relative)']

SHAPES = {'quick': [(3, 5), (5, 3), (1, 6), (6, 1), (1, 1), (4, 4)],
          'thorough': [(3, 5), (5, 3), (1, 6), (6, 1), (1, 1), (4, 4), (2, 2), (1, 2), (7, 13), (13, 7), (40, 31)]}
HEIGHTS = [(1.0, 0.0), (1e-3, 5.0), (2e4, -1e3), (1e-4, 0.0), (0.0, 0.0), (0.0, 3.5), (-7.0, 100.0),
           # extreme height of exactly zero: the offset is the number of the extremum to be subtracted
           (1e-9, 'max'), (1e3, 'max'), (1e-9, 'min'), (1e3, 'min')]
MISSING = ['none', 'first', 'last', 'checker', 'all but one', 'row']
STEPS = [(0.5, 0.75), (1.0, 1.0), (0.00123, 25.0), (33.3, 0.1)]
OPTIONS = [('.al3d', {}), ('.tmd', {}), ('.tmd', {'comment': ''}), ('.tmd', {'comment': 'µ' * 21}),
           ('.sdf', {}), ('.sdf', {'binary': True}), ('.sdf', {'binary': False}),
           ('.sur', {}), ('.sur', {'compressed': True}), ('.sur', {'comment': 'Höhe'}),
           ('.sur', {'compressed': True, 'comment': 'a longer comment ' * 20}),
           ('.sur', {'compressed': False, 'comment': 'x', 'encoding': 'latin-1'}),
           ('.sflz', {}), ('.sflz', {'compression': 'none'}), ('.sflz', {'compression': 'lzma'}),
           ('.sflz', {'compression': 'zlib', 'save_image_layers': False})]
OPTIONS += [('.sflz', {'dtype': d}) for d in ('<f4', '<f8', '<u2', '|u1', '<i4', '<i2', '<u8', '<i8', '|i1')]
OPTIONS += [(s, {'encoding': e}) for s in ('.al3d', '.tmd', '.sdf', '.sur', '.sflz') for e in ('latin-1', 'cp1252', 'ascii')
            if (s, e) != ('.sur', 'ascii')]  # its units contain a µ


def name(option):
    return option[0] + ''.join(f' {k}={v!r:.20}' for k, v in option[1].items())


def tasks(tier):
    out = [(f'options {name(o)}', ('options', i, tier)) for i, o in enumerate(OPTIONS)]
    out += [(f'chains {name(OPTIONS[i])}', ('chains', i, tier)) for i in CHAIN]
    out += [(f'layers {c}', ('layers', c, tier)) for c in ('none', 'zlib', 'lzma')]
    out += [(f'channels {name(OPTIONS[i])}', ('channels', i, tier)) for i in CHAIN]
    out += [(f'layouts {name(OPTIONS[i])}', ('layouts', i, tier)) for i in CHAIN]
    return out


CHAIN = [0, 1, 4, 6, 7, 8, 12, 16, 17, 18, 21]


def punch(z, kind):
    z = z.copy()
    ny, nx = z.shape
    if kind == 'first':
        z[0, 0] = np.nan
    elif kind == 'last':
        z[-1, -1] = np.nan
    elif kind == 'checker':
        z[np.add.outer(np.arange(ny), np.arange(nx)) % 2 == 1] = np.nan
    elif kind == 'all but one':
        keep = z[ny // 2, nx // 2]
        z[...] = np.nan
        z[ny // 2, nx // 2] = keep
    elif kind == 'row':
        z[ny // 2] = np.nan
    return z


def tolerance(option, z):
    """(heights absolute, steps relative)"""
    suffix, kwargs = option
    m = float(np.nanmax(np.abs(z)))
    r = float(np.nanmax(z) - np.nanmin(z))
    missing = bool(np.isnan(z).any())
    if suffix == '.al3d':
        return 2.5e-7 * m, 1e-14
    if suffix == '.tmd':
        return 6.1e-8 * m, 1.3e-7
    if suffix == '.sdf':
        return (4e-15 * m if kwargs.get('binary', True) else 1e-9 * m), 1e-9 if not kwargs.get('binary', True) else 1e-14
    if suffix == '.sur':
        return 6.1e-8 * (r + m), 6.1e-8
    dtype = np.dtype(kwargs.get('dtype', '<u4'))
    if dtype.kind in 'iu' and not missing:
        return r / (2.0 ** (8 * dtype.itemsize) - 1) * (1 + 1e-6) + 1e-14 * (m + r), 0
    return (0 if dtype != np.dtype('<f4') else 6.1e-8 * m), 0


def snapshot(s):
    return (s.data.tobytes(), s.data.dtype.str, geometry(s), dict(s.metadata),
            {k: (v.data.tobytes(), v.data.shape, v.data.dtype.str) for k, v in s.image_layers.items()})


def compare(rec, key, surface, loaded, options, case, layers=None):
    z = np.asarray(surface.data, float)
    y = np.asarray(loaded.data, float)
    if not rec.check(y.shape == z.shape, key + ':shape', f'{z.shape} became {y.shape}', case):
        return
    ht = sum(tolerance(o, z)[0] for o in options)
    st = sum(tolerance(o, z)[1] for o in options)
    if not rec.check(np.array_equal(np.isnan(z), np.isnan(y)), key + ':missing',
                     f'non-measured points differ: {z.tolist()} became {y.tolist()}'[:300], case):
        return
    d = float(np.nanmax(np.abs(z - y)))
    rec.check(d <= ht, key + ':heights', f'height differs by {d}, more than {ht}: {z.ravel()[:6]} became {y.ravel()[:6]}',
              case)
    for n in ('step_x', 'step_y'):
        a, b = getattr(surface, n), getattr(loaded, n)
        rec.check(abs(a - b) <= st * abs(a) + 1e-300, f'{key}:{n}', f'{a!r} became {b!r}', case)
    ny, nx = z.shape
    rec.check(abs(loaded.width_um - (nx - 1) * loaded.step_x) < 1e-9 * (1 + loaded.width_um) and
              abs(loaded.height_um - (ny - 1) * loaded.step_y) < 1e-9 * (1 + loaded.height_um),
              key + ':extent', f'{loaded.width_um} x {loaded.height_um}', case)
    if layers is not None:
        rec.check(set(layers) == set(loaded.image_layers), key + ':layers',
                  f'{sorted(layers)} became {sorted(loaded.image_layers)}', case)
        for k in set(layers) & set(loaded.image_layers):
            a, b = layers[k], loaded.image_layers[k].data
            rec.check(a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b), key + ':layer',
                      f'layer {k} {a.dtype}{a.shape} became {b.dtype}{b.shape}', case)


def roundtrip(surface, option, read=True):
    from surfalize import Surface
    f = io.BytesIO()
    surface.save(f, format=option[0], **option[1])
    encoding = option[1].get('encoding', 'auto')
    f.seek(0)
    return Surface.load(f, format=option[0], encoding=encoding, read_image_layers=read)


def heights(shape, seed, scale, offset, missing):
    z = punch(generic(*shape, seed=seed, scale=scale), missing)
    if isinstance(offset, str):
        return z if np.isnan(z).all() else z - (np.nanmax(z) if offset == 'max' else np.nanmin(z))
    return z + offset


def surfaces(tier):
    for shape, (scale, offset), missing, (sx, sy) in itertools.product(SHAPES[tier], HEIGHTS, MISSING, STEPS):
        z = heights(shape, shape[0] + 3 * shape[1], scale, offset, missing)
        if np.isnan(z).all():
            continue
        yield (shape, (scale, offset), missing, (sx, sy)), z, sx, sy


def run(rec, _, args):
    warnings.simplefilter('ignore')
    kind = args[0]
    if kind == 'options':
        options(rec, *args[1:])
    elif kind == 'chains':
        chains(rec, *args[1:])
    elif kind == 'layers':
        image_layers(rec, *args[1:])
    elif kind == 'channels':
        channels(rec, *args[1:])
    else:
        layouts(rec, *args[1:])


def options(rec, i, tier):
    from surfalize import Surface
    option = OPTIONS[i]
    for label, z, sx, sy in surfaces(tier):
        case = f'{label} {name(option)}'
        rec.execution(case)
        with rec.guard(option[0], case):
            s = Surface(z.copy(), sx, sy)
            before = snapshot(s)
            t = roundtrip(s, option)
            rec.step(2)
            compare(rec, option[0], s, t, [option], case, {})
            rec.check(snapshot(s) == before, option[0] + ':changed', 'writing changed the surface', case)
            rec.state(option[0], label)
            rec.outcome(option[0], t.data.tobytes())


def chains(rec, i, tier):
    """first format, then every other format, then back again."""
    from surfalize import Surface
    labels = [x for x in surfaces('quick') if x[0][3] in STEPS[:2 if tier == 'quick' else 4]
              and x[0][2] in ('none', 'checker', 'last') and (tier == 'thorough' or x[0][0] in [(3, 5), (5, 3), (4, 4)])]
    for j in CHAIN:
        for label, z, sx, sy in labels:
            case = f'{label} {name(OPTIONS[i])} then {name(OPTIONS[j])}'
            rec.execution(case)
            with rec.guard('chain', case):
                s = Surface(z.copy(), sx, sy)
                t = roundtrip(s, OPTIONS[i])
                u = roundtrip(t, OPTIONS[j])
                rec.step(4)
                # every further trip may round again
                compare(rec, f'chain {OPTIONS[i][0]}', s, u, [OPTIONS[i], OPTIONS[j], OPTIONS[i], OPTIONS[j]], case, {})
                rec.outcome(u.data.tobytes())


def picture(shape, dtype, seed):
    n = int(np.prod(shape))
    top = {'u1': 255, 'u2': 65535, 'f4': 1000}[dtype[-2:]]
    return (lcg(seed, n) * top).reshape(shape).astype(dtype)


def image_layers(rec, compression, tier):
    from surfalize import Surface
    from surfalize.image import Image
    shape = (3, 5)
    alphabet = {'RGB': picture((3, 5, 3), '|u1', 1), 'Grayscale': picture((3, 5), '|u1', 2),
                'Höhe µ': picture((4, 2), '|u1', 3), 'Intensity': picture((3, 5), '<u2', 4),
                'topography2': picture((3, 5, 4), '|u1', 5), 'x' * 300: picture((1, 7), '<f4', 6),
                '': picture((7, 1), '|u1', 7)}
    depth = 3 if tier == 'quick' else 7
    for n in range(depth + 1):
        for names in itertools.permutations(alphabet, n) if n <= 3 else itertools.combinations(alphabet, n):
            for saved, read, missing in itertools.product([True, False], [True, False], ['none', 'first']):
                case = f'layers {[k[:20] for k in names]} saved {saved} read {read} missing {missing} {compression}'
                rec.execution(case)
                layers = {k: alphabet[k] for k in names}
                with rec.guard('layers', case):
                    for layout in ('C', 'F', 'strided') if n <= 1 else ('C',):
                        s = Surface(punch(generic(*shape), missing), 0.5, 0.5,
                                    image_layers={k: Image(relayout(v, layout)) for k, v in layers.items()})
                        before = snapshot(s)
                        option = ('.sflz', {'compression': compression, 'save_image_layers': saved})
                        t = roundtrip(s, option, read)
                        rec.step(2)
                        compare(rec, 'layers', s, t, [option], case, layers if saved and read else {})
                        rec.check(snapshot(s) == before, 'layers:changed', 'writing changed the surface', case)
                        for other in ('.sur', '.sdf', '.tmd', '.al3d'):
                            if n == 2 and saved and read:
                                u = roundtrip(s, (other, {}), True)
                                compare(rec, other, s, u, [(other, {})], case)
                                rec.check(snapshot(s) == before, other + ':changed', 'writing changed the surface', case)
                rec.state(names, saved, read)


def channels(rec, i, tier):
    """Written to and read from paths, buffers and open files, at and after their beginning."""
    from surfalize import Surface
    suffix, kwargs = option = OPTIONS[i]
    scratch = pathlib.Path(tempfile.mkdtemp(prefix='c12-', dir=os.environ.get('VERIF_SCRATCH')))
    try:
        for shape in SHAPES['quick']:
            for missing in ('none', 'last'):
                z = punch(generic(*shape, seed=8, scale=3.0), missing)
                if np.isnan(z).all():
                    continue
                for written, read, start in itertools.product(
                        ['str', 'path', 'upper', 'bytesio', 'file', 'rwfile'], ['str', 'path', 'bytesio', 'file', 'unbuffered'],
                        [0, 1, 700]):
                    case = f'{shape} missing {missing} {name(option)} written to {written} read from {read} start {start}'
                    rec.execution(case)
                    with rec.guard(f'{suffix} channel', case):
                        s = Surface(z.copy(), 0.5, 0.75)
                        before = snapshot(s)
                        path = scratch / ('file' + (suffix.upper() if written == 'upper' else suffix))
                        filler = bytes(range(1, 251)) * 3
                        if written in ('str', 'path', 'upper'):
                            # an existing longer file is replaced
                            path.write_bytes(filler * 40)
                            s.save(str(path) if written == 'str' else path, **kwargs)
                            blob = path.read_bytes()
                            path.unlink()
                        elif written == 'bytesio':
                            f = io.BytesIO(filler[:start])
                            f.seek(start)
                            s.save(f, format=suffix, **kwargs)
                            rec.check(f.tell() == start, f'{suffix} channel:position', f'left at {f.tell()}', case)
                            blob = f.getvalue()
                            rec.check(blob[:start] == filler[:start], f'{suffix} channel:before', 'overwritten', case)
                            blob = blob[start:]
                        else:
                            with open(path, 'wb' if written == 'file' else 'w+b') as f:
                                f.write(filler[:start])
                                s.save(f, format=suffix, **kwargs)
                                rec.check(f.tell() == start, f'{suffix} channel:position', f'left at {f.tell()}', case)
                            blob = path.read_bytes()
                            rec.check(blob[:start] == filler[:start], f'{suffix} channel:before', 'overwritten', case)
                            blob = blob[start:]
                            path.unlink()
                        rec.check(snapshot(s) == before, f'{suffix} channel:changed', 'writing changed the surface', case)
                        if read in ('str', 'path'):
                            path.write_bytes(blob)
                            t = Surface.load(str(path) if read == 'str' else path)
                            rec.check(path.read_bytes() == blob, f'{suffix} channel:read', 'reading changed the file', case)
                            path.unlink()
                        elif read == 'bytesio':
                            f = io.BytesIO(filler[:start] + blob)
                            f.seek(start)
                            t = Surface.load(f, format=suffix)
                            rec.check(f.tell() == start, f'{suffix} channel:position', f'left at {f.tell()}', case)
                        else:
                            path.write_bytes(filler[:start] + blob)
                            with open(path, 'rb', buffering=0 if read == 'unbuffered' else -1) as f:
                                f.seek(start)
                                t = Surface.load(f, format=suffix)
                                rec.check(f.tell() == start, f'{suffix} channel:position', f'left at {f.tell()}', case)
                            path.unlink()
                        rec.step(2)
                        compare(rec, f'{suffix} channel', s, t, [option], case, {})
                        rec.outcome(suffix, t.data.tobytes())
                    rec.state(suffix, written, read, start)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def layouts(rec, i, tier):
    """The content of the file depends on the heights only, not on their memory layout or on earlier operations."""
    from surfalize import Surface
    option = OPTIONS[i]
    for shape, missing, dtype in itertools.product(SHAPES[tier], ['none', 'checker'],
                                                   ['<f8', '<f4', '>f8', '<i4', '<i8', '<u2', '|u1']):
        z = generic(*shape, seed=4, scale=9.0, offset=30.0)
        if dtype[1] == 'f':
            z = punch(z, missing)
        elif missing != 'none':
            continue
        z = z.astype(dtype)
        if np.isnan(z).all():
            continue
        reference = None
        for layout in ('C', 'F', 'strided', 'reversed', 'readonly', 'transposed', 'queried', 'view'):
            case = f'{shape} {dtype} missing {missing} {layout} {name(option)}'
            rec.execution(case)
            with rec.guard(f'{option[0]} layout', case):
                if layout == 'transposed':
                    a = np.ascontiguousarray(z.T).T
                elif layout == 'view':
                    big = np.zeros((shape[0] + 2, shape[1] + 3), dtype)
                    a = big[1:-1, 2:-1]
                    a[...] = z
                else:
                    a = relayout(z, 'C' if layout == 'queried' else layout)
                s = Surface(a, 0.5, 0.75)
                if layout == 'queried':
                    s.mean()
                    s.has_missing_points
                before = snapshot(s)
                t = roundtrip(s, option)
                rec.step(2)
                rec.check(snapshot(s) == before, f'{option[0]} layout:changed', 'writing changed the surface', case)
                compare(rec, f'{option[0]} layout', s, t, [option], case, {})
                if reference is None:
                    reference = np.array(t.data)
                rec.check(np.array_equal(reference, t.data, equal_nan=True), f'{option[0]} layout:content',
                          f'{reference.ravel()[:5]} in C order, but {np.asarray(t.data).ravel()[:5]}', case)
                rec.outcome(t.data.tobytes())
            rec.state(option[0], layout, dtype)
