"""C13: format, suffix and content decide how files are written and read."""
import bz2
import contextlib
import gzip
import io
import itertools
import lzma
import os
import pathlib
import re
import shutil
import tarfile
import tempfile
import warnings
import zipfile

import numpy as np

from mc import formats
from mc.checks.c15 import compare
from mc.util import attempt, Err, generic

PROPERTY = 'C13'
LEVEL = 'model_checking'
RULE = ('writing: all pairs of suffix and explicit format (supported for writing, for reading only, unknown, missing) in '
        'every letter case x paths and buffers; reading: every format x every right, wrong, unknown and missing hint in '
        'every letter case x paths, buffers, open files and other file objects (compressed files, members of archives, spooled '
        'files), at several positions')
ASSUMPTIONS = ['formats without signature need the right hint']

STARTS = {'quick': [0, 3, 600], 'thorough': [0, 1, 3, 17, 512, 600, 4096]}


def cases(s):
    return [s, s.upper(), s.title()] if s else [s]


def tasks(tier):
    n = len(formats.basic())
    out = [(f'read {i} {m} {l}', ('read', i, m, l, tier)) for i in range(n) for m, l in ((0, True), (1, False), (0, False))]
    suffixes = list(formats.SUFFIXES) + ['', '.foo', '.txt', '.fit', '.fts']
    out += [(f'write {s or "none"}', ('write', s, tier)) for s in suffixes]
    return out


def run(rec, _, args):
    warnings.simplefilter('ignore')
    scratch = pathlib.Path(tempfile.mkdtemp(prefix='c13-', dir=os.environ.get('VERIF_SCRATCH')))
    try:
        if args[0] == 'read':
            read(rec, scratch, *args[1:])
        else:
            write(rec, scratch, *args[1:])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def read(rec, scratch, index, missing, layers, tier):
    from surfalize import Surface
    s = formats.basic(missing=missing, layers=layers)[index]
    hints = [None, '', '.foo', '.txt', 'sur'] + [c for f in formats.SUFFIXES for c in cases(f)] + ['.fit', '.FTS']
    filler = bytes((i * 7 + 13) % 256 for i in range(5000))
    aliases = {'.fits': ('.fits', '.fit', '.fts'), '.vk6': ('.vk6', '.vk7'), '.vk7': ('.vk6', '.vk7')}
    for hint in hints:
        right = hint is not None and hint.lower() in aliases.get(s.suffix, (s.suffix,))
        if not right and s.suffix not in formats.RECOGNISABLE:
            continue
        for source, start in itertools.product(['path', 'path and format', 'bytesio', 'file', 'rwfile', 'unbuffered', *WRAPPED],
                                               STARTS[tier]):
            if source.startswith('path') and start:
                continue
            if source == 'path' and hint is None:
                continue
            case = f'{s.suffix} {s.label} hint {hint!r} from {source} at {start} layers {layers}'
            rec.execution(case)
            with rec.guard(f'read {s.suffix}', case):
                kwargs = dict(read_image_layers=layers)
                if source == 'path':
                    path = scratch / ('file' + hint)
                    path.write_bytes(s.blob)
                    t = Surface.load(path, **kwargs)
                    path.unlink()
                elif source == 'path and format':
                    # the suffix misleads, the format is the hint
                    path = scratch / ('file.' + ('dat' if s.suffix != '.dat' else 'sur'))
                    path.write_bytes(s.blob)
                    t = Surface.load(str(path), format=hint, **kwargs)
                    path.unlink()
                elif source in WRAPPED:
                    with wrapped(source, scratch, filler[:start] + s.blob) as f:
                        f.seek(start)
                        t = Surface.load(f, format=hint, **kwargs)
                        rec.check(not f.closed and f.tell() == start, f'read {s.suffix}:position', f'left at {f.tell()}', case)
                        rec.check(f.read() == s.blob, f'read {s.suffix}:content', 'other content afterwards', case)
                elif source == 'bytesio':
                    f = io.BytesIO(filler[:start] + s.blob)
                    f.seek(start)
                    t = Surface.load(f, format=hint, **kwargs)
                    rec.check(f.tell() == start, f'read {s.suffix}:position', f'left at {f.tell()}', case)
                else:
                    path = scratch / 'file'
                    path.write_bytes(filler[:start] + s.blob)
                    with open(path, 'r+b' if source == 'rwfile' else 'rb', buffering=0 if source == 'unbuffered' else -1) as f:
                        f.seek(start)
                        t = Surface.load(f, format=hint, **kwargs)
                        rec.check(f.tell() == start, f'read {s.suffix}:position', f'left at {f.tell()}', case)
                        # and once again from where it is
                        u = Surface.load(f, format=hint, **kwargs)
                        compare(rec, f'read again {s.suffix}', s, u, layers, case)
                    rec.check(path.read_bytes() == filler[:start] + s.blob, f'read {s.suffix}:content', 'file was changed',
                              case)
                    path.unlink()
                rec.step()
                compare(rec, f'read {s.suffix}', s, t, layers, case)
                rec.outcome(s.suffix, t.data.tobytes())
            rec.state(s.suffix, hint, source, start)


WRAPPED = ['gzip', 'bz2', 'lzma', 'zip', 'tar', 'spooled', 'reader', 'random']


@contextlib.contextmanager
def wrapped(kind, scratch, blob):
    """A file object that is no plain file: its descriptor, if it has one, does not lead to its content."""
    path = scratch / f'wrapped.{kind}'
    module = dict(gzip=gzip, bz2=bz2, lzma=lzma).get(kind)
    if module is not None:
        with module.open(path, 'wb') as f:
            f.write(blob)
        with module.open(path, 'rb') as f:
            yield f
    elif kind == 'zip':
        with zipfile.ZipFile(path, 'w', zipfile.ZIP_DEFLATED) as z:
            z.writestr('member', blob)
        with zipfile.ZipFile(path) as z, z.open('member') as f:
            yield f
    elif kind == 'tar':
        with tarfile.open(path, 'w') as z:
            info = tarfile.TarInfo('member')
            info.size = len(blob)
            z.addfile(info, io.BytesIO(blob))
        with tarfile.open(path) as z, z.extractfile('member') as f:
            yield f
    elif kind == 'spooled':
        with tempfile.SpooledTemporaryFile() as f:
            f.write(blob)
            yield f
    elif kind == 'reader':
        with io.BufferedReader(io.BytesIO(blob), 16) as f:
            yield f
    else:
        with io.BufferedRandom(io.BytesIO(blob), 16) as f:
            yield f
    path.unlink(missing_ok=True)


def mask_time(blob, suffix):
    """The files without the time of writing."""
    if suffix == '.sdf':
        return blob[:18] + blob[42:]
    if suffix == '.sur':
        return blob[:306] + blob[320:]
    return blob


def write(rec, scratch, suffix, tier):
    from surfalize import Surface
    from surfalize.exceptions import UnsupportedFileFormatError
    z = generic(3, 5, seed=6, scale=2.0)
    z[1, 1] = np.nan
    s = Surface(z, 0.5, 0.75)
    reference = {}
    for f in formats.WRITABLE:
        b = io.BytesIO()
        s.save(b, format=f)
        reference[f] = mask_time(b.getvalue(), f)
    magic = {'.al3d': b'AliconaImaging', '.sdf': b'bISO-1.0', '.sflz': b'SFLZ', '.sur': b'DIGITAL SURF', '.tmd': b'Binary TrueMap'}
    for f in formats.WRITABLE:
        rec.check(reference[f].startswith(magic[f]), f'write {f}:magic', f'{reference[f][:20]}', f)
    alphabet = [None] + [c for f in formats.SUFFIXES + ('.foo', 'sur', '.fit') for c in cases(f)]
    for fmt, spelled, target, existing in itertools.product(
            alphabet, cases(suffix), ['path', 'str', 'bytesio', 'file'], [False, True]):
        if target in ('bytesio', 'file') and (existing or spelled != suffix or suffix != ''):
            continue
        decider = fmt if fmt is not None else (spelled if target in ('path', 'str') else '')
        case = f'suffix {spelled!r} format {fmt!r} to {target} existing {existing}'
        rec.execution(case)
        with rec.guard('write', case):
            path = scratch / ('file' + spelled)
            if path.exists():
                path.unlink()
            if existing:
                path.write_bytes(b'previous content')
            if target in ('path', 'str'):
                got = attempt(lambda: s.save(str(path) if target == 'str' else path, format=fmt))
                blob = path.read_bytes() if path.exists() else None
            elif target == 'bytesio':
                f = io.BytesIO()
                got = attempt(lambda: s.save(f, format=fmt))
                blob = f.getvalue() or None
            else:
                with open(path, 'wb') as f:
                    got = attempt(lambda: s.save(f, format=fmt))
                blob = path.read_bytes() or None
            rec.step()
            chosen = decider.lower()
            if chosen in formats.WRITABLE:
                rec.check(not isinstance(got, Err), 'write:refused', f'{got}', case)
                rec.check(blob is not None and mask_time(blob, chosen) == reference[chosen], 'write:format',
                          f'not a {chosen} file: {blob[:40] if blob else blob}', case)
            else:
                want = 'UnsupportedFileFormatError' if decider else 'ValueError'
                rec.check(isinstance(got, Err) and want in repr(got), 'write:unsupported', f'{got} instead of {want}', case)
                rec.check(blob == (b'previous content' if existing else None), 'write:touched',
                          f'wrote {blob[:40] if blob else blob}', case)
            rec.outcome(chosen, repr(got)[:60], None if blob is None else mask_time(blob, chosen))
        rec.state(spelled, fmt, target)
