"""C30: damaged and unsupported files are rejected, not misread, and reading them always ends."""
import io
import os
import pathlib
import re
import shutil
import struct
import tempfile
import warnings
import zlib

import numpy as np

from mc import formats

PROPERTY = 'C30'
LEVEL = 'fault_enumeration'
RULE = ('every single flipped bit (thorough: also every byte replaced by 0x00 and 0xff) of small valid files of every format x '
        'reading with and without image layers x with and without the right hint; every missing, renamed, emptied or edited '
        'member of the archives; a list of unsupported contents of every format')
ASSUMPTIONS = ['one damaged place per file; which bytes are a signature, a size, a checksummed content, a single height or '
               'unused follows from the independent encoders',
               'reading counts as endless after 60000 read calls on a file of at most 4 kB']
TASK_LIMIT = 700
PIECE = 600
LIMIT = 60000


class Endless(BaseException):
    pass


class Disk(io.BytesIO):
    """A file that counts how often it is read."""
    calls = 0

    def read(self, *args):
        type(self).calls += 1
        if type(self).calls > LIMIT:
            raise Endless
        return super().read(*args)


def files(tier):
    f = formats
    shape = (2, 3)
    out = [f.al3d(shape, 1, '3.5', extra=1), f.dat(shape, 1, buckets=1, ac=(2, 2)), f.dat(shape, 0, 2, 2, 2, ac=(2, 2)),
           f.fits(shape, 1, -64, layers=False), f.gwy(shape, 1, decoys='all'), f.gwy(shape, meta=False, layers=False),
           f.nms((4, 4), layers=True), f.opd(shape, 1), f.opd(shape, 1, 4, order=2, layers=False), f.os3d(shape, 1, layers=False),
           f.os3d(shape, 0), f.plu(shape, 1), f.plu(shape, 0, layers=None), f.plux(shape), f.plux(shape, layers=None, info=False),
           f.sdf(shape, 1), f.sdf(shape, 1, 5), f.sdf(shape, 0, 6), f.sdf(shape, 1, 5, binary=False), f.sdf(shape, 0, binary=False),
           f.sflz(shape), f.sflz(shape, 1, '<f8', compression=2, layers=False), f.sflz(shape, 0, '<u2', compression=0),
           f.sur(shape, 1), f.sur(shape, 1, 16, compressed=2, comment=b'comment', private=b'\1\2\3'), f.sur(shape, gwyddion=True),
           f.sur((2, 2), layers='rgb'), f.sur((2, 2), compressed=1, layers='rgb'), f.tmd(shape, 1),
           f.vk(shape), f.vk(shape, '.vk6'), f.vk(shape, '.vk7'), f.x3p(shape, missing=1), f.x3p(shape, 'I'), f.zmg(shape),
           f.zmg(shape, comment=b'comment')]
    if tier == 'thorough':
        shape = (3, 5)
        out += [s for s in f.basic(shape, 1)] + [f.dat(shape, 1, 3, 3, 2, ac=(2, 2)), f.fits((4, 3), 0, 16),
                f.gwy(shape, 3, 'um', 'nm', 1e3, (4.0, 9.0), 3, True, 'title'), f.sdf(shape, 3, 6, binary=False, columns=1),
                f.sflz(shape, 1, '<f4', compression=2), f.sur(shape, 0, 32, compressed=3), f.x3p(shape, 'L'), f.x3p(shape, 'F')]
    return out


def regions(s):
    """Yield (start, end, kind) of the parts of the file with a known meaning. Kinds: fatal - damage must be rejected;
    same - damage is rejected or without any effect on heights and steps; (local, itemsize) - damage affects one height
    only; free - damage may have any effect."""
    b = s.blob
    ny, nx = s.z.shape
    n = nx * ny
    if s.suffix == '.al3d':
        yield 0, 17, 'fatal'
        count = 3 + int(b[17 + 52 + 20:17 + 52 + 50].rstrip(b'\0'))
        for i in range(count - 1):
            at = 17 + 52 * i
            key = b[at:at + 20].rstrip(b'\0')
            needed = key in (b'Version', b'TagCount', b'Cols', b'Rows', b'PixelSizeXMeter', b'PixelSizeYMeter',
                             b'DepthImageOffset', b'InvalidPixelValue')
            if needed:
                yield at, at + 20, 'fatal'
            if needed and key != b'Version':
                yield at + 20, at + 50, 'free'
            yield at + 50, at + 52, 'fatal'
        yield len(b) - 4 * n, len(b), ('local', 4)
    elif s.suffix == '.dat':
        yield 0, 10, 'fatal'
        yield 52, 58, 'free'
        yield 58, 60, 'free'
        if struct.unpack('>I', b[60:64])[0]:
            yield 52, 58, 'fatal'
        yield 60, 64, 'fatal'
        yield 68, 72, 'free'
        yield 164, 172, 'free'
        yield 176, 180, 'free'
        yield 184, 188, 'free'
        yield 218, 220, 'free'
        yield len(b) - 4 * n, len(b), ('local', 4)
    elif s.suffix == '.fits':
        yield 0, 6, 'fatal'
        for m in re.finditer(rb'(SIMPLE|BITPIX|NAXIS|NAXIS1|NAXIS2|DELTAX|DELTAY|UNITX|UNITZ|EXTNAME|XTENSION|PCOUNT|GCOUNT|END|'
                             rb'HIERARCH UnitMultiplicator\w+) *=? ', b):
            yield m.start(), (m.start() // 80 + 1) * 80, 'free'
        for key in (b'DELTAX  ', b'DELTAY  ', b'UNITX   ', b'UNITZ   '):
            yield b.index(key), b.index(key) + 5, 'fatal'
        at = b.index(b'HEIGHTS') // 2880 * 2880 + 2880
        # '-64' bits: damage must not turn a normal number into a blank one
        yield at, at + 8 * n, ('local', 8)
        if b'MASK' in b:
            at = b.index(b'MASK') // 2880 * 2880 + 2880
            yield at, at + n, ('local', 1)
    elif s.suffix == '.gwy':
        yield 0, 4, 'fatal'
        for m in re.finditer(rb'[!-~]+\x00[a-zA-Z]', b):
            yield m.start(), m.end() + 8, 'free'
        yield 4, len(b), 'free'
    elif s.suffix == '.nms':
        yield 16, 32, 'free'
        yield 1368, 1392, 'free'
        yield 3468, 3468 + 2 * n, ('local', 2)
    elif s.suffix == '.opd':
        yield 0, 11, 'fatal'
        yield 11, 26, 'free'
        blocks = struct.unpack('<16shlH', b[2:26])[2] // 24 - 1
        at = 26 + 24 * blocks
        for i in range(blocks):
            name, kind, size, _ = struct.unpack('<16shlH', b[26 + 24 * i:50 + 24 * i])
            name = name.rstrip(b'\0').decode()
            yield 26 + 24 * i, 50 + 24 * i, 'free'
            if name == 'RAW_DATA':
                yield 26 + 24 * i, 42 + 24 * i, 'fatal'
                yield 44 + 24 * i, 48 + 24 * i, 'fatal'
                yield at, at + 6, 'fatal'
                yield at + 6, at + size, ('local', (size - 6) // n)
            elif name in ('Wavelength', 'Mult', 'Aspect', 'Pixel_size'):
                yield at, at + size, 'free'
            at += size
    elif s.suffix == '.os3d':
        yield 0, 10, 'fatal'
        yield 18, 22, 'free'
        at = 22 + struct.unpack('<i', b[18:22])[0]
        yield at, at + 4, 'free'
        at += 4 + struct.unpack('<i', b[at:at + 4])[0]
        yield at, at + 24, 'free'
        yield at + 40, at + 40 + 4 * n, ('local', 4)
    elif s.suffix == '.plu':
        at = 128 + 4 + 256
        yield 0, 128, 'same'
        yield at, at + 12, 'free'
        yield at + 16, at + 24, 'free'
        yield 500, 500 + 4 * n, ('local', 4)
    elif s.suffix == '.sdf' and not s.text:
        yield 0, 8, 'fatal'
        yield 42, 46, 'free'
        yield 46, 70, 'free'
        yield 79, 80, 'free'
        size = (len(b) - 81) // n
        yield 81, len(b), ('local', size)
    elif s.suffix == '.sdf':
        yield 0, 8, 'fatal'
        yield 8, len(b), 'free'
        at = b.index(b'\n') + 1
        for line in b.split(b'*')[0].split(b'\n')[1:-1]:
            if line[:12].strip() in (b'NumPoints', b'NumProfiles', b'Xscale', b'Yscale', b'Zscale', b'DataType'):
                yield at, at + len(line[:12].rstrip()), 'fatal'
            at += len(line) + 1
    elif s.suffix == '.sflz':
        yield 0, 4, 'fatal'
        yield 14, 47, 'free'
        yield 51, 52, 'free'
        yield 52, 64, 'fatal'
        yield 52, 54, 'free'
        yield 64, 72, 'fatal'
        yield 72, 80, 'free'
        size = struct.unpack('<I', b[76:80])[0]
        if b[51] == 0:
            yield 80, 80 + size, ('local', size // n)
        else:
            yield 76, 80, 'same'
            yield 80, 80 + size, 'same'
    elif s.suffix == '.sur':
        yield 0, 12, 'fatal'
        yield 14, 16, 'free'
        yield 16, 20, 'fatal'
        yield 16, 18, 'free'
        yield 20, 80, 'free' if b'SCRATCH' in b else 'same'
        yield 86, 88, 'free'
        yield 98, 100, 'fatal'
        yield 100, 104, 'free'
        yield 108, 120, 'free'
        yield 120, 132, 'free'
        yield 180, 228, 'free'
        # the sizes of the comment and of the private zone move the data
        yield 334, 338, 'free'
        c, p = struct.unpack('<hh', b[334:338])
        yield 474, 478, 'free'
        at = 512 + c + p
        if b.startswith(b'DSCOMPRESSED'):
            streams = struct.unpack('<I', b[at:at + 4])[0]
            yield at, at + 4 + 8 * streams, 'fatal'
            yield 324, 328, 'fatal'
            size = sum(struct.unpack('<I', b[at + 8 + 8 * i:at + 12 + 8 * i])[0] for i in range(streams))
            yield at + 4 + 8 * streams, at + 4 + 8 * streams + size, 'same'
        else:
            bits = struct.unpack('<h', b[98:100])[0]
            yield at, at + bits // 8 * n, ('local', bits // 8)
            yield 116, 120, 'same'
    elif s.suffix == '.tmd':
        yield 0, 29, 'fatal'
        yield 29, 56, 'free'
        yield 56, 64, 'fatal'
        yield 64, 72, 'free'
        yield 80, 80 + 4 * n, ('local', 4)
    elif s.suffix == '.vk4':
        yield 12, 84, 'free'
        at = struct.unpack('<I', b[12 + 24:12 + 28])[0]
        conditions = struct.unpack('<I', b[12:16])[0]
        yield conditions + 42 * 4, conditions + 45 * 4, 'free'
        yield at, at + 12, 'fatal'
        yield at + 16, at + 20, 'fatal'
        size = struct.unpack('<I', b[at + 8:at + 12])[0] // 8
        yield at + 796, at + 796 + size * n, ('local', size)
    elif s.suffix in ('.vk6', '.vk7', '.plux', '.x3p'):
        # the members of the archive have check sums
        yield 0, len(b), 'same'
    elif s.suffix == '.zmg':
        yield 0, 16, 'fatal'
        yield 85, 93, 'free'
        yield 97, 109, 'free'
        yield 117, 121, 'free'
        yield len(b) - 2 * n, len(b), ('local', 2)
    else:
        yield 0, len(b), 'free'


def kinds(s):
    out = ['same'] * len(s.blob)
    for start, end, kind in regions(s):
        for i in range(start, min(end, len(out))):
            out[i] = kind if isinstance(kind, str) else (*kind, start)
    return out


def layers(tier):
    """(suffix, label, blob) of files whose images contradict their description."""
    f = formats
    for fmt, buckets, size in [(1, 1, (2, 2)), (3, 2, (2, 3))]:
        s = f.dat((2, 3), 0, fmt, buckets=buckets, ac=size)
        start = 4096 if fmt == 3 else 834
        for i in range(size[0] * size[1] * buckets):
            for value in (4096, 4097, 32768, 65535):
                b = bytearray(s.blob)
                struct.pack_into('>H', b, start + 2 * i, value)
                yield s.suffix, f'format {fmt} buckets {buckets}: intensity {i} = {value} exceeds the range 4095', bytes(b)


def unsupported(tier):
    """(suffix, label, blob) of files that can not be represented or that contradict themselves."""
    f = formats
    shape = (2, 3)
    out = []

    def add(label, sample, blob=None):
        out.append((sample.suffix, label, sample.blob if blob is None else blob))

    def edit(sample, at, fmt, value):
        b = bytearray(sample.blob)
        struct.pack_into(fmt, b, at, value)
        return bytes(b)
    for gwy in (False, True):
        for value in range(-1, 40):
            s = f.sur(shape, gwyddion=gwy)
            if value not in (2, 16, 1 if gwy else 2):
                add(f'studiable {value} gwyddion {gwy}', s, edit(s, 18, '<h', value))
        for value in (2, 3, 100):
            add(f'{value} objects gwyddion {gwy}', s, edit(s, 14, '<h', value))
    for compressed in (0, 2):
        s = f.sur(shape, compressed=compressed)
        for value in (0, 8, 24, 64, -16, 17, 31, 33):
            add(f'{value} bits compressed {compressed}', s, edit(s, 98, '<h', value))
        for value in (0, 2, 5, 7, 100):
            if value != shape[1]:
                add(f'{value} points per line compressed {compressed}', s, edit(s, 108, '<i', value))
        for value in (0, 1, 3, 100):
            add(f'{value} lines compressed {compressed}', s, edit(s, 112, '<i', value))
        for at, what in ((180, 'x'), (196, 'y'), (212, 'z')):
            for unit in (b's', b'inch', b'um2', b'', b'V'):
                b = bytearray(s.blob)
                b[at:at + 16] = unit.ljust(16)
                add(f'{what} unit {unit} compressed {compressed}', s, bytes(b))
    for naxis in (0, 1, 3, 4):
        s = f.fits(shape, layers=False)
        first = s.blob.index(b'XTENSION')
        at = s.blob.index(b'NAXIS   =', first)
        b = s.blob[:at] + f'NAXIS   = {naxis:>20d}'.encode() + s.blob[at + 30:]
        add(f'{naxis} axes', s, b)
    s = f.fits(shape, 1, layers=True)
    for name in (b'HEIGHTZ', b'HEIGHT ', b'TEXTURE'):
        add(f'layer {name} instead of heights', s, s.blob.replace(b'HEIGHTS', name))
    add('no layers', s, s.blob[:s.blob.index(b'XTENSION')])
    for key in (b'UNITX', b'UNITZ'):
        for unit in (b"'s '", b"'V '", b"''  "):
            at = s.blob.index(key)
            b = s.blob[:at] + (key.ljust(8) + b'= ' + unit).ljust(80) + s.blob[at + 80:]
            add(f'{key} {unit}', s, b)
    for unit in (b'V', b's', b'A'):
        s = f.gwy(shape, layers=False)
        b = s.blob.replace(b'si_unit_z\0oGwySIUnit\0' + struct.pack('<I', 11) + b'unitstr\0sm\0',
                           b'si_unit_z\0oGwySIUnit\0' + struct.pack('<I', 11) + b'unitstr\0s' + unit + b'\0')
        assert b != s.blob
        add(f'heights in {unit}', s, b)
        b = s.blob.replace(b'si_unit_xy\0oGwySIUnit\0' + struct.pack('<I', 11) + b'unitstr\0sm\0',
                           b'si_unit_xy\0oGwySIUnit\0' + struct.pack('<I', 11) + b'unitstr\0s' + unit + b'\0')
        assert b != s.blob
        add(f'positions in {unit}', s, b)
    add('no channels', s, b'GWYP' + b'GwyContainer\0' + struct.pack('<I', 0))
    s = f.sdf(shape, 0, 5, binary=False)
    for label, old, new in [('unknown field', b'CheckType   = 0\n', b'CheckType   = 0\nFoo         = 1\n'),
                            ('missing size', b'NumPoints   = 3\n', b''), ('missing scale', b'Zscale ', b'ManufacID'),
                            ('wrong size', b'NumPoints   = 3', b'NumPoints   = 2'),
                            ('too large', b'NumProfiles = 2', b'NumProfiles = 3'),
                            ('too small', b'NumProfiles = 2', b'NumProfiles = 1'),
                            ('text', b'DataType    = 5', b'DataType    = 1'), ('type 0', b'DataType    = 5', b'DataType    = 0'),
                            ('type 9', b'DataType    = 5', b'DataType    = 9'),
                            ('version', b'aISO-1.0', b'aISO-2.0'), ('kind', b'aISO-1.0', b'cISO-1.0')]:
        assert old in s.blob
        add(f'ascii {label}', s, s.blob.replace(old, new))
    add('ascii text after the end', s, s.blob + b'1 2 3\n')
    add('ascii another end', s, s.blob + b'*\n')
    rows = s.blob.split(b'*\n')
    numbers = rows[1].split()
    for i in range(len(numbers)):
        for word in (b'x', b'1.2.3', b'--1'):
            words = numbers[:i] + [word] + numbers[i + 1:]
            add(f'ascii point {i} is {word}', s, b'*\n'.join([rows[0], b' '.join(words) + b'\n'] + rows[2:]))
        words = numbers[:i] + numbers[i + 1:]
        add(f'ascii without point {i}', s, b'*\n'.join([rows[0], b' '.join(words) + b'\n'] + rows[2:]))
    for dtype in (5, 6, 7):
        s = f.sdf(shape, 0, dtype)
        for value in (0, 1, 2, 4, 8, 9, 255):
            add(f'binary type {dtype} -> {value}', s, edit(s, 79, '<B', value))
        for value in (2, 4, 100) if dtype != 5 else (4, 100):
            if value > 3:
                add(f'binary type {dtype} {value} points', s, edit(s, 42, '<H', value))
    s = f.tmd(shape)
    for w, h in [(3, 3), (2, 2), (4, 4), (3, 1), (0, 0), (6, 2), (2, 6)]:
        b = bytearray(s.blob)
        struct.pack_into('<II', b, 56, w, h)
        add(f'size {w} x {h}', s, bytes(b))
    add('trailing data', s, s.blob + b'\0\0\0\0')
    s = f.vk(shape)
    at = struct.unpack('<I', s.blob[36:40])[0]
    for w, h in [(3, 3), (2, 2), (4, 4), (3, 1), (0, 0)]:
        b = bytearray(s.blob)
        struct.pack_into('<II', b, at, w, h)
        add(f'size {w} x {h}', s, bytes(b))
    s = f.dat(shape, buckets=1, ac=(2, 2))
    for at, what in [(52, 'width'), (54, 'height'), (56, 'buckets')]:
        for value in (0, 1, 3, 7):
            if struct.unpack('>H', s.blob[at:at + 2])[0] != value:
                add(f'intensity {what} {value}', s, edit(s, at, '>H', value))
    for fmt in (1, 2, 3):
        s = f.dat(shape, fmt=fmt)
        for other in (1, 2, 3, 4):
            if other != fmt:
                add(f'format {fmt} -> {other}', s, edit(s, 4, '>H', other))
                add(f'magic {fmt} -> {other}', s, edit(s, 3, '>B', 0x6e + other))
        for size in (833, 835, 834 if fmt == 3 else 4096, 0):
            add(f'format {fmt} header {size}', s, edit(s, 6, '>I', size))
    s = f.opd(shape, layers=False)
    for name in (b'RAW_DATB', b'raw_data', b'RAW'):
        add(f'{name} instead of heights', s, s.blob.replace(b'RAW_DATA', name.ljust(8, b'\0')))
    for value in (0, 1, 2, 4, 9, 13, -1):
        at = s.blob.index(b'RAW_DATA') + 16
        add(f'block type {value}', s, edit(s, at, '<h', value))
    s = f.sflz(shape, layers=False)
    add('no heights', s, s.blob.replace(b'topography', b'topologies'))
    for value in range(3, 256, 7 if tier == 'quick' else 1):
        add(f'compression {value}', s, edit(s, 51, '<B', value))
    s = f.al3d(shape)
    for key in (b'Cols', b'Rows', b'PixelSizeXMeter', b'PixelSizeYMeter', b'DepthImageOffset', b'InvalidPixelValue', b'Version',
                b'TagCount'):
        at = s.blob.index(key)
        add(f'no {key}', s, s.blob[:at] + b'Nothing'.ljust(20, b'\0') + s.blob[at + 20:])
    s = f.xyz(shape)
    lines = s.blob.split(b'\n')[:-1]
    for i in range(len(lines)):
        add(f'without line {i}', s, b'\n'.join(lines[:i] + lines[i + 1:]) + b'\n')
        for j in range(3):
            words = lines[i].split()
            add(f'line {i} column {j} text', s, b'\n'.join(lines[:i] + [b' '.join(words[:j] + [b'abc'] + words[j + 1:])]
                                                           + lines[i + 1:]) + b'\n')
            add(f'line {i} column {j} missing', s, b'\n'.join(lines[:i] + [b' '.join(words[:j] + words[j + 1:])]
                                                              + lines[i + 1:]) + b'\n')
    return out


def archives(tier):
    """(suffix, label, blob) of archives that lack something or whose parts do not belong together."""
    import hashlib
    import zipfile
    out = []
    for s in (formats.x3p((2, 3)), formats.x3p((2, 3), 'I'), formats.x3p((2, 3), comment=9000), formats.plux((2, 3), layers=None)):
        with zipfile.ZipFile(io.BytesIO(s.blob)) as z:
            members = [(n, z.read(n)) for n in z.namelist()]
        kind = s.label

        def add(label, entries):
            out.append((s.suffix, f'{kind}: {label}', formats.archive(entries)))
        for i, (name, content) in enumerate(members):
            add(f'without {name}', members[:i] + members[i + 1:])
            add(f'{name} renamed', members[:i] + [(name + 'x', content)] + members[i + 1:])
            add(f'{name} empty', members[:i] + [(name, b'')] + members[i + 1:])
            if name != 'md5checksum.hex':
                add(f'{name} shortened', members[:i] + [(name, content[:-1])] + members[i + 1:])
        if s.suffix != '.x3p':
            continue
        xml = dict(members)['main.xml']
        # every changed byte of the description makes the check sum wrong
        for i in range(0, len(xml), 1 if len(xml) < 4096 or tier == 'thorough' else 17):
            for new in (xml[i] ^ 1, 0x20 if xml[i] != 0x20 else 0x0a):
                changed = xml[:i] + bytes([new]) + xml[i + 1:]
                add(f'byte {i} of main.xml {new}', [(n, changed if n == 'main.xml' else c) for n, c in members])
        checksum = dict(members)['md5checksum.hex']
        for i in range(32):
            for new in b'0f':
                if checksum[i] != new:
                    changed = checksum[:i] + bytes([new]) + checksum[i + 1:]
                    add(f'digit {i} of the check sum {new}', [(n, changed if n == 'md5checksum.hex' else c) for n, c in members])

        def xml_edit(label, pattern, new):
            changed = re.sub(pattern, new, xml, flags=re.S)
            assert changed != xml, label
            md5 = hashlib.md5(changed).hexdigest().encode() + b' *main.xml\n'
            add(label, [(n, {'main.xml': changed, 'md5checksum.hex': md5}.get(n, c)) for n, c in members])
        for feature in (b'PRF', b'PCL', b'', b'SURF'):
            xml_edit(f'feature {feature}', b'<FeatureType>SUR', b'<FeatureType>' + feature)
        for size in (b'0', b'2', b'10'):
            xml_edit(f'{size} layers', b'<SizeZ>1', b'<SizeZ>' + size)
        for axis in (b'X', b'Y'):
            for size in (b'0', b'1', b'4', b'7'):
                xml_edit(f'size {axis} {size}', b'<Size' + axis + b'>.', b'<Size' + axis + b'>' + size)
        for kind_ in (b'S', b'', b'U'):
            xml_edit(f'data type {kind_}', b'(<CZ>.*?<DataType>).', rb'\g<1>' + kind_)
        xml_edit('no Record1', b'<Record1>.*</Record1>', b'')
        xml_edit('no Record3', b'<Record3>.*</Record3>', b'')
        xml_edit('other member', b'bindata/data.bin', b'bindata/dat0.bin')
        xml_edit('no member', b'<PointDataLink>.*</PointDataLink>', b'<PointDataLink></PointDataLink>')
        xml_edit('no link', b'<DataLink>.*</DataLink>', b'')
    return out


def tasks(tier):
    out = []
    for i, s in enumerate(files(tier)):
        for start in range(0, len(s.blob), PIECE):
            out.append((f'flip {s.suffix} {i} {start}', ('flip', i, start, tier)))
    out += [('unsupported', ('list', 'unsupported', tier)), ('archives', ('list', 'archives', tier)),
            ('layers', ('list', 'layers', tier))]
    return out


_cache = {}


def load(blob, suffix, layers):
    from surfalize import Surface
    Disk.calls = 0
    disk = Disk(blob)
    return Surface.load(disk, format=suffix, read_image_layers=layers), disk


def same(a, b):
    return (a.data.shape == b.data.shape and np.array_equal(a.data, b.data, equal_nan=True)
            and a.step_x == b.step_x and a.step_y == b.step_y)


def run(rec, _, args):
    import resource
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    limit = 12 << 30
    if soft == resource.RLIM_INFINITY or soft > limit:
        resource.setrlimit(resource.RLIMIT_AS, (limit, hard))
    warnings.simplefilter('ignore')
    if args[0] == 'list':
        return rejected(rec, *args[1:])
    _, index, start, tier = args
    if tier not in _cache:
        _cache[tier] = [(s, kinds(s)) for s in files(tier)]
    s, kind = _cache[tier][index]
    end = min(start + PIECE, len(s.blob))
    reference = {}
    for layers in (False, True):
        if layers and s.suffix in ('.nms', '.plu') and not s.layers:
            continue
        with rec.guard(f'{s.suffix} intact', s.label):
            reference[layers] = load(s.blob, s.suffix, layers)[0]
            rec.check(reference[layers].data.shape == s.z.shape, f'{s.suffix} intact', 'wrong size', s.label)
    for i in range(start, end):
        old = s.blob[i]
        values = [old ^ (1 << b) for b in range(8)]
        if tier == 'thorough':
            values += [v for v in (0, 255) if v != old and v not in values]
        for value in values:
            blob = s.blob[:i] + bytes([value]) + s.blob[i + 1:]
            for layers, expected in reference.items():
                for hint in (True, False):
                    if not hint and s.suffix not in formats.RECOGNISABLE:
                        continue
                    case = (f'{s.suffix} {s.label}: byte {i} {old:#04x} -> {value:#04x}, layers {layers}, '
                            f'{"hint" if hint else "no hint"}')
                    rec.execution(case)
                    judge(rec, s, kind[i], i, blob, layers, hint, expected, case)
                    rec.step()
        rec.state(s.suffix, s.label, i)
    for layers, expected in reference.items():
        with rec.guard(f'{s.suffix} afterwards', s.label):
            t, _ = load(s.blob, s.suffix, layers)
            rec.check(same(t, expected), f'{s.suffix} afterwards', 'the intact file is read differently after the damaged ones',
                      s.label)


def judge(rec, s, kind, i, blob, layers, hint, expected, case):
    try:
        t, disk = load(blob, s.suffix if hint else None, layers)
    except Endless:
        rec.outcome(s.suffix, 'endless')
        rec.fail(f'{s.suffix} endless', f'reading does not end (more than {LIMIT} read calls)', case)
        return
    except MemoryError:
        rec.outcome(s.suffix, 'memory')
        return
    except Exception as e:
        rec.outcome(s.suffix, kind[0] if isinstance(kind, tuple) else kind, type(e).__name__)
        if isinstance(kind, tuple) and kind[0] == 'local':
            rec.fail(f'{s.suffix} height', f'a damaged height makes the file unreadable: {type(e).__name__}: {e}', case)
        return
    rec.outcome(s.suffix, kind[0] if isinstance(kind, tuple) else kind, 'returned')
    rec.check(disk.tell() == 0, f'{s.suffix} position', 'the buffer is not at its initial position', case)
    if not rec.check(isinstance(t.data, np.ndarray) and t.data.ndim == 2 and (t.size.y, t.size.x) == t.data.shape,
                     f'{s.suffix} surface', 'the result is not a surface', case):
        return
    if kind == 'fatal':
        rec.fail(f'{s.suffix} accepted', 'a damaged signature, key or size is accepted', case)
    elif kind == 'same':
        rec.check(same(t, expected), f'{s.suffix} misread', 'damage of a part without meaning for the heights, or protected by a '
                  'check sum, changes the heights or the step sizes', case)
    elif isinstance(kind, tuple):
        if not rec.check(t.data.shape == expected.data.shape and (t.step_x, t.step_y) == (expected.step_x, expected.step_y),
                         f'{s.suffix} height geometry', 'a damaged height changes the geometry', case):
            return
        a, b = t.data, expected.data
        differ = ~((a == b) | (np.isnan(a) & np.isnan(b)))
        count = int(differ.sum())
        rec.check(count <= 1, f'{s.suffix} height', f'one damaged height changes {count} points', case)
        if count == 1 and s.suffix != '.opd':
            where = int(np.flatnonzero(differ)[0])
            rec.check(where == (i - kind[2]) // kind[1], f'{s.suffix} height place',
                      f'height {(i - kind[2]) // kind[1]} is damaged, point {where} changes', case)


def rejected(rec, which, tier):
    """Files that can not be represented are rejected, from buffers and from paths."""
    from surfalize import Surface
    scratch = pathlib.Path(tempfile.mkdtemp(prefix='c30-', dir=os.environ.get('VERIF_SCRATCH')))
    try:
        for suffix, label, blob in {'unsupported': unsupported, 'archives': archives, 'layers': layers}[which](tier):
            path = scratch / ('x' + suffix)
            path.write_bytes(blob)
            for images in (False, True):
                if which == 'layers' and not images:
                    continue
                for source in ('hint', 'none', 'path'):
                    case = f'{suffix} {label}, layers {images}, {source}'
                    rec.execution(case)
                    Disk.calls = 0
                    try:
                        t = Surface.load(path if source == 'path' else Disk(blob), format=suffix if source == 'hint' else None,
                                         read_image_layers=images)
                    except Endless:
                        rec.fail(f'{suffix} endless', 'reading does not end', case)
                    except Exception as e:
                        rec.outcome(suffix, type(e).__name__)
                    else:
                        rec.outcome(suffix, 'returned')
                        rec.fail(f'{suffix} unsupported', f'is read as a surface with {t.data.shape[1]} x {t.data.shape[0]} '
                                 'points', case)
                    rec.step()
            rec.state(suffix, label)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
