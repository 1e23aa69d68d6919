"""C31: recorded texts, dates and images are reported as recorded and never influence the heights."""
import datetime
import io
import itertools
import os
import pathlib
import shutil
import struct
import tempfile
import warnings
import xml.sax.saxutils

import numpy as np

from mc import formats
from mc.formats import archive
from mc.util import Err, attempt, same

PROPERTY = 'C31'
LEVEL = 'model_checking'
RULE = ('every text field of every format x all texts up to the length of the field, every printable character at the beginning, '
        'in the middle, at the end and alone, accented and Asian characters in UTF-8 and Latin-1, words with a meaning in the '
        'format x the encodings that can decode them x with and without image layers; every date of several years and every '
        'minute of a day in every format with dates; image layers of all formats and small images of all kinds written to and '
        'read from image files; texts passed to the writers')
ASSUMPTIONS = ['texts do not contain the control characters that structure the file (line ends, zero bytes, the star of ASCII '
               '.sdf, the quote of .fits) and do not begin or end with blanks, which are padding',
               'dates are written in the way the instruments write them']
TASK_LIMIT = 300

SHAPE = (2, 3)
ACCENTS = 'µüßéÄ°²'
WIDE = '日本語€Ωμ'
WORDS = ['END', 'None', 'nan', '0', '-1', '1e5', '2020-01-02', '05/03/2024', 'GwyContainer', 'GWYP', '/0/data', 'DIGITAL SURF',
         'DSCOMPRESSED', 'SCRATCH', 'csm', 'a=b', 'x = 1 / 2', 'HEIGHTS', 'Directory', 'RAW_DATA', 'Date', 'BAD', 'NAN', 'SIMPLE',
         'topography', '%s %d', '{0}', '\\n', '#', ';', '<b>', '&amp;', ']]>', 'Wavelength', '"', "it's"]


class Field:
    """A text field. make(bytes) gives the file, key the name under which it is reported (None: not reported)."""

    def __init__(self, suffix, name, key, limit, make, forbidden='', wide=True, latin=True, empty=True, where='metadata',
                 codec=None):
        self.suffix, self.name, self.key, self.limit, self.make, self.forbidden = suffix, name, key, limit, make, forbidden
        self.wide, self.latin, self.empty, self.where, self.codec = wide, latin, empty, where, codec


def fixed(sample, at, size, pad=b'\0'):
    return lambda raw: sample.blob[:at] + raw.ljust(size, pad) + sample.blob[at + size:]


def opd_blob(blocks):
    head = b'\x01\x00' + struct.pack('<16shlH', b'Directory', 1, 24 * (len(blocks) + 1), 0)
    for name, kind, content in blocks:
        head += struct.pack('<16shlH', name, kind, len(content), 0)
    return head + b''.join(b for _, _, b in blocks)


def opd_blocks(blob):
    n = struct.unpack('<16shlH', blob[2:26])[2] // 24 - 1
    at, out = 26 + 24 * n, []
    for i in range(n):
        name, kind, size, _ = struct.unpack('<16shlH', blob[26 + 24 * i:50 + 24 * i])
        out.append((name.rstrip(b'\0'), kind, blob[at:at + size]))
        at += size
    return out


def opd_text(name, position):
    blocks = [b for b in opd_blocks(formats.opd(SHAPE, 1).blob) if b[0] != name]

    def make(raw):
        return opd_blob(blocks[:position] + [(name, 5, raw + b'\0')] + blocks[position:])
    return make


def fits_cards(*cards):
    """A file with additional cards in the primary header."""
    s = formats.fits(SHAPE, 1)
    at = s.blob.index(b'END' + b' ' * 77)
    text = b''.join(c.ljust(80) for c in cards)
    assert all(len(c) <= 80 for c in cards)
    head = s.blob[:at] + text + b'END'.ljust(80)
    return head.ljust(-(-len(head) // 2880) * 2880) + s.blob[2880:]


def gwy_fields():
    """The parts of a channel file whose strings can be replaced, everything else is as in the encoder."""
    base = formats.gwy(SHAPE, 1, layers=True)

    def rebuild(old, kind):
        # the sizes of the enclosing containers depend on the length of the string
        def make(raw):
            data = base.blob
            i = data.index(old)
            new = data[:i] + kind(raw) + data[i + len(old):]
            delta = len(new) - len(data)
            out = bytearray(new)
            struct.pack_into('<I', out, 17, struct.unpack('<I', out[17:21])[0] + delta)
            if b'/0/meta\0' in data and data.index(b'/0/meta\0') < i < data.index(b'/30/data'):
                at = out.index(b'/0/meta\0oGwyContainer\0') + len(b'/0/meta\0oGwyContainer\0')
                struct.pack_into('<I', out, at, struct.unpack('<I', out[at:at + 4])[0] + delta)
            return bytes(out)
        return make
    assert base.blob[4:17] == b'GwyContainer\0'
    yield Field('.gwy', 'meta value', 'Who', 40, rebuild(b'Who\0sme\0', lambda r: b'Who\0s' + r + b'\0'))
    yield Field('.gwy', 'file name', None, 40, rebuild(b'filename\0sx.gwy\0', lambda r: b'filename\0s' + r + b'\0'))
    yield Field('.gwy', 'image title', None, 40, rebuild(b'title\0sPhoto\0', lambda r: b'title\0s' + r + b'\0'), where='image')
    yield Field('.gwy', 'meta name', None, 40, rebuild(b'Who\0sme\0', lambda r: r + b'\0sme\0'), where='name', empty=False)


def sdf_ascii(name=None, trailer=False):
    s = formats.sdf(SHAPE, 1, binary=False)

    def make(raw):
        if trailer:
            return s.blob.replace(b'<Operator> me </Operator>', b'<Operator> ' + raw + b' </Operator>')
        return s.blob.replace(b'ManufacID   = maker', b'ManufacID   = ' + raw)
    return make


def sur_text(at, size, blank=b' '):
    return fixed(formats.sur(SHAPE, 1), at, size, blank)


def sur_comment(private=False):
    def make(raw):
        return formats.sur(SHAPE, 1, comment=b'' if private else raw, private=raw if private else b'').blob
    return make


def os3d_ident(raw):
    s = formats.os3d(SHAPE, 1, ident='')
    return s.blob[:18] + struct.pack('<i', len(raw)) + raw + s.blob[22:]


def plux_item(name, bare=False):
    import zipfile
    s = formats.plux(SHAPE)
    with zipfile.ZipFile(io.BytesIO(s.blob)) as z:
        members = [(n, z.read(n)) for n in z.namelist()]

    def make(raw):
        new = b'<NAME>' + name + b'</NAME><VALUE>' + xml.sax.saxutils.escape(raw.decode()).encode() + b'</VALUE>'
        old = b'<NAME>Device</NAME><VALUE>S neox</VALUE>'
        return archive([(n, c.replace(old, new)) for n, c in members])
    return make


def x3p_item(tag, path):
    import hashlib
    import zipfile
    s = formats.x3p(SHAPE, missing=1)
    with zipfile.ZipFile(io.BytesIO(s.blob)) as z:
        members = [(n, z.read(n)) for n in z.namelist()]
    main = dict(members)['main.xml']

    def make(raw):
        text = xml.sax.saxutils.escape(raw.decode()).encode()
        item = b''.join(b'<' + p + b'>' for p in path) + text + b''.join(b'</' + p + b'>' for p in reversed(path))
        changed = main.replace(b'</Record2>', item + b'</Record2>')
        md5 = hashlib.md5(changed).hexdigest().encode() + b' *main.xml\n'
        return archive([(n, {'main.xml': changed, 'md5checksum.hex': md5}.get(n, c)) for n, c in members])
    return make


def vk_string(which, suffix='.vk4'):
    s = formats.vk(SHAPE)
    at = struct.unpack('<I', s.blob[12 + 64:12 + 68])[0]

    def make(raw):
        strings = [b'T\0', b'L\0']
        strings[which] = raw
        blob = s.blob[:at] + b''.join(struct.pack('<I', len(x) // 2) + x for x in strings)
        if suffix != '.vk4':
            blob = archive([('Vk4File', blob)], prefix=b'VK6_' + bytes(20))
        return blob
    return make


def sflz_name(raw):
    s = formats.sflz(SHAPE, layers=True)
    i = s.blob.index(b'RGB')
    return s.blob[:i - 2] + struct.pack('<H', len(raw)) + raw + s.blob[i + 3:]


def al3d_tag(name):
    s = formats.al3d(SHAPE, 1, extra=1)
    at = next(17 + 52 * i for i in range(20) if s.blob[17 + 52 * i:].split(b'\0')[0] not in (
        b'Version', b'TagCount', b'Cols', b'Rows', b'PixelSizeXMeter', b'PixelSizeYMeter', b'DepthImageOffset',
        b'InvalidPixelValue'))
    return fixed(s, at, 20) if name else fixed(s, at + 20, 30)


def fields():
    d = formats.dat(SHAPE, 1, buckets=1)
    for name, at, size in [('swinfo_date', 12, 30), ('comment', 80, 82), ('obj_name', 246, 12), ('part_name', 258, 40),
                           ('part_ser_num', 320, 40)]:
        yield Field('.dat', name, name, size, fixed(d, at, size))
    yield Field('.al3d', 'tag value', None, 30, al3d_tag(False))
    yield Field('.al3d', 'tag name', None, 20, al3d_tag(True))
    for name in (b'OBJECT', b'OBSERVER', b'A-B_1'):
        yield Field('.fits', f'card {name}', name.decode(), 60,
                    lambda raw, name=name: fits_cards(name.ljust(8) + b"= '" + raw + b"'"), "'", False, False)
        yield Field('.fits', f'card {name} with comment', name.decode(), 40,
                    lambda raw, name=name: fits_cards(name.ljust(8) + b"= '" + raw.ljust(8) + b"' / a comment"), "'", False, False)
    yield Field('.fits', 'card comment', None, 40, lambda raw: fits_cards(b'FOO     =                    7 / ' + raw), '', False,
                False)
    for name in (b'COMMENT', b'HISTORY', b'       '):
        yield Field('.fits', f'card {name}', None, 60, lambda raw, name=name: fits_cards(name.ljust(8) + raw), '', False, False)
    yield Field('.fits', 'long name', 'Long Name', 40, lambda raw: fits_cards(b"HIERARCH Long Name = '" + raw + b"'"), "'", False,
                False)
    yield from gwy_fields()
    for name, position in [(b'Title', 0), (b'Note', 3), (b'SampleID', 20)]:
        yield Field('.opd', f'block {name}', name.decode(), 50, opd_text(name, position))
    yield Field('.os3d', 'identification', 'chArrayIdentification', 60, os3d_ident)
    yield Field('.plu', 'comment', None, 256, fixed(formats.plu(SHAPE, 1), 132, 256))
    for name in (b'Device', b'Objective', b'Technique', b'Measurement Type', b'Algorithm', b'Comment'):
        yield Field('.plux', f'item {name}', name.decode().lower(), 40, plux_item(name), latin=False)
    yield Field('.plux', 'other item', None, 40, plux_item(b'Anything'), latin=False)
    yield Field('.sdf', 'binary manufacturer', 'ManufacID', 10, fixed(formats.sdf(SHAPE, 1), 8, 10, b' '))
    yield Field('.sdf', 'ascii manufacturer', 'ManufacID', 10, sdf_ascii(), '*', False, False)
    yield Field('.sdf', 'ascii trailer', 'Operator', 40, sdf_ascii(trailer=True), '*<>', False, False)
    for name, at, size in [('name_object', 20, 30), ('name_operator', 50, 30), ('name_x', 132, 16), ('name_y', 148, 16),
                           ('name_z', 164, 16), ('client_zone', 338, 128), ('name_t', 486, 13), ('unit_step_t', 499, 13)]:
        for blank in (b' ', b'\0'):
            yield Field('.sur', f'{name} padded {blank}', name, size, sur_text(at, size, blank))
    yield Field('.sur', 'comment', None, 600, sur_comment())
    yield Field('.sur', 'private zone', None, 600, sur_comment(True))
    yield Field('.sflz', 'image name', None, 80, sflz_name, where='image', latin=False, empty=False)
    yield Field('.tmd', 'comment', None, 21, fixed(formats.tmd(SHAPE, 1), 32, 21, b' '))
    for suffix in ('.vk4', '.vk6'):
        for i, key in enumerate(('title', 'lens_name')):
            yield Field(suffix, key, key, 60, vk_string(i, suffix), codec='utf-16-le')
    for path in [(b'Creator',), (b'Instrument', b'Serial'), (b'Comment',), (b'ProbingSystem', b'Identification')]:
        yield Field('.x3p', f'{path}', b''.join(path).decode(), 60, x3p_item(b'', path), latin=False)
    yield Field('.zmg', 'comment', None, 300, lambda raw: formats.zmg(SHAPE, comment=raw).blob)


def sample(suffix, name):
    """The heights and steps the file with any text must have."""
    f = formats
    return {'.dat': lambda: f.dat(SHAPE, 1, buckets=1), '.al3d': lambda: f.al3d(SHAPE, 1, extra=1), '.fits': lambda: f.fits(SHAPE, 1),
            '.gwy': lambda: f.gwy(SHAPE, 1), '.opd': lambda: f.opd(SHAPE, 1), '.os3d': lambda: f.os3d(SHAPE, 1),
            '.plu': lambda: f.plu(SHAPE, 1), '.plux': lambda: f.plux(SHAPE),
            '.sdf': lambda: f.sdf(SHAPE, 1, binary='ascii' not in name), '.sur': lambda: f.sur(SHAPE, 1),
            '.sflz': lambda: f.sflz(SHAPE), '.tmd': lambda: f.tmd(SHAPE, 1), '.vk4': lambda: f.vk(SHAPE),
            '.vk6': lambda: f.vk(SHAPE), '.x3p': lambda: f.x3p(SHAPE, missing=1), '.zmg': lambda: f.zmg(SHAPE)}[suffix]()


def texts(tier):
    """(text, codecs)"""
    base = 'Ab1-cD2_eF3.gH4+'
    for n in range(0, 601) if tier == 'thorough' else [*range(0, 90), 127, 128, 255, 256, 257, 300, 599, 600]:
        yield (base * 40)[:n]
    for c in map(chr, range(33, 127)):
        yield from (c, f'{c}ab', f'a{c}b', f'ab{c}', f'a {c} b', c * 3)
    yield from ('a b', 'a  b', 'a' + ' ' * 5 + 'b')
    for c in ACCENTS + WIDE:
        yield from (c, f'{c}b', f'a{c}b', f'a{c}')
    yield from WORDS
    yield from (ACCENTS, WIDE, 'Höhe über Grund in µm', '表面の高さ')


PARTS = 3


def tasks(tier):
    names = [(f.suffix, f.name) for f in fields()]
    out = [(f'text {s} {n} {part}', ('text', i, part, tier)) for i, (s, n) in enumerate(names) for part in range(
        1 if tier == 'quick' else PARTS)]
    out += [(f'dates {name} {part}', ('dates', name, part, tier)) for name in DATES for part in range(2)]
    out += [('numbers', ('numbers', tier)), ('images', ('images', tier)), ('layers', ('layers', tier)),
            ('writers', ('writers', tier))]
    return out


def run(rec, name, args):
    warnings.simplefilter('ignore')
    globals()['task_' + args[0]](rec, *args[1:])


def load(blob, suffix, encoding='auto', layers=False):
    from surfalize import Surface
    return Surface.load(io.BytesIO(blob), format=suffix, encoding=encoding, read_image_layers=layers)


def heights_ok(rec, key, case, t, s):
    a = np.asarray(t.data, dtype=float)
    return rec.check(a.shape == s.z.shape and np.allclose(a, s.z, rtol=1e-6, atol=1e-9, equal_nan=True) and
                     np.isclose(t.step_x, s.step_x, rtol=1e-6) and np.isclose(t.step_y, s.step_y, rtol=1e-6),
                     key, f'the heights or steps differ from those of the file: {a.tolist()} {t.step_x} {t.step_y}', case)


def task_text(rec, index, part, tier):
    field = list(fields())[index]
    s = sample(field.suffix, field.name)
    key = f'{field.suffix} {field.name}'
    seen = set()
    for i, text in enumerate(texts(tier)):
        if tier == 'thorough' and i % PARTS != part:
            continue
        if text in seen or any(c in text for c in field.forbidden) or (not text and not field.empty):
            continue
        seen.add(text)
        codecs = [field.codec] if field.codec else [c for c, ok in (('ascii', True), ('utf-8', field.wide), ('latin-1', field.latin))
                                                   if ok]
        done = set()
        for codec in codecs:
            try:
                raw = text.encode(codec)
            except UnicodeEncodeError:
                continue
            if raw in done or len(raw) > field.limit:
                continue
            done.add(raw)
            encodings = {'ascii': ['auto', 'utf-8', 'latin-1', 'ascii'], 'utf-8': ['auto', 'utf-8'],
                         'latin-1': ['auto', 'latin-1'], 'utf-16-le': ['auto', 'utf-8']}[codec]
            blob = field.make(raw)
            for encoding in encodings:
                if field.suffix == '.sur' and encoding in ('utf-8', 'ascii'):
                    # the unit of this file is in Latin-1
                    continue
                if encoding == 'ascii' and field.suffix in ('.gwy', '.sflz'):
                    continue
                for layers in (False, True):
                    case = f'{key}: {text[:80]!r} ({len(raw)} bytes) in {codec}, encoding {encoding}, layers {layers}'
                    rec.execution(case)
                    rec.step()
                    try:
                        t = load(blob, field.suffix, encoding, layers)
                    except Exception as e:
                        rec.outcome(field.suffix, field.name, type(e).__name__)
                        rec.fail(f'{key}: rejected', f'the file can not be read because of a text: {type(e).__name__}: {e}', case)
                        continue
                    rec.outcome(field.suffix, field.name, 'read')
                    heights_ok(rec, f'{key}: heights', case, t, s)
                    if layers:
                        names = t.get_image_layer_names()
                        expected = dict(s.layers or {})
                        if field.where == 'image':
                            old = 'Photo' if field.suffix == '.gwy' else 'RGB'
                            expected = {text if k == old else k: v for k, v in expected.items()}
                        rec.check(sorted(names) == sorted(expected), f'{key}: image names',
                                  f'images {names}, recorded {list(expected)}', case)
                        rec.check(all(np.array_equal(np.asarray(t.image_layers[k].data), v) for k, v in expected.items()
                                      if k in t.image_layers), f'{key}: images', 'an image differs', case)
                    if encoding != 'auto' and (field.suffix in formats.RECOGNISABLE or field.suffix == '.plu'):
                        # the same without stating the format
                        u = attempt(load, blob, None, encoding, layers)
                        rec.step()
                        rec.check(not isinstance(u, Err) and repr(u.metadata) == repr(t.metadata) and same(
                            np.asarray(u.data), np.asarray(t.data)), f'{key}: format not stated',
                            lambda: f'without a stated format {u.metadata if not isinstance(u, Err) else u!r}, with '
                                    f'{t.metadata}', case)
                    if field.where == 'name':
                        rec.check(t.metadata.get(text) == 'me', f'{key}: metadata', f'{t.metadata}, recorded {text!r}: me', case)
                    if field.key is not None:
                        got = t.metadata.get(field.key, '' if not text else None)
                        rec.check(got == text or got == number(text) and field.suffix == '.fits', f'{key}: metadata',
                                  f'{field.key} is {got!r}, recorded {text!r}', case)
            rec.state(key, raw)


def number(text):
    # a quoted string of digits may be reported as a number
    for kind in (int, float):
        try:
            return kind(text)
        except ValueError:
            pass
    return None


# -- dates -------------------------------------------------------------------------------------------------------------

def vk_date(t):
    s = formats.vk(SHAPE)
    at = struct.unpack('<I', s.blob[12:16])[0]
    return s.blob[:at + 4] + struct.pack('<6I', t.year, t.month, t.day, t.hour, t.minute, t.second) + s.blob[at + 28:]


def sdf_date(t):
    s = formats.sdf(SHAPE, 1, binary=False)
    return s.blob.replace(b'020120200304', t.strftime('%d%m%Y%H%M').encode())


def plux_date(t):
    import zipfile
    s = formats.plux(SHAPE)
    with zipfile.ZipFile(io.BytesIO(s.blob)) as z:
        members = [(n, z.read(n)) for n in z.namelist()]
    return archive([(n, c.replace(b'2020-01-02 03:04:05', str(t).encode())) for n, c in members])


def opd_date(t):
    blocks = [(n, k, {b'Date': t.strftime('%m/%d/%Y').encode() + b'\0', b'Time': t.strftime('%H:%M:%S').encode() + b'\0'}.get(n, c))
              for n, k, c in opd_blocks(formats.opd(SHAPE).blob)]
    return opd_blob(blocks)


def x3p_date(t):
    import hashlib
    import zipfile
    s = formats.x3p(SHAPE)
    with zipfile.ZipFile(io.BytesIO(s.blob)) as z:
        members = [(n, z.read(n)) for n in z.namelist()]
    main = dict(members)['main.xml'].replace(b'2020-01-02T03:04:05', t.isoformat().encode()).replace(
        b'<Instrument>', b'<CalibrationDate>' + t.isoformat().encode() + b'</CalibrationDate><Instrument>')
    md5 = hashlib.md5(main).hexdigest().encode() + b' *main.xml\n'
    return archive([(n, {'main.xml': main, 'md5checksum.hex': md5}.get(n, c)) for n, c in members])


DAYS = 'Mon Tue Wed Thu Fri Sat Sun'.split()
MONTHS = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
#: name: (suffix, keys, make, resolution)
DATES = {
    'vk4': ('.vk4', ('timestamp',), vk_date, 'second'),
    'sdf': ('.sdf', ('CreateDate', 'ModDate'), sdf_date, 'minute'),
    'plu': ('.plu', ('timestamp',), lambda t: fixed(formats.plu(SHAPE), 0, 128)(
        f'{DAYS[t.weekday()]} {MONTHS[t.month - 1]} {t.day:2d} {t:%H:%M:%S} {t.year}'.encode()), 'second'),
    'plux': ('.plux', ('timestamp',), plux_date, 'second'),
    'os3d': ('.os3d', ('timestamp',), lambda t: formats.os3d(SHAPE, date=str(t), layers=False).blob, 'second'),
    'opd': ('.opd', ('timestamp',), opd_date, 'second'),
    'nms': ('.nms', ('date',), lambda t: fixed(formats.nms(SHAPE), 1076, 16)(t.strftime('%Y-%m-%d %H:%M').encode()), 'minute'),
    'x3p': ('.x3p', ('Date', 'CalibrationDate'), x3p_date, 'second'),
}


def task_dates(rec, name, part, tier):
    suffix, keys, make, resolution = DATES[name]
    day = datetime.datetime(1999, 12, 28)
    moments = [day + datetime.timedelta(days=i, seconds=7919 * i % 86400) for i in range(0, 366 * 30 if tier == 'thorough' else
                                                                                          1500)]
    day = datetime.datetime(2024, 2, 29)
    moments += [day + datetime.timedelta(minutes=i, seconds=i % 60) for i in range(1440)]
    moments += [datetime.datetime(y, m, d, h, 59, 59) for y in (1990, 2000, 2031) for m in range(1, 13) for d in (1, 28)
                for h in (0, 12, 23)]
    for t in moments[part::2]:
        case = f'{name}: {t}'
        rec.execution(case)
        rec.step()
        rec.state(case)
        want = t.replace(second=0) if resolution == 'minute' else t
        with rec.guard(f'{name} date rejected', case):
            got = load(make(t), suffix).metadata
            rec.outcome(name, str(got.get(keys[0]))[:7])
            for key in keys:
                rec.check(got.get(key) == want, f'{name} date {key}', f'{key} is {got.get(key)!r}, recorded {want}', case)


def task_numbers(rec, tier):
    """Numbers in the headers."""
    cases = []
    base = opd_blocks(formats.opd(SHAPE).blob)
    for kind, fmt, values in [(6, '<h', (0, 1, -1, 255, 256, 32767, -32768)), (7, '<f', (0.0, 1.5, -2.25, 1e30)),
                              (8, '<d', (0.0, 0.1, -1e-300, 1e300)), (12, '<i', (0, -1, 65536, 2 ** 31 - 1, -2 ** 31))]:
        for v in values:
            cases.append(('.opd', 'Value', v, opd_blob(base + [(b'Value', kind, struct.pack(fmt, v))]), f'kind {kind}'))
    for text, v in [(b'0', 0), (b'-12', -12), (b'1.5', 1.5), (b'1E-3', 1e-3), (b'-2.5e10', -2.5e10), (b'0.0001', 0.0001)]:
        for card in (b'FOO     = ' + text.rjust(20), b'FOO     = ' + text, b'FOO     = ' + text.rjust(20) + b' / a comment',
                     b'FOO     = ' + text.rjust(20) + b" / it's = a / comment", b'HIERARCH FOO = ' + text):
            cases.append(('.fits', 'FOO', v, fits_cards(card), card))
    s = formats.sur(SHAPE)
    for key, at, fmt, values in [('p_size', 80, '<h', (0, 9)), ('acquisition_type', 82, '<h', range(11)), ('range_type', 84, '<h', (0, 1)),
                                 ('absolute_z_axis', 88, '<h', (0, 1)), ('replica', 288, '<h', (0, 1)),
                                 ('inverted', 290, '<h', (0, 1)), ('leveled', 292, '<h', (0, 1)), ('seconds', 306, '<h', range(60)),
                                 ('minutes', 308, '<h', range(60)), ('hours', 310, '<h', range(24)), ('day', 312, '<h', range(32)),
                                 ('month', 314, '<h', range(13)), ('year', 316, '<h', range(1980, 2101)),
                                 ('week_day', 318, '<h', range(7)), ('measurement_duration', 320, '<f', (0.0, 2.5, 1e6))]:
        for v in values:
            b = bytearray(s.blob)
            struct.pack_into(fmt, b, at, v)
            cases.append(('.sur', key, v, bytes(b), ''))
    s = formats.dat(SHAPE)
    for key, at, fmt, values in [('time_stamp', 76, '>i', (0, 1577934245, -1)), ('source', 162, '>h', (0, 5)),
                                 ('num_aperture', 172, '>f', (0.5, 0.25)), ('magnification', 180, '>f', (1.0, 50.0)),
                                 ('intens_avg_cnt', 190, '>h', (0, 300)), ('sys_serial', 242, '>h', (0, 1234))]:
        for v in values:
            b = bytearray(s.blob)
            struct.pack_into(fmt, b, at, v)
            cases.append(('.dat', key, v, bytes(b), ''))
    for zoom, lens in itertools.product((0, 10, 15, 80), (25, 100, 500, 1500)):
        s = formats.vk(SHAPE)
        b = bytearray(s.blob)
        at = struct.unpack('<I', s.blob[12:16])[0]
        struct.pack_into('<I', b, at + 72, zoom)
        struct.pack_into('<I', b, at + 96, lens)
        cases.append(('.vk4', 'optical_zoom', zoom / 10, bytes(b), f'{zoom} {lens}'))
        cases.append(('.vk4', 'objective_magnification', lens / 10, bytes(b), f'{zoom} {lens}'))
    for suffix, key, value, blob, what in cases:
        case = f'{suffix} {key} = {value} {what}'
        rec.execution(case)
        rec.step()
        rec.state(case)
        with rec.guard(f'{suffix} {key} number rejected', case):
            t = load(blob, suffix)
            got = t.metadata.get(key)
            rec.outcome(suffix, key, got)
            rec.check(got is not None and np.isclose(float(got), value, rtol=1e-6), f'{suffix} {key} number',
                      f'{key} is {got!r}, recorded {value}', case)


# -- images ------------------------------------------------------------------------------------------------------------

def stored(rec, key, case, img, a, scratch, exts):
    import PIL.Image
    for ext in exts:
        for kind in (str, pathlib.Path):
            path = kind(scratch / f'x{ext}')
            with rec.guard(f'{key} rejected', f'{case} {ext}'):
                img.save(path)
                with PIL.Image.open(path) as f:
                    b = np.array(f)
                rec.check(a.shape == b.shape and np.array_equal(a, b), key, f'the image in the file differs: {b.tolist()}, '
                          f'{a.tolist()}', f'{case} {ext}')
            rec.step()
    with rec.guard(f'{key} rejected', case):
        b = np.array(img.show())
        rec.check(a.shape == b.shape and np.array_equal(a, b), f'{key} shown', f'the shown image differs: {b.tolist()}', case)
    rec.execution(case)


def task_images(rec, tier):
    """Images of all kinds written to files."""
    from surfalize.image import Image
    scratch = pathlib.Path(tempfile.mkdtemp(prefix='c31-', dir=os.environ.get('VERIF_SCRATCH')))
    top = 5 if tier == 'quick' else 9
    try:
        for ny, nx in itertools.product(range(1, top), repeat=2):
            for dtype, channels in [('u1', 0), ('u1', 3), ('u1', 4), ('<u2', 0), ('>u2', 0)]:
                exts = ('.png', '.tiff') if channels == 4 or dtype != 'u1' else ('.png', '.tiff', '.bmp')
                full = formats.image((ny, nx), channels or 1, seed=ny, top=255 if dtype == 'u1' else 65535, dtype=dtype)
                a = full if channels else full.reshape(ny, nx)
                for layout in ('C', 'F', 'view'):
                    b = {'C': a, 'F': np.asfortranarray(a), 'view': np.repeat(a, 2, axis=1)[:, ::2]}[layout]
                    case = f'{ny}x{nx} {dtype} channels {channels} layout {layout}'
                    img = Image(b)
                    before = b.tobytes()
                    stored(rec, f'image {dtype} {channels}', case, img, a, scratch, exts)
                    rec.check(b.tobytes() == before, 'image changed', 'saving changes the image', case)
                    rec.check(str(nx) in repr(img) and str(ny) in repr(img) and ('RGB' in repr(img)) == bool(channels) and
                              f'{8 * a.dtype.itemsize}' in repr(img), 'image text', repr(img), case)
                    rec.state(case)
        for bits in itertools.product((0, 1), repeat=6):
            # two points with three channels
            a = (np.array(bits) * 255).astype('u1').reshape(1, 2, 3)
            gray = all(a[0, i, 0] == a[0, i, c] for i in range(2) for c in range(3))
            rec.check(bool(Image.is_grayscale(a)) == gray, 'grayscale', f'{a.tolist()}: is_grayscale is not {gray}', str(bits))
            rec.execution(str(bits))
            stored(rec, 'image of few values', f'colour {bits}', Image(a), a, scratch, ('.png', '.bmp', '.tiff'))
            for ny, nx in ((1, 6), (2, 3), (6, 1)):
                a = (np.array(bits) * 255).astype('u1').reshape(ny, nx)
                stored(rec, 'image of few values', f'gray {bits} {ny}x{nx}', Image(a), a, scratch, ('.png', '.bmp', '.tiff'))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def task_layers(rec, tier):
    """The images of all formats can be stored in image files."""
    scratch = pathlib.Path(tempfile.mkdtemp(prefix='c31-', dir=os.environ.get('VERIF_SCRATCH')))
    shapes = [(2, 3), (4, 4), (3, 7)] if tier == 'quick' else [(a, b) for a in range(2, 6) for b in range(2, 6)]
    try:
        for shape in shapes:
            f = formats
            samples = [f.dat(shape, buckets=1, ac=shape), f.dat(shape, buckets=2), f.fits(shape), f.nms((4, 4), layers=True), f.opd(shape),
                       f.os3d(shape), f.plu(shape), f.plu(shape, layers='gray'), f.plux(shape), f.plux(shape, layers='gray'),
                       f.sflz(shape), f.vk(shape), f.vk(shape, light_bits=16), f.sur(shape, layers='rgb'),
                       f.sur(shape, layers='gray'), f.sur(shape, bits=16, layers='rgb'), f.sur(shape, compressed=1, layers='rgb')]
            samples += [g(shape, layers=kind) for g in (f.plu, f.plux, f.sur) for kind in f.CHANNELS]
            for s in samples:
                t = load(s.blob, s.suffix, layers=True)
                rec.check(sorted(t.get_image_layer_names()) == sorted(s.layers), f'{s.suffix} layers',
                          f'{t.get_image_layer_names()}', s.label)
                for name, a in s.layers.items():
                    case = f'{s.suffix} {s.label}: layer {name}'
                    if name not in t.image_layers:
                        rec.fail(f'{s.suffix} layers', f'no layer {name}', case)
                        continue
                    stored(rec, f'{s.suffix} layer', case, t.image_layers[name], a, scratch, ('.png', '.tiff'))
                    rec.state(case)
                    rec.outcome(s.suffix, name, a.shape)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def task_writers(rec, tier):
    """Texts and dates passed to the writers."""
    from surfalize import Surface
    z = np.array([[0.5, -1.25, 2.0], [3.0, 0.0, -0.75]])
    for text in texts(tier):
        for suffix, limit, kwargs in [('.tmd', 21, {}), ('.sur', 600, {}), ('.sur', 600, {'compressed': True})]:
            if '\n' in text:
                continue
            case = f'{suffix} {kwargs} comment {text!r}'
            out = io.BytesIO()
            rec.execution(case)
            rec.step()
            try:
                Surface(z, 0.5, 0.75).save(out, format=suffix, comment=text, **kwargs)
            except ValueError as e:
                rec.check(len(text.encode('utf-8')) > limit and suffix == '.tmd', f'{suffix} comment', f'{type(e).__name__}: {e}',
                          case)
                continue
            except Exception as e:
                rec.fail(f'{suffix} comment', f'{type(e).__name__}: {e}', case)
                continue
            rec.check(text.encode('utf-8') in out.getvalue(), f'{suffix} comment recorded', 'the file does not contain the comment', case)
            with rec.guard(f'{suffix} comment read', case):
                t = load(out.getvalue(), suffix)
                rec.check(t.data.shape == z.shape and np.allclose(t.data, z, atol=1e-6) and np.isclose(t.step_x, 0.5), f'{suffix} comment heights',
                          f'the heights differ: {t.data.tolist()}', case)
                if suffix == '.tmd':
                    got = t.metadata.get('comment', '').rstrip('\r\n\0 ')
                    rec.check(got == text, '.tmd comment text', f'{got!r}, written {text!r}', case)
            rec.state(case)
    # the date of the measurement is kept by the format that has a field for it
    for name, (suffix, keys, make, resolution) in DATES.items():
        if 'timestamp' not in keys:
            continue
        for i in range(0, 1500, 7 if tier == 'quick' else 1):
            moment = datetime.datetime(2003, 11, 28, 0, 0, 5) + datetime.timedelta(days=i, minutes=37 * i % 1440)
            for binary in (True, False):
                case = f'{name} {moment} saved as .sdf binary={binary}'
                rec.execution(case)
                rec.step(2)
                with rec.guard('timestamp', case):
                    t = load(make(moment), suffix)
                    out = io.BytesIO()
                    t.save(out, format='.sdf', binary=binary)
                    got = load(out.getvalue(), '.sdf').metadata['CreateDate']
                    want = moment.replace(second=0)
                    rec.check(got == (moment.strftime('%d%m%Y%H%M') if binary else want), 'timestamp',
                              f'CreateDate is {got!r}, measured at {moment}', case)
                rec.state(case)
