"""Independent encoders of the file formats that the library reads.

Every generator yields Sample objects: the bytes of a file and what they mean (heights in micrometres, step sizes in
micrometres, image layers). They are written with struct.pack at explicit offsets, not with the layouts of the library.
"""
import hashlib
import io
import itertools
import lzma
import struct
import zipfile
import zlib
from dataclasses import dataclass, field

import numpy as np

from mc.util import lcg

SUFFIXES = ('.al3d', '.dat', '.fits', '.gwy', '.nms', '.opd', '.os3d', '.plu', '.plux', '.sdf', '.sflz', '.sur', '.tmd',
            '.vk4', '.vk6', '.vk7', '.x3p', '.xyz', '.zmg')
#: formats whose content can be recognised by its first bytes
RECOGNISABLE = ('.al3d', '.dat', '.fits', '.gwy', '.opd', '.os3d', '.sdf', '.sflz', '.sur', '.tmd', '.vk4', '.vk6',
                '.vk7', '.x3p', '.zmg')
WRITABLE = ('.al3d', '.sdf', '.sflz', '.sur', '.tmd')


@dataclass
class Sample:
    suffix: str
    label: str
    blob: bytes
    z: np.ndarray
    step_x: float
    step_y: float
    layers: dict = field(default_factory=dict)
    offset_free: bool = False   # the heights are defined up to a constant only
    text: bool = False
    zipped: bool = False


def integers(shape, low, high, seed=1):
    """Integers in [low, high] that contain both limits (if there are at least two points)."""
    n = int(np.prod(shape))
    v = np.floor(lcg(seed + 17 * n, n) * (high - low + 1)).astype(np.int64) + low
    if n > 1:
        v[n // 3] = low
        v[(2 * n) // 3 if (2 * n) // 3 != n // 3 else n - 1] = high
    return v.reshape(shape)


def holes(shape, count):
    m = np.zeros(int(np.prod(shape)), bool)
    if count and m.size > 2:
        m[0] = True
        if count > 1:
            m[m.size // 2] = m[m.size - 1] = True
    return m.reshape(shape)


def image(shape, channels=0, seed=5, top=255, dtype='uint8'):
    full = tuple(shape) + ((channels,) if channels else ())
    return integers(full, 0, top, seed).astype(dtype)


def put(buffer, offset, fmt, *values):
    struct.pack_into(fmt, buffer, offset, *values)


def archive(entries, prefix=b'', compression=zipfile.ZIP_DEFLATED):
    out = io.BytesIO()
    with zipfile.ZipFile(out, 'w', compression) as f:
        for name, content in entries:
            info = zipfile.ZipInfo(name, date_time=(2020, 1, 2, 3, 4, 6))
            info.compress_type = compression
            f.writestr(info, content)
    return prefix + out.getvalue()


# -- Alicona -----------------------------------------------------------------------------------------------------------

def al3d(shape, missing=0, invalid='nan', steps=(0.5, 0.75), unit=1e-6, extra=0, gap=0):
    ny, nx = shape
    z = (integers(shape, -30000, 30000) * (unit / 1000)).astype('<f4')
    m = holes(shape, missing)
    z[m] = np.float32(float(invalid))
    tags = [('Cols', nx), ('Rows', ny), ('PixelSizeXMeter', steps[0] * 1e-6), ('PixelSizeYMeter', steps[1] * 1e-6),
            ('InvalidPixelValue', invalid), ('IconOffset', 0), ('NumberOfPlanes', 0), ('TextureImageOffset', 0)]
    tags += [(f'Comment{i}', 'some text') for i in range(extra)]
    head = b'AliconaImaging\x00\r\n'
    offset = len(head) + 52 * (3 + len(tags)) + 2 + gap
    tags.insert(3, ('DepthImageOffset', offset))
    for k, v in [('Version', 1), ('TagCount', len(tags))] + tags:
        head += struct.pack('20s30s2s', k.encode(), str(v).encode(), b'\r\n')
    head += b'\0' * (offset - len(head) - 2) + b'\r\n'
    expected = z.astype(float) * 1e6
    expected[m] = np.nan
    return Sample('.al3d', f'{shape} missing {missing} invalid {invalid} unit {unit} extra {extra} gap {gap}',
                  head + z.tobytes(), expected, *steps)


# -- MetroPro ----------------------------------------------------------------------------------------------------------

def dat(shape, missing=0, fmt=1, res=1, buckets=0, ac=(3, 4), scale=0.5, wavelength=6.328e-7, obliquity=1.0,
        lateral=2e-6):
    ny, nx = shape
    head = bytearray({1: 834, 2: 834, 3: 4096}[fmt])
    head[0:4] = b'\x88\x1b\x03' + bytes([0x6e + fmt])
    put(head, 4, '>HI', fmt, len(head))
    ah, aw = ac if buckets else (0, 0)
    put(head, 48, '>hhHHHhI', 0, 0, aw, ah, buckets, 4095, aw * ah * buckets * 2)
    put(head, 64, '>hhHHI', 0, 0, nx, ny, nx * ny * 4)
    put(head, 164, '>ffffff', scale, wavelength, 0.5, obliquity, 1.0, lateral)
    put(head, 218, '>h', res)
    phase = integers(shape, -50000, 60000)
    m = holes(shape, missing)
    factor = float(np.float32(scale)) * float(np.float32(wavelength)) * float(np.float32(obliquity))
    z = phase * factor / {1: 4096, 2: 32768, 3: 131072}[res] * 1e6
    z = z.astype(float)
    z[m] = np.nan
    phase[m] = [2147483640 + (i % 8) for i in range(int(m.sum()))]
    layers = {}
    intensity = image((ah, aw, buckets), seed=9, top=4095, dtype='>u2')
    for i in range(buckets):
        layers['Intensity' if buckets == 1 else f'Intensity_{i}'] = intensity[:, :, i]
    step = float(np.float32(lateral)) * 1e6
    return Sample('.dat', f'{shape} missing {missing} format {fmt} resolution {res} buckets {buckets} scale {scale} '
                  f'wavelength {wavelength} obliquity {obliquity}',
                  bytes(head) + intensity.tobytes() + phase.astype('>i4').tobytes(), z, step, step, layers)


# -- FITS --------------------------------------------------------------------------------------------------------------

def fits(shape, missing=0, bitpix=-64, unit_xy='um', unit_z='um', factor_xy=1.0, factor_z=1.0, steps=(0.5, 0.75),
         layers=True, mask_first=False, header_blocks=1):
    ny, nx = shape

    def card(key, value):
        if isinstance(value, str):
            value = f"'{value}'"
        return f'{key:8s}= {value!s:>20s}'.ljust(80)

    def block(cards):
        text = ''.join(cards) + 'END'.ljust(80)
        return text.ljust(-(-len(text) // 2880) * 2880).encode('ascii')

    def hdu(name, data, bits):
        head = block([card('XTENSION', 'IMAGE'), card('BITPIX', bits), card('NAXIS', 2), card('NAXIS1', data.shape[1]),
                      card('NAXIS2', data.shape[0]), card('PCOUNT', 0), card('GCOUNT', 1), card('EXTNAME', name)])
        raw = data.astype({8: 'u1', 16: '>i2', 32: '>i4', 64: '>i8', -32: '>f4', -64: '>f8'}[bits]).tobytes()
        return head + raw + b'\0' * (-len(raw) % 2880)
    primary = [card('SIMPLE', 'T').replace("'", ' '), card('BITPIX', 8), card('NAXIS', 0), card('DELTAX', steps[0]),
               card('DELTAY', steps[1]), card('UNITX', unit_xy), card('UNITY', unit_xy), card('UNITZ', unit_z)]
    primary += [f'HIERARCH UnitMultiplicatorDeltas = {factor_xy}'.ljust(80),
                f'HIERARCH UnitMultiplicatorHeights = {factor_z}'.ljust(80)]
    for i in range(36 * (header_blocks - 1)):
        primary.insert(3, card(f'PAD{i}', i))
    if bitpix == 8:
        raw = integers(shape, 0, 255)
    elif bitpix > 0:
        raw = integers(shape, -30000, 30000)
    else:
        raw = integers(shape, -30000, 30000) / 128.0
    m = holes(shape, missing)
    unit = {'m': 1e6, 'mm': 1e3, 'um': 1.0, 'nm': 1e-3}
    z = raw.astype(float) * factor_z * unit[unit_z]
    z[m] = np.nan
    out = {}
    parts = [hdu('HEIGHTS', raw, bitpix)]
    if missing:
        parts.insert(0 if mask_first else 1, hdu('MASK', ~m, 8))
    if layers:
        img = image(shape, seed=12)
        parts.append(hdu('TEXTURE', img, 8))
        out['Texture'] = img
    s = factor_xy * unit[unit_xy]
    return Sample('.fits', f'{shape} missing {missing} bitpix {bitpix} units {unit_xy},{unit_z} factors {factor_xy},'
                  f'{factor_z} layers {layers} mask first {mask_first} blocks {header_blocks}',
                  block(primary) + b''.join(parts), z, steps[0] * s, steps[1] * s, out)


# -- Gwyddion ----------------------------------------------------------------------------------------------------------

def gwy(shape, missing=0, unit_xy='m', unit_z='m', scale=1e-6, size=(4e-6, 9e-6), key=0, layers=True, decoys='none',
        meta=True, mask_field=True):
    ny, nx = shape

    def component(name, kind, value):
        head = name.encode() + b'\0' + kind.encode()
        if kind == 'o':
            return head + value
        if kind == 's':
            return head + value.encode() + b'\0'
        if kind == 'D':
            return head + struct.pack('<I', value.size) + value.astype('<f8').tobytes()
        if kind == 'I':
            return head + struct.pack('<I', value.size) + value.astype('<i4').tobytes()
        if kind == 'S':
            return head + struct.pack('<I', len(value)) + b''.join(v.encode() + b'\0' for v in value)
        return head + struct.pack('<' + {'b': 'b', 'i': 'i', 'q': 'q', 'd': 'd'}[kind], value)

    def container(name, *components):
        body = b''.join(components)
        return name.encode() + b'\0' + struct.pack('<I', len(body)) + body

    def datafield(data, z_unit, unit_xy=unit_xy):
        parts = [component('xres', 'i', data.shape[1]), component('yres', 'i', data.shape[0]),
                 component('xreal', 'd', size[0]), component('yreal', 'd', size[1]),
                 component('si_unit_xy', 'o', container('GwySIUnit', component('unitstr', 's', unit_xy)))]
        if z_unit is not None:
            parts.append(component('si_unit_z', 'o', container('GwySIUnit', component('unitstr', 's', z_unit))))
        parts.append(component('data', 'D', data))
        return container('GwyDataField', *parts)
    raw = integers(shape, -3000, 3000) / 1000 * scale
    m = holes(shape, missing)
    unit = {'m': 1e6, 'mm': 1e3, 'um': 1.0, 'nm': 1e-3, 'µm': 1.0}
    z = raw * unit[unit_z]
    z[m] = np.nan
    entries = []
    out = {}
    if decoys in ('unit', 'all'):
        # a channel with another quantity comes first
        entries += [component(f'/{key}/data', 'o', datafield(raw * 7, 'V')), component(f'/{key}/data/title', 's', 'Height?')]
        key += 1
    if decoys in ('name', 'all'):
        entries += [component(f'/{key}/data', 'o', datafield(raw * 3, unit_z)), component(f'/{key}/data/title', 's', 'DFT')]
        key += 1
    entries += [component(f'/{key}/data', 'o', datafield(raw, unit_z)),
                component(f'/{key}/data/title', 's', 'Topography')]
    if missing:
        entries.append(component(f'/{key}/mask', 'o', datafield(m.astype(float), '')
                                 if mask_field else datafield(m.astype(float), None)))
    if meta:
        entries.append(component(f'/{key}/meta', 'o', container('GwyContainer', component('Who', 's', 'me'),
                                                                component('Version', 'i', 7))))
    if decoys in ('number', 'all'):
        entries += [component(f'/{key + 9}/data', 'o', datafield(raw * 5, unit_z)),
                    component(f'/{key + 9}/data/title', 's', 'Second height')]
    if layers:
        img = image(shape, seed=4).astype(float)
        entries += [component('/30/data', 'o', datafield(img, None)), component('/30/data/title', 's', 'Photo')]
        out['Photo'] = img
        other = image((ny + 1, nx), seed=4).astype(float)
        entries += [component('/31/data', 'o', datafield(other, None)), component('/31/data/title', 's', 'Other size')]
        # a spectrum has the same number of points, but is no image of the surface
        entries += [component('/32/data', 'o', datafield(img, None, 's')), component('/32/data/title', 's', 'Other unit')]
    if decoys in ('title', 'all'):
        # a graph and a selection without channel, an image without title
        entries.insert(0, component('/0/graph/graph/1' if key else '/77/graph/graph/1', 'o',
                                    container('GwyGraphModel', component('title', 's', 'Graph'))))
        entries.append(component('/78/select/point', 'o', container('GwySelectionPoint', component('max', 'i', 1))))
        if layers:
            # two images with the same title
            twin = image(shape, seed=9).astype(float)
            entries += [component('/33/data', 'o', datafield(twin, None)), component('/33/data/title', 's', 'Photo')]
            out['Photo 33'] = twin
        if decoys == 'title':
            entries += [component(f'/{key + 5}/data', 'o', datafield(raw * 5, unit_z)),
                        component(f'/{key + 6}/data', 'o', datafield(raw * 5, 'V'))]
    entries += [component('/filename', 's', 'x.gwy'), component('flag', 'b', 1), component('long', 'q', 5),
                component('ints', 'I', np.arange(3)), component('strings', 'S', ['a', 'bc'])]
    s = unit[unit_xy]
    return Sample('.gwy', f'{shape} missing {missing} units {unit_xy},{unit_z} key {key} layers {layers} decoys {decoys}',
                  b'GWYP' + container('GwyContainer', *entries), z, size[0] / nx * s, size[1] / ny * s, out)


#: which channels are equal: an image is gray only if all three are
CHANNELS = {'rgb': [0, 1, 2], 'gray': [0, 0, 0], 'r=g': [0, 0, 1], 'r=b': [0, 1, 0], 'g=b': [0, 1, 1],
            'almost': [0, 0, 0]}


def channels(img, kind):
    img = np.ascontiguousarray(img[:, :, CHANNELS[kind]])
    if kind == 'almost':
        img[-1, -1, 2] ^= 1
    return img


# -- Nanofocus ---------------------------------------------------------------------------------------------------------

def nms(shape, zrange=(-3.0, 5.0), spacing=(500.0, 750.0), layers=False):
    ny, nx = shape
    head = bytearray(3468)
    put(head, 16, '<2d', *zrange)
    head[1076:1092] = b'2020-01-02 03:04'
    put(head, 1368, '<2I', nx, ny)
    put(head, 1376, '<2d', *spacing)
    raw = integers(shape, 1, 65535)
    z = raw / 65534 * (zrange[1] - zrange[0])
    blob = bytes(head) + raw.astype('<u2').tobytes()
    out = {}
    if layers:
        img = image(shape, seed=4)
        out['Grayscale'] = img
        blob += img.tobytes()
    return Sample('.nms', f'{shape} range {zrange} layers {layers}', blob, z, spacing[0] * 1e-3, spacing[1] * 1e-3, out,
                  offset_free=True)


# -- Wyko --------------------------------------------------------------------------------------------------------------

def opd(shape, missing=0, itemsize=2, wavelength=632.8, mult=100, aspect=1.2, pixel=0.002, layers=True, order=0,
        absent=()):
    ny, nx = shape
    raw = integers(shape, -30000, 30000)
    m = holes(shape, missing)
    stored = raw.astype('<i2' if itemsize == 2 else '<f4')
    stored[m] = 32767 if itemsize == 2 else np.float32(1e38)

    def array(a):
        # column by column from the left, each from the bottom to the top
        return struct.pack('<3H', a.shape[1], a.shape[0], a.dtype.itemsize) + np.ascontiguousarray(a[::-1].T).tobytes()
    values = dict(Wavelength=wavelength, Mult=mult, Aspect=aspect, Pixel_size=pixel)
    blocks = [('RAW_DATA', 3, array(stored))]
    out = {}
    if layers:
        img = image(shape, seed=3)
        blocks.append(('Image', 3, array(img)))
        out['Grayscale'] = img
    for k, v in values.items():
        if k not in absent:
            blocks.append((k, 6, struct.pack('<h', v)) if k == 'Mult' else (k, 7, struct.pack('<f', v)))
    blocks += [('Date', 5, b'01/02/2020\0\0'), ('Time', 5, b'03:04:05\0'), ('Title', 5, b'\0' * 9),
               ('Long', 12, struct.pack('<i', 70000)), ('Double', 8, struct.pack('<d', 1.5))]
    if order:
        blocks = blocks[order % len(blocks):] + blocks[:order % len(blocks)]
    head = b'\x01\x00' + struct.pack('<16shlH', b'Directory', 1, 24 * (len(blocks) + 1), 0)
    for name, kind, content in blocks:
        head += struct.pack('<16shlH', name.encode(), kind, len(content), 0)
    w = float(np.float32(wavelength)) if 'Wavelength' not in absent else 1.0
    z = raw * (w * 1e-3 / (mult if 'Mult' not in absent else 1.0))
    z = z.astype(float)
    z[m] = np.nan
    sx = (float(np.float32(pixel)) if 'Pixel_size' not in absent else 1.0) * 1e3
    sy = sx * (float(np.float32(aspect)) if 'Aspect' not in absent else 1.0)
    return Sample('.opd', f'{shape} missing {missing} item {itemsize} wavelength {wavelength} mult {mult} aspect {aspect} '
                  f'layers {layers} order {order} absent {absent}',
                  head + b''.join(b for _, _, b in blocks), z, sx, sy, out)


# -- OmniSurf3D --------------------------------------------------------------------------------------------------------

def os3d(shape, missing=0, steps=(0.5, 0.75), ident='name', date='2020-01-02 03:04:05', layers=True):
    from PIL import Image
    ny, nx = shape
    head = b'OmniSurf3D' + struct.pack('<iii', 1, 0, len(ident)) + ident.encode()
    head += struct.pack('<i', len(date)) + date.encode() + struct.pack('<ii4d', nx, ny, *steps, 0.0, 0.0)
    z = (integers(shape, -30000, 30000) / 512).astype('<f4')
    m = holes(shape, missing)
    z[m] = np.float32(-3.4028235e38)
    expected = z.astype(float)
    expected[m] = np.nan
    out = {}
    tail = b'\0'
    if layers:
        img = image(shape, 4, seed=6)
        out['RGBA'] = img
        f = io.BytesIO()
        Image.fromarray(img).save(f, 'png')
        tail = b'\1' + f.getvalue()
    return Sample('.os3d', f'{shape} missing {missing} ident {ident!r} date {date} layers {layers}',
                  head + z.tobytes() + tail, expected, *steps, out)


# -- Sensofar ----------------------------------------------------------------------------------------------------------

def plu(shape, missing=0, steps=(0.5, 0.75), layers='rgb'):
    ny, nx = shape
    head = b'Thu Jan  2 03:04:05 2020'.ljust(128, b'\0') + struct.pack('<I', 0) + b'comment'.ljust(256, b'\0')
    head += struct.pack('<3I7f', ny, nx, 1, 1.0, steps[0], steps[1], 0.0, 0.0, 1.0, 0.0)
    head += struct.pack('<10I', *range(10)) + struct.pack('<d', 0.1) + struct.pack('<f', 10.0)
    head += struct.pack('<2I', 1, 0) + bytes(5) + bytes(3) + struct.pack('<I', 0)
    z = (integers(shape, -30000, 30000) / 512).astype('<f4')
    m = holes(shape, missing)
    z[m] = 1000001
    expected = z.astype(float)
    expected[m] = np.nan
    out = {}
    tail = b''
    if layers:
        img = image(shape, 3, seed=6)
        img = channels(img, layers)
        tail = bytes(16) + img.tobytes()
        out = {'RGB': img} if layers != 'gray' else {'Grayscale': img[:, :, 0]}
    return Sample('.plu', f'{shape} missing {missing} layers {layers}', head + z.tobytes() + tail, expected,
                  float(np.float32(steps[0])), float(np.float32(steps[1])), out)


def plux(shape, steps=(0.5, 0.75), layers='rgb', info=True):
    ny, nx = shape
    z = (integers(shape, -30000, 30000) / 512).astype('<f4')
    items = '<INFO><ITEM_0><NAME>Device</NAME><VALUE>S neox</VALUE></ITEM_0></INFO>' if info else ''
    xml = (f'<xml><GENERAL><DATE>2020-01-02 03:04:05</DATE><IMAGE_SIZE_X>{nx}</IMAGE_SIZE_X><IMAGE_SIZE_Y>{ny}'
           f'</IMAGE_SIZE_Y><FOV_X>{steps[0]}</FOV_X><FOV_Y>{steps[1]}</FOV_Y></GENERAL>{items}</xml>')
    entries = [('LAYER_0.raw', z.tobytes()), ('index.xml', xml.encode())]
    out = {}
    if layers:
        img = image(shape, 3, seed=6)
        img = channels(img, layers)
        entries.append(('LAYER_0.stack.raw', img.tobytes()))
        out = {'RGB': img} if layers != 'gray' else {'Grayscale': img[:, :, 0]}
    return Sample('.plux', f'{shape} layers {layers} info {info}', archive(entries), z.astype(float), *steps, out,
                  zipped=True)


# -- ISO 25178-71 ------------------------------------------------------------------------------------------------------

def sdf(shape, missing=0, dtype=7, zscale=1e-6, steps=(0.5, 0.75), binary=True, columns=7):
    ny, nx = shape
    low = -30000
    raw = integers(shape, low, 30000).astype(float)
    if dtype == 7:
        raw = raw / 1000 + 0.123456789
    m = holes(shape, missing)
    z = raw * zscale * 1e6
    z[m] = np.nan
    label = f'{shape} missing {missing} type {dtype} zscale {zscale} binary {binary} columns {columns}'
    if binary:
        head = b'bISO-1.0' + struct.pack('<10s12s12sHH4d3B', b'maker', b'020120200304', b'020120200304', nx, ny,
                                         steps[0] * 1e-6, steps[1] * 1e-6, zscale, -1.0, 0, dtype, 0)
        fmt = {5: '<i2', 6: '<i4', 7: '<f8'}[dtype]
        stored = np.where(m, {5: -2 ** 15, 6: -2 ** 31, 7: np.nan}[dtype], raw).astype(fmt)
        return Sample('.sdf', label, head + stored.tobytes(), z, *steps)
    fields = dict(ManufacID='maker', CreateDate='020120200304', ModDate='020120200304', NumPoints=nx, NumProfiles=ny,
                  Xscale=steps[0] * 1e-6, Yscale=steps[1] * 1e-6, Zscale=zscale, Zresolution=-1, Compression=0,
                  DataType=dtype, CheckType=0)
    text = 'aISO-1.0\n' + ''.join(f'{k:12s}= {v}\n' for k, v in fields.items()) + '*\n'
    words = ['BAD' if a else (repr(float(v)) if dtype == 7 else str(int(v))) for v, a in zip(raw.ravel(), m.ravel())]
    for i in range(0, len(words), columns):
        text += ' '.join(words[i:i + columns]) + '\n'
    text += '*\n<Operator> me </Operator>\n*\n'
    return Sample('.sdf', label, text.encode('ascii'), z, *steps, text=True)


# -- surfalize ---------------------------------------------------------------------------------------------------------

def sflz(shape, missing=0, dtype='<u4', steps=(0.5, 0.75), compression=1, limits=(-3.0, 4.0), layers=True, names=None):
    ny, nx = shape
    pack = {0: lambda b: b, 1: zlib.compress, 2: lzma.compress}[compression]
    dt = np.dtype(dtype)
    if dt.kind in 'iu':
        info = np.iinfo(dt)
        raw = integers(shape, max(info.min, -2 ** 50), min(info.max, 2 ** 50)).astype(dtype)
        z = (raw.astype(float) - float(info.min)) / (float(info.max) - float(info.min)) * (limits[1] - limits[0]) + limits[0]
        scaled = True
    else:
        raw = (integers(shape, -30000, 30000) / 512).astype(dtype)
        raw[holes(shape, missing)] = np.nan
        z = raw.astype(float)
        scaled = False
    out = {}
    if layers:
        out = {'RGB': image(shape, 3, seed=2), 'Höhe': image((ny + 1, nx), seed=3),
               'wide': image(shape, seed=8, top=60000, dtype='<u2')}

    def layer(name, a):
        name = name.encode('utf-8')
        data = pack(a.tobytes())
        return struct.pack('<H', len(name)) + name + struct.pack('<IIB3sI', a.shape[1], a.shape[0],
                                                                 1 if a.ndim == 2 else a.shape[2],
                                                                 a.dtype.str.encode(), len(data)) + data
    head = b'SFLZ' + b'1.0'.ljust(10) + struct.pack('<dd?ddHHB', *steps, scaled, *limits, 1 + len(out), 0, compression)
    blob = head + layer('topography', raw) + b''.join(layer(k, v) for k, v in out.items())
    return Sample('.sflz', f'{shape} missing {missing} dtype {dtype} compression {compression} limits {limits} layers '
                  f'{layers}', blob, z, *steps, out)


# -- Digital Surf ------------------------------------------------------------------------------------------------------

def sur(shape, missing=0, bits=32, spacing=1e-3, unit_xy='µm', unit_z='µm', steps=(0.5, 0.75), offset=0.0, compressed=0,
        comment=b'', private=b'', layers='none', gwyddion=False, charset='latin-1', spread=None):
    ny, nx = shape
    top = spread or (30000 if bits == 16 else 2 ** 30)
    raw = integers(shape, -top, top)
    m = holes(shape, missing)
    unit = {'m': 1e6, 'mm': 1e3, 'µm': 1.0, 'um': 1.0, 'nm': 1e-3}
    z = raw * float(np.float32(spacing)) * unit[unit_z] + float(np.float32(offset))
    z[m] = np.nan

    def text(s, n):
        return s.encode(charset).ljust(n)

    def record(data, studiable, n_objects=1):
        stored = data.astype('<i2' if bits == 16 else '<i4').tobytes()
        if compressed:
            cuts = [len(stored) * i // compressed for i in range(compressed + 1)]
            pieces = [stored[a:b] for a, b in zip(cuts, cuts[1:])]
            zipped = [zlib.compress(p) for p in pieces]
            stored = struct.pack('<I', compressed) + b''.join(
                struct.pack('<II', len(p), len(q)) for p, q in zip(pieces, zipped)) + b''.join(zipped)
        size = len(stored) if compressed else 0
        head = (b'DSCOMPRESSED' if compressed else b'DIGITAL SURF') + struct.pack('<4h', 0, n_objects, 1, studiable)
        head += text('SCRATCH' if gwyddion else 'object', 30) + text('csm' if gwyddion else 'me', 30)
        head += struct.pack('<5h', 0, 0, 0, int(bool(missing)), 0) + struct.pack('<f4xhii', 0.0, bits, -top, top)
        head += struct.pack('<3i3f', data.shape[1], data.shape[0], data.size, steps[0], steps[1], spacing)
        head += b''.join(text(s, 16) for s in ('X', 'Y', 'Z', unit_xy, unit_xy, unit_z, unit_xy, unit_xy, unit_z))
        head += struct.pack('<3f3h12x7hfI6xhh', 1.0, 1.0, 1.0, 1, 0, 0, 1, 2, 3, 4, 5, 2020, 1, 0.0, size, len(comment),
                            len(private))
        head += text('client', 128) + struct.pack('<5f', 0, 0, offset, 0, 0) + text('', 13) + text('', 13)
        assert len(head) == 512
        return head + comment + private + stored
    stored = raw.copy()
    stored[m] = -top - 2
    out = {}
    if layers == 'none':
        blob = record(stored, 1 if gwyddion else 2)
    else:
        rgb = image(shape, 3, seed=6)
        rgb = channels(rgb, layers)
        intensity = image(shape, seed=7)
        blob = record(stored, 16) + b''.join(record(rgb[:, :, i].astype(int), 12) for i in range(3))
        blob += record(intensity.astype(int), 10)
        out = {'RGB': rgb} if layers != 'gray' else {'Grayscale': rgb[:, :, 0]}
        out['Intensity'] = intensity
    s = unit[unit_xy]
    return Sample('.sur', f'{shape} missing {missing} bits {bits} spacing {spacing} units {unit_xy},{unit_z} offset {offset} '
                  f'compressed {compressed} comment {len(comment)} private {len(private)} layers {layers} gwyddion '
                  f'{gwyddion} {charset}', blob, z, float(np.float32(steps[0])) * s, float(np.float32(steps[1])) * s, out)


# -- TrueMap -----------------------------------------------------------------------------------------------------------

def tmd(shape, missing=0, steps=(0.5, 0.75), comment='hello'):
    ny, nx = shape
    z = (integers(shape, -30000, 30000) / 512).astype('<f4')
    z[holes(shape, missing)] = np.nan
    head = b'Binary TrueMap Data File v2.0\r\n\0' + comment.encode().ljust(21) + b'\r\n\0'
    lx, ly = np.float32(nx * steps[0]), np.float32(ny * steps[1])
    head += struct.pack('<II4f', nx, ny, lx, ly, 0, 0)
    return Sample('.tmd', f'{shape} missing {missing} comment {comment!r}', head + z.tobytes(), z.astype(float),
                  float(lx) / nx, float(ly) / ny)


# -- Keyence -----------------------------------------------------------------------------------------------------------

def vk(shape, suffix='.vk4', bits=32, pitch=(500000, 750000), digit=100, gap=0, light_bits=16, order=(0, 1, 2, 3)):
    ny, nx = shape
    rgb = [image(shape, 3, seed=6), image(shape, 3, seed=8)]
    light = image(shape, seed=3, top=60000, dtype='<u2' if light_bits == 16 else '<u4')
    raw = integers(shape, 0, 65535 if bits == 16 else 2 ** 31)

    def picture(a):
        return struct.pack('<5I', nx, ny, 24, 0, a.size) + np.ascontiguousarray(a[:, :, ::-1]).tobytes()

    def height(a, n):
        data = a.astype({16: '<u2', 32: '<u4'}[n]).tobytes()
        return struct.pack('<7I', nx, ny, n, 0, len(data), 0, 255) + bytes(768) + data
    conditions = bytearray(300)
    put(conditions, 0, '<7Ii', len(conditions), 2020, 1, 2, 3, 4, 5, 60)
    #: field number in units of four bytes: optical zoom 18, lens 24, x/y/z lengths 42, 43, 44
    put(conditions, 18 * 4, '<I', 10)
    put(conditions, 24 * 4, '<I', 500)
    put(conditions, 42 * 4, '<III', pitch[0], pitch[1], digit)
    title, lens = 'Title', 'Lens 50x'
    strings = struct.pack('<I', len(title)) + title.encode('utf-16-le') + struct.pack('<I', len(lens)) \
        + lens.encode('utf-16-le')
    parts = [picture(rgb[0]), picture(rgb[1]), height(light, light_bits), height(raw, bits)]
    table = bytearray(18 * 4)
    body = b'\0' * gap
    start = 12 + len(table)
    put(table, 0, '<I', start + len(body))
    body += bytes(conditions)
    slots = [1, 2, 3, 6]
    for i in order:
        put(table, slots[i] * 4, '<I', start + len(body))
        body += parts[i] + b'\0' * gap
    put(table, 17 * 4 - 0, '<I', 0)
    put(table, 15 * 4, '<I', 0)
    body_strings = start + len(body)
    # meas_conds, color_peak, color_light, light, 2 reserved, height, 2 reserved, 4 thumbnails, assembly, 2 lines, strings
    put(table, 16 * 4, '<I', body_strings)
    body += strings
    blob = b'VK4_' + bytes(8) + bytes(table) + body
    out = {'RGB': rgb[0], 'Laser+RGB': rgb[1], 'Laser': light}
    if suffix != '.vk4':
        blob = archive([('Vk4File', blob), ('other', b'x')], prefix=suffix[1:].upper().encode() + b'_' + bytes(20))
    return Sample(suffix, f'{shape} bits {bits} pitch {pitch} digit {digit} gap {gap} light {light_bits} order {order}', blob,
                  raw * digit * 1e-6, pitch[0] * 1e-6, pitch[1] * 1e-6, out, zipped=suffix != '.vk4')


# -- ISO 5436-2 --------------------------------------------------------------------------------------------------------

def x3p(shape, dtype='D', steps=(0.5, 0.75), missing=0, name='bindata/data.bin', record2=True,
        increment=1e-9, comment=0):
    ny, nx = shape
    fmt = {'I': '<u2', 'L': '<u4', 'F': '<f4', 'D': '<f8'}[dtype]
    if dtype in 'IL':
        raw = integers(shape, 0, 60000 if dtype == 'I' else 2 ** 32 - 1).astype(fmt)
    else:
        increment = 1.0
        raw = (integers(shape, -30000, 30000) * 1e-9).astype(fmt)
        raw[holes(shape, missing)] = np.nan
    meta = '<Record2><Date>2020-01-02T03:04:05</Date><Instrument><Model>m</Model></Instrument>'
    meta = meta + f'<Comment>{"c" * comment}</Comment></Record2>' if record2 else ''

    def axis(tag, step, kind):
        return f'<{tag}><AxisType>{"A" if tag == "CZ" and dtype in "FD" else "I"}</AxisType><DataType>{kind}</DataType><Increment>{step}' \
               f'</Increment><Offset>0</Offset></{tag}>'
    xml = ('<?xml version="1.0" encoding="UTF-8"?><p:ISO5436_2 xmlns:p="http://www.opengps.eu/2008/ISO5436_2"><Record1>'
           '<Revision>ISO5436 - 2000</Revision><FeatureType>SUR</FeatureType><Axes>'
           + axis('CX', steps[0] * 1e-6, 'L') + axis('CY', steps[1] * 1e-6, 'L') + axis('CZ', increment, dtype)
           + f'</Axes></Record1>{meta}<Record3><MatrixDimension><SizeX>{nx}</SizeX><SizeY>{ny}</SizeY><SizeZ>1</SizeZ>'
           f'</MatrixDimension><DataLink><PointDataLink>{name}</PointDataLink></DataLink></Record3></p:ISO5436_2>').encode()
    blob = archive([('main.xml', xml), ('md5checksum.hex', hashlib.md5(xml).hexdigest().encode() + b' *main.xml\n'),
                    (name, raw.tobytes())])
    return Sample('.x3p', f'{shape} type {dtype} missing {missing} record2 {record2} increment {increment} comment {comment}', blob,
                  raw.astype(float) * increment * 1e6, *steps,
                  zipped=True)


# -- xyz ---------------------------------------------------------------------------------------------------------------

def xyz(shape, steps=(0.5, 0.75), origin=(0.0, 0.0), missing=0, separator=' '):
    ny, nx = shape
    z = integers(shape, -30000, 30000) * 1e-9
    z[holes(shape, missing)] = np.nan
    lines = [separator.join(repr(float(v)) for v in (origin[0] + x * steps[0] * 1e-6, origin[1] + y * steps[1] * 1e-6,
                                                     z[y, x])) for y in range(ny) for x in range(nx)]
    return Sample('.xyz', f'{shape} origin {origin} missing {missing} separator {separator!r}',
                  ('\n'.join(lines) + '\n').encode(), z * 1e6, steps[0] if nx > 1 else 0.0, steps[1] if ny > 1 else 0.0,
                  text=True)


# -- Zeta --------------------------------------------------------------------------------------------------------------

def zmg(shape, steps=(0.5, 0.75, 0.01), comment=b''):
    ny, nx = shape
    head = bytearray(b'Zeta-Instruments'.ljust(85, b'\0'))
    head += struct.pack('<II4xfff8xI84x', nx, ny, *steps, len(comment))
    raw = integers(shape, -30000, 30000)
    return Sample('.zmg', f'{shape} steps {steps} comment {len(comment)}',
                  bytes(head) + comment + raw.astype('<i2').tobytes(), raw * float(np.float32(steps[2])),
                  float(np.float32(steps[0])), float(np.float32(steps[1])))


# -- collections -------------------------------------------------------------------------------------------------------

def basic(shape=(4, 5), missing=0, layers=True):
    """One small file of every format (several for formats with different encodings)."""
    return [
        al3d(shape, missing), dat(shape, missing, buckets=1 if layers else 0), fits(shape, missing, layers=layers,
                                                                                    mask_first=True),
        gwy(shape, missing, layers=layers), nms(shape if not layers else (4, 4), layers=layers),
        opd(shape, missing, layers=layers), os3d(shape, missing, layers=layers),
        plu(shape, missing, layers='rgb' if layers else None), plux(shape, layers='rgb' if layers else None),
        sdf(shape, missing), sdf(shape, missing, binary=False), sflz(shape, missing, '<f8' if missing else '<u4',
                                                                     layers=layers),
        sur(shape, missing, layers='rgb' if layers else 'none'),
        sur(shape, missing, compressed=1, layers='rgb' if layers else 'none'),
        tmd(shape, missing), vk(shape), vk(shape, '.vk6'), vk(shape, '.vk7'), x3p(shape, missing=missing), xyz(shape),
        zmg(shape)]


def variants(tier):
    """All files of the bounded space, format by format."""
    shapes = [(3, 5), (5, 3), (4, 4), (1, 6), (6, 1), (2, 2)]
    if tier == 'thorough':
        shapes += [(7, 11), (13, 6), (2, 9), (1, 2), (12, 12)]
    missing = [0, 1, 3]
    steps = [(0.5, 0.75), (1.25, 1.25), (0.031, 12.5)]
    P = itertools.product
    out = {}
    out['.al3d'] = [al3d(s, m, i, st, u, e, g) for s, m, i, st, (u, e, g) in P(
        shapes, missing, ['nan', '-1e10', '3.5'], steps, [(1e-6, 0, 0), (1e-9, 3, 100), (1e-4, 1, 1)])]
    out['.dat'] = [dat(s, m, f, r, b, ac, *sc) for s, m, f, r, (b, ac), sc in P(
        shapes, missing, [1, 2, 3], [1, 2, 3], [(0, (0, 0)), (1, (3, 4)), (2, (4, 3))],
        [(0.5, 6.328e-7, 1.0, 2e-6), (1.0, 5e-7, 0.8, 1e-5)])]
    out['.fits'] = [fits(s, m, b, u, v, fx, fz, st, l, mf, hb) for s, m, b, (u, v, fx, fz), st, (l, mf, hb) in P(
        shapes, missing, [8, 16, 32, 64, -32, -64],
        [('um', 'um', 1.0, 1.0), ('m', 'm', 1.0, 1e-3), ('mm', 'nm', 1e-3, 10.0), ('nm', 'mm', 1e3, 1e-4)], steps[:2],
        [(True, False, 1), (False, True, 2), (True, True, 1)])]
    # the data exactly fill a block
    out['.fits'] += [fits((18, 20), m, b, layers=l) for m in missing for b in (-64, 32, 8) for l in (True, False)]
    out['.fits'] += [fits((40, 72), m, 8, layers=l) for m in missing for l in (True, False)]
    out['.gwy'] = [gwy(s, m, u, v, sc, size, k, l, d, me) for s, m, (u, v, sc, size), (k, l, d, me) in P(
        shapes, missing, [('m', 'm', 1e-6, (4e-6, 9e-6)), ('um', 'nm', 1e3, (4.0, 9.0)), ('mm', 'um', 1.0, (1.0, 0.5)),
                          ('µm', 'µm', 1.0, (4.0, 9.0))],
        [(0, True, 'none', True), (3, False, 'unit', False), (1, True, 'name', False), (12, True, 'number', True), (2, True, 'title', True),
         (0, True, 'all', True)])]
    out['.nms'] = [nms(s, z, (a * 1e3, b * 1e3), l) for s, z, (a, b), l in P(
        shapes, [(-3.0, 5.0), (0.0, 1.0), (100.0, 350.5)], steps, [False, True]) if not l or s[0] == s[1]]
    out['.opd'] = [opd(s, m, i, w, mu, a, p, l, o, ab) for s, m, i, (w, mu, a, p), l, (o, ab) in P(
        shapes, missing, [2, 4], [(632.8, 100, 1.2, 0.002), (500.0, 1, 1.0, 0.5), (600.0, 32000, 0.7, 1e-4)],
        [True, False], [(0, ()), (1, ()), (3, ('Aspect',)), (5, ('Wavelength', 'Mult')), (2, ('Pixel_size',))])]
    out['.os3d'] = [os3d(s, m, st, i, d, l) for s, m, st, (i, d), l in P(
        shapes, missing, steps, [('name', '2020-01-02 03:04:05'), ('', '2 January 2020'), ('a longer name ', '2020-01-02')],
        [True, False])]
    out['.plu'] = [plu(s, m, st, l) for s, m, st, l in P(shapes, missing, steps, [None, *CHANNELS])]
    out['.plux'] = [plux(s, st, l, i) for s, st, l, i in P(shapes, steps, [None, *CHANNELS], [True, False])]
    out['.sdf'] = [sdf(s, m, d, z, st) for s, m, d, z, st in P(shapes, missing, [5, 6, 7], [1e-6, 1e-9, 2.5e-5], steps)]
    out['.sdf'] += [sdf(s, m, d, z, st, False, c) for s, m, d, z, st, c in P(
        shapes, missing, [5, 6, 7], [1e-6, 1e-9], steps[:2], [1, 7, 1000])]
    out['.sflz'] = [sflz(s, m, d, st, c, l, y) for s, m, d, st, c, (l, y) in P(
        shapes, missing, ['<f4', '<f8', '<u4', '<u2', '|u1', '<i4', '<i2', '<i8', '<u8'], steps[:2], [0, 1, 2],
        [((-3.0, 4.0), True), ((100.0, 100.5), False)]) if not m or 'f' in d]
    out['.sur'] = [sur(s, m, b, sp, u, v, st, o, c) for s, m, b, (sp, u, v, o), st, c in P(
        shapes, missing, [16, 32], [(1e-3, 'µm', 'µm', 0.0), (1e-9, 'm', 'm', 0.0), (0.25, 'mm', 'nm', 0.0),
                                    (1e-4, 'um', 'µm', 12.5), (1e-4, 'nm', 'um', -3.0)], steps[:2], [0, 1, 3])]
    out['.sur'] += [sur(s, m, b, compressed=c, comment=co, private=pr, layers=l, charset=cs) for
                    s, m, b, c, (co, pr), l, cs in P(
        shapes, missing, [16, 32], [0, 1], [(b'', b''), (b'a comment', b''), (b'hi', b'\1\2\3'), (b'', b'\0' * 40)],
        ['none', *CHANNELS], ['latin-1', 'utf-8'])]
    out['.sur'] += [sur(s, m, gwyddion=True, compressed=c) for s, m, c in P(shapes, missing, [0, 1])]
    # as many missing codes as possible, limits of the integer range
    out['.sur'] += [sur(s, m, 16, spread=32766, compressed=c) for s, m, c in P(shapes, missing, [0, 2])]
    out['.sur'] += [sur(s, m, 32, spread=2 ** 31 - 2, compressed=c) for s, m, c in P(shapes, missing, [0, 2])]
    out['.tmd'] = [tmd(s, m, st, c) for s, m, st, c in P(shapes, missing, steps, ['', 'hello', 'x' * 21])]
    for suffix in ('.vk4', '.vk6', '.vk7'):
        out[suffix] = [vk(s, suffix, b, p, d, g, lb, o) for s, b, (p, d), g, lb, o in P(
            shapes, [16, 32], [((500000, 750000), 100), ((1387, 1387), 1)], [0, 13], [16, 32], [(0, 1, 2, 3), (3, 2, 0, 1)])]
    out['.x3p'] = [x3p(s, d, st, m, n, r, i) for s, d, st, m, (n, r, i) in P(
        shapes, 'ILFD', steps, missing, [('bindata/data.bin', True, 1e-9), ('data.bin', False, 2.5e-12)])
        if not m or d in 'FD']
    out['.xyz'] = [xyz(s, st, o, m, sep) for s, st, o, m, sep in P(
        shapes, steps, [(0.0, 0.0), (1.0, -2.0), (-3e-6, 5e-4)], missing, [' ', '\t', '   '])]
    out['.zmg'] = [zmg(s, st + (z,), c) for s, st, z, c in P(shapes, steps, [0.01, 2.0, 1e-5], [b'', b'comment', b'c' * 300])]
    return out
