"""C15: every readable format is decoded as it is encoded."""
import io
import os
import pathlib
import pickle
import shutil
import subprocess
import sys
import tempfile
import warnings

import numpy as np

from mc import formats

PROPERTY = 'C15'
LEVEL = 'model_checking'
RULE = ('all files of a bounded space per format, written by independent encoders: every combination of numbers of rows '
        'and columns, units, scales, offsets, number types, missing points, header variants and image layers; read with '
        'and without image layers, from buffers and paths')
ASSUMPTIONS = ['the encoders follow the published or reverse-engineered layouts that the library documents; heights of '
               'NMS files are compared up to a constant']

EXACT = ('.sdf', '.gwy', '.xyz', '.sflz')
CHUNK = 120


def tasks(tier):
    out = []
    for suffix, items in formats.variants(tier).items():
        for i in range(0, len(items), CHUNK):
            out.append((f'{suffix} {i}', (suffix, i, tier)))
    out += [(f'hash seed {k}', ('seed', k, tier)) for k in range(1, 5 if tier == 'quick' else 17)]
    return out


DESCRIBE = '''
import hashlib, io, pickle, sys, warnings
warnings.simplefilter('ignore')
from surfalize import Surface
for suffix, label, blob in pickle.load(open(sys.argv[1], 'rb')):
    try:
        t = Surface.load(io.BytesIO(blob), format=suffix, read_image_layers=True)
        print(suffix, label, hashlib.sha1(t.data.tobytes()).hexdigest(), t.step_x, t.step_y, list(t.metadata.items()),
              [(k, hashlib.sha1(v.data.tobytes()).hexdigest()) for k, v in t.image_layers.items()])
    except Exception as exc:
        print(suffix, label, type(exc).__name__)
'''


def describe(seed, tier):
    """What a new process with the given hash seed reads from files of every format"""
    items = [(s.suffix, s.label, s.blob) for group in samples(tier).values() for s in group[::7]]
    items += [(s.suffix, s.label, s.blob) for s in samples(tier)['.gwy'] if 'decoys none' not in s.label][:60]
    with tempfile.NamedTemporaryFile(prefix='c15-', dir=os.environ.get('VERIF_SCRATCH')) as f:
        pickle.dump(items, f)
        f.flush()
        import surfalize
        root = os.path.dirname(os.path.dirname(os.path.realpath(surfalize.__file__)))
        r = subprocess.run([sys.executable, '-c', DESCRIBE, f.name], capture_output=True, text=True, timeout=300,
                           env=dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=root, PYTHONIOENCODING='utf-8'),
                           encoding='utf-8')
    return items, r.stdout.splitlines(), r.stderr[-500:]


def run_seed(rec, seed, tier):
    items, reference, problem = describe(0, tier)
    if not rec.check(len(reference) == len(items), 'seed', f'the files could not be read in a new process: {problem}', seed):
        return
    _, lines, problem = describe(seed, tier)
    rec.check(len(lines) == len(items), f'seed {seed}', problem, seed)
    for (suffix, label, _), a, b in zip(items, reference, lines):
        rec.execution(label)
        rec.state(suffix, label, seed)
        rec.check(a == b, f'{suffix}:seed', lambda: f'{suffix} {label}: read as {b[:600]} with hash seed {seed}, as {a[:600]} '
                                                    f'with hash seed 0', label)


_cache = {}


def samples(tier):
    if tier not in _cache:
        _cache[tier] = formats.variants(tier)
    return _cache[tier]


def setup():
    samples('quick')


def tolerance(sample):
    if sample.suffix in EXACT or (sample.suffix == '.fits' and 'bitpix -32' not in sample.label) \
            or (sample.suffix == '.x3p' and 'type F' not in sample.label):
        return 1e-12
    return 6e-7


def compare(rec, key, s, t, layers, case):
    y = np.asarray(t.data)
    rec.check(y.dtype.kind == 'f', key + ':dtype', f'heights are {y.dtype}', case)
    y = y.astype(float)
    if not rec.check(y.shape == s.z.shape, key + ':shape', f'{y.shape} instead of {s.z.shape}', case):
        return
    if not rec.check(np.array_equal(np.isnan(y), np.isnan(s.z)), key + ':missing',
                     f'non-measured points at {np.argwhere(np.isnan(y)).tolist()[:9]} instead of '
                     f'{np.argwhere(np.isnan(s.z)).tolist()[:9]}', case):
        return
    d = y - s.z
    if np.isnan(d).all():
        return
    if s.offset_free:
        d = d - np.nanmean(d)
    tol = tolerance(s)
    rec.check(np.nanmax(np.abs(d)) <= tol * np.nanmax(np.abs(s.z)) + 1e-300, key + ':heights',
              f'heights {y.ravel()[:6]} instead of {s.z.ravel()[:6]}', case)
    for n in ('step_x', 'step_y'):
        a, b = getattr(t, n), getattr(s, n)
        if n == 'step_x' and y.shape[1] == 1 or n == 'step_y' and y.shape[0] == 1:
            if s.suffix == '.xyz':
                continue
        rec.check(abs(a - b) <= (1e-9 if s.suffix in EXACT[:2] else 1e-6 if s.suffix == '.xyz' else 1e-7) * abs(b), f'{key}:{n}', f'{a!r} instead of {b!r}',
                  case)
    if layers:
        rec.check(set(t.image_layers) == set(s.layers), key + ':layers',
                  f'layers {sorted(t.image_layers)} instead of {sorted(s.layers)}', case)
        for k in set(t.image_layers) & set(s.layers):
            a = np.asarray(t.image_layers[k].data)
            rec.check(a.shape == s.layers[k].shape and np.array_equal(a, s.layers[k]), key + ':layer',
                      f'layer {k} of shape {a.shape} instead of {s.layers[k].shape}, values {a.ravel()[:8]} instead of '
                      f'{s.layers[k].ravel()[:8]}', case)
    else:
        rec.check(not t.image_layers or s.suffix not in OPTIONAL, key + ':layers', f'unrequested layers {list(t.image_layers)}',
                  case)


OPTIONAL = formats.SUFFIXES


def run(rec, _, args):
    from surfalize import Surface
    warnings.simplefilter('ignore')
    if args[0] == 'seed':
        return run_seed(rec, *args[1:])
    suffix, start, tier = args
    scratch = pathlib.Path(tempfile.mkdtemp(prefix='c15-', dir=os.environ.get('VERIF_SCRATCH')))
    try:
        for i, s in enumerate(samples(tier)[suffix][start:start + CHUNK]):
            for layers in (False, True):
                if layers and suffix in ('.nms', '.plu') and not s.layers:
                    continue  # these formats have no flag that tells whether an image follows
                for source in ('buffer', 'path'):
                    if source == 'path' and i % 5:
                        continue
                    case = f'{suffix} {s.label} steps {s.step_x:g} {s.step_y:g} layers read {layers} from {source}'
                    rec.execution(case)
                    with rec.guard(suffix, case):
                        if source == 'buffer':
                            f = io.BytesIO(s.blob)
                            t = Surface.load(f, format=suffix, read_image_layers=layers)
                        else:
                            path = scratch / ('x' + suffix)
                            path.write_bytes(s.blob)
                            t = Surface.load(path, read_image_layers=layers)
                            path.unlink()
                        rec.step()
                        compare(rec, suffix, s, t, layers, case)
                        rec.outcome(suffix, t.data.tobytes())
                    rec.state(suffix, s.label)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
