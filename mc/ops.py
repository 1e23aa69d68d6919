"""Alphabets of operations and inputs shared by the checks on operations."""
import numpy as np

from mc.util import generic, grooves, q, relayout

# operations with an in-place variant; name, args, kwargs without `inplace`
COMMON_OPS = [
    q('center'), q('zero'), q('invert'), q('level'), q('detrend_polynomial'), q('detrend_polynomial', 2),
    q('detrend_polynomial', degree=3), q('remove_outliers'), q('remove_outliers', 1.4),
    q('remove_outliers', n=2, method='median'), q('remove_outliers', 0.5, 'median'),
    q('threshold'), q('threshold', 10), q('threshold', (5, 20)), q('threshold', threshold=[0, 12]), q('threshold', 0),
    q('fill_nonmeasured'), q('fill_nonmeasured', 'nearest'), q('fill_nonmeasured', method='linear'),
    q('fill_nonmeasured', method='cubic'),
    q('filter', 'lowpass', 2.0), q('filter', 'highpass', 3.0), q('filter', 'bandpass', 1.0, 4.0),
    q('filter', filter_type='lowpass', cutoff=1.5, endeffect_mode='wrap'),
    q('filter', 'highpass', 2.5, endeffect_mode='nearest'), q('filter', 'bandpass', cutoff=1, cutoff2=2,
                                                              endeffect_mode='mirror'),
    q('zoom', 1), q('zoom', 1.5), q('zoom', factor=2), q('zoom', 2.6),
]
SURFACE_OPS = COMMON_OPS + [
    q('crop', (0, 3, 0, 2), in_units=False), q('crop', (2, 5, 1, 4), in_units=False), q('crop', (0.6, 2.4, 0.5, 2.1)),
    q('crop', box=(0, 1.5, 0, 1)), q('rotate', 0), q('rotate', 90), q('rotate', 180), q('rotate', 17), q('rotate', -33),
    q('rotate', 5), q('align'), q('align', 'x'), q('align', axis='y', method='fft'), q('align', 'x', 'fft'),
    q('stepheight_level'),
]
PROFILE_OPS = COMMON_OPS + [q('crop', (0, 5), in_units=False), q('crop', (2, 7), in_units=False), q('crop', (0.6, 2.4))]

INVALID_COMMON = [
    q('filter', 'unknown', 2.0), q('filter', 'bandpass', 2.0), q('filter', 'bandpass', 3.0, 1.0),
    q('filter', 'bandpass', 2.0, 2.0), q('filter', 'lowpass', 2.0, endeffect_mode='unknown'),
    q('filter', 'bandpass', 1.0, 3.0, endeffect_mode='unknown'), q('threshold', 50), q('threshold', (60, 40)),
    q('threshold', (60, 41)), q('remove_outliers', method='unknown'), q('zoom', 0), q('threshold', 'a'),
]
INVALID_SURFACE = INVALID_COMMON + [
    q('crop', (0, 1000, 0, 1), in_units=False), q('crop', (-1, 3, 0, 2), in_units=False),
    q('crop', (0, 3, -1, 2), in_units=False), q('crop', (0, 3, 0, 1000), in_units=False), q('crop', (0, 500, 0, 1)),
    q('crop', (0, 1, 0, 500)), q('crop', (-2, 1, 0, 1)), q('crop', (0, 1, -2, 1)), q('crop', (1, 2)),
    q('align', 'z'), q('align', method='unknown'), q('align', axis='z', method='fft'),
]
INVALID_PROFILE = INVALID_COMMON + [q('crop', (-1, 3), in_units=False), q('crop', (0, 1000), in_units=False),
                                    q('crop', (3, 3), in_units=False), q('crop', (0, 500)), q('crop', (1, 1))]


def surfaces(tier='quick'):
    """label, height data, step_x, step_y"""
    out = [
        ('grooved', grooves(20, 26, 0.5, 0.5, 3.2, angle=14.0, noise=0.2, offset=0.4), 0.5, 0.5),
        ('generic', generic(8, 11, seed=6, scale=2, offset=5), 0.4, 0.4),
        ('anisotropic', generic(9, 7, seed=7, scale=0.5, offset=-1), 0.3, 0.75),
        ('tall', generic(13, 5, seed=8), 1.25, 0.5),
        ('float32', generic(8, 9, seed=10).astype('float32'), 0.5, 0.5),
        ('int', (generic(8, 9, seed=11) * 1000).astype('int64'), 0.5, 0.5),
        ('fortran', relayout(generic(8, 10, seed=12, offset=2), 'F'), 0.5, 0.4),
        ('strided', relayout(generic(7, 10, seed=13), 'strided'), 0.5, 0.5),
        ('readonly', relayout(generic(7, 10, seed=14), 'readonly'), 0.5, 0.5),
    ]
    z = generic(9, 10, seed=15, offset=3)
    z[0, 0] = z[4, 5] = z[8, 3] = np.nan
    out.append(('missing', z, 0.5, 0.6))
    z = np.full((12, 14), 4.0) + 0.1 * generic(12, 14, seed=16)
    z[3:8, 4:10] -= 3
    out.append(('cavity', z, 0.5, 0.5))
    z = generic(12, 12, seed=17)
    z -= z.mean()
    out.append(('centred', z, 0.5, 0.5))
    z = grooves(28, 28, 0.5, 0.5, 3.5, angle=0.0, noise=0.0)
    out.append(('aligned', z, 0.5, 0.5))
    return out


def profiles(tier='quick'):
    """label, height data, step"""
    z = generic(20, seed=24, offset=2)
    z[0] = z[7] = z[8] = np.nan
    return [
        ('generic', generic(17, seed=21, scale=2, offset=5), 0.4),
        ('float32', generic(16, seed=22).astype('float32'), 0.5),
        ('int', (generic(16, seed=23) * 1000).astype('int64'), 0.5),
        ('missing', z, 0.5),
        ('strided', relayout(generic(18, seed=25), 'strided'), 0.25),
        ('readonly', relayout(generic(18, seed=26), 'readonly'), 0.25),
    ]


def build(kind, entry):
    from surfalize import Profile, Surface
    data = entry[1].copy(order='K') if entry[0] != 'strided' else relayout(entry[1], 'strided')
    if entry[0] == 'readonly':
        data.flags.writeable = False
    if kind == 'surface':
        return Surface(data, entry[2], entry[3])
    return Profile(data, entry[2])
