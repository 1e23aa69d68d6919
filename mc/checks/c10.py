"""C10: autocorrelation function, Sal and Str follow their definitions."""
import itertools

import numpy as np
import scipy.ndimage as ndimage

from mc.util import Err, attempt, generic, grooves, relayout

PROPERTY = 'C10'
LEVEL = 'model_checking'
RULE = ('all shapes up to the bound (also single rows and columns) x textures (white, smooth, grooves of several '
        'directions, isolated features) x offsets and scales x equal and unequal step sizes x thresholds s, by position '
        'and by keyword; all matrices over {0, 1, 3} of a small shape for the function itself')
ASSUMPTIONS = ['between the lags the function is interpolated by cubic splines, as in the library']

SHAPES = {'quick': [(1, 14), (13, 1), (2, 9), (6, 9), (9, 6), (12, 12), (16, 7), (14, 25)],
          'thorough': [(1, 14), (13, 1), (2, 9), (9, 2), (3, 3), (6, 9), (9, 6), (5, 11), (12, 12), (16, 7), (8, 17),
                       (14, 25), (25, 14), (30, 31)]}
STEPS = [(1.0, 1.0), (0.25, 0.25), (0.5, 1.5), (2.0, 0.3)]
S = {'quick': [0.2, 0.5, 0.05, 0.83], 'thorough': [0.2, 0.5, 0.05, 0.83, 0.1, 0.3, 0.41, 0.66, 0.95]}
TEXTURES = ['white', 'smooth', 'grooves 0', 'grooves 35', 'grooves 90', 'grooves 140', 'spike', 'edge']
TRANSFORMS = [(1.0, 0.0), (0.01, 4.0), (-30.0, 500.0)]


def texture(name, shape):
    ny, nx = shape
    z = generic(ny, nx, seed=ny * 7 + nx)
    if name == 'smooth':
        k = np.exp(-np.linspace(-1.5, 1.5, 5) ** 2)
        if nx > 4:
            z = np.apply_along_axis(lambda r: np.convolve(r, k, 'same'), 1, z)
        if ny > 4:
            z = np.apply_along_axis(lambda r: np.convolve(r, k, 'same'), 0, z)
    elif name.startswith('grooves'):
        z = grooves(ny, nx, 1, 1, 5.3, angle=float(name.split()[1]), noise=0.3, seed=ny + nx)
    elif name == 'spike':
        z = 0.05 * z
        z[ny // 3, nx // 2] += 5
    elif name == 'edge':
        z = 0.05 * z
        z[:, nx // 2:] += 2
    return z


def tasks(tier):
    out = [(f'{t} {s}', ('texture', t, s, tier)) for s in SHAPES[tier] for t in TEXTURES]
    shapes = [(2, 3), (3, 2), (1, 5)] if tier == 'quick' else [(2, 3), (3, 2), (1, 7), (2, 4), (4, 2), (3, 3)]
    out += [(f'matrices {s}', ('matrices', None, s, tier)) for s in shapes]
    return out


def autocorrelation(z):
    """Mean product of the centred heights over all pairs of points at every lag."""
    ny, nx = z.shape
    d = z - z.mean()
    out = np.empty((2 * ny - 1, 2 * nx - 1))
    for ly in range(ny):
        for lx in range(-(nx - 1), nx):
            a = d[ly:, max(lx, 0):nx + min(lx, 0)]
            b = d[:ny - ly, max(-lx, 0):nx - max(lx, 0)]
            v = float((a * b).sum()) / a.size
            out[ny - 1 + ly, nx - 1 + lx] = v
            out[ny - 1 - ly, nx - 1 - lx] = v
    return out


def lobe_edge(acf, threshold):
    """Points outside the central lobe that touch it (breadth-first search)."""
    ny, nx = acf.shape
    centre = (ny // 2, nx // 2)
    inside, edge, todo = {centre}, set(), [centre]
    while todo:
        y, x = todo.pop()
        for v, u in ((y + 1, x), (y - 1, x), (y, x + 1), (y, x - 1)):
            if 0 <= v < ny and 0 <= u < nx and (v, u) not in inside:
                if acf[v, u] > threshold:
                    inside.add((v, u))
                    todo.append((v, u))
                else:
                    edge.add((v, u))
    return centre, sorted(edge)


def decay(acf, coefficients, threshold, centre, points, lengths, pick):
    """All admissible (decay length, resolution) for the closest / farthest points of the edge."""
    best = pick(lengths)
    chosen = [p for p, l in zip(points, lengths) if abs(l - best) <= 1e-9 * best]
    low = min(acf[p] for p in chosen)
    chosen = [p for p in chosen if acf[p] <= low + 1e-9 * abs(acf[centre])]
    out = []
    for p in chosen:
        t = np.linspace(0, 1, 1000)
        line = ndimage.map_coordinates(coefficients, [centre[0] + t * (p[0] - centre[0]),
                                                      centre[1] + t * (p[1] - centre[1])], order=3, prefilter=False)
        d = np.abs(line - threshold)
        for i in np.flatnonzero(d <= d.min() + 1e-9 * acf[centre]):
            out.append(best * t[i])
    return out, best / 999


def run(rec, name, args):
    from surfalize import Surface
    mode, what, shape, tier = args
    if mode == 'matrices':
        for values in itertools.product((0.0, 1.0, 3.0), repeat=shape[0] * shape[1]):
            z = np.array(values).reshape(shape)
            function(rec, f'{z.tolist()}', Surface(z, 0.5, 0.5), autocorrelation(z))
            rec.state(z)
        return
    base = texture(what, shape)
    for scale, offset in TRANSFORMS:
        z = base * scale + offset
        acf = autocorrelation(z)
        coefficients = ndimage.spline_filter(acf, order=3) if min(acf.shape) > 1 else None
        for i, (sx, sy) in enumerate(STEPS):
            if i and offset and tier == 'quick':
                continue
            for layout in ('C', 'F') if not i else ('C',):
                t = Surface(relayout(z, layout), sx, sy)
                key = f'{what} {shape} * {scale} + {offset} steps {sx},{sy} {layout}'
                rec.state(z, sx, sy, layout)
                function(rec, key, t, acf)
                for s in S[tier]:
                    lengths(rec, key, t, acf, s, sx, sy)


def function(rec, key, t, acf):
    with rec.guard(key):
        f = t.get_autocorrelation_function()
        rec.step()
        got = np.asarray(f.data)
        top = np.abs(acf).max()
        ok = got.shape == acf.shape and np.abs(got - acf).max() <= 1e-9 * top + 1e-12 * max(1, np.abs(t.data).max()) ** 2
        rec.check(ok, key + ': function', lambda: f'{key}: autocorrelation {got.tolist()}, expected {acf.tolist()}', key)
        rec.check(tuple(f.center) == (acf.shape[0] // 2, acf.shape[1] // 2), key + ': centre', f'{key}: {f.center}', key)
        rec.execution(key)


def lengths(rec, key, t, acf, s, sx, sy):
    centre = (acf.shape[0] // 2, acf.shape[1] // 2)
    threshold = s * acf[centre]
    if np.abs(acf - threshold).min() <= 1e-9 * acf[centre]:
        return
    _, edge = lobe_edge(acf, threshold)
    if not edge:
        return
    key = f'{key} s={s}'
    with rec.guard(key):
        # the interpolation treats single rows like the library does
        coefficients = ndimage.spline_filter(acf, order=3)
        dist = [float(np.hypot((y - centre[0]) * sy, (x - centre[1]) * sx)) for y, x in edge]
        short, dshort = decay(acf, coefficients, threshold, centre, edge, dist, min)
        long, dlong = decay(acf, coefficients, threshold, centre, edge, dist, max)
        calls = [((s,), {}), ((), dict(s=s))] + ([((), {})] if s == 0.2 else [])
        for args, kwargs in calls:
            sal = attempt(t.Sal, *args, **kwargs)
            str_ = attempt(t.Str, *args, **kwargs)
            rec.step(2)
            rec.outcome(repr(sal), repr(str_))
            ok = not isinstance(sal, Err) and any(abs(sal - v) <= 1.01 * dshort for v in short)
            rec.check(ok, key + ': Sal', f'{key}: Sal = {sal!r}, expected {short} (resolution {dshort})', key)
            ok = not isinstance(str_, Err) and any(
                (v - 1.01 * dshort) / (w + 1.01 * dlong) <= str_ <= (v + 1.01 * dshort) / max(w - 1.01 * dlong, 1e-300)
                for v in short for w in long)
            rec.check(ok, key + ': Str', f'{key}: Str = {str_!r}, expected {short} / {long}', key)
        rec.execution(key)
