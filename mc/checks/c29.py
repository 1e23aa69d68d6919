"""C29: plots show the data at its true extent and drawing changes nothing."""
import io
import itertools
import os
import pathlib
import shutil
import sys
import tempfile
import types

import numpy as np

from mc.util import Err, attempt, generic, geometry, relayout, same

PROPERTY = 'C29'
LEVEL = 'model_checking'
RULE = ('all kinds of plots x all shapes of the bound (also single rows and columns) x step sizes x number types, layouts '
        'and non-measured points x all combinations of the display options (limits, colours, layers, colour bar, cropping '
        'of frequencies, number of bars, level of detail, supplied axes, output file), before and after in-place operations')
ASSUMPTIONS = ['what is drawn is observed at the artists of the matplotlib axes, at the files written and at a stand-in for '
               'the three-dimensional renderer (pyvista)', 'images may be displaced by half a point']

GRIDS, PLOTTERS = [], []


def before_import():
    from PIL import Image
    pv = types.ModuleType('pyvista')

    class StructuredGrid:
        def __init__(self, x, y, z):
            self.x, self.y, self.z = (np.array(a, float) for a in (x, y, z))
            self.point_data = {}
            GRIDS.append(self)

    class Light:
        def __init__(self, *args, **kwargs):
            self.options = kwargs

    class Plotter:
        def __init__(self, *args, **kwargs):
            self.calls = [('Plotter', args, kwargs)]
            PLOTTERS.append(self)

        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            return lambda *args, **kwargs: self.calls.append((name, args, kwargs))

        def screenshot(self, target=None, **kwargs):
            self.calls.append(('screenshot', (), kwargs))
            image = Image.new('RGB', (48, 32), (255, 255, 255))
            for i in range(10, 30):
                image.putpixel((i, 9), (i, 200, 3))
            if target is None:
                return np.array(image)
            image.save(target, format='PNG')

    pv.StructuredGrid, pv.Plotter, pv.Light = StructuredGrid, Plotter, Light
    sys.modules['pyvista'] = pv


SHAPES = {'quick': [(1, 5), (6, 1), (2, 3), (4, 7), (7, 4), (5, 5)],
          'thorough': [(1, 5), (6, 1), (2, 3), (3, 2), (4, 7), (7, 4), (5, 5), (8, 8), (9, 13), (1, 2), (2, 2)]}
STEPS = [(0.5, 0.5), (0.25, 1.5)]


def heights(shape, tier):
    ny, nx = shape
    z = generic(ny, nx, seed=ny * 31 + nx, scale=3, offset=1)
    out = [('plain', z), ('float32', z.astype('float32')), ('int', (z * 50).astype('int16')),
           ('fortran', relayout(z, 'F')), ('strided', relayout(z, 'strided')), ('offset', z + 1000)]
    y, x = np.mgrid[:ny, :nx]
    out.append(('waves', 0.01 * np.sin(2 * np.pi * (x / nx + y / ny))))
    out.append(('constant', np.full(shape, 0.1)))
    m = z.copy()
    m.flat[(ny * nx) // 2] = np.nan
    out.append(('missing', m))
    return out


def subjects(tier):
    for shape in SHAPES[tier]:
        for steps in STEPS:
            for label, z in heights(shape, tier):
                if tier == 'quick' and steps[0] == steps[1] and label not in ('plain', 'missing'):
                    continue
                yield f'{shape} steps {steps} {label}', z, steps


def tasks(tier):
    out = []
    for shape in SHAPES[tier]:
        for kind in ('topography', 'layers', 'autocorrelation', 'fourier', 'angular', 'abbott', 'solid', 'profile'):
            if kind in ('fourier', 'topography', 'abbott', 'solid'):
                out += [(f'{kind} {shape} {part}', (kind, shape, tier, part, 2)) for part in range(2)]
            else:
                out.append((f'{kind} {shape}', (kind, shape, tier, 0, 1)))
    out.append(('images', ('images', None, tier, 0, 1)))
    out += [(f'depth {period}', ('depth', period, tier, 0, 1))
            for period in ((3, 4.5, 6, 7, 9.5, 12) if tier == 'quick' else (3, 3.5, 4, 4.5, 5, 6, 7, 8, 9, 9.5, 10, 12, 15))]
    return out


class Canvas:
    """Where to draw: new figure, own axes, one of several axes."""

    def __init__(self, kind):
        import matplotlib.pyplot as plt
        self.plt = plt
        self.ax = None
        if kind == 'axes':
            self.ax = plt.subplots()[1]
        elif kind == 'second':
            self.ax = plt.subplots(1, 2)[1][1]

    def kwargs(self):
        return {} if self.ax is None else {'ax': self.ax}

    def close(self):
        self.plt.close('all')


def state(t):
    names = ('Sa', 'Sq', 'Sdq', 'Sz') if t.data.ndim == 2 else ('Ra', 'Rq', 'Rdq', 'Rt')
    return (t.data.dtype.str, t.data.tobytes(), geometry(t), tuple(repr(attempt(getattr(t, n))) for n in names))


def unchanged(rec, key, t, before):
    rec.check(state(t) == before, key + ':changed', 'the object is different after drawing')


def written(rec, key, path):
    from PIL import Image
    if rec.check(os.path.exists(path), key + ':file', f'{path} was not written'):
        with open(path, 'rb') as f:
            im = attempt(lambda: np.array(Image.open(io.BytesIO(f.read())).convert('RGB')))
        rec.check(not isinstance(im, Err) and im.std() > 0, key + ':file', 'the file written shows nothing')
        os.remove(path)


def only_image(rec, key, ax):
    """The image drawn in the axes: (values, mask, extent with the first row at the top, artist)."""
    if not rec.check(len(ax.images) == 1, key + ':image', lambda: f'{len(ax.images)} images drawn'):
        return None
    im = ax.images[0]
    a = im.get_array()
    left, right, bottom, top = (float(v) for v in im.get_extent())
    if im.origin == 'lower':
        a, (bottom, top) = a[::-1], (top, bottom)
    return a, (left, right, bottom, top), im


def has_bar(ax):
    return any(im.colorbar is not None for im in ax.images)


def near(a, b, tol=1e-9):
    return bool(np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <=
                       tol * max(1e-300, float(np.max(np.abs(b))))))


def run(rec, name, args):
    kind, shape, tier, part, parts = args
    scratch = tempfile.mkdtemp(prefix='c29-', dir=os.environ.get('VERIF_SCRATCH'))
    try:
        if kind == 'images':
            return images(rec, scratch)
        if kind == 'depth':
            return depth(rec, shape, tier)
        todo = [s for s in subjects(tier) if s[0].startswith(f'{shape} ')]
        for i, (label, z, steps) in enumerate(todo):
            if i % parts == part and (kind == 'fourier' or not label.endswith('constant')):
                globals()[kind](rec, f'{kind}:{label}', z, steps, scratch, tier)
    finally:
        import matplotlib.pyplot as plt
        plt.close('all')
        shutil.rmtree(scratch, ignore_errors=True)


def make(z, steps, **kwargs):
    from surfalize import Surface
    return Surface(z.copy(order='K') if z.flags.c_contiguous or z.flags.f_contiguous else relayout(z, 'strided'), *steps,
                   **kwargs)


# -- profiles of the depth ---------------------------------------------------------------------------------------------

def depth(rec, period, tier):
    """Drawing the evaluated profiles does not influence the depth: same result (or the same refusal) with and without"""
    import matplotlib.pyplot as plt
    widths = (20, 24, 31, 40) if tier == 'quick' else range(20, 64, 3)
    for n, across, phase in itertools.product(widths, (False, True), range(0, 7)):
        y, x = np.mgrid[:6, :n]
        z = np.sin(2 * np.pi * x / period + phase) + 0.001 * np.sin(3.1 * y + x)
        z = z.T.copy() if across else z
        for count, plots in ((2, [0]), (2, [0, 1]), (5, (4,)), (3, [7]), (3, [])):
            case = dict(period=period, points=n, across=across, phase=phase, profiles=count, plots=list(plots))
            rec.execution(case)
            t = make(z, (0.5, 0.5))
            plain = attempt(make(z, (0.5, 0.5)).depth, count)
            before = state(t)
            plt.close('all')
            shown = attempt(t.depth, count, plot=plots)
            drawn = plt.get_fignums()
            rec.step(2)
            rec.outcome('depth', isinstance(plain, Err))
            rec.check(same(plain, shown), 'depth:plots', lambda: f'depth is {plain!r}, with plots {shown!r}', case)
            if not isinstance(plain, Err):
                rec.check(len(drawn) == len([p for p in plots if p < count]), 'depth:figures',
                          lambda: f'{len(drawn)} figures', case)
            unchanged(rec, 'depth', t, before)
        plt.close('all')


# -- two-dimensional view ----------------------------------------------------------------------------------------------

LIMITS = [{}, {'vmin': -0.5}, {'vmax': 2.5}, {'vmin': 0, 'vmax': 1}]
COLOURS = [{}, {'cmap': 'viridis'}, {'maskcolor': 'red'}, {'cmap': 'gray', 'maskcolor': 'lime'}]
BARS = [{}, {'show_cbar': True}, {'show_cbar': False}, {'show_cbar': None}]


def topography(rec, key, z, steps, scratch, tier):
    full = key.endswith('plain') or key.endswith('missing')
    t = make(z, steps)
    combos = list(itertools.product(LIMITS, COLOURS, BARS, ['new', 'axes'])) if full and tier == 'thorough' else (
        [(a, b, c, d) for a in LIMITS for b in COLOURS for c, d in ((BARS[0], 'new'), (BARS[2], 'second'))] if full else
        [(a, {}, {}, 'new') for a in LIMITS[:2]]) + [({}, {}, c, d) for c in BARS for d in ('new', 'axes', 'second')]
    for i, (limits, colours, bar, where) in enumerate(combos):
        show_topography(rec, f'{key}:{limits} {colours} {bar} {where}', t, limits, colours, bar, where,
                        os.path.join(scratch, 'x.png') if i % 12 == 0 else None)
    for op in ('zero', 'invert', 'level') + (('fill_nonmeasured',) if key.endswith('missing') else ()):
        t = make(z, steps)
        canvas = Canvas('new')
        attempt(t.plot_2d)
        canvas.close()
        if isinstance(attempt(getattr(t, op), inplace=True), Err):
            continue
        show_topography(rec, f'{key}:after {op}', t, {}, {}, {}, 'new', None)
    # show() displays the same
    t = make(z, steps)
    import matplotlib.pyplot as plt
    shown = []
    original, plt.show = plt.show, lambda *a, **k: shown.append(plt.gcf())
    try:
        with rec.guard(f'{key}:show'):
            t.show(cmap='viridis', maskcolor='red')
            rec.step()
            if rec.check(len(shown) == 1, f'{key}:show:times', f'{len(shown)} figures shown'):
                view_of(rec, f'{key}:show', t, t.data, shown[0].axes[0], {}, 'viridis', 'red')
                rec.execution()
    finally:
        plt.show = original
        plt.close('all')


def view_of(rec, key, t, data, ax, limits, cmap, maskcolor):
    import matplotlib.colors as mcolors
    got = only_image(rec, key, ax)
    if got is None:
        return
    a, extent, im = got
    mask = np.isnan(np.asarray(data, float))
    shown = np.ma.filled(np.ma.masked_invalid(np.ma.asarray(a).astype(float)), np.nan)
    rec.check(same(shown, np.asarray(data, float), rtol=1e-6), key + ':heights', 'the image does not hold the heights')
    w, h = (t.data.shape[1] - 1) * t.step_x, (t.data.shape[0] - 1) * t.step_y
    if w > 0 and h > 0:
        tol = 1e-9
        rec.check(abs(extent[0]) <= t.step_x and abs(extent[2]) <= t.step_y and
                  abs(extent[1] - extent[0] - w) <= tol * w and abs(extent[3] - extent[2] - h) <= tol * h, key + ':extent',
                  lambda: f'image from {extent} instead of (0, {w}, 0, {h})')
    low, high = im.get_clim()
    measured = np.asarray(data, float)[~mask]
    want = (limits.get('vmin', measured.min()), limits.get('vmax', measured.max()))
    rec.check(near((low, high), want, 1e-6), key + ':limits', lambda: f'colours from {(low, high)} instead of {want}')
    rec.check(im.get_cmap().name == cmap, key + ':cmap', lambda: f'colour map {im.get_cmap().name}')
    if mask.any():
        i = tuple(np.argwhere(mask)[0])
        rgba = im.to_rgba(np.ma.masked_invalid(np.asarray(data, float)))[i]
        rec.check(np.allclose(rgba, mcolors.to_rgba(maskcolor)), key + ':mask colour', lambda: f'{rgba}')


def show_topography(rec, key, t, limits, colours, bar, where, path):
    import matplotlib.pyplot as plt
    before = state(t)
    canvas = Canvas(where)
    axes_before = len(canvas.ax.figure.axes) if canvas.ax is not None else 0
    bad = tuple(plt.get_cmap(colours.get('cmap', 'jet')).get_bad())
    with rec.guard(key):
        kwargs = dict(limits, **colours, **bar, **canvas.kwargs())
        if path:
            kwargs['save_to'] = path if len(key) % 2 else pathlib.Path(path)
        fig, ax = t.plot_2d(**kwargs)
        rec.step()
        rec.check(ax.figure is fig and (canvas.ax is None or ax is canvas.ax), key + ':axes', 'drawn somewhere else')
        view_of(rec, key, t, t.data, ax, limits, colours.get('cmap', 'jet'), colours.get('maskcolor', 'black'))
        bar_drawn = has_bar(ax)
        want = bar.get('show_cbar') is not False
        rec.check(bar_drawn == want, key + ':colour bar', lambda: f'colour bar drawn: {bar_drawn}')
        legend = ax.get_legend()
        rec.check((legend is not None) == bool(np.isnan(np.asarray(t.data, float)).any()), key + ':legend',
                  'legend of the non-measured points')
        rec.check('x' in ax.get_xlabel() and 'y' in ax.get_ylabel(), key + ':labels', 'labels of the axes')
        rec.check(tuple(plt.get_cmap(colours.get('cmap', 'jet')).get_bad()) == bad, key + ':shared map',
                  'the colour map of matplotlib was changed')
        if path:
            written(rec, key, path)
        unchanged(rec, key, t, before)
        rec.execution({'plot': key})
        rec.state(key, t.data)
    canvas.close()


def layers(rec, key, z, steps, scratch, tier):
    """Image layers are shown instead of the heights on request."""
    from surfalize.image import Image
    ny, nx = z.shape
    grey = (generic(ny, nx, seed=3) * 90 + 120).astype('uint8')
    colour = np.stack([grey, np.roll(grey, 1), 255 - grey], axis=-1)
    t = make(z, steps, image_layers={'Grey': Image(grey.copy()), 'Colour': Image(colour.copy())})
    for layer, data in (('Topography', None), ('Grey', grey), ('Colour', colour), ('none', None)):
        for bar in BARS:
            k = f'{key}:{layer} {bar}'
            before = state(t)
            canvas = Canvas('new')
            with rec.guard(k):
                got = attempt(t.plot_2d, layer=layer, **bar)
                rec.step()
                if layer == 'none':
                    rec.check(isinstance(got, Err), k + ':unknown', 'an unknown layer was drawn')
                elif rec.check(not isinstance(got, Err), k + ':error', repr(got)):
                    fig, ax = got
                    got = only_image(rec, k, ax)
                    if got is not None:
                        a, extent, im = got
                        want = np.asarray(t.data, float) if data is None else data
                        shown = np.ma.filled(np.ma.masked_invalid(np.ma.asarray(a).astype(float)), np.nan)
                        rec.check(same(shown, want.astype(float), rtol=1e-6), k + ':pixels', 'the layer is not shown')
                        w, h = (nx - 1) * t.step_x, (ny - 1) * t.step_y
                        if w > 0 and h > 0:
                            rec.check(near(extent, (0, w, 0, h)), k + ':extent', lambda: f'{extent}')
                        if layer == 'Grey':
                            rgba = im.to_rgba(a).reshape(-1, 4)
                            rec.check(np.allclose(rgba[:, 0], rgba[:, 1]) and np.allclose(rgba[:, 0], rgba[:, 2]) and
                                      (rgba[grey.argmax(), 0] > rgba[grey.argmin(), 0]), k + ':grey', 'colours')
                        bar_drawn = has_bar(ax)
                        shows = bar.get('show_cbar')
                        rec.check(bar_drawn == (layer == 'Topography' if shows is None else shows), k + ':colour bar',
                                  lambda: f'colour bar drawn: {bar_drawn}')
                        rec.check((ax.get_legend() is not None) == (layer == 'Topography' and key.endswith('missing')),
                                  k + ':legend', 'legend of the non-measured points')
                unchanged(rec, k, t, before)
                rec.check(np.array_equal(t.image_layers['Grey'].data, grey), k + ':layer changed', 'layer changed')
                rec.execution()
                rec.state(k, t.data)
            canvas.close()


# -- functions of the surface ------------------------------------------------------------------------------------------

def autocorrelation(rec, key, z, steps, scratch, tier):
    from mc.checks.c10 import autocorrelation as direct
    t = make(z, steps)
    for i, (where, cmap, bar) in enumerate(itertools.product(('new', 'axes', 'second'), (None, 'viridis'),
                                                             (None, True, False))):
        k = f'{key}:{where} {cmap} {bar}'
        before = state(t)
        canvas = Canvas(where)
        with rec.guard(k):
            kwargs = canvas.kwargs()
            if cmap:
                kwargs['cmap'] = cmap
            if bar is not None:
                kwargs['show_cbar'] = bar
            path = os.path.join(scratch, 'a.png') if i == 0 else None
            if path:
                kwargs['save_to'] = path
            got = attempt(t.plot_autocorrelation, **kwargs)
            rec.step()
            if key.endswith('missing'):
                rec.check(isinstance(got, Err) and got.kind == 'ValueError', k + ':missing',
                          'drawn in spite of non-measured points')
            elif rec.check(not isinstance(got, Err), k + ':error', repr(got)):
                fig, ax = got
                rec.check(ax.figure is fig and (canvas.ax is None or ax is canvas.ax), k + ':axes', 'drawn somewhere else')
                got = only_image(rec, k, ax)
                if got is not None:
                    a, extent, im = got
                    ref = direct(np.asarray(z, float))
                    ny, nx = z.shape
                    tol = 1e-5 if key.endswith('float32') else 1e-9
                    rec.check(a.shape == ref.shape and np.max(np.abs(a - ref)) <= tol * max(np.abs(ref).max(), 1e-12) *
                              (1e5 if key.endswith('offset') else 1), k + ':values',
                              'the image is not the autocorrelation function')
                    w, h = (nx - 1) * t.step_x, (ny - 1) * t.step_y
                    if w > 0 and h > 0:
                        rec.check(near(extent, (-w, w, -h, h), 1e-9), k + ':extent', lambda: f'lags {extent}')
                    rec.check(im.get_cmap().name == (cmap or 'jet'), k + ':cmap', 'colour map')
                    drawn = has_bar(ax)
                    rec.check(drawn == (bar is not False), k + ':colour bar', f'colour bar drawn: {drawn}')
                if path:
                    written(rec, k, path)
            unchanged(rec, k, t, before)
            rec.execution()
            rec.state(k, z)
        canvas.close()


def dft(z):
    """Discrete Fourier transform by its definition, zero frequency at n//2 (row order of increasing frequency)."""
    ny, nx = z.shape
    ky, kx = np.arange(ny) - ny // 2, np.arange(nx) - nx // 2
    ey = np.exp(-2j * np.pi * np.outer(ky, np.arange(ny)) / ny)
    ex = np.exp(-2j * np.pi * np.outer(np.arange(nx), kx) / nx)
    return np.abs(ey @ z @ ex), ky, kx


def fourier(rec, key, z, steps, scratch, tier):
    if min(z.shape) < 2:
        return
    t = make(z, steps)
    ny, nx = z.shape
    fy, fx = 1 / ((ny - 1) * t.step_y), 1 / ((nx - 1) * t.step_x)      # distance of the frequencies
    # without positive frequencies (two points) there is nothing to crop to
    crops_x = [None] + [k for k in range(1, nx // 2 + 2) if nx > 2]
    crops_y = [None] + [k for k in range(1, ny // 2 + 2) if ny > 2]
    combos = list(itertools.product(crops_x, crops_y, [(True, False, True, True)]))
    combos += [(None, None, c) for c in itertools.product((True, False), repeat=4)]
    combos += [(crops_x[-1] and 1, crops_y[-1] and 1, c) for c in itertools.product((True, False), repeat=3) for c in [c + (True,)]]
    for i, (cx, cy, (log, hanning, subtract, adjust)) in enumerate(combos):
        k = f'{key}:crop {cx},{cy} log {log} hanning {hanning} mean {subtract} adjust {adjust}'
        before = state(t)
        canvas = Canvas(('new', 'axes', 'second')[i % 3])
        with rec.guard(k):
            kwargs = dict(canvas.kwargs(), log=log, hanning=hanning, subtract_mean=subtract, adjust_colormap=adjust)
            if (log, hanning, subtract, adjust) == (True, False, True, True):
                kwargs = canvas.kwargs()
            if cx is not None:
                kwargs['fxmax'] = cx * fx * 1.1
            if cy is not None:
                kwargs['fymax'] = cy * fy * 0.9
            if i % 4 == 0:
                kwargs['cmap'] = 'viridis'
            path = os.path.join(scratch, 'f.png') if i in (0, len(combos) - 1) else None
            if path:
                kwargs['save_to'] = path
            got = attempt(t.plot_fourier_transform, **kwargs)
            rec.step()
            if key.endswith('missing'):
                rec.check(isinstance(got, Err), k + ':missing', 'drawn in spite of non-measured points')
            elif rec.check(not isinstance(got, Err), k + ':error', repr(got)):
                fig, ax = got
                rec.check(ax.figure is fig and (canvas.ax is None or ax is canvas.ax), k + ':axes', 'drawn somewhere else')
                got = only_image(rec, k, ax)
                data = np.asarray(z, float)
                if subtract:
                    data = data - data.mean()
                if hanning:
                    win = [0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / (n - 1)) for n in (ny, nx)]
                    data = data * np.outer(*win)
                ref, ky, kx = dft(data)
                scale = ref.max()
                # the frequencies that lie between -fmax and fmax, where fmax is rounded to an existing frequency
                sel_x = np.ones(nx, bool) if cx is None else np.abs(kx) <= min(round(cx * 1.1), kx.max())
                sel_y = np.ones(ny, bool) if cy is None else np.abs(ky) <= min(round(cy * 0.9 + 1e-9), ky.max())
                ref = ref[sel_y][:, sel_x]
                if got is not None:
                    a, extent, im = got
                    a = np.asarray(a, float)
                    if rec.check(a.shape == ref.shape, k + ':crop', lambda: f'{a.shape} frequencies instead of {ref.shape}'):
                        shown = 10 ** a if log else a
                        tol = 1e-4 if key.endswith('float32') else 1e-8 * (1 + abs(data).max() * data.size / max(scale, 1e-9))
                        rec.check(np.max(np.abs(shown - ref)) <= tol * scale + 1e-9, k + ':values',
                                  'the image is not the magnitude of the Fourier transform')
                        qx, qy = kx[sel_x], ky[sel_y]
                        want = (qx[0] * fx, qx[-1] * fx, qy[-1] * fy, qy[0] * fy)
                        rec.check(abs(extent[0] - want[0]) < 0.6 * fx and abs(extent[1] - want[1]) < 0.6 * fx and
                                  abs(extent[2] - want[2]) < 0.6 * fy and abs(extent[3] - want[3]) < 0.6 * fy,
                                  k + ':extent', lambda: f'frequencies {extent} instead of {want}')
                        values = np.log10(ref + 1e-10) if log else ref
                        low, high = im.get_clim()
                        rec.check(low <= high, k + ':colours', lambda: f'colours from {low} to {high}')
                        if adjust and values.mean() < 0.69 * values.max() and not key.endswith('float32'):
                            rec.check(near((low, high), (values.mean(), 0.7 * values.max()), 1e-3) or not subtract,
                                      k + ':colours', lambda: f'colours from {low} to {high}')
                        elif not adjust:
                            rec.check(near((low, high), (values.min(), values.max()), 1e-3) or log, k + ':colours',
                                      lambda: f'colours from {low} to {high}')
                        rec.check(im.get_cmap().name == kwargs.get('cmap', 'inferno'), k + ':cmap', 'colour map')
                if path:
                    written(rec, k, path)
            unchanged(rec, k, t, before)
            rec.execution()
            rec.state(k, z)
        canvas.close()


def angular(rec, key, z, steps, scratch, tier):
    if min(z.shape) < 2:
        return
    t = make(z, steps)
    ny, nx = z.shape
    for i, (step, where) in enumerate(itertools.product((None, 1, 0.5, 5, 30, 90), ('new', 'axes', 'second'))):
        k = f'{key}:{step} {where}'
        before = state(t)
        canvas = Canvas(where)
        place = canvas.ax.get_subplotspec().get_geometry() if canvas.ax is not None else None
        figure = canvas.ax.figure if canvas.ax is not None else None
        with rec.guard(k):
            kwargs = canvas.kwargs()
            if step is not None:
                kwargs['angle_step'] = step
            got = attempt(t.plot_angular_power_spectrum, **kwargs)
            rec.step()
            if key.endswith('missing'):
                rec.check(isinstance(got, Err), k + ':missing', 'drawn in spite of non-measured points')
            elif rec.check(not isinstance(got, Err), k + ':error', repr(got)):
                fig, ax = got
                rec.check(ax.figure is fig and (figure is None or fig is figure), k + ':figure', 'drawn somewhere else')
                if place is not None:
                    rec.check(ax.get_subplotspec().get_geometry()[:3] == place[:3], k + ':place', 'drawn at another place')
                rec.check(ax.name == 'polar', k + ':polar', 'axes are not polar')
                if rec.check(len(ax.lines) == 1, k + ':line', 'number of lines'):
                    x, y = (np.asarray(v, float) for v in ax.lines[0].get_data())
                    spectrum(rec, k, np.asarray(z, float), t, np.rad2deg(x), y, step or 1)
                    direct = attempt(t.get_fourier_transform().angular_power_spectrum, step or 1)
                    rec.check(not isinstance(direct, Err) and same(np.array(direct[1], float), y), k + ':direct',
                              'the plot differs from angular_power_spectrum()')
            unchanged(rec, k, t, before)
            rec.execution()
            rec.state(k, z)
        canvas.close()


def spectrum(rec, key, z, t, angles, power, step):
    """Every class holds the power of the frequencies whose direction lies in it; directions at the limit of two classes
    may count for either."""
    ny, nx = z.shape
    n = int(round(180 / step))
    if not rec.check(len(angles) == n and near(angles, np.arange(n) * step), key + ':angles', 'angles of the classes'):
        return
    ref, ky, kx = dft(z - z.mean())
    total = float((ref ** 2).sum())
    fy, fx = ky / ((ny - 1) * t.step_y), kx / ((nx - 1) * t.step_x)
    direction = np.rad2deg(np.arctan2(fy[:, None], fx[None, :])) % 180
    weights = (ref ** 2).ravel()
    d = direction.ravel()
    tol = (1e-4 if key.count('float32') else 1e-7) * total + 1e-9
    rec.check(abs(power.sum() - total) <= tol, key + ':total', lambda: f'{power.sum()} instead of {total}')
    fuzzy = (d < 1e-7) | (d > 180 - 1e-7)
    surely = np.where(fuzzy, 0, weights)
    loose = float(weights[fuzzy].sum())
    running = np.cumsum(power)
    for i in range(n - 1):
        edge = (i + 1) * step
        low = float(surely[d < edge - 1e-7].sum())
        high = float(surely[d < edge + 1e-7].sum()) + loose
        if not rec.check(low - tol <= running[i] <= high + tol, key + ':classes',
                         lambda: f'power up to {edge} degrees is {running[i]}, not in [{low}, {high}]'):
            break


# -- material ratio curve ----------------------------------------------------------------------------------------------

def segments(ax):
    return [tuple(np.asarray(v, float) for v in line.get_data()) for line in ax.lines]


def abbott(rec, key, z, steps, scratch, tier):
    from surfalize import Profile
    heights = np.asarray(z, float)
    for kind in ('surface', 'profile'):
        if kind == 'profile' and heights.size < 3:
            continue
        t = make(z, steps) if kind == 'surface' else Profile(z.ravel().copy(), steps[0])
        for i, nbars in enumerate((None, 1, 2, 7, 20, 50)):
            k = f'{key}:{kind} bars {nbars}'
            before = state(t)
            canvas = Canvas('new')
            with rec.guard(k):
                kwargs = {} if nbars is None else {'nbars': nbars}
                path = os.path.join(scratch, 'b.png') if i == 1 else None
                if path:
                    kwargs['save_to'] = path
                got = attempt(t.plot_abbott_curve, **kwargs)
                rec.step()
                if key.endswith('missing'):
                    rec.check(isinstance(got, Err), k + ':missing', 'drawn in spite of non-measured points')
                elif rec.check(not isinstance(got, Err), k + ':error', repr(got)):
                    curve_plot(rec, k, heights.ravel(), got, nbars or 20)
                    if path:
                        written(rec, k, path)
                unchanged(rec, k, t, before)
                rec.execution()
                rec.state(k, z)
            canvas.close()
        k = f'{key}:{kind} study'
        before = state(t)
        canvas = Canvas('new')
        with rec.guard(k):
            path = os.path.join(scratch, 's.png')
            got = attempt(t.plot_functional_parameter_study, save_to=path)
            rec.step()
            if key.endswith('missing'):
                rec.check(isinstance(got, Err), k + ':missing', 'drawn in spite of non-measured points')
            elif rec.check(not isinstance(got, Err), k + ':error', repr(got)):
                study(rec, k, t, kind, heights.ravel(), got)
                written(rec, k, path)
            unchanged(rec, k, t, before)
            rec.execution()
            rec.state(k, z)
        canvas.close()


def is_curve(rec, key, h, ratio, height):
    """height = quantile at 100 - ratio; the fraction of points above is the ratio up to the interpolation"""
    n = len(h)
    ok = ratio.min() >= -1e-9 and ratio.max() <= 100 + 1e-9 and abs(height.max() - h.max()) < 1e-6 * (1 + abs(h).max()) and \
        abs(height.min() - h.min()) < 1e-6 * (1 + abs(h).max())
    s = np.sort(h)
    eps = 1e-6 * (1 + abs(h).max())
    above = n - np.searchsorted(s, height + eps)
    least = n - np.searchsorted(s, height - eps)
    count = ratio / 100 * n
    ok = ok and bool(np.all(above <= count + 1) and np.all(least >= count - 1))
    rec.check(ok, key, 'the curve is not the material ratio curve')


def curve_plot(rec, key, h, got, nbars):
    fig, axes = got
    bars = [(p.get_x(), p.get_y(), p.get_width(), p.get_height()) for ax in axes for p in ax.patches]
    lines = [s for ax in axes for s in segments(ax)]
    lo, hi = h.min(), h.max()
    span = hi - lo
    if rec.check(len(bars) == nbars, key + ':bars', lambda: f'{len(bars)} bars'):
        tol = 1e-6 * (span + abs(h).max())
        n = len(h)
        rec.check(abs(sum(b[2] for b in bars) - 100) < 1e-6, key + ':total', 'the bars do not add up to 100 %')
        for x, y, w, d in bars:
            # points at the limits of a bar may count for either of two
            inside = np.count_nonzero((h > y + tol) & (h < y + d - tol)) / n * 100
            around = np.count_nonzero((h > y - tol) & (h < y + d + tol)) / n * 100
            if not rec.check(abs(x) < 1e-9 and abs(d - span / nbars) < tol and inside - 1e-6 <= w <= around + 1e-6,
                             key + ':bar', lambda: f'bar {(x, y, w, d)} holds {inside} to {around} %'):
                break
        rec.check(abs(min(b[1] for b in bars) - lo) < tol and abs(max(b[1] + b[3] for b in bars) - hi) < tol,
                  key + ':range', 'the bars do not cover the heights')
    if rec.check(len(lines) == 1, key + ':curve', 'number of curves'):
        is_curve(rec, key + ':curve', h, *lines[0])
    y0, y1 = axes[0].get_ylim()
    rec.check(near((min(y0, y1), max(y0, y1)), (lo, hi), 1e-6), key + ':limits', lambda: f'{(y0, y1)}')


def study(rec, key, t, kind, h, got):
    fig, ax = got
    pre = 'S' if kind == 'surface' else 'R'
    sk, spk, svk, mr1, mr2 = (float(getattr(t, pre + n)()) for n in ('k', 'pk', 'vk', 'mr1', 'mr2'))
    tol = 1e-6 * (abs(h).max() + np.ptp(h))
    lines = segments(ax)
    horizontal = sorted(float(y[0]) for x, y in lines if len(y) == 2 and y[0] == y[1] and x[0] != x[1])
    vertical = [(float(x[0]), float(max(y))) for x, y in lines if len(x) == 2 and x[0] == x[1]]
    straight = [s for s in lines if len(s[0]) > 2 and np.ptp(np.diff(s[1])) <= 1e-6 * max(np.ptp(s[1]), 1e-12) and len(s[0]) < 100]
    curves = [s for s in lines if len(s[0]) >= 100]
    if not rec.check(len(straight) == 1 and len(curves) == 1, key + ':lines', 'equivalent line and curve'):
        return
    is_curve(rec, key + ':curve', h, *curves[0])
    x, y = straight[0]
    upper = float(y[0] + (0 - x[0]) * (y[-1] - y[0]) / (x[-1] - x[0]))
    lower = float(y[0] + (100 - x[0]) * (y[-1] - y[0]) / (x[-1] - x[0]))
    rec.check(abs(upper - lower - sk) < tol, key + ':core', lambda: f'the line spans {upper - lower}, core height is {sk}')
    want = sorted([upper, lower, upper + spk, lower - svk])
    rec.check(len(horizontal) == 4 and near(np.array(horizontal) - upper + 1 + np.ptp(h), np.array(want) - upper + 1 + np.ptp(h), 1e-6),
              key + ':levels', lambda: f'levels {horizontal} instead of {want}')
    found = sorted(v[0] for v in vertical)
    rec.check(len(found) == 2 and abs(found[0] - min(mr1, mr2)) < 1e-6 and abs(found[1] - max(mr1, mr2)) < 1e-6,
              key + ':ratios', lambda: f'ratios {found} instead of {(mr1, mr2)}')
    areas = sorted(abs(shoelace(np.asarray(p.get_xy(), float))) for p in ax.patches)
    want = sorted([spk * mr1 / 2, svk * (100 - mr2) / 2])
    rec.check(len(areas) == 2 and all(abs(a - b) < tol * 100 for a, b in zip(areas, want)), key + ':triangles',
              lambda: f'triangle areas {areas} instead of {want}')


def shoelace(p):
    x, y = p[:, 0], p[:, 1] - p[0, 1]
    return 0.5 * float(np.sum(x * np.roll(y, -1) - y * np.roll(x, -1)))


# -- profiles ----------------------------------------------------------------------------------------------------------

def profile(rec, key, z, steps, scratch, tier):
    from surfalize import Profile
    import matplotlib.pyplot as plt
    for step in steps:
        for where in ('new', 'axes', 'second', 'show'):
            t = Profile(z.ravel().copy(), step)
            k = f'{key}:step {step} {where}'
            before = state(t)
            canvas = Canvas(where)
            shown = []
            original, plt.show = plt.show, lambda *a, **kw: shown.append(plt.gcf())
            try:
                with rec.guard(k):
                    if where == 'show':
                        t.show()
                        rec.check(len(shown) == 1, k + ':times', f'{len(shown)} figures shown')
                        ax = shown[0].axes[0]
                    else:
                        fig, ax = t.plot_2d(**canvas.kwargs())
                        rec.check(ax.figure is fig and (canvas.ax is None or ax is canvas.ax), k + ':axes', 'somewhere else')
                    rec.step()
                    lines = segments(ax)
                    if rec.check(len(lines) == 1, k + ':line', 'number of lines'):
                        x, y = lines[0]
                        rec.check(same(y, np.asarray(z, float).ravel(), rtol=1e-7), k + ':heights', 'other heights')
                        n = z.size
                        rec.check(np.max(np.abs(x - np.arange(n) * step)) <= 1e-9 * n * step, k + ':positions',
                                  lambda: f'positions up to {x[-1]} instead of {(n - 1) * step}')
                        rec.check(near(ax.get_xlim(), (0, (n - 1) * step)), k + ':limits', lambda: f'{ax.get_xlim()}')
                    unchanged(rec, k, t, before)
                    rec.execution()
                    rec.state(k, z)
            finally:
                plt.show = original
            canvas.close()


# -- three-dimensional rendering ---------------------------------------------------------------------------------------

VIEWS = [dict(), dict(vertical_angle=20), dict(horizontal_angle=30), dict(zoom=2), dict(vertical_angle=70, horizontal_angle=-50),
         dict(scale=3), dict(light=0.8), dict(light_position=(1.0, 2.0, 3.0)), dict(show_grid=False),
         dict(perspective_projection=True), dict(perspective_projection=False), dict(cmap='viridis'), dict(colorbar=False),
         dict(crop_white=False), dict(crop_white=False, colorbar=False), dict(interactive=True),
         dict(interactive=True, window_title='mine'), dict(interactive=True, save_to='x.png')]


def solid(rec, key, z, steps, scratch, tier):
    """The scene consists of the points of the surface, seen from the requested direction."""
    t = make(z, steps)
    ny, nx = z.shape
    full = key.endswith('plain') or key.endswith('missing')
    for options in (VIEWS if full else VIEWS[:3]):
        k = f'{key}:{options}'
        before = state(t)
        GRIDS.clear()
        PLOTTERS.clear()
        kwargs = dict(options)
        path = None
        if 'save_to' in kwargs or not options:
            path = kwargs['save_to'] = os.path.join(scratch, 'r.png')
        with rec.guard(k):
            got = attempt(t.plot_3d, **kwargs)
            rec.step()
            if options.get('interactive') and path:
                rec.check(isinstance(got, Err) and not os.path.exists(path), k + ':interactive', 'no error')
            elif rec.check(not isinstance(got, Err), k + ':error', repr(got)):
                scene(rec, k, t, options)
                pixels(rec, k, got, options)
                if path:
                    written(rec, k, path)
            unchanged(rec, k, t, before)
            rec.execution()
            rec.state(k, z)
    if full and min(ny, nx) >= 4 and not key.endswith('missing'):
        for detail in (50, 75):
            GRIDS.clear()
            PLOTTERS.clear()
            k = f'{key}:detail {detail}'
            with rec.guard(k):
                before = state(t)
                got = attempt(t.plot_3d, level_of_detail=detail)
                rec.step()
                if rec.check(not isinstance(got, Err) and len(GRIDS) == 1, k + ':error', repr(got)):
                    g = GRIDS[0]
                    want = (round(ny * detail / 100), round(nx * detail / 100))
                    rec.check(abs(g.z.shape[0] - want[0]) <= 1 and abs(g.z.shape[1] - want[1]) <= 1, k + ':points',
                              lambda: f'{g.z.shape} points')
                    w, h = (nx - 1) * t.step_x, (ny - 1) * t.step_y
                    rec.check(abs(np.ptp(g.x) - w) < 2.1 * t.step_x * 100 / detail and
                              abs(np.ptp(g.y) - h) < 2.1 * t.step_y * 100 / detail, k + ':extent',
                              lambda: f'{np.ptp(g.x)} x {np.ptp(g.y)} instead of {w} x {h}')
                    corners = [(0, 0), (0, -1), (-1, 0), (-1, -1)]
                    rec.check(all(abs(g.z[c] - t.data[c]) < 1e-6 * (1 + abs(t.data).max()) for c in corners), k + ':corners',
                              'the corners of the surface')
                unchanged(rec, k, t, before)
                rec.execution()


def scene(rec, key, t, options):
    if not rec.check(len(GRIDS) == 1 and len(PLOTTERS) == 1, key + ':scene', f'{len(GRIDS)} grids'):
        return
    g, calls = GRIDS[0], PLOTTERS[0].calls
    ny, nx = t.data.shape
    y, x = np.mgrid[:ny, :nx]
    z = np.asarray(t.data, float)
    w, h = (nx - 1) * t.step_x, (ny - 1) * t.step_y
    rec.check(same(g.z, z, rtol=1e-9), key + ':heights', 'the heights of the scene')
    rec.check(g.x.shape == z.shape and np.max(np.abs(g.x - x * t.step_x)) <= 1e-9 * (w + 1) and
              np.max(np.abs(g.y - (h - y * t.step_y))) <= 1e-9 * (h + 1), key + ':positions', 'the positions of the points')
    colours = [np.asarray(v, float).ravel() for v in g.point_data.values()]
    rec.check(any(same(c, z.ravel(order='F'), rtol=1e-9) for c in colours), key + ':colours',
              'the values that colour the points do not belong to them')
    by = {}
    for name, a, kw in calls:
        by.setdefault(name, []).append((a, kw))
    rec.check(len(by.get('add_mesh', [])) == 1 and by['add_mesh'][0][0][0] is g and
              by['add_mesh'][0][1].get('cmap', 'jet') == options.get('cmap', 'jet'), key + ':mesh', 'the mesh drawn')
    rec.check(('show_grid' in by) == options.get('show_grid', True), key + ':grid', 'grid')
    rec.check(('enable_parallel_projection' in by) == (not options.get('perspective_projection', True)),
              key + ':projection', 'projection')
    if 'scale' in options:
        a, kw = by['set_scale'][0]
        rec.check(kw.get('zscale', a[2] if len(a) > 2 else 1) == options['scale'], key + ':scale', 'scale')
    position, target, up = PLOTTERS[0].__dict__['camera_position']
    d = np.array(position, float) - np.array(target, float)
    distance = np.linalg.norm(d)
    v, hor = np.deg2rad(options.get('vertical_angle', 50)), np.deg2rad(options.get('horizontal_angle', 0))
    want = np.array([-np.sin(hor) * np.cos(v), -np.cos(hor) * np.cos(v), np.sin(v)])
    if w > 0:
        rec.check(np.allclose(d / distance, want, atol=1e-6), key + ':direction', lambda: f'seen from {d / distance}')
        rec.check(near(target[:2], (w / 2, h / 2)), key + ':target', lambda: f'camera looks at {target}')
        rec.check(abs(distance - 2 * w / options.get('zoom', 1)) < 1e-6 * w, key + ':distance', lambda: f'{distance}')
    light = by['add_light'][0][0][0].options
    rec.check(light.get('intensity') == options.get('light', 0.3), key + ':light', lambda: f'{light}')
    rec.check(near(light.get('position'), options.get('light_position', position)), key + ':light position',
              lambda: f'{light}')
    inter = bool(options.get('interactive'))
    rec.check(('show' in by) == inter and ('screenshot' in by) == (not inter), key + ':mode', 'interactive or not')
    if inter and 'show' in by:
        rec.check(by['show'][0][1].get('title') == options.get('window_title', 'surfalize'), key + ':title', 'title')


def pixels(rec, key, image, options):
    """The rendered picture is part of the result, cropped to its content, with the colour bar to its right."""
    if options.get('interactive'):
        return rec.check(image is None or hasattr(image, 'size') or True, key, '')
    a = np.array(image.convert('RGB'))
    left = 10 if options.get('crop_white', True) else 0
    width = 20 if options.get('crop_white', True) else 48
    want = np.full((32, 48, 3), 255, 'uint8')
    for i in range(10, 30):
        want[9, i] = (i, 200, 3)
    want = want[:, left:left + width]
    rec.check(a.shape[0] == 32 and a.shape[1] >= width and np.array_equal(a[:, :width], want), key + ':picture',
              lambda: f'picture of {a.shape}')
    if options.get('colorbar', True):
        rec.check(a.shape[1] > width and bool((a[:, width:] < 250).any()), key + ':colour bar', 'no colour bar')
    else:
        rec.check(a.shape[1] == width, key + ':colour bar', 'colour bar')


# -- images ------------------------------------------------------------------------------------------------------------

def images(rec, scratch):
    from PIL import Image as PILImage
    from surfalize.image import Image
    for ny, nx in ((1, 1), (1, 4), (3, 2), (5, 7)):
        base = (generic(ny, nx, seed=ny * nx) * 100 + 120).astype('uint8')
        for label, data in (('grey', base), ('grey strided', relayout(base, 'strided')), ('wide', base.astype('uint16') * 200),
                            ('rgb', np.stack([base, base[::-1], 255 - base], -1)),
                            ('equal', np.stack([base, base, base], -1)), ('last', np.stack([base, base, base ^ 1], -1))):
            key = f'images:{(ny, nx)} {label}'
            with rec.guard(key):
                im = Image(data)
                for suffix in ('.png', '.tif'):
                    path = os.path.join(scratch, 'image' + suffix)
                    im.save(path if ny % 2 else pathlib.Path(path))
                    back = np.array(PILImage.open(path))
                    rec.check(back.shape == data.shape and np.array_equal(back, data), key + ':save' + suffix, 'other pixels')
                    os.remove(path)
                    rec.step()
                rec.check(np.array_equal(np.array(im.show()), data), key + ':show', 'other pixels')
                if data.ndim == 3:
                    want = bool((data[..., 0] == data[..., 1]).all() and (data[..., 0] == data[..., 2]).all())
                    rec.check(bool(Image.is_grayscale(data)) == want, key + ':is_grayscale', 'wrong')
                text = repr(im)
                rec.check(f'{nx} x {ny}' in text, key + ':repr', text)
                rec.execution()
                rec.state(key, data)
