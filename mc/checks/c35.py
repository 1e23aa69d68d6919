"""C35: settings of the process neither influence results nor are changed."""
import decimal
import gc
import io
import itertools
import locale
import logging
import os
import pathlib
import pickle
import random
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time
import warnings

import numpy as np

from mc import core, formats, ops, sched, util
from mc.checks import c29
from mc.util import Err, attempt, call, q, same, text, view

PROPERTY = 'C35'
LEVEL = 'model_checking'
RULE = ('all combinations of one action (parameter, operation, reader, writer, plot, batch, command) and one setting of '
        'the process, each with the whole state of the process compared before and after; the same actions in new '
        'processes with every start option; all schedules with at most two preemptions of threads that load files')
ASSUMPTIONS = ['the state of the process is what the snapshot of this check covers: warning filters, error handling and '
               'printing of numpy, random generators, matplotlib and pandas options, decimal context, locale, time zone, '
               'working directory, environment, umask, signals, logging, threads, open files, temporary files',
               'with warnings or floating point errors turned into exceptions, an action may raise one']
TASK_LIMIT = 400
COMMON = ['surfalize/file/common.py']

_zone = {}


def before_import():
    sched.install_locks(core.REPO)
    c29.before_import()


# -- state of the process ------------------------------------------------------------------------------------------
def options():
    import pandas as pd
    names = ('display.precision', 'display.max_rows', 'display.max_columns', 'display.width', 'display.float_format',
             'mode.string_storage', 'compute.use_bottleneck', 'compute.use_numexpr',
             'io.excel.xlsx.writer', 'styler.format.precision', 'plotting.backend')
    return {n: attempt(pd.get_option, n) for n in names}


def plain(v):
    return v if isinstance(v, (int, float, str, bool, type(None))) else repr(v)


def snapshot(figures=False):
    import matplotlib
    import matplotlib.pyplot as plt
    from PIL import Image, ImageFile
    s = {}
    s['warning filters'] = [tuple(map(plain, f)) for f in warnings.filters]
    s['warnings.showwarning'] = warnings.showwarning, warnings.formatwarning
    s['numpy errors'] = (dict(np.geterr()), np.geterrcall())
    s['numpy printing'] = {k: plain(v) for k, v in np.get_printoptions().items()}
    s['numpy random'] = [plain(v) if not isinstance(v, np.ndarray) else v.tobytes() for v in np.random.get_state()]
    s['random'] = random.getstate()
    s['matplotlib'] = {k: plain(v) for k, v in matplotlib.rcParams.items()}
    s['matplotlib backend'] = matplotlib.get_backend()
    s['interactive'] = plt.isinteractive()
    if figures:
        s['figures'] = plt.get_fignums()
    s['pandas'] = {k: plain(v) if not isinstance(v, Err) else v.kind for k, v in options().items()}
    s['decimal'] = repr(decimal.getcontext())
    s['locale'] = locale.setlocale(locale.LC_ALL)
    s['time zone'] = (time.tzname, os.environ.get('TZ'))
    s['directory'] = os.getcwd()
    s['environment'] = dict(os.environ)
    with open('/proc/self/status') as f:
        s['umask'] = [line for line in f if line.startswith('Umask')]
    s['signals'] = {n: signal.getsignal(n) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE,
                                                     signal.SIGHUP, signal.SIGUSR1)}
    s['logging'] = (logging.root.level, list(logging.root.handlers), logging.root.manager.disable)
    s['PIL'] = (Image.MAX_IMAGE_PIXELS, ImageFile.LOAD_TRUNCATED_IMAGES)
    s['sys'] = (sys.getrecursionlimit(), sys.getswitchinterval(), sys.stdin, sys.excepthook, sys.displayhook, list(sys.path),
                sys.gettrace(), sys.getprofile(), sys.dont_write_bytecode, sys.flags, threading.excepthook)
    s['streams'] = (sys.stdout, sys.stderr)
    s['gc'] = (gc.isenabled(), gc.get_threshold())
    s['socket'] = socket.getdefaulttimeout()
    s['temporary'] = (tempfile.gettempdir(), sorted(os.listdir(tempfile.gettempdir())))
    s['files of the directory'] = sorted(os.listdir('.')) if os.getcwd() == _zone.get('cwd') else None
    s['threads'] = sum(type(t).__name__ != 'TMonitor' for t in threading.enumerate())
    return s


def descriptors():
    out = []
    for n in os.listdir('/proc/self/fd'):
        try:
            out.append(os.readlink('/proc/self/fd/' + n))
        except OSError:
            pass
    return sorted(x for x in out if not x.startswith('/proc/'))


def differences(before, after):
    out = []
    for k in before:
        if before[k] != after[k]:
            a, b = before[k], after[k]
            if isinstance(a, dict):
                a, b = ({x: d.get(x) for x in set(a) | set(b) if a.get(x) != b.get(x)} for d in (before[k], after[k]))
            out.append((k, f'{k}: {a!r:.300} became {b!r:.300}'))
    return out


# -- settings ------------------------------------------------------------------------------------------------------
def handler(*args, **kwargs):
    pass


def matplotlib_set(**kw):
    import matplotlib
    for k, v in kw.items():
        matplotlib.rcParams[k.replace('__', '.')] = v


def pandas_set(*pairs):
    import pandas as pd
    for k, v in pairs:
        attempt(pd.set_option, k, v)


def zone(name):
    os.environ['TZ'] = name
    time.tzset()


def another_locale():
    for name in ('C.UTF-8', 'C.utf8', 'POSIX', 'C'):
        for category in (locale.LC_CTYPE, locale.LC_NUMERIC, locale.LC_TIME):
            attempt(locale.setlocale, category, name)
        if locale.setlocale(locale.LC_ALL) != _zone['locale']:
            return


def warn(action):
    warnings.resetwarnings()
    warnings.simplefilter(action)
    warnings.showwarning = handler


SETTINGS = {
    'as found': lambda: None,
    'numpy ignores errors': lambda: np.seterr(all='ignore'),
    'numpy warns': lambda: np.seterr(all='warn'),
    'numpy raises': lambda: np.seterr(all='raise'),
    'numpy calls': lambda: (np.seterr(all='call'), np.seterrcall(handler)),
    'warnings ignored': lambda: warnings.simplefilter('ignore'),
    'warnings always': lambda: warn('always'),
    'warnings once': lambda: warn('once'),
    'warnings raised': lambda: warnings.simplefilter('error'),
    'short numbers': lambda: np.set_printoptions(precision=1, threshold=3, edgeitems=1, suppress=True, floatmode='fixed'),
    'old numbers': lambda: np.set_printoptions(legacy='1.13', sign='+', linewidth=20),
    'random 1': lambda: (np.random.seed(1), random.seed(1)),
    'random 2': lambda: (np.random.seed(2), random.seed(2)),
    'matplotlib': lambda: matplotlib_set(figure__figsize=[2.0, 3.0], font__size=5.0, savefig__dpi=40, image__cmap='gray',
                                         image__origin='lower', lines__linewidth=4.0, figure__dpi=37, axes__grid=True,
                                         image__interpolation='bilinear', axes__labelsize=7),
    'matplotlib interactive': lambda: __import__('matplotlib').interactive(True),
    'pandas': lambda: pandas_set(('display.precision', 1), ('display.max_rows', 2), ('mode.string_storage', 'python'),
                                 ('compute.use_bottleneck', False)),
    'decimal': lambda: decimal.getcontext().__setattr__('prec', 2),
    'locale': another_locale,
    'time zone east': lambda: zone('XST-5:30'),
    'time zone west': lambda: zone('YST+11'),
    'directory': lambda: os.chdir('/'),
    'umask': lambda: os.umask(0o077),
    'logging': lambda: (logging.root.setLevel(logging.CRITICAL), logging.disable(logging.ERROR)),
    'no collection': gc.disable,
    'environment': lambda: os.environ.update(HOME='/nonexistent', LANG='de_DE.UTF-8', COLUMNS='20', PYTHONWARNINGS='error',
                                             NO_COLOR='1'),
    'recursion': lambda: sys.setrecursionlimit(400 + len(__import__('inspect').stack())),
    'PIL': lambda: setattr(__import__('PIL.Image').Image, 'MAX_IMAGE_PIXELS', 12345678),
}
MAY_RAISE = {'numpy raises', 'warnings raised'}
QUICK_LOADED = ['as found', 'numpy warns', 'numpy raises', 'numpy calls', 'warnings always', 'warnings raised', 'short numbers',
                'old numbers', 'random 1', 'matplotlib', 'pandas', 'decimal', 'time zone east', 'time zone west', 'directory',
                'environment', 'recursion', 'umask', 'locale', 'logging']


def restore(base):
    import matplotlib
    import matplotlib.pyplot as plt
    plt.close('all')
    warnings.filters[:] = base['filters']
    warnings._filters_mutated()
    warnings.showwarning, warnings.formatwarning = base['show']
    np.set_printoptions(**base['printing'])
    np.seterrcall(base['call'])
    np.seterr(**base['errors'])
    np.random.set_state(base['numpy random'])
    random.setstate(base['random'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        matplotlib.rcParams.update(base['matplotlib'])
    matplotlib.interactive(False)
    pandas_set(*((k, v) for k, v in base['pandas'].items() if not isinstance(v, Err)))
    decimal.setcontext(base['decimal'].copy())
    locale.setlocale(locale.LC_ALL, base['locale'])
    os.environ.clear()
    os.environ.update(base['environment'])
    time.tzset()
    os.chdir(base['directory'])
    os.umask(base['umask'])
    logging.root.setLevel(base['logging'])
    logging.disable(logging.NOTSET)
    gc.enable()
    sys.setrecursionlimit(base['recursion'])
    __import__('PIL.Image').Image.MAX_IMAGE_PIXELS = base['PIL']


def baseline():
    import matplotlib
    import matplotlib.pyplot  # noqa
    import openpyxl, pandas, PIL.Image, scipy.fft, scipy.interpolate, scipy.ndimage, scipy.optimize, scipy.signal  # noqa
    _zone['locale'] = locale.setlocale(locale.LC_ALL)
    mask = os.umask(0o022)
    os.umask(mask)
    return dict(filters=list(warnings.filters), show=(warnings.showwarning, warnings.formatwarning), errors=np.geterr(),
                call=np.geterrcall(), printing=np.get_printoptions(), random=random.getstate(), umask=mask,
                matplotlib=dict(matplotlib.rcParams), pandas=options(), decimal=decimal.getcontext().copy(),
                locale=_zone['locale'], environment=dict(os.environ), directory=os.getcwd(), logging=logging.root.level,
                recursion=sys.getrecursionlimit(), PIL=__import__('PIL.Image').Image.MAX_IMAGE_PIXELS,
                **{'numpy random': np.random.get_state()})


# -- actions: label, function without arguments that prepares, function that acts on what has been prepared ---------
def square(entry):
    return (entry[0], entry[1], 0.5, 0.5) if len(entry) == 4 else entry


def topographies(kind):
    names = ('grooved', 'generic', 'float32', 'missing', 'step')
    entries = ops.surfaces() if kind == 'surface' else ops.profiles()
    return [square(e) for e in entries if e[0] in names]


def outcome(t, spec):
    return view(attempt(call, t, spec))


def topography_actions(kind, i):
    entry = topographies(kind)[i]
    specs = (ops.SURFACE_OPS + util.SURFACE_QUERIES_FAST + util.SURFACE_CURVE + [
        q('homogeneity', ('Sa', 'Sq'), 4.0), q('depth', 3), q('aspect_ratio'), q('roughness_parameters', ['Sa', 'Sk', 'Sal']),
        q('get_horizontal_profile', 1.0), q('get_vertical_profile', 1.0), q('get_oblique_profile', 0.2, 0.3, 2.5, 3.1)]
        if kind == 'surface' else ops.PROFILE_OPS + util.PROFILE_QUERIES_FAST + util.PROFILE_CURVE)
    for spec in specs:
        yield text(spec), lambda: ops.build(kind, entry), lambda t, spec=spec: outcome(t, spec)
    for spec in (ops.SURFACE_OPS if kind == 'surface' else ops.PROFILE_OPS)[::3]:
        def inplace(t, spec=spec):
            r = attempt(call, t, (spec[0], spec[1], dict(spec[2], inplace=True)))
            return (view(r) if isinstance(r, Err) else None, view(t))
        yield text(spec) + ' in place', lambda: ops.build(kind, entry), inplace
    yield '+ - * / ==', lambda: ops.build(kind, entry), lambda t: tuple(view(attempt(f)) for f in (
        lambda: t + 1, lambda: t - t, lambda: t * 2.5, lambda: t / 3, lambda: t == util.fresh(t), lambda: hash(t) == hash(t)))


def read(item, layers=True):
    from surfalize import Surface
    suffix, blob = item
    t = attempt(Surface.load, io.BytesIO(blob), format=suffix, read_image_layers=layers)
    if isinstance(t, Err):
        return view(t)
    return (view(t), [(k, np.asarray(v.data)) for k, v in t.image_layers.items()],
            [(str(k), plain(v) if not hasattr(v, 'timetuple') else tuple(v.timetuple())) for k, v in t.metadata.items()])


def reader_actions(tier):
    for missing in (0, 2):
        for s in formats.basic(missing=missing):
            yield f'read {s.label}', lambda s=s: (s.suffix, s.blob), read
            if s.suffix not in formats.RECOGNISABLE:
                yield f'read {s.label} as .sur', lambda s=s: ('.sur', s.blob), read
    yield 'read nothing', lambda: ('.plu', b''), read
    yield 'read garbage', lambda: ('.sur', b'garbage' * 99), read
    yield 'read unknown', lambda: ('.unknown', b'garbage' * 99), read


def stored(t, suffix, kw):
    from surfalize import Surface
    b = io.BytesIO()
    r = attempt(t.save, b, format=suffix, **kw)
    if isinstance(r, Err):
        return view(r)
    b.seek(0)
    return view(Surface.load(b, format=suffix))


def writer_actions(tier):
    for i, entry in enumerate(topographies('surface')):
        for suffix in formats.WRITABLE:
            for kw in {'.sur': [{}, dict(compressed=True)], '.sdf': [{}, dict(binary=False)]}.get(suffix, [{}]):
                yield f'write {entry[0]} {suffix} {kw}', lambda e=entry: ops.build('surface', e), \
                    lambda t, s=suffix, kw=kw: stored(t, s, kw)


def files(directory):
    out = []
    for i, suffix in enumerate(('.sur', '.sdf', '.tmd', '.sflz', '.al3d')):
        p = pathlib.Path(directory) / f'P{i}_N{i * 2}{suffix}'
        ops.build('surface', topographies('surface')[i % 2]).save(p)
        out.append(p)
    return out


def custom(s):
    return {'highest': float(s.data.max())}


def batch(paths, parallel, saveto=None):
    from surfalize import Batch
    b = Batch(paths).level().filter('lowpass', 1.5).Sa().Sk().Sal().homogeneity(('Sa',), 4.0).custom_parameter(custom)
    b.extract_from_filename('P<p|int>_N<n|int>')
    r = attempt(b.execute, multiprocessing=parallel, saveto=saveto)
    if isinstance(r, Err):
        return view(r)
    df = r.get_dataframe().sort_values('file')
    out = [(c, tuple(float(v) for v in df[c])) for c in df.columns if c != 'file'] + list(df['file'])
    if saveto is not None:
        import pandas as pd
        out.append(pd.read_excel(saveto).shape)
        os.unlink(saveto)
    return tuple(map(str, df.columns)), tuple(map(view, out))


def command(args, produced=None):
    from click.testing import CliRunner
    from surfalize.cli import cli
    r = CliRunner().invoke(cli, [str(a) for a in args])
    out = (r.exit_code, type(r.exception).__name__)
    if produced is not None:
        out += (sorted(p.name for p in produced.iterdir()),)
        shutil.rmtree(produced)
    return out


def window(args):
    """The command with a backend that the library does not know to be without windows"""
    import matplotlib.pyplot as plt
    previous = __import__('matplotlib').get_backend()
    plt.switch_backend('svg')
    try:
        return command(args)
    finally:
        plt.close('all')
        plt.switch_backend(previous)


def program_actions(tier):
    def prepare():
        d = pathlib.Path(tempfile.mkdtemp(prefix='c35-', dir=_zone['scratch']))
        files(d)
        return d
    yield 'batch', prepare, lambda d: batch(sorted(d.iterdir()), False)
    yield 'parallel batch', prepare, lambda d: batch(sorted(d.iterdir()), True)
    yield 'batch saved', prepare, lambda d: batch(sorted(d.iterdir()), True, str(d / 'out.xlsx'))
    yield 'convert', prepare, lambda d: command(['convert', d, d / 'out', '-f', '.sdf'], d / 'out')
    yield 'convert to nothing', prepare, lambda d: command(['convert', d, d / 'none', '-f', '.xyz'])
    yield 'show', prepare, lambda d: command(['show', d / 'P0_N0.sur', '--level'])
    yield 'show in a window', prepare, lambda d: window(['show', d / 'P0_N0.sur', '--level'])
    yield 'show in three dimensions', prepare, lambda d: command(['show', d / 'P0_N0.sur', '--plot-3d'])
    yield 'help', prepare, lambda d: command(['--help'])


def plot_actions(tier):
    entries = {e[0]: e for e in topographies('surface')}
    profiles = {e[0]: e for e in topographies('profile')}

    def nothing(f):
        def draw(t):
            r = attempt(f, t)
            return view(r) if isinstance(r, Err) else None
        return draw
    for label in ('grooved', 'missing'):
        e = entries[label]
        build = lambda e=e: ops.build('surface', e)  # noqa
        for name, f in {
                'plot_2d': lambda t: t.plot_2d(), 'plot_2d saved': lambda t: t.plot_2d(save_to=io.BytesIO()),
                'show': lambda t: t.show(), 'plot_3d': lambda t: t.plot_3d(),
                'plot_abbott_curve': lambda t: t.plot_abbott_curve(),
                'plot_autocorrelation': lambda t: t.plot_autocorrelation(),
                'plot_fourier_transform': lambda t: t.plot_fourier_transform(),
                'plot_angular_power_spectrum': lambda t: t.plot_angular_power_spectrum(),
                'plot_functional_parameter_study': lambda t: t.plot_functional_parameter_study(),
                'visual': lambda t: t.get_abbott_firestone_curve().visual_parameter_study(),
                'depth': lambda t: t.depth(3, plot=[1]),
                'repr': lambda t: (repr(t), t._repr_png_())}.items():
            yield f'{name} {label}', build, nothing(f)
    e = next(iter(profiles.values()))
    for name, f in {'plot_2d': lambda t: t.plot_2d(), 'show': lambda t: t.show(),
                    'plot_abbott_curve': lambda t: t.plot_abbott_curve()}.items():
        yield f'profile {name}', lambda e=e: ops.build('profile', e), nothing(f)


# -- tasks ---------------------------------------------------------------------------------------------------------
START = {'default': ([], {}), 'optimised': (['-O'], {}), 'without docstrings': (['-OO'], {}), 'development': (['-X', 'dev'], {}),
         'bytes compared strictly': (['-bb'], {}), 'no utf-8': (['-X', 'utf8=0'], {'LC_ALL': 'C', 'PYTHONCOERCECLOCALE': '0'}),
         'utf-8': (['-X', 'utf8=1'], {}), 'isolated': (['-P'], {}), 'hash seed 7': ([], {'PYTHONHASHSEED': '7'}),
         'warnings raised later': ([], {'C35_STRICT': '1'}), 'no home': ([], {'HOME': '/nonexistent'}),
         'east': ([], {'TZ': 'XST-5:30'})}


def tasks(tier):
    out = []
    for kind in ('surface', 'profile'):
        for i, e in enumerate(topographies(kind)):
            for part in range(3):
                out.append((f'{kind} {e[0]} {part}', ('topography', kind, i, part, 3, tier)))
    out += [(f'readers {p}', ('readers', p, 4, tier)) for p in range(4)]
    out += [(f'writers {p}', ('writers', p, 2, tier)) for p in range(2)]
    out += [(f'programs {p}', ('programs', p, 9, tier)) for p in range(9)]
    out += [(f'plots {p}', ('plots', p, 8, tier)) for p in range(8)]
    out += [(f'start {name}', ('start', name)) for name in START]
    for a, b in itertools.combinations_with_replacement(range(len(LOADS)), 2):
        if tier != 'quick' or (a, b) in ((0, 0), (0, 1), (0, 3), (2, 3)):
            for part in range(4):
                out.append((f'threads {LOADS[a][0]} | {LOADS[b][0]} {part}',
                            ('threads', (a, b), 2, COMMON, 1 if tier == 'quick' else 2, (part, 4))))
        out.append((f'threads everywhere {LOADS[a][0]} | {LOADS[b][0]}', ('threads', (a, b), 1, None, 1, (0, 1))))
    for t in ([(0, 0, 1), (0, 1, 3)] if tier == 'quick' else itertools.combinations_with_replacement(range(4), 3)):
        out.append((f'threads {t}', ('threads', t, 1 if tier == 'quick' else 2, COMMON, 1, (0, 1))))
    return out


def run(rec, name, args):
    scratch = tempfile.mkdtemp(prefix='c35-', dir=os.environ.get('VERIF_SCRATCH'))
    _zone['scratch'] = os.path.join(scratch, 'files')
    _zone['cwd'] = os.path.join(scratch, 'cwd')
    for d in ('files', 'cwd', 'tmp'):
        os.mkdir(os.path.join(scratch, d))
    cwd, temporary = os.getcwd(), tempfile.tempdir
    os.chdir(_zone['cwd'])
    tempfile.tempdir = os.path.join(scratch, 'tmp')
    base = baseline()
    try:
        globals()['task_' + args[0]](rec, base, *args[1:])
    finally:
        restore(base)
        os.chdir(cwd)
        tempfile.tempdir = temporary
        shutil.rmtree(scratch, ignore_errors=True)


def settle(before, figures):
    """Threads and files that are about to end get time to do so."""
    for wait in (0, 0.02, 0.1, 0.5, 2.0):
        after = snapshot(figures)
        if before['threads'] == after['threads']:
            break
        time.sleep(wait)
    return after


def explore(rec, base, actions, part, parts, settings, figures=True, compare=True):
    for number, (label, prepare, act) in enumerate(actions):
        if number % parts != part:
            continue
        # The library is warmed up: modules that are imported and fonts that are looked for are no settings
        expected = act(prepare())
        for name in settings:
            subject = prepare()
            SETTINGS[name]()
            before, files_before = snapshot(figures), descriptors()
            got = act(subject)
            after = settle(before, figures)
            files_after = descriptors()
            restore(base)
            if files_before != files_after:
                subject = None
                gc.collect()
                files_after = descriptors()
            rec.execution(dict(action=label, setting=name))
            rec.step(2)
            rec.state(label, name)
            rec.outcome(label, name, repr(got))
            case = dict(action=label, setting=name)
            for what, message in differences(before, after):
                rec.fail(f'{what}:{label}', f'{label} with "{name}" changed the state of the process: {message}', case)
            rec.check(len(files_after) <= len(files_before), f'descriptors:{label}',
                      lambda: f'{label} left files open: {[x for x in files_after if x not in files_before]}', case)
            raised = name in MAY_RAISE and 'raised' in repr(got)
            if compare:
                rec.check(same(got, expected, 1e-12) or raised, f'{label}:{name}',
                          lambda: f'{label} gives {got!r:.500} with "{name}", otherwise {expected!r:.500}', case)


def task_topography(rec, base, kind, i, part, parts, tier):
    explore(rec, base, topography_actions(kind, i), part, parts, SETTINGS)


def task_readers(rec, base, part, parts, tier):
    explore(rec, base, reader_actions(tier), part, parts, SETTINGS)


def task_writers(rec, base, part, parts, tier):
    explore(rec, base, writer_actions(tier), part, parts, SETTINGS if tier != 'quick' else QUICK_LOADED)


def task_programs(rec, base, part, parts, tier):
    names = [n for n in SETTINGS if n not in MAY_RAISE]
    explore(rec, base, program_actions(tier), part, parts, names if tier != 'quick' else names[::2])


def task_plots(rec, base, part, parts, tier):
    names = ['as found', 'numpy calls', 'warnings always', 'old numbers', 'matplotlib', 'random 1', 'directory', 'decimal']
    explore(rec, base, plot_actions(tier), part, parts, names, figures=False)


SCRIPT = '''
import pickle, sys, os, warnings
import numpy, pandas, scipy.signal, scipy.ndimage, scipy.optimize, scipy.interpolate, scipy.stats, matplotlib.pyplot, PIL.Image
import click, tqdm.auto, dateutil.parser, openpyxl, zipfile, xml.etree.ElementTree, scipy.fft, scipy.integrate, scipy.linalg
import mpl_toolkits.axes_grid1, multiprocessing.pool, logging
sys.path.insert(0, sys.argv[1])
sys.path.insert(0, sys.argv[2])
from mc.checks import c35
from mc import ops, util, core
c35._zone['cwd'] = os.getcwd()
if os.environ.get('C35_STRICT'):
    warnings.simplefilter('error')
numpy.seterr(all='call')
before = c35.snapshot(True)
import surfalize, surfalize.cli, surfalize.batch
after = c35.snapshot(True)
for k, message in c35.differences(before, after):
    print('CHANGED', ascii(message))
numpy.seterr(all='ignore')
warnings.simplefilter('ignore')
if not os.path.realpath(surfalize.__file__).startswith(os.path.realpath(sys.argv[1])):
    print('CHANGED wrong package')
results = {}
for label, prepare, act in c35.everything():
    try:
        results[label] = ('result', act(prepare()))
        pickle.dumps(results[label])
    except Exception as exc:
        results[label] = ('error', type(exc).__name__, str(exc)[:200])
with open('results', 'wb') as f:
    pickle.dump(results, f)
'''


def everything():
    """The actions that every new process executes"""
    _zone['scratch'] = os.getcwd()
    for kind in ('surface', 'profile'):
        for i in range(2):
            for label, prepare, act in topography_actions(kind, i):
                yield f'{kind} {i} {label}', prepare, act
    yield from reader_actions('quick')
    yield from writer_actions('quick')
    yield from itertools.islice(program_actions('quick'), 4)


def start(name):
    flags, env = START[name]
    directory = tempfile.mkdtemp(prefix='start-', dir=_zone['scratch'])
    temporary = os.path.join(directory, 'tmp')
    os.mkdir(temporary)
    clean = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON') or k == 'PYTHONDONTWRITEBYTECODE'}
    try:
        r = subprocess.run([sys.executable, *flags, '-c', SCRIPT, core.REPO, core.VERIF], cwd=directory, timeout=300,
                           capture_output=True, env=dict(clean, MPLBACKEND='Agg', TMPDIR=temporary, **{'PYTHONHASHSEED': '0', **env}))
        results = {}
        if os.path.exists(os.path.join(directory, 'results')):
            with open(os.path.join(directory, 'results'), 'rb') as f:
                results = pickle.load(f)
    finally:
        shutil.rmtree(directory, ignore_errors=True)
    return r.stdout.decode('ascii', 'replace').splitlines(), r.stderr.decode('utf-8', 'replace'), results


def task_start(rec, base, name):
    lines, problem, reference = start('default')
    if not rec.check(len(reference) > 400, 'start', f'the reference process failed: {problem[-600:]}', name):
        return
    found = reference
    if name != 'default':
        lines, problem, found = start(name)
    for line in lines:
        rec.check(not line.startswith('CHANGED'), f'import:{line.split(":")[0]}',
                  lambda: f'importing the library ({name}): {line}', name)
    rec.check(set(reference) == set(found), f'start {name}',
              f'{name}: {sorted(set(reference) ^ set(found))[:5]} {problem[-600:]}', name)
    for k in reference:
        if k not in found:
            continue
        rec.execution(dict(start=name, action=k))
        rec.step()
        rec.state(name, k)
        rec.outcome(k, name, reference[k][0])
        rec.check(same(reference[k], found[k], 1e-9), f'start {name}:{k[:60]}',
                  lambda: f'process started with "{name}": {k} gives {found[k]!r:.300}, otherwise {reference[k]!r:.300}', name)



# -- threads -------------------------------------------------------------------------------------------------------
def load(suffix, name):
    def body():
        blob = BLOBS[name]
        return read((suffix, blob))
    return body


BLOBS = {s.suffix: s.blob for s in formats.basic()}
LOADS = [('.plu as .sur', load('.sur', '.plu')), ('.nms as .tmd', load('.tmd', '.nms')), ('.sur', load('.sur', '.sur')),
         ('.xyz without format', load('.unknown', '.xyz'))]


def task_threads(rec, base, group, bound, where, visits, part):
    key = ' | '.join(LOADS[i][0] for i in group)
    expected = [LOADS[i][1]() for i in group]

    def execute(plan, counted):
        warn('always')
        np.seterr(all='call')
        before = snapshot(True)
        s, results = sched.run_threads(core.REPO, plan, [LOADS[i][1] for i in group], where, visits)
        after = settle(before, True)
        case = dict(loads=key, plan={str(k): v for k, v in plan.items()})
        rec.execution(dict(case, points=s.points))
        rec.step(s.points)
        rec.state(key, tuple(s.decisions))
        for what, message in differences(before, after):
            rec.fail(f'{what}:threads:{key}', f'loading {key} concurrently changed the state of the process: {message}', case)
        for i, got, want in zip(group, results, expected):
            rec.check(got[0] == 'value' and same(got[1], want), f'threads:{key}:{LOADS[i][0]}',
                      lambda: f'{LOADS[i][0]} gave {got!r:.400}, alone {want!r:.400}', case)
        restore(base)
        return s
    sched.explore(execute, bound, part)
