"""C18: concurrent evaluation of one topography gives the sequential values."""
import io
import itertools
import os
import sys
import warnings

import numpy as np

from mc import core, sched, util
from mc.util import q

PROPERTY = 'C18'
LEVEL = 'model_checking'
RULE = ('every unordered pair (and, for selected queries, triple) of parameter evaluations and copying operations, one '
        'per thread on a shared object, in all schedules with at most one preemption (thorough: two for the short '
        'ones) at the granularity of source lines of the library; afterwards every value is read again sequentially')
ASSUMPTIONS = ['code outside the library (numpy, scipy, C code) runs without interleaving',
               'per task, only the first two executions of a source line are scheduling points (thorough: four)']
TASK_LIMIT = 880.0

FAST = [q('height_parameters'), q('Sq'), q('Sdr'), q('surface_area'), q('Sdq'), q('Sal'), q('Sal', 0.5), q('Str'),
        q('Str', s=0.3), q('Ssw'), q('Std'), q('Std', 2), q('period'), q('orientation', 'fft'), q('stepheight'),
        q('cavity_volume', 0.3), q('median'), q('level'), q('filter', 'lowpass', 1.3), q('crop', (0.5, 2.5, 0.75, 3.0)),
        q('threshold', (10, 10)), q('zero'), q('invert'), q('get_horizontal_profile', 1.5, average=3),
        q('depth', 3), q('detrend_polynomial', 2), q('_file'), q('_sum'), q('_eq')]
SLOW = [q('homogeneity', ('Sa', 'Sz'), 1.5), q('aspect_ratio'), q('orientation'), q('align', 'x', 'fft'),
        q('rotate', 20), q('remove_outliers', 2), q('zoom', 1.5), q('get_oblique_profile', 0.2, 0.3, 2.5, 3.1)]
CURVE = [q('Sk'), q('Smr', 0.1), q('Smc', 30), q('Vmc', 20, 70), q('Vvv', q=70), q('Sxp'), q('Spkx')]
BESIDE = [q('Sq'), q('Sal', 0.5), q('level'), q('Sdr'), q('center')]
PROFILE = [q('Ra'), q('Rz', 2), q('Rz', n_sections=3), q('Rp'), q('Rdq'), q('period'), q('level'), q('zero'),
           q('filter', 'lowpass', 1.3), q('Rsk'), q('crop', (0.5, 2.5))]
PCURVE = [q('Rk'), q('Vmc', 20, 70), q('Rmr', 0.1)]
SHORT = [q('Sq'), q('projected_area'), q('Sz'), q('center'), q('Sdq'), q('Sal', 0.5)]
CORE = ['surfalize/cache.py', 'surfalize/surface.py', 'surfalize/base.py']
CURVE_FILES = ['surfalize/cache.py', 'surfalize/surface.py', 'surfalize/abbottfirestone.py', 'surfalize/base.py',
               'surfalize/profile.py', 'surfalize/autocorrelation.py', 'surfalize/mathutils.py']


def before_import():
    sched.install_locks(core.REPO)


def surface():
    from surfalize import Surface
    return Surface(util.grooves(6, 7, 0.5, 0.75, 1.9, 20.0, 1.0, 0.4, seed=3, offset=0.7), 0.5, 0.75)


def profile():
    from surfalize import Profile
    return Profile(util.grooves(1, 16, 0.4, 1.0, 2.1, 0.0, 1.0, 0.4, seed=5, offset=0.3)[0], 0.4)


KINDS = {'surface': (surface, FAST), 'slow': (surface, SLOW), 'curve': (surface, CURVE), 'profile': (profile, PROFILE),
         'pcurve': (profile, PCURVE)}


def evaluate(obj, spec):
    name = spec[0]
    if name == '_file':
        b = io.BytesIO()
        obj.save(b, format='.sur')
        return len(b.getvalue())
    if name == '_sum':
        return util.view(obj + obj)
    if name == '_eq':
        return (obj == type(obj)(obj.data.copy(), obj.step_x, obj.step_y), hash(obj) == hash(obj))
    return util.view(util.attempt(util.call, obj, spec))


def tasks(tier):
    out = []
    visits = 2 if tier == 'quick' else 4
    for i, a in enumerate(FAST):
        for j in range(2):
            out.append((f'surface {util.text(a)} {j}', ('surface', [(a, b) for b in FAST[i + j::2]], 1,
                                                        1 if tier == 'quick' else visits, None)))
    for i, a in enumerate(SLOW):
        for b in SLOW[i:] + [q('Sq'), q('Sal', 0.5), q('level')]:
            if tier == 'quick' and b in SLOW and b != a:
                continue
            out.append((f'slow {util.text(a)} {util.text(b)}', ('slow', [(a, b)], 1, 1 if tier == 'quick' else visits,
                                                               None)))
    for i, a in enumerate(CURVE):
        for b in CURVE[i:] + BESIDE:
            if tier == 'quick' and not (i == 0 and b not in CURVE[5:] + BESIDE[3:] or a == b == q('Vmc', 20, 70)):
                continue
            out.append((f'curve {util.text(a)} {util.text(b)}', ('curve', [(a, b)], 1, 1, CURVE_FILES)))
    for i, a in enumerate(PROFILE):
        out.append((f'profile {util.text(a)}', ('profile', [(a, b) for b in PROFILE[i:]], 1, visits, None)))
    for i, a in enumerate(PCURVE):
        for b in PCURVE[i:] + [q('Ra')]:
            if tier != 'quick' or i == 0:
                out.append((f'pcurve {util.text(a)} {util.text(b)}', ('pcurve', [(a, b)], 1, 1, CURVE_FILES)))
    for a, b in itertools.combinations_with_replacement(SHORT, 2):
        if tier == 'quick':
            files = CORE if SHORT[-1] in (a, b) else None
            out.append((f'two preemptions {util.text(a)} {util.text(b)}', ('surface', [(a, b)], 2, 1, files)))
        else:
            out.append((f'two preemptions {util.text(a)} {util.text(b)}', ('surface', [(a, b)], 2, 2, None)))
    for c in itertools.combinations_with_replacement(SHORT[:4] if tier == 'quick' else SHORT, 3):
        out.append((f'three threads {[util.text(x) for x in c]}', ('surface', [c], 1 if tier == 'quick' else 2, 1, None)))
    if tier != 'quick':
        for a, b in itertools.combinations_with_replacement(FAST, 2):
            if a not in SHORT or b not in SHORT:
                out.append((f'two preemptions {util.text(a)} {util.text(b)}', ('surface', [(a, b)], 2, 1, [
                    'surfalize/cache.py', 'surfalize/surface.py', 'surfalize/base.py'])))
    return out


def run(rec, name, args):
    warnings.simplefilter('ignore')
    kind, groups, bound, visits, files = args
    build, alphabet = KINDS[kind]
    values = {}
    for spec in alphabet + [s for g in groups for s in g]:
        if util.text(spec) not in values:
            values[util.text(spec)] = evaluate(build(), spec)
    again = alphabet if kind in ('surface', 'profile') else []
    for group in groups:
        key = f'{kind}:' + '|'.join(util.text(s) for s in group)

        def execute(plan, counted):
            obj = build()
            s, outcome = sched.run_threads(core.REPO, plan, [lambda spec=spec: evaluate(obj, spec) for spec in group],
                                           files, visits)
            rec.execution(dict(queries=key, plan={str(k): v for k, v in plan.items()}, points=s.points))
            rec.step(s.points)
            rec.state(key, tuple(s.decisions))
            case = dict(object=kind, queries=[util.text(x) for x in group], plan={str(k): v for k, v in plan.items()})
            for spec, got in zip(group, outcome):
                expected = values[util.text(spec)]
                rec.outcome(key, repr(got))
                if not rec.check(got[0] == 'value' and util.same(got[1], expected), f'{key}:{util.text(spec)}',
                                 lambda: f'{util.text(spec)} gave {got!r:.800}, sequentially {expected!r:.800}', case):
                    break
            else:
                if not plan or (len(plan) == 1 and max(plan) % 20 == 0):
                    for spec in again + list(group):
                        got = evaluate(obj, spec)
                        rec.check(util.same(got, values[util.text(spec)]), f'{key}:afterwards:{util.text(spec)}',
                                  lambda: f'after concurrent evaluation, {util.text(spec)} gives {got!r:.800} instead of '
                                          f'{values[util.text(spec)]!r:.800}', case)
            return s
        sched.explore(execute, bound)
