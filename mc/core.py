"""Runner shared by all checks.

A check module defines
    PROPERTY  id of the property it decides
    LEVEL     evidence level ('model_checking' or 'fault_enumeration')
    RULE      one sentence: how the executions are enumerated
    tasks(tier) -> list of (name, args) where args is picklable; the union of the tasks is the whole bounded space
    run(rec, name, args)   explores one part of the space on the real code and reports to the recorder `rec`

The runner forks worker processes that import surfalize from /repo's working tree, gives each task to one of them,
merges what they report, writes evidence/<id>.json, prints VIOLATION / KNOWN-FINDING lines and exits 0 or 1.
"""
import contextlib
import fnmatch
import hashlib
import importlib
import json
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
KNOWN_FILE = os.path.join(VERIF, 'known_findings.txt')

#: wall clock limit of a single execution; the executions take milliseconds to a few seconds
EXEC_LIMIT = 120.0
#: wall clock limit of a task, enforced from outside (an execution stuck in C code cannot be interrupted)
TASK_LIMIT = 600.0
MAX_VIOLATIONS_PER_TASK = 20
#: wall clock budget of a quick run; tasks that have not ended by then are reported as unexplored
BUDGET = 780.0


class Hang(BaseException):
    """An execution did not come to an end within EXEC_LIMIT seconds."""


def prepare_environment():
    for var in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[var] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    sys.dont_write_bytecode = True
    # Bytecode is matched by time stamp and size only: drop what may be there, so that the files themselves are read
    for root, dirs, _ in os.walk(os.path.join(REPO, 'surfalize')):
        if '__pycache__' in dirs:
            shutil.rmtree(os.path.join(root, '__pycache__'), ignore_errors=True)
            dirs.remove('__pycache__')
    sys.path.insert(0, REPO)


def import_target():
    import surfalize
    where = os.path.realpath(surfalize.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f'surfalize was imported from {where} instead of {REPO}')
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    return surfalize


def digest(*parts):
    """64-bit digest of a state (arrays, numbers, strings, nested tuples)."""
    h = hashlib.blake2b(digest_size=8)

    def feed(p):
        if hasattr(p, 'tobytes') and hasattr(p, 'shape'):
            h.update(str(p.dtype).encode() + str(p.shape).encode())
            h.update(p.tobytes())
        elif isinstance(p, (list, tuple)):
            h.update(b'(')
            for q in p:
                feed(q)
            h.update(b')')
        elif isinstance(p, bytes):
            h.update(p)
        else:
            h.update(repr(p).encode())
        h.update(b'\x1f')
    for p in parts:
        feed(p)
    return struct.unpack('<q', h.digest())[0]


class Recorder:
    """Collects what one task explored."""

    def __init__(self, prop, task):
        self.prop = prop
        self.task = task
        self.executions = 0
        self.transitions = 0
        self.states = set()
        self.outcomes = set()
        self.violations = []
        self.n_violations = 0
        self.known = {}
        self.samples = []
        self.notes = {}
        self.known_patterns = [k for k in load_known() if k[0] == prop]
        self.only = None

    # -- counting ------------------------------------------------------------------------------------------------
    def execution(self, sample=None):
        """One complete execution of the real code has been compared with its oracle."""
        self.executions += 1
        if sample is not None and len(self.samples) < 2:
            self.samples.append(sample)

    def step(self, n=1):
        """n transitions (calls into the library) have been made."""
        self.transitions += n

    def state(self, *parts):
        self.states.add(digest(*parts))

    def outcome(self, *parts):
        self.outcomes.add(digest(*parts))

    # -- verdicts ------------------------------------------------------------------------------------------------
    def fail(self, key, message, case=None):
        """The property is violated. `key` identifies the input / history that fails."""
        for _, pattern, what in self.known_patterns:
            if fnmatch.fnmatchcase(key, pattern):
                self.known.setdefault(pattern, [0, what, key])
                self.known[pattern][0] += 1
                return
        self.n_violations += 1
        if len(self.violations) < MAX_VIOLATIONS_PER_TASK:
            self.violations.append(dict(key=key, message=str(message)[:4000], case=case, task=list(self.task)))

    def check(self, condition, key, message, case=None):
        if not condition:
            self.fail(key, message() if callable(message) else message, case)
        return bool(condition)

    @contextlib.contextmanager
    def guard(self, key, case=None):
        """Turns an unexpected exception or a hang of the explored code into a violation."""
        with limit():
            try:
                yield
            except Hang:
                self.fail(key + ':hang', f'no result within {EXEC_LIMIT} s', case)
            except Exception:
                self.fail(key + ':exception', traceback.format_exc(limit=6), case)


@contextlib.contextmanager
def limit(seconds=EXEC_LIMIT):
    def on_alarm(signum, frame):
        raise Hang()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def load_known():
    """(property, key pattern, text) of the recorded findings; 'fixed:' lines suppress nothing."""
    entries = []
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE, encoding='utf-8'):
            if line.startswith('known: '):
                head, _, what = line[len('known: '):].rstrip('\n').partition(' :: ')
                fields = dict(f.split('=', 1) for f in head.split(' ') if '=' in f)
                entries.append((fields['property'], fields['key'], what))
    return entries


# -- worker pool -------------------------------------------------------------------------------------------------------

def _send(fd, obj):
    blob = pickle.dumps(obj)
    blob = struct.pack('<Q', len(blob)) + blob
    view = memoryview(blob)
    while view:
        view = view[os.write(fd, view):]


def _recv(fd):
    def exactly(n):
        out = b''
        while len(out) < n:
            chunk = os.read(fd, min(1 << 20, n - len(out)))
            if not chunk:
                raise EOFError
            out += chunk
        return out
    return pickle.loads(exactly(struct.unpack('<Q', exactly(8))[0]))


class Worker:
    def __init__(self, module):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1)
            os.close(r2)
            try:
                os.setpgid(0, 0)
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 0)
                os.dup2(devnull, 1)
                if not os.environ.get('VERIF_DEBUG'):
                    os.dup2(devnull, 2)
                while True:
                    try:
                        task = _recv(r1)
                    except EOFError:
                        os._exit(0)
                    _send(w2, run_task(module, task))
            except BaseException:
                traceback.print_exc()
                os._exit(3)
        os.close(r1)
        os.close(w2)
        self.to, self.frm = w1, r2
        self.task = None
        self.start = None

    def give(self, task):
        self.task, self.start = task, time.monotonic()
        _send(self.to, task)

    def kill(self):
        for fd in (self.to, self.frm):
            with contextlib.suppress(OSError):
                os.close(fd)
        with contextlib.suppress(OSError):
            os.killpg(self.pid, signal.SIGKILL)
        with contextlib.suppress(OSError):
            os.kill(self.pid, signal.SIGKILL)
        with contextlib.suppress(OSError):
            os.waitpid(self.pid, 0)


def run_task(module, task):
    name, args = task
    rec = Recorder(module.PROPERTY, task)
    start = time.monotonic()
    try:
        with limit(getattr(module, 'TASK_LIMIT', TASK_LIMIT) - 30):
            module.run(rec, name, args)
    except Hang:
        rec.fail(f'{name}:hang', 'the task did not come to an end', None)
    except Exception:
        rec.fail(f'{name}:exception', traceback.format_exc(limit=8), None)
    return dict(task=task, executions=rec.executions, transitions=rec.transitions, states=rec.states,
                outcomes=rec.outcomes, violations=rec.violations, n_violations=rec.n_violations, known=rec.known,
                samples=rec.samples, notes=rec.notes, seconds=time.monotonic() - start)


def run_pool(module, tasks, nproc, deadline=None):
    tasks = list(tasks)[::-1]
    workers = [Worker(module) for _ in range(min(nproc, len(tasks)))]
    task_limit = getattr(module, 'TASK_LIMIT', TASK_LIMIT)
    results = []
    try:
        for w in workers:
            if tasks:
                w.give(tasks.pop())
        while any(w.task is not None for w in workers):
            busy = [w for w in workers if w.task is not None]
            if deadline is not None and time.monotonic() > deadline:
                break       # the tasks that are missing are reported as unexplored
            ready, _, _ = select.select([w.frm for w in busy], [], [], 1.0)
            for w in busy:
                if w.frm in ready:
                    try:
                        results.append(_recv(w.frm))
                        w.task = None
                    except EOFError:
                        results.append(lost(module, w.task, 'the process running this task died'))
                        w.kill()
                        workers[workers.index(w)] = w = Worker(module)
                elif time.monotonic() - w.start > task_limit:
                    results.append(lost(module, w.task, f'no result within {task_limit} s'))
                    w.kill()
                    workers[workers.index(w)] = w = Worker(module)
                if w.task is None and tasks:
                    w.give(tasks.pop())
    finally:
        for w in workers:
            w.kill()
    return results


def lost(module, task, why):
    return dict(task=task, executions=0, transitions=0, states=set(), outcomes=set(), n_violations=1, known={},
                samples=[], notes={},
                violations=[dict(key=f'{task[0]}:lost', message=why, case=None, task=list(task))])


# -- entry point -------------------------------------------------------------------------------------------------------

def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
        return repr(x)
    if isinstance(x, bytes):
        return x[:200].hex()
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    return repr(x)


def main(argv=None):
    argv = sys.argv[1:] if argv is None else argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    ids = []
    i = 0
    while i < len(argv):
        if argv[i] == '--tier':
            tier = argv[i + 1]
            i += 1
        elif argv[i] == '--replay':
            replay = argv[i + 1]
            i += 1
        else:
            ids.append(argv[i])
        i += 1
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix='verif-')
    os.environ['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    os.environ['VERIF_SCRATCH'] = scratch
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = scratch
    parent = os.getpid()
    try:
        prepare_environment()
        if replay is not None:
            info = json.load(open(replay))
            ids = [info['property']]
        module = importlib.import_module(f'mc.checks.{ids[0].lower()}')
        if hasattr(module, 'before_import'):
            module.before_import()
        import_target()
        if hasattr(module, 'setup'):
            module.setup()
        tasks = module.tasks(tier)
        if replay is not None:
            return do_replay(module, info)
        nproc = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 1))
        deadline = t0 + BUDGET if tier == 'quick' else None
        results = run_pool(module, tasks, nproc, deadline)
        if os.environ.get('VERIF_TIMES'):
            for r in sorted(results, key=lambda r: -r.get('seconds', 0))[:int(os.environ['VERIF_TIMES'])]:
                print(f"{r.get('seconds', 0):8.1f} s {r['executions']:7} {r['task'][0]}", file=sys.stderr)
        return report(module, tier, seed, results, len(tasks), time.monotonic() - t0)
    finally:
        if os.getpid() == parent:
            shutil.rmtree(scratch, ignore_errors=True)


def do_replay(module, info):
    task = (info['task'][0], pickle.loads(bytes.fromhex(info['task_pickle'])))
    result = run_task(module, task)
    hit = [v for v in result['violations'] if v['key'] == info['key']] or result['violations']
    if not hit:
        print(f"replay of {info['key']}: not reproduced")
        return 0
    print(hit[0]['message'])
    print(f"VIOLATION property={module.PROPERTY} replay={sys.argv[-1]}")
    return 1


def report(module, tier, seed, results, ntasks, wall):
    prop = module.PROPERTY
    states, outcomes = set(), set()
    executions = transitions = nviol = 0
    violations, known, samples, notes = [], {}, [], {}
    order = {}
    for r in sorted(results, key=lambda r: str(r['task'][0])):
        states |= r['states']
        outcomes |= r['outcomes']
        executions += r['executions']
        transitions += r['transitions']
        nviol += r['n_violations']
        for v in r['violations']:
            v['task_args'] = r['task'][1]
            violations.append(v)
        for pattern, (n, what, key) in r['known'].items():
            known.setdefault(pattern, [0, what, key])
            known[pattern][0] += n
        samples += r['samples'][:1]
        for k, v in r['notes'].items():
            if isinstance(v, (int, float)):
                notes[k] = max(notes.get(k, 0), v) if k.startswith('largest') else notes.get(k, 0) + v
            else:
                notes[k] = v
    samples = samples[:8]
    coverage = dict(samples=jsonable(samples), rule=module.RULE, tasks=ntasks,
                    exhaustive=not violations and len(results) >= ntasks,
                    distinct_outcomes=len(outcomes), known_finding_hits=sum(v[0] for v in known.values()))
    if module.LEVEL == 'model_checking':
        coverage.update(states=len(states), transitions=transitions, traces_validated_against_impl=executions)
    else:
        coverage.update(evaluations=executions, distinct_nontrivial=len(states), library_calls=transitions)
    coverage.update(jsonable(notes))
    if len(results) < ntasks:
        coverage['unexplored_tasks'] = ntasks - len(results)
    evidence = dict(property=prop, tier=tier, seed=seed, level=module.LEVEL, coverage=coverage,
                    assumptions=list(getattr(module, 'ASSUMPTIONS', [])), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for pattern, (n, what, key) in sorted(known.items()):
        print(f'KNOWN-FINDING: property={prop} {what} [{n} case(s), e.g. {key}]')
    print(f'{prop} {tier}: {ntasks} tasks, {executions} executions, {transitions} transitions, {len(states)} distinct '
          f'states, {len(outcomes)} distinct outcomes, {nviol} violation(s), {wall:.1f} s')
    if violations:
        violations.sort(key=lambda v: (len(str(v['case'])), v['key']))
        replay_dir = os.path.join(VERIF, 'replays')
        os.makedirs(replay_dir, exist_ok=True)
        for n, v in enumerate(violations[:5]):
            path = os.path.join(replay_dir, f'{prop}-{n}.json')
            info = dict(property=prop, key=v['key'], message=v['message'], case=jsonable(v['case']),
                        task=jsonable(v['task']), task_pickle=pickle.dumps(v['task_args']).hex())
            with open(path, 'w') as f:
                json.dump(info, f, indent=1)
            print(f'--- {v["key"]}\n{v["message"]}')
            print(f'VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}')
        return 1
    if executions == 0 and not known:
        # a check that explored nothing has shown nothing
        print(f'VIOLATION property={prop} replay=none (nothing was explored)')
        return 1
    return 0
