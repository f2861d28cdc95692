"""
Simulation core: seeds, isolated runs, search, minimisation, replay, evidence.

A *run* is: scenario = generate(rng(seed, property, index)); execute(scenario).
The scenario (a JSON value) holds everything: workload, schedule, faults.  Each
run takes place in a child forked from a process that has imported pygcode but
never used it, so that a run depends on nothing but the scenario and the code.
"""
import hashlib
import json
import os
import random
import resource
import select
import signal
import sys
import time
import traceback
from collections import Counter

from .locks import Deadlock

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'pygcode') + os.sep
SCRIPTS = os.path.join(REPO, 'scripts') + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MEM_LIMIT = 3 << 30     # bytes of address space for one run
RUN_WALL = 20.0         # s; after this a run is repeated under a step budget
STEP_BUDGET = 6000000   # library lines executed: beyond, the run makes no progress


class Violation(Exception):
    def __init__(self, kind, detail):
        Exception.__init__(self, '%s: %s' % (kind, detail))
        self.kind = kind
        self.detail = detail


class HarnessError(BaseException):
    """the simulator itself failed"""


class StepBudget(BaseException):
    """A run exceeded its step budget"""


def rng_for(seed, prop, index):
    h = hashlib.sha256(('%s/%s/%s' % (seed, prop, index)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


class Ctx(object):
    """Per run recorder: event log, fault counters, probes, states reached"""

    def __init__(self):
        self.digest = hashlib.sha256()
        self.faults = Counter()
        self.probes = Counter()
        self.states = set()
        self.steps = 0
        self.nontrivial = False
        self.keep_log = None
        self.extra = {}

    def log(self, *items):
        text = ' '.join(str(x) for x in items)
        self.digest.update(text.encode('utf-8', 'backslashreplace') + b'\n')
        if self.keep_log is not None:
            self.keep_log.append(text)

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.log('fault', kind, n)

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *key):
        self.states.add(int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:6], 'big'))

    def step(self, n=1):
        self.steps += n


def in_repo(tb):
    """does the traceback pass through the code under test?"""
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(SRC) or f.startswith(SCRIPTS):
            return True
        tb = tb.tb_next
    return False


def _step_tracer(budget):
    left = [budget]

    def local(frame, event, arg):
        if event == 'line':
            left[0] -= 1
            if left[0] < 0:
                raise StepBudget()
        return local

    def trace(frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(SRC) or f.startswith(SCRIPTS):
            return local
        return None
    return trace


def verdict(e):
    """an exception that nothing expects: raised by the code under test, or by the machinery?"""
    text = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
    if isinstance(e, Deadlock):
        return {'status': 'violation', 'kind': 'no-progress', 'detail': text}
    if not isinstance(e, HarnessError) and in_repo(e.__traceback__):
        return {'status': 'violation', 'kind': 'unexpected-exception:%s' % type(e).__name__, 'detail': text}
    return {'status': 'harness', 'kind': type(e).__name__, 'detail': text}


def _execute(module, scenario, keep_log=False, budget=None):
    """Run a scenario in this process: result dict"""
    from . import observe
    ctx = Ctx()
    if keep_log:
        ctx.keep_log = []
    out = {'status': 'ok', 'kind': None, 'detail': None}
    try:
        if budget:
            sys.settrace(_step_tracer(budget))
        try:
            module.execute(scenario, ctx)
        finally:
            if budget:
                sys.settrace(None)
    except Violation as e:
        out.update(status='violation', kind=e.kind, detail=e.detail)
    except StepBudget:
        out.update(status='violation', kind='no-progress',
                   detail='still running after %d library lines' % budget)
    except observe.Odd as e:
        out.update(status='violation', kind='odd-object', detail=str(e))
    except (Exception, KeyboardInterrupt, HarnessError, Deadlock) as e:
        out.update(verdict(e))
    ctx.log('result', out['status'], out['kind'])
    out.update(
        digest=ctx.digest.hexdigest(), faults=dict(ctx.faults), probes=dict(ctx.probes),
        states=sorted(ctx.states)[:4096], steps=ctx.steps, nontrivial=bool(ctx.nontrivial),
        extra=ctx.extra,
    )
    if keep_log:
        out['log'] = ctx.keep_log
    return out


def forked(func, wall):
    """
    func() in a forked child; its JSON-able result, or None if it did not finish
    within wall seconds, or {'status': 'harness'} if it died
    """
    (r, w) = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                data = json.dumps(func())
            except MemoryError:
                data = json.dumps({'status': 'violation', 'kind': 'no-progress',
                                   'detail': 'memory exhausted', 'digest': ''})
            except Deadlock as e:
                data = json.dumps(dict(verdict(e), digest=''))
            with os.fdopen(w, 'w') as f:
                f.write(data)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + wall
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        (ready, _, _) = select.select([r], [], [], left)
        if ready:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return None
    (_, status) = os.waitpid(pid, 0)
    if status != 0 or not chunks:
        return {'status': 'harness', 'kind': 'child-died', 'detail': 'wait status %r' % status,
                'digest': '', 'faults': {}, 'probes': {}, 'states': [], 'steps': 0,
                'nontrivial': False, 'extra': {}}
    return json.loads(b''.join(chunks).decode())


def finished(got):
    """got, from forked(); a violation if what was forked waits for something that never happens"""
    if isinstance(got, dict) and got.get('status') == 'violation' and got.get('kind') == 'no-progress':
        raise Violation(got['kind'], got['detail'])
    return got


class Pristine(object):
    """
    A process forked now, that nothing happens in: handler(request) is answered
    by a fork of it, so by the library as it is now, whatever happens here later
    """
    def __init__(self, handler):
        (ar, aw) = os.pipe()
        (br, bw) = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(aw)
                os.close(br)
                with os.fdopen(ar, 'r') as rf:
                    for line in rf:
                        answer = forked(lambda: handler(*json.loads(line)), RUN_WALL)
                        os.write(bw, json.dumps(answer).encode() + b'\n')
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(ar)
        os.close(bw)
        self.w = aw
        self.r = os.fdopen(br, 'r')

    def ask(self, *request):
        os.write(self.w, json.dumps(request).encode() + b'\n')
        line = self.r.readline()
        if not line:
            raise HarnessError('the process set aside is gone')
        return json.loads(line)

    def close(self):
        os.close(self.w)
        self.r.close()
        os.waitpid(self.pid, 0)


def run_isolated(module, scenario, keep_log=False):
    out = forked(lambda: _execute(module, scenario, keep_log), RUN_WALL)
    if out is None:
        # too slow for the wall clock: let a deterministic step budget decide
        out = forked(lambda: _execute(module, scenario, keep_log, STEP_BUDGET), 240.0)
        if out is None:
            out = {'status': 'harness', 'kind': 'wall-timeout', 'detail': 'run undecided',
                   'digest': '', 'faults': {}, 'probes': {}, 'states': [], 'steps': 0,
                   'nontrivial': False, 'extra': {}}
    for (k, v) in (('faults', {}), ('probes', {}), ('states', []), ('steps', 0),
                   ('nontrivial', False), ('extra', {})):
        out.setdefault(k, v)
    return out


def run_index(module, seed, prop, tier, index, keep_log=False):
    """generate and execute run number index (all inside the child)"""
    def job():
        scenario = json.loads(json.dumps(module.generate(rng_for(seed, prop, index), tier, index), sort_keys=True))
        out = _execute(module, scenario, keep_log)
        out['sid'] = hashlib.sha256(json.dumps(scenario, sort_keys=True).encode()).hexdigest()[:16]
        if out['status'] != 'ok' or index < 3:
            out['scenario'] = scenario
        return out
    out = forked(job, RUN_WALL)
    if out is None or 'sid' not in out and out['status'] == 'harness':
        scenario = forked(lambda: {'s': module.generate(rng_for(seed, prop, index), tier, index)}, 60.0)
        if not scenario or 's' not in scenario:
            return {'status': 'harness', 'kind': 'generator', 'detail': 'generation failed', 'digest': '',
                    'faults': {}, 'probes': {}, 'states': [], 'steps': 0, 'nontrivial': False,
                    'extra': {}, 'sid': '', 'scenario': None}
        scenario = scenario['s']
        first = out
        out = run_isolated(module, scenario, keep_log)
        if first is not None and out['status'] == 'ok':
            out = first  # died once: do not hide it
        out['sid'] = hashlib.sha256(json.dumps(scenario, sort_keys=True).encode()).hexdigest()[:16]
        out['scenario'] = scenario
    for (k, v) in (('faults', {}), ('probes', {}), ('states', []), ('steps', 0),
                   ('nontrivial', False), ('extra', {}), ('sid', '')):
        out.setdefault(k, v)
    return out


# ---------------------------------------------------------------- worker pool
def search(module, prop, seed, tier, count, workers, wall_cap, first=0, on_result=None, keep_going=False):
    """
    Runs first..first+count-1 over forked workers, in batches; stops after the
    first batch with a non-ok result.  Results do not depend on the worker count.
    """
    t0 = time.monotonic()
    pool = []
    for _ in range(workers):
        (ar, aw) = os.pipe()
        (br, bw) = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(aw)
                os.close(br)
                for (_, paw, pbr, _) in pool:
                    os.close(paw)
                    os.close(pbr)
                rf = os.fdopen(ar, 'r')
                wf = os.fdopen(bw, 'w')
                for text in rf:
                    for index in json.loads(text):
                        out = run_index(module, seed, prop, tier, index)
                        wf.write(json.dumps([index, out]) + '\n')
                        wf.flush()
                        if out['status'] != 'ok' and not keep_going:
                            break   # the rest of this chunk has higher numbers
                    wf.write('null\n')
                    wf.flush()
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(ar)
        os.close(bw)
        pool.append((pid, aw, br, None))
    results = {}
    bad = []
    capped = False
    try:
        chunk = max(1, min(16, count // (workers * 4) or 1))
        todo = [list(range(i, min(i + chunk, first + count))) for i in range(first, first + count, chunk)]
        busy = {}
        buffers = {}
        idle = list(pool)
        pos = 0
        limit = None   # once something is found: only lower numbers are still needed
        while True:
            while idle and pos < len(todo) and (limit is None or todo[pos][0] < limit):
                if time.monotonic() - t0 > wall_cap:
                    capped = True
                    break
                w = idle.pop()
                os.write(w[1], (json.dumps(todo[pos]) + '\n').encode())
                busy[w[2]] = w
                pos += 1
            if not busy:
                break
            (ready, _, _) = select.select([w[2] for w in busy.values()], [], [], 300)
            if not ready:
                raise RuntimeError("workers stalled")
            for fd in ready:
                w = busy[fd]
                data = os.read(fd, 1 << 16)
                if not data:
                    raise RuntimeError("worker died")
                lines = (buffers.pop(fd, b'') + data).split(b'\n')
                buffers[fd] = lines.pop()
                for line in lines:
                    item = json.loads(line)
                    if item is None:
                        del busy[fd]
                        idle.append(w)
                        continue
                    (index, out) = item
                    results[index] = out
                    if on_result:
                        on_result(index, out)
                    if out['status'] != 'ok':
                        bad.append(index)
                        if not keep_going:
                            limit = index if limit is None else min(limit, index)
    finally:
        for (pid, aw, rf, _) in pool:
            try:
                os.close(aw)
            except OSError:
                pass
        for (pid, aw, br, _) in pool:
            os.close(br)
            os.waitpid(pid, 0)
    return (results, sorted(bad), capped)


# ---------------------------------------------------------------- minimisation
def get_path(obj, path):
    for k in path:
        obj = obj[k]
    return obj


def with_path(obj, path, value):
    obj = json.loads(json.dumps(obj))
    if not path:
        return value
    target = obj
    for k in path[:-1]:
        target = target[k]
    target[path[-1]] = value
    return obj


def list_paths(obj, path=()):
    """all lists in a JSON value, shallow first"""
    todo = [((), obj)]
    out = []
    while todo:
        (p, o) = todo.pop(0)
        if isinstance(o, list):
            out.append(p)
            todo.extend((p + (i,), x) for (i, x) in enumerate(o) if isinstance(x, (list, dict)))
        elif isinstance(o, dict):
            todo.extend((p + (k,), o[k]) for k in sorted(o) if isinstance(o[k], (list, dict)))
    return out


def minimise(module, scenario, kind, budget=400, wall=40.0):
    """Smaller scenario with the same violation kind (delta debugging over all lists)"""
    t0 = time.monotonic()
    tries = [0]
    fixed = getattr(module, 'FIXED_LISTS', ())

    def fails(s):
        tries[0] += 1
        out = run_isolated(module, s)
        return out['status'] == 'violation' and out['kind'] == kind

    def spent():
        return tries[0] >= budget or time.monotonic() - t0 > wall

    changed = True
    while changed and not spent():
        changed = False
        # property specific simplifications first
        if hasattr(module, 'simpler'):
            for s in module.simpler(scenario):
                if spent():
                    break
                if fails(s):
                    scenario = s
                    changed = True
                    break
            if changed:
                continue
        k = 0
        while not spent():
            paths = [p for p in list_paths(scenario) if not any(x in fixed for x in p)]
            if k >= len(paths):
                break
            path = paths[k]
            k += 1
            size = max(1, len(get_path(scenario, path)) // 2)
            while size >= 1 and not spent():
                i = 0
                while not spent():
                    try:
                        items = get_path(scenario, path)
                    except (KeyError, IndexError, TypeError):
                        break
                    if not isinstance(items, list) or i >= len(items):
                        break
                    s = with_path(scenario, path, items[:i] + items[i + size:])
                    if fails(s):
                        scenario = s
                        changed = True
                    else:
                        i += size
                size //= 2
        # words of lines of text
        for path in list_paths(scenario):
            if spent() or any(x in fixed for x in path):
                continue
            try:
                items = get_path(scenario, path)
            except (KeyError, IndexError, TypeError):
                continue
            for (i, x) in enumerate(items):
                if not isinstance(x, str) or ' ' not in x:
                    continue
                j = 0
                while not spent():
                    words = get_path(scenario, path)[i].split(' ')
                    if j >= len(words) or len(words) < 2:
                        break
                    s = with_path(scenario, path + (i,), ' '.join(words[:j] + words[j + 1:]))
                    if fails(s):
                        scenario = s
                        changed = True
                    else:
                        j += 1
    return (scenario, tries[0])
