"""C18 results do not depend on the process they are computed in"""
import json
import os
import subprocess
import sys

from .. import cases, core, faults, gen, tasks
from ..core import Violation

RUNS = {'quick': 90, 'thorough': 4000}
RULE = ("one run = a set of 10-30 independent tasks (executions of programs, linearisations, expansions, parsing, whole runs "
        "of the tools) carried out in 3-5 processes, each with its own hash seed, own prior use of the library (completed, "
        "failed, or abandoned midway by an exception), own order of the tasks, own clock, garbage collector and memory "
        "layout; every result compared between processes; non-trivial: at least 3 hash seeds, and one process with prior "
        "use; distinct by scenario content")
REAL = ['pygcode (whole library)', 'scripts/pygcode-norm, scripts/pygcode-crop (whole scripts)', 'interpreter start-up, with another hash seed']
STUB = ["the tools' files and standard streams (simulated)", 'clock (still, running backwards, or jumping)',
        'asynchronous exceptions (injected by the simulator)']
MEASURE = 'distinct (kind of task, hash seed, kinds of prior use) combinations'
ASSUMPTIONS = ['one Python version, platform and locale']
FIXED_LISTS = ('args', 'reads', 'writes', 'order')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def task(rng, tier):
    if rng.random() < 0.3:
        c = cases.case(rng, rng.randint(2, 6))
        if rng.random() < 0.2:
            i = rng.randrange(len(c['lines']))
            (c['lines'][i], _) = faults.damage(rng, c['lines'][i])
        return ['script', c]
    feats = gen.swarm(rng, always=['modal', 'othermotion'] if rng.random() < 0.5 else [])
    return tasks.random_task(rng, gen.Gen(rng, feats, 'XYZ'), tier)


def library_task(rng, tier):
    return tasks.random_task(rng, gen.Gen(rng, gen.swarm(rng), 'XYZ'), tier)


def generate(rng, tier, index):
    ts = [task(rng, tier) for _ in range(rng.randint(10, 30))]
    processes = []
    for p in range(rng.randint(3, 5)):
        warm = []
        if p and rng.random() < 0.8:
            for _ in range(rng.randint(1, 6)):
                if rng.random() < 0.4:
                    strike = [1 + int(4000 * rng.random() ** 3), rng.choice(['KeyboardInterrupt', 'MemoryError']), rng.random() < 0.5]
                    warm.append([library_task(rng, tier), strike])
                elif rng.random() < 0.3:
                    warm.append([['text', rng.choice(tasks.BAD)], None])
                else:
                    warm.append([task(rng, tier), None])
        order = list(range(len(ts)))
        if p:
            rng.shuffle(order)
            order += rng.sample(order, rng.randint(0, len(order)))
        c = {'hashseed': rng.randrange(1, 1 << 32) if p else 0, 'warm': warm, 'order': order}
        if p:
            c['random'] = rng.randrange(1 << 16)
            c['junk'] = rng.choice([0, 10, 1000, 100000])
            for (k, vs) in (('gc', ['off', 'busy', None]), ('clock', ['still', 'back', 'jump', None])):
                v = rng.choice(vs)
                if v:
                    c[k] = v
        processes.append(c)
    return {'tasks': ts, 'processes': processes}


def simpler(s):
    n = len(s['processes'])
    for i in range(n):
        for j in range(i + 1, n):
            if n > 2:
                yield dict(s, processes=[s['processes'][i], s['processes'][j]])
    if len(s['tasks']) > 1:
        for (i, t) in enumerate(s['tasks']):
            yield {'tasks': [t], 'processes': [dict(p, order=[0] * (1 if i not in p['order'] else p['order'].count(i))) for p in s['processes']]}
        for size in (len(s['tasks']) // 2, 1):
            for k in range(0, len(s['tasks']), max(1, size)):
                keep = [i for i in range(len(s['tasks'])) if not k <= i < k + size]
                if keep:
                    yield {'tasks': [s['tasks'][i] for i in keep],
                           'processes': [dict(p, order=[keep.index(i) for i in p['order'] if i in keep]) for p in s['processes']]}
    for (i, p) in enumerate(s['processes']):
        for key in ('gc', 'clock', 'junk', 'random'):
            if p.get(key):
                q = dict(p)
                del q[key]
                yield dict(s, processes=s['processes'][:i] + [q] + s['processes'][i + 1:])
        if p['hashseed']:
            yield dict(s, processes=s['processes'][:i] + [dict(p, hashseed=0)] + s['processes'][i + 1:])


def start(scenario, config):
    e = dict(os.environ, PYTHONHASHSEED=str(config['hashseed']), PYTHONDONTWRITEBYTECODE='1')
    e.pop('PYTHONPATH', None)
    p = subprocess.run([sys.executable, '-B', os.path.join(HERE, 'child.py')], input=json.dumps(
        {'tasks': scenario['tasks'], 'process': config}).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
    if p.returncode:
        raise RuntimeError('process failed (%s): %s' % (p.returncode, p.stderr.decode('utf-8', 'replace')[-3000:]))
    return json.loads(p.stdout.decode())


def name(config):
    return 'hash seed %d, %d earlier tasks' % (config['hashseed'], len(config['warm']))


def execute(scenario, ctx):
    ref = {}
    seeds = set()
    for (n, config) in enumerate(scenario['processes']):
        out = start(scenario, config)
        if 'stuck' in out:
            raise Violation('no-progress', 'in process %d (%s): %s' % (n, name(config), out['stuck']))
        seeds.add(config['hashseed'])
        if config['hashseed']:
            ctx.fault('hash-seed')
        for x in out['struck']:
            ctx.fault('interrupt')
            ctx.state(x)
        for key in ('gc', 'clock'):
            if config.get(key):
                ctx.fault('%s:%s' % (key, config[key]))
        if config['warm']:
            ctx.fault('prior-use', len(config['warm']))
        if config['order'] != sorted(config['order']):
            ctx.fault('task-order')
        ctx.log(n, config['hashseed'], out['struck'])
        for i in sorted(out['results'], key=int):
            for r in out['results'][i]:
                ctx.step()
                t = scenario['tasks'][int(i)]
                ctx.state(t[0], config['hashseed'], bool(config['warm']))
                ctx.log(i, r)
                if i not in ref:
                    ref[i] = (r, n)
                elif ref[i][0] != r:
                    (a, m) = ref[i]
                    k = 0
                    while k < min(len(a), len(r)) and a[k] == r[k]:
                        k += 1
                    raise Violation('differs', 'task %s: in process %d (%s), item %d is %s; in process %d (%s) it was %s' % (
                        t, n, name(config), k, str(r[k:k + 1])[:1500], m, name(scenario['processes'][m]), str(a[k:k + 1])[:1500]))
    ctx.nontrivial = len(seeds) >= 3 and any(p['warm'] for p in scenario['processes'])
