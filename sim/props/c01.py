"""C01 concurrent callers get the same results as if each were alone"""
import hashlib
import json

from .. import core, gen, model, tasks, threads
from ..core import Violation

RUNS = {'quick': 500, 'thorough': 16000}
RULE = ("one run = 2-4 real threads, each with 1-4 tasks (executing, copying, parsing, splitting, linearising, expanding, "
        "executing shared already parsed lines), interleaved by a seeded scheduler at any line - or bytecode - of library "
        "code, in a process that has never used the library, or has; each thread is compared with the same tasks run "
        "alone; non-trivial: at least one preemption inside library code; distinct by scenario content")
REAL = ['pygcode (whole library)', 'Python threads']
STUB = ['thread scheduling (simulated: one thread at a time, seeded)', 'locks (cooperative)']
MEASURE = 'distinct pairs (place where a thread was preempted, place where the next one resumed)'
STEP = 'preemption points passed'
ASSUMPTIONS = ['C extensions and the standard library are atomic: threads are preempted in library code only']


BUSY = ['G81 X1 Y1 Z-1 R2', 'G82 X1 Z-2 R0.5 P1 L2', 'G83 X-1 Y2 Z-1.5 R1 Q0.5 L3', 'G91 G73 Y3 Z-1 R-0.5 Q1 L2', 'G1 X1 Y1 F100',
        'G2 X1 Y1 I1 J0', 'G91 G0 X1', 'G90 G1 X2', 'M3 S100 G0 Z1', 'G20 G17 G54 G1 X1', 'X3 Y2', 'G55 G0 X1', 'G18 G1 Z1', 'G28 X1',
        'G64 P0.1 Q0.2', 'N10 G43 H1 Z2 (note)', 'G10 L2 P1 X1', 'F50 S10 T1 M6']


def generate(rng, tier, index):
    n = rng.choice([2, 2, 2, 3, 3, 4])
    cold = rng.random() < 0.4
    opcodes = rng.random() < 0.25
    shared = []
    feats = gen.swarm(rng, always=['modal'])
    if not cold and rng.random() < 0.7:
        g = gen.Gen(rng, feats, 'XYZ')
        shared = [g.line() for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.5:
            shared = rng.sample(BUSY, rng.randint(1, 3))
    most = 1 if opcodes else (2 if tier == 'quick' else 4)
    kinds = ('run', 'run', 'arc', 'fresh', 'drill', 'text', 'split', 'copy', 'clean', 'own', 'made', 'made') + (('shared',) * 6 if shared else ())
    if rng.random() < 0.3:
        kinds = (rng.choice(kinds),)        # everyone does the same kind of thing
        if shared and rng.random() < 0.5:
            kinds = ('shared',)
    jobs = []
    for _ in range(n):
        g = gen.Gen(rng, feats, 'XYZ')
        jobs.append([tasks.random_task(rng, g, tier, len(shared), kinds) for _ in range(rng.randint(1, most))])
    if rng.random() < 0.15:
        jobs = [jobs[0]] * n                # the very same work
    plan = {'opcodes': opcodes, 'seed': rng.getrandbits(32)}
    if rng.random() < 0.6:
        plan.update(policy='random', p=rng.choice([0.5, 0.2, 0.05, 0.02, 0.005]))
        if opcodes:
            plan['p'] = rng.choice([0.2, 0.05, 0.01])
    else:
        plan.update(policy='priority', p=0, depth=rng.randint(1, 6), horizon=rng.choice([50, 500, 5000, 20000]))
    return {'threads': jobs, 'shared': shared, 'cold': cold, 'plan': plan}


FIXED_LISTS = ()


def explicit(scenario, result):
    """the preemptions that were drawn, instead of the seed that drew them"""
    taken = result.get('extra', {}).get('switches')
    if taken is None:
        return scenario
    return dict(scenario, plan={'opcodes': scenario['plan']['opcodes'], 'switches': taken})


def simpler(s):
    if s['plan'].get('opcodes') and 'switches' not in s['plan']:
        yield dict(s, plan=dict(s['plan'], opcodes=False))
    if s['shared'] and not any(t[0] == 'shared' for j in s['threads'] for t in j):
        yield dict(s, shared=[])


def prepare(scenario):
    if scenario['cold']:
        return []
    from pygcode.line import Line
    return [Line(x) for x in scenario['shared']] or [Line('G1 X1')]


def job(scenario, i, shared):
    out = []
    for t in scenario['threads'][i]:
        out.append(tasks.perform(t, shared))
    return out


def execute(scenario, ctx):
    n = len(scenario['threads'])
    if n < 1:
        return
    alone = []
    for i in range(n):
        r = core.finished(core.forked(lambda: job(scenario, i, prepare(scenario)), core.RUN_WALL))
        if not isinstance(r, list):
            raise core.HarnessError('solo run failed: %r' % (r,))
        alone.append(r)
    shared = prepare(scenario)
    before = [str(x) for x in shared]
    s = threads.Scheduler(n, scenario['plan'], ctx)
    try:
        got = s.run([lambda i=i: job(scenario, i, shared) for i in range(n)])
    finally:
        ctx.extra['switches'] = s.taken
    ctx.step(s.points)
    switches = len(s.taken) - n
    ctx.fault('preemption', max(0, switches))
    ctx.probe('cold' if scenario['cold'] else 'warm')
    ctx.probe('policy-%s' % scenario['plan'].get('policy', 'replay'))
    ctx.probe('bytecode-preemption' if s.opcodes else 'line-preemption')
    ctx.log(s.taken, s.points)
    ctx.log(json.dumps(got))
    for i in range(n):
        if got[i] != alone[i]:
            for (t, a, b) in zip(scenario['threads'][i], got[i], alone[i]):
                if a != b:
                    k = 0
                    while k < min(len(a), len(b)) and a[k] == b[k]:
                        k += 1
                    raise Violation('differs', 'thread %d of %d, task %s: item %d is\n   %s\nalone:\n   %s' % (
                        i, n, t, k, clip(a[k:k + 1]), clip(b[k:k + 1])))
    if [str(x) for x in shared] != before:
        raise Violation('shared-changed', '%s -> %s' % (before, [str(x) for x in shared]))
    ctx.nontrivial = switches > 0


def clip(x):
    return str(x[0])[:700] if x else 'missing'
