"""C16 the tools' output does not depend on how the input is delivered"""
from .. import cases, faults, model, scriptsim
from ..core import Violation

RUNS = {'quick': 1600, 'thorough': 40000}
RULE = ("one run = one program and one invocation of a tool, delivered in 3-6 different ways (file or stdin, raw "
        "transfers of any size, interrupted transfers, Unix or DOS line endings, with or without final newline); "
        "non-trivial: output not empty and at least one short or interrupted transfer; distinct by scenario content")
REAL = ['scripts/pygcode-norm, scripts/pygcode-crop (whole scripts)', 'pygcode library', "Python's buffered and text I/O layers"]
STUB = ['raw files and standard streams (simulated)']
MEASURE = 'distinct (tool, delivery channel, line ending, final newline, transfer sizes) combinations'


def generate(rng, tier, index):
    c = cases.case(rng, rng.randint(2, 9 if tier == 'quick' else 20))
    if rng.random() < 0.15:
        # a program that cannot be processed: the same failure every time
        i = rng.randrange(len(c['lines']))
        (c['lines'][i], _) = faults.damage(rng, c['lines'][i])
        if not c['lines'][-1].strip():
            c['lines'].append('G0 X1')
    size = sum(len(x) + 1 for x in c['lines'])
    c['deliveries'] = []
    for _ in range(rng.randint(2, 5)):
        c['deliveries'].append({'eol': rng.choice(['\n', '\r\n']), 'last': rng.random() < 0.5,
                                'plan': scriptsim.random_plan(rng, size)})
    return c


FIXED_LISTS = ('args', 'reads', 'writes')


def simpler(s):
    if len(s['deliveries']) > 1:
        for d in s['deliveries']:
            yield dict(s, deliveries=[d])
    for (i, d) in enumerate(s['deliveries']):
        for key in ('reads', 'writes', 'eintr_r', 'eintr_w', 'rbuf', 'wbuf'):
            if d['plan'].get(key):
                p = dict(d['plan'])
                del p[key]
                yield dict(s, deliveries=s['deliveries'][:i] + [dict(d, plan=p)] + s['deliveries'][i + 1:])
        if d['eol'] != '\n':
            yield dict(s, deliveries=s['deliveries'][:i] + [dict(d, eol='\n')] + s['deliveries'][i + 1:])
        if not d['last']:
            yield dict(s, deliveries=s['deliveries'][:i] + [dict(d, last=True)] + s['deliveries'][i + 1:])


def execute(scenario, ctx):
    lines = scenario['lines']
    if not lines or not lines[-1].strip():
        return
    ref = scriptsim.run(scenario['script'], scenario['args'], ''.join(x + '\n' for x in lines))
    ctx.log('reference', ref.status, repr(ref.out))
    for d in scenario['deliveries']:
        text = d['eol'].join(lines) + (d['eol'] if d['last'] else '')
        res = scriptsim.run(scenario['script'], scenario['args'], text, d['plan'])
        scriptsim.count(ctx, res)
        ctx.probe('via-' + d['plan'].get('via', 'file'))
        if d['eol'] != '\n':
            ctx.fault('dos-line-endings')
        if not d['last']:
            ctx.fault('no-final-newline')
        ctx.state(scenario['script'], d['plan'].get('via'), d['eol'], d['last'], tuple(d['plan'].get('reads', ())))
        ctx.log(d, res.status, repr(res.out))
        if res.out != ref.out or res.status != ref.status:
            a = ref.out.decode('utf-8', 'backslashreplace').split('\n')
            b = res.out.decode('utf-8', 'backslashreplace').split('\n')
            i = 0
            while i < min(len(a), len(b)) and a[i] == b[i]:
                i += 1
            raise Violation('delivery', '%s %s: delivered as %s: status %s instead of %s (%s); output line %d: %r instead of %r' % (
                scenario['script'], scenario['args'], d, res.status, ref.status, res.err[-200:], i + 1, b[i:i + 1], a[i:i + 1]))
        if res.touched:
            raise Violation('touched', str(res.touched))
    ctx.nontrivial = bool(ref.out) and sum(ctx.faults.values()) > 0
